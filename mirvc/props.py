"""Which roots each property needs."""

H1 = ['head', 'chunked', 'multipart', 'url']
ROOTS = {r: {'prover': 'prove_h1.py', 'search': 'search_h1.py', 'attr': 'attr'} for r in H1}
for _r in ('byte', 'codes', 'handler'):
    ROOTS[_r] = {'prover': 'prove_small.py', 'search': 'search_small.py', 'attr': 'attr_small'}
ROOTS['h2'] = {'prover': 'prove_h1.py', 'search': 'search_h2.py', 'attr': 'attr_h2'}
for _r in ('decode', 'query', 'field'):
    ROOTS[_r] = {'prover': 'prove_h1.py', 'search': 'search_util.py', 'attr': 'attr_util'}
PROPS = {
    'C01': {'roots': H1},
    'C02': {'roots': H1, 'any': ('event', 'error', 'account', 'result', 'terminal')},
    'C03': {'roots': H1, 'any': ('event', 'error', 'account', 'result', 'terminal', 'pause')},
    'C04': {'roots': H1},
    'C05': {'roots': H1},
    'C06': {'roots': ['head']},
    'C07': {'roots': ['head', 'chunked', 'multipart']},
    'C08': {'roots': ['chunked']},
    'C09': {'roots': ['chunked']},
    'C10': {'roots': ['multipart']},
    'C11': {'roots': ['url']},
    'C12': {'roots': H1},
    'C13': {'roots': H1},
    'C14': {'roots': ['byte'], 'cold': False},
    'C15': {'roots': ['h2']},
    'C16': {'roots': ['h2'], 'any': ('event', 'error', 'account', 'result', 'terminal', 'pause')},
    'C17': {'roots': ['h2']},
    'C18': {'roots': ['h2']},
    'C19': {'roots': ['h2']},
    'C20': {'roots': ['h2']},
    'C21': {'roots': ['codes'], 'cold': False},
    'C22': {'roots': ['decode']},
    'C23': {'roots': ['query']},
    'C24': {'roots': ['field']},
    'C25': {'roots': ['decode', 'query', 'field']},
    'C26': {'roots': ['handler'], 'cold': False},
    'C27': {'roots': ['h2']},
    'C28': {'roots': ['h2']},
}
TRUSTED = [
    'rustc nightly front end: the MIR it prints (-Zunpretty=mir, no optimisation) is what the crate does',
    'mirvc: MIR reader, symbolic executor, contract inference and obligation generator in /verif/mirvc (this repository)',
    'z3',
    'the specification /verif/mirvc/spec_*.py (its agreement with the documentation is by review)',
    'assumed contracts for the core/alloc and byte-slice functions listed in assumed_contracts_used',
]
ASSUMPTIONS = [
    'handler callbacks only observe their arguments and answer true or false (no panic, no re-entry into the parser)',
    'total bytes processed by one parser stay below 2^62',
    'machine arithmetic is modelled exactly (bit-vectors, overflow checks as compiled with debug assertions)',
]
