"""Writes MANIFEST.json from the properties claimed below."""
import json, sys
sys.path.insert(0, 'mirvc')
from props import PROPS
H1NOTE = ('Every obligation of the contracts over the compiled MIR of the real parser is discharged by z3 for all inputs, fragmentations, pauses and loop iterations (no bound); '
          'contracts at loop heads and resting points are re-checked on every run. Trusts: rustc MIR, the mirvc obligation generator, z3, assumed contracts of a few core/alloc/byte-slice functions, '
          'the executable specification. Handler callbacks are assumed to answer true or false and do nothing else; total bytes below 2^62.')
SMALL = 'Each loop-free public function is executed symbolically from its MIR over its whole domain and its postcondition discharged by z3 or by constant folding. Trusts: rustc MIR, mirvc, z3.'
NOTES = {}
TECH = 'contract-based deductive verification of the crate\'s MIR (inferred and checked inductive contracts, refinement of an executable specification, z3)'
UNOTE = ('The real decode(), next(), new() and on_error() are run symbolically from their MIR; every byte put into a string is matched against the next byte the executable specification owes, '
         'contracts at loop heads and between calls are inductive, every obligation is discharged by z3 for all inputs (no bound). Trusts: rustc MIR, mirvc, z3, assumed contracts of Vec, String, Box and '
         'core::str::from_utf8 (its Ok answer is what UTF-8 validity means here). The on_error callback is assumed to return.')
NA = {}
ALL = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in ALL:
    if p not in PROPS:
        continue
    small = not PROPS[p].get('cold', True)
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': 'function postconditions over the MIR of the public functions, discharged for the whole domain (z3)' if small else TECH,
                   'level': 'proof', 'level_note': PROPS[p].get('note') or (UNOTE if PROPS[p]['roots'][0] in ('decode', 'query', 'field') else SMALL if small else H1NOTE)})
na = [{'property': p, 'reason': NA.get(p, 'not built yet')} for p in ALL if p not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: private functions are reached through the MIR of the whole crate.'}, open('MANIFEST.json', 'w'), indent=1)
