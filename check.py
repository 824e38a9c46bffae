#!/opt/veriftools/pyvenv/bin/python
"""Decides one property of rust-http-box on /repo's current tree.

usage: check.py PROPERTY [--tier quick|thorough]      exit 0 held / 1 VIOLATION
       check.py --replay FILE                         runs the failing input of a replay file again

1. lowers /repo's crate to MIR with the installed compiler and compiles it into the replay harness,
2. proves every obligation of the roots the property depends on (mirvc/prove_*.py),
3. in the meantime searches concrete inputs on the compiled crate,
4. a refuted obligation of this property, or a failing input, is a violation.
"""
import sys, os, json, time, subprocess, shutil, tempfile, signal, hashlib, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
from props import PROPS, ROOTS, TRUSTED, ASSUMPTIONS

procs = []
T0 = time.time()


def cleanup():
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def spawn(cmd, log, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=open(log, 'w'), stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, stdin=subprocess.DEVNULL)
    procs.append(p)
    return p


def wait(ps, limit):
    end = time.time() + limit
    for p in ps:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def jload(f):
    try:
        with open(f) as h:
            return json.load(h)
    except (OSError, ValueError):
        return None


def build(tmp):
    """MIR of the crate and the harness binary, side by side"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    mir = os.path.join(tmp, 'lib.mir')
    h = os.path.join(tmp, 'harness')
    shutil.copytree(os.path.join(HERE, 'harness'), h, ignore=shutil.ignore_patterns('target'))
    t = os.path.join(h, 'Cargo.toml')
    with open(t) as f:
        s = f.read()
    with open(t, 'w') as f:
        f.write(s.replace('"/repo"', json.dumps(REPO)))
    a = subprocess.Popen(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=mir', '-Zmir-opt-level=0'], cwd=REPO,
                         env=dict(env, CARGO_TARGET_DIR=os.path.join(tmp, 't1')), stdout=open(mir, 'w'), stderr=open(tmp + '/mir.log', 'w'), start_new_session=True)
    procs.append(a)
    b = spawn(['cargo', 'build', '--offline', '--manifest-path', t], tmp + '/harness.log', dict(env, CARGO_TARGET_DIR=os.path.join(tmp, 't2')), h)
    wait([a, b], 300)
    if a.returncode != 0:
        die('no MIR for %s:\n%s' % (REPO, open(tmp + '/mir.log').read()[-2000:]))
    if b.returncode != 0:
        die('harness does not build:\n%s' % open(tmp + '/harness.log').read()[-2000:])
    return mir, os.path.join(tmp, 't2', 'debug', 'harness')


def prove(tmp, mir, roots, budget, cold=False):
    ps = []
    for r in roots:
        out = os.path.join(tmp, 'proof_%s%s.json' % (r, '_cold' if cold else ''))
        cmd = [PY, os.path.join(HERE, 'mirvc', ROOTS[r]['prover']), mir, r, out, '--budget', str(budget), '--repo', REPO] + (['--cold'] if cold else [])
        ps.append((r, out, spawn(cmd, out + '.log')))
    return ps


def proof_results(ps, limit):
    wait([p for _, _, p in ps], limit)
    res = {}
    for r, out, p in ps:
        j = jload(out)
        if j is None:
            j = {'root': r, 'status': 'undecided', 'fails': [], 'tool': ['prover gave no result: ' + open(out + '.log').read()[-300:]],
                 'obligations': 0, 'by_cat': {}, 'contracts': 0, 'queries': 0, 'solver_s': 0, 'functions': [], 'builtins': [], 'wall_s': limit}
        res[r] = j
    return res


def selftest(tmp):
    """the interpreter and its assumed contracts against the compiler (does not depend on the tree)"""
    return spawn([PY, os.path.join(HERE, 'selftest', 'selftest.py')], os.path.join(tmp, 'selftest.log'), dict(os.environ, CARGO_NET_OFFLINE='true'))


def selftest_result(p, tmp):
    wait([p], 60)
    t = open(os.path.join(tmp, 'selftest.log')).read().strip().split('\n')
    if p.returncode == 1 and any('compiled code gives' in x for x in t):
        die('the interpreter and the compiler disagree:\n' + '\n'.join(t[:5]))
    return t[-1][:200] if p.returncode == 0 else 'not run: ' + t[-1][:150]


def search(tmp, binary, roots, secs, seed, tag, want=None, hints=None, width=1):
    ps = []
    for r in roots:
        for k in range(width):
            out = os.path.join(tmp, 'search_%s_%s%d.json' % (r, tag, k))
            cmd = [PY, os.path.join(HERE, 'mirvc', ROOTS[r]['search']), binary, r, str(secs), '%s.%s.%d' % (seed, tag, k), REPO, out]
            if want:
                cmd += ['--want', want]
            if hints and hints.get(r):
                hf = out + '.hints'
                with open(hf, 'w') as f:
                    json.dump(hints[r], f)
                cmd += ['--hints', hf]
            ps.append((r, out, spawn(cmd, out + '.log')))
    return ps


def search_results(ps, limit, acc):
    wait([p for _, _, p in ps], limit)
    for r, out, p in ps:
        j = jload(out)
        if j is None:
            acc['errors'].append('search %s: %s' % (r, open(out + '.log').read()[-400:]))
            continue
        acc['evaluations'] += j['evaluations']
        acc['distinct'] += j['distinct']
        acc['samples'] = (acc['samples'] + j['sample'])[:4]
        for k, v in j['found'].items():
            acc['found'].setdefault(k, []).extend(v)
    return acc


def known(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                    out.append(l)
    except OSError:
        pass
    return out


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[pid]
    roots = spec['roots']
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    atexit.register(lambda: (cleanup(), shutil.rmtree(tmp, ignore_errors=True)))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    mir, binary = build(tmp)
    thorough = tier == 'thorough'
    budget = 600 if thorough else 270
    sp = selftest(tmp)
    ps = prove(tmp, mir, roots, budget, cold=thorough and spec.get('cold', True))
    acc = {'evaluations': 0, 'distinct': 0, 'samples': [], 'found': {}, 'errors': []}
    width = max(1, min(4, (8 - len(roots)) // len(roots))) if spec.get('cold', True) else 1
    ss = search(tmp, binary, roots, 240 if thorough else 30, seed, 'a', width=width)
    search_results(ss, 400 if thorough else 120, acc)
    # with a failing input at hand the proof only adds the names of the refuted obligations
    proofs = proof_results(ps, 45 if pid in acc['found'] and not thorough else budget + 60)
    own = [(r, f) for r in roots for f in proofs[r]['fails'] if pid in fail_props(pid, r, f)]
    refuted = [r for r in roots if proofs[r]['fails']]
    undecided = [r for r in roots if proofs[r]['status'] != 'proved']
    verdict = None
    extra = []
    if pid in acc['found']:
        verdict = 'input'
    elif refuted:
        hints = {r: [dict(f['hint'], q=f['q']) for f in proofs[r]['fails'] if f.get('hint')] for r in refuted}
        search_results(search(tmp, binary, refuted, 75, seed, 'b', want=pid, hints=hints, width=max(1, 8 // len(refuted))), 110, acc)
        if pid in acc['found']:
            verdict = 'input'
        elif own and not acc['found'] and not spec.get('cold', True):
            verdict = 'obligation'
        elif own and not acc['found']:
            # the committed contracts may no longer fit the code: look for others before calling it a violation
            left = 840 - (time.time() - T0)
            rr = sorted({r for r, _ in own})
            b2 = max(30, min(330, left - 40))
            cold = proof_results(prove(tmp, mir, rr, b2, cold=True), b2 + 20)
            still = [(r, f) for r in rr for f in cold[r]['fails'] if pid in fail_props(pid, r, f)]
            for r in rr:
                extra.append('%s re-inferred from scratch: %s' % (r, cold[r]['status']))
                if cold[r]['status'] == 'proved':
                    proofs[r] = cold[r]
            if still or any(cold[r]['status'] == 'undecided' and not cold[r]['fails'] for r in rr):
                verdict = 'obligation'
                own = still or own
            else:
                own = []
            undecided = [r for r in roots if proofs[r]['status'] != 'proved']
        elif [1 for r, f in own if pid in __import__(ROOTS[r]['attr']).props(f['cat'], r, f['q'])]:
            # the tree is wrong for certain, and obligations of this property fail on it
            extra.append('the search only found failing inputs of %s' % ', '.join(sorted(acc['found'])))
            verdict = 'obligation'
        elif own:
            extra.append('obligations refuted here are explained by failing inputs of %s' % ', '.join(sorted(acc['found'])))
            own = []
    elif undecided:
        search_results(search(tmp, binary, undecided, 60, seed, 'c', want=pid, width=max(1, 8 // len(undecided))), 100, acc)
        if pid in acc['found']:
            verdict = 'input'
    if acc['errors'] and not verdict:
        die('\n'.join(acc['errors']))

    rp = None
    if verdict:
        rp = write_replay(pid, verdict, own, acc, proofs, extra)
    for l in known(pid):
        print(l)
    evidence(pid, tier, seed, spec, roots, proofs, acc, own, undecided, extra, verdict, rp, mir, selftest_result(sp, tmp))
    for r in roots:
        j = proofs[r]
        print('%s: %s, %d obligations, %d contracts, %d functions, %d solver queries (%.1f s), %.1f s' %
              (r, j['status'], j['obligations'], j['contracts'], len(j['functions']), j['queries'], j['solver_s'], j['wall_s']))
        for t in j['tool'][:3]:
            print('  not decided by the verifier: ' + t)
    print('concrete runs: %d (%d distinct)' % (acc['evaluations'], acc['distinct']))
    for e in extra:
        print(e)
    if verdict:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if verdict == 'input' else ' no-failing-input-found'))
        sys.exit(1)
    if undecided:
        print('not proved on this tree: %s; bounded: no failing input of this property among %d runs' % (', '.join(undecided), acc['evaluations']))
    print('OK property=%s' % pid)


def fail_props(pid, r, f):
    m = __import__(ROOTS[r]['attr'])
    p = set(m.props(f['cat'], r, f['q']))
    if not p:
        p = {pid}
    # transparency follows from every obligation of the root: it is at stake when any fails
    for k, v in PROPS.items():
        if v.get('any') and r in v['roots'] and f['cat'].split(':')[0] in v['any']:
            p.add(k)
    return p


def write_replay(pid, verdict, own, acc, proofs, extra):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    obs = [{'root': r, 'obligation': '%s: %s' % (f['cat'], f['msg']), 'at': f['where'], 'spec_state': f['q'], 'counterexample': f.get('hint')} for r, f in own]
    allf = [{'root': r, 'obligation': '%s: %s' % (f['cat'], f['msg']), 'at': f['where']} for r, j in proofs.items() for f in j['fails']]
    w = (acc['found'].get(pid) or [None])[0] if verdict == 'input' else None
    if w is not None:
        w = min(acc['found'][pid], key=lambda x: len(x['input']))
    doc = {'property': pid, 'failed_obligations': obs or allf[:10], 'failing_input': w, 'verifier': {r: {'status': j['status'], 'tool': j['tool']} for r, j in proofs.items()}, 'notes': extra,
           'replay': 'python3 check.py --replay <this file>  (feeds failing_input.input to the compiled crate again)'}
    if not obs and not allf:
        doc['notes'] = extra + ['no obligation was refuted; the compiled crate disagrees with the specification on this input']
    s = json.dumps(doc, indent=1)
    p = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s)
    for o in (obs or allf)[:5]:
        print('failed obligation: %s [%s] at %s' % (o['obligation'], o['root'], o['at']))
    if w:
        print('failing input: ' + w['input'][:600])
        print('  ' + '; '.join(w['why'])[:600])
    return p


def evidence(pid, tier, seed, spec, roots, proofs, acc, own, undecided, extra, verdict, rp, mir, selft):
    tot = sum(proofs[r]['obligations'] for r in roots)
    nf = sum(len(proofs[r]['fails']) for r in roots)
    done = tot - nf if tot else 0
    cov = {
        'obligations': tot, 'discharged': done,
        'checker_cmd': 'python3-vt mirvc/{%s} <MIR of /repo> {%s} out.json' % (', '.join(sorted({ROOTS[r]['prover'] for r in roots})), ', '.join(roots)),
        'trusted_base': TRUSTED,
        'back_ends': ['z3 (python bindings) for every obligation not closed by constant folding'],
        'roots': {r: {k: proofs[r].get(k) for k in ('status', 'mode', 'contracts', 'predicates', 'obligations', 'by_cat', 'folded', 'contract_checks', 'queries', 'solver_s', 'wall_s', 'cooled', 'tool',
                                                    'states', 'moves')} for r in roots},
        'functions_under_contract': sorted({f for r in roots for f in proofs[r]['functions']}),
        'assumed_contracts_used': sorted({f for r in roots for f in proofs[r]['builtins']}),
        'obligations_about_this_property': sum(n for r in roots for c, n in (proofs[r].get('by_cat') or {}).items() if pid in fail_props(pid, r, {'cat': c, 'q': 'any'})) or tot,
        'interpreter_selftest': selft,
        'undecided_roots': undecided, 'bounded_stand_in': bool(undecided),
        'evaluations': acc['evaluations'], 'distinct_nontrivial': acc['distinct'],
        'rule': 'runs of the compiled crate on generated inputs (every byte value in every reachable specification state, mutated messages, every two-way split, pauses), '
                'compared with the specification; non-trivial: at least one resume/next/call result was produced; distinct by script',
        'samples': acc['samples'] + [s for r in roots for s in (proofs[r].get('sample') or [])[:1]],
        'violations_found': {k: len(v) for k, v in acc['found'].items()},
        'notes': extra,
    }
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUMPTIONS + spec.get('assumes', []),
           'wall_s': round(time.time() - T0, 1), 'violations': 1 if verdict else 0}
    if rp:
        cov['replay'] = rp
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.rename(p + '.tmp', p)


def replay(f):
    d = jload(f)
    w = d and d.get('failing_input')
    if not w:
        print('no failing input in this file; failed obligations:')
        print(json.dumps(d and d.get('failed_obligations'), indent=1))
        return
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    atexit.register(lambda: (cleanup(), shutil.rmtree(tmp, ignore_errors=True)))
    _, binary = build(tmp)
    import conc
    print('input:     ' + w['input'])
    print('recorded:  ' + w['log'])
    print('now:       ' + conc.run_jobs(binary, [w['input']])[0])
    print('judgement: ' + '; '.join(w['why']))


if __name__ == '__main__':
    main()
