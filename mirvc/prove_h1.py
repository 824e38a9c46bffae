"""Prove one HTTP/1.x root and write the result as JSON.

usage: prove_h1.py MIR ROOT OUT [--cold] [--budget SECONDS] [--save]
"""
import sys, time, json, os, resource
from mirparse import Program
from sym import Solver, Unsupported
from h1 import H1
from h2 import H2
from util import U

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    mir, root, out = sys.argv[1:4]
    cold = '--cold' in sys.argv
    budget = float(sys.argv[sys.argv.index('--budget') + 1]) if '--budget' in sys.argv else 600
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    cache = os.path.join(HERE, '..', 'contracts', root + '.json')
    t0 = time.time()
    r = {'root': root, 'mode': 'inferred' if cold else 'committed contracts', 'fails': [], 'tool': []}
    h = None
    try:
        p = Program()
        p.load(mir, repo)
        h = (U if root in ("decode", "query", "field") else H2 if root == "h2" else H1)(p, Solver(), root, log=None)
        h.deadline = t0 + budget
        if not cold:
            h.load_cache(cache)
        h.root_fails = []
        h.prove_all()
        for a, b, m in h.termination():
            r['fails'].append({'cat': 'progress', 'msg': m, 'where': h.place(a) + ' -> ' + h.place(b), 'q': repr(a.q), 'hint': None})
        if '--save' in sys.argv:
            h.save_cache(cache)
    except TimeoutError:
        r['tool'].append('time budget of %d s used up' % budget)
    except Exception as e:
        r['tool'].append('%s: %s' % (type(e).__name__, str(e)[:300]))
    if h is not None:
        seen = {}
        for f in h.collect_fails() + h.root_fails:
            n = f.get('node')
            seen.setdefault((f['cat'], f['msg'], f['where']), (f, n))
        for (cat, msg, where), (f, n) in seen.items():
            e = {'cat': cat, 'msg': msg, 'where': where, 'q': repr(n.q) if n else 'init', 'hint': None}
            if cat == 'tool':
                r['tool'].append('%s @ %s' % (msg, where))
                continue
            e['hint'] = h.hint(f)
            r['fails'].append(e)
        live = [n for n in h.nodes.values() if not n.dead]
        r.update(contracts=len(live), predicates=sum(len(n.preds or ()) for n in live), obligations=h.oblig + h.warm_checks, folded=h.folded,
                 contract_checks=h.warm_checks, queries=h.S.n, hard=h.S.hard, solver_s=round(h.S.t, 2), cooled=len(h.cooled),
                 functions=sorted(h.fns_used), builtins=sorted(h.builtins_used), moves=len(h.moves),
                 by_cat=h.by_cat,
                 states=sorted({repr(n.q) for n in live}), at=sorted({h.place(n) for n in live}),
                 sample=[{'at': h.place(n), 'spec_state': repr(n.q), 'preds': len(n.preds or ())} for n in live[:3]])
    r['status'] = 'refuted' if r['fails'] else 'undecided' if r['tool'] else 'proved'
    r['wall_s'] = round(time.time() - t0, 2)
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(20000)
    main()
