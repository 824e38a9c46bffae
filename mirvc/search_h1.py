"""Concrete search on the compiled crate (HTTP/1.x): turns a refuted obligation into a failing input.

usage: search_h1.py BINARY TYPE SECONDS SEED REPO OUT [--want PROP] [--hints FILE]
"""
import sys, time, json, glob, re
import conc
import conc_h1 as H
import spec_h1 as spec
import attr

DIR = 'http1'


def prefixes(typ, n):
    """specification state -> a few inputs that reach it: (prefix, rest, aux, start)"""
    out = {}
    for _ in range(n):
        d, aux, start = H.message(typ)
        ref = H.Ref(typ, d, ('det', 0) if start == 'new' else None, aux.get('b', b''), aux.get('l'), aux.get('c'))
        for i, q in enumerate(ref.qat):
            if q[0] in ('fin', 'err'):
                continue
            l = out.setdefault(q, [])
            if len(l) < 4:
                l.append((d[:i], d[i:], aux, start))
            elif H.R.random() < .05:
                l[H.R.randrange(4)] = (d[:i], d[i:], aux, start)
    return out


def directed(typ, pre, q, bs):
    """every byte of bs in state q, in several fragmentations"""
    out = []
    for b in bs:
        p, r, aux, start = H.pick(pre[q])
        d = p + bytes([b]) + H.pick([r, r[1:], b''])
        aux = dict(aux)
        if typ == 'url' and aux['l'] != H.BIG:
            aux['l'] = max(aux['l'], H.pick([len(p) + 1, len(d)]))
        n = len(d)
        out.append([H.make(typ, d, [n] if n else [], 'none', aux, start)])
        for ch, pa, k in (([len(p), n - len(p)], 'none', 'frag'), ([len(p) + 1, n - len(p) - 1], 'none', 'frag'), ([n], 'all', 'pause')):
            c = H.make(typ, d, [x for x in ch if x], pa, aux, start)
            c.kind = k
            out[-1].append(c)
    return out


def from_hint(typ, pre, hint):
    """counterexample bytes of the verifier after inputs that reach the state it starts from"""
    out = []
    m = [q for q in pre if repr(q) == hint['q']] or list(pre)
    hb = bytes.fromhex(hint['bytes'])
    for q in m[:4]:
        for p, r, aux, start in pre[q]:
            for hh in (hb, hb[:max(0, hint['left'])], hb[:1]):
                d = p + hh
                aux = dict(aux)
                if typ == 'url':
                    aux['l'] = max(aux['l'], len(d))
                g = [H.make(typ, d, [len(d)] if d else [], 'none', aux, start)]
                for ch in [[len(p), len(hh)]] + H.chunkings(len(d), 3)[1:]:
                    g.append(H.make(typ, d, [x for x in ch if x], 'none', aux, start))
                    g[-1].kind = 'frag'
                g.append(H.make(typ, d, [x for x in [len(p), len(hh)] if x], 'all', aux, start))
                g[-1].kind = 'mixed'
                out.append(g)
    return out


def judge(groups, logs, found, counts, want):
    i = 0
    for g in groups:
        base = None
        baseok = True
        for c in g:
            log = logs[i]
            i += 1
            if ' SKIPPED' in log[:30]:
                continue
            lg = H.parse_log(log)
            counts['evaluations'] += 1
            props = set()
            msgs = []
            for cat, m in H.check(c, lg):
                ref = H.Ref(c.typ, c.data + b'ab', c.startq(), c.boundary, c.length, c.clen) if cat in ('error', 'result') or 'Crlf' in cat else None
                q = None
                if ref:
                    q = ref.qat[-2] if len(ref.qat) > 1 and ref.q[0] in ('err', 'fin') else ref.q
                p = attr.props(cat, c.typ, q)
                if cat == 'progress':
                    p = p | attr.FRAG | attr.PAUSE if c.kind in ('frag', 'pause', 'mixed') and baseok else p
                props |= p
                msgs.append('%s: %s' % (cat, m))
            if c.kind == 'x':
                base, baseok = H.view(lg), not props
            elif c.kind in ('frag', 'pause', 'mixed') and base is not None:
                m = H.same(base, H.view(lg), c.typ)
                if m:
                    if c.kind != 'mixed':
                        props |= attr.FRAG if c.kind == 'frag' else attr.PAUSE
                    else:
                        props |= attr.FRAG | attr.PAUSE if baseok else set()
                    msgs.append('%s run differs from the whole message: %s' % (c.kind, m))
            elif c.kind == 'reinit' and props and baseok:
                props |= attr.REINIT
            if any(x[0] == 'r' for x in lg):
                counts['nontrivial'].add((c.typ, hash(c.line())))
            for p in props:
                l = found.setdefault(p, [])
                if len(l) < 5:
                    l.append({'type': c.typ, 'kind': c.kind, 'input': c.line(), 'log': log, 'why': msgs})


def main():
    binary, typ, secs, seed, repo, out = sys.argv[1:7]
    opt = dict(zip(sys.argv[7::2], sys.argv[8::2]))
    want = opt.get('--want')
    end = time.time() + float(secs)
    H.R.seed('%s/%s' % (seed, typ))
    H.LIT = H.harvest_literals(glob.glob(repo + '/src/%s/*.rs' % DIR) + glob.glob(repo + '/src/*.rs'))
    H.INTS = H.harvest_ints(glob.glob(repo + '/src/%s/*.rs' % DIR) + glob.glob(repo + '/src/*.rs'))
    found, counts = {}, {'evaluations': 0, 'nontrivial': set()}
    pre = prefixes(typ, 400)

    def go(groups):
        flat = [c.line() for g in groups for c in g]
        if flat:
            judge(groups, conc.run_jobs(binary, flat, timeout=max(20, end - time.time() + 10)), found, counts, want)
        return time.time() < end and not (want and want in found)

    hints = json.load(open(opt['--hints'])) if '--hints' in opt else []
    alive = True
    for h in hints[:40]:
        if alive and h:
            alive = go(from_hint(typ, pre, h))
    qs = sorted(pre, key=repr)
    H.R.shuffle(qs)
    seen = 0
    for rnd in range(1000000):
        if not alive:
            break
        # alternate: every byte in some states / random messages / every split of one message
        for q in qs[(3 * rnd) % len(qs):][:3]:
            seen += 1
            alive = alive and go(directed(typ, pre, q, list(range(256)) if rnd * 3 < 2 * len(qs) else [H.R.randrange(256) for _ in range(40)]))
        if alive:
            gs = [H.group(typ) for _ in range(60)]
            m = H.message(typ)
            if len(m[0]) < 120:
                gs.append(H.exhaust_split(typ, m))
            alive = go(gs)
    res = {'type': typ, 'evaluations': counts['evaluations'], 'distinct': len(counts['nontrivial']), 'states_reached': len(pre), 'found': found,
           'sample': [H.group(typ)[0].line()]}
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
