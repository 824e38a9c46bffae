"""Concrete search on the compiled crate: util::decode, QueryIterator, FieldIterator.

usage: search_util.py BINARY ROOT SECONDS SEED REPO OUT [--want PROP] [--hints FILE]
"""
import sys, time, json, random
import conc
import attr_util
import spec_util as spec
from specm import ConcM

R = random.Random(1)
JOB = {'decode': 'dec', 'query': 'qry', 'field': 'fld'}


def first_bad(b):
    try:
        b.decode()
    except UnicodeDecodeError as e:
        return e.start
    return None


def reference(root, data, delim=0x3B, norm=0):
    """(expected log tokens, whether a string that is not UTF-8 was met, specification state before each byte)"""
    m = ConcM(spec, spec.START[root], {} if root != 'field' else {'dl': delim, 'norm': norm})
    toks, buf, bad, qat = [], {}, False, []

    def drain():
        nonlocal bad
        log, m.log = m.log, []
        for it in log:
            if it[0] == 'd':
                buf[it[1]] = buf.get(it[1], b'') + it[2]
                continue
            ev = it[1:]
            if ev[0] == 'pair':
                for ch in ('name', 'value'):
                    k = first_bad(buf.get(ch, b''))
                    if k is not None:
                        bad = True
                        spec.bad_utf8(m, ch, buf[ch][k])
                        break
                else:
                    toks.append('%s=%s' % (buf.get('name', b'').hex(), buf.get('value', b'').hex() if ev[1] else '-'))
                    buf.clear()
                    continue
                return drain()
            toks.append('err:%s:%d' % (('Name', 'Value')[ev[1]], ev[2]))

    for b in data:
        while spec.eps(m, root, True):
            drain()
        qat.append(m.q)
        if m.q[0] in ('end', 'bad'):
            break
        m.b = b
        spec.step(m, root)
        drain()
    while m.q[0] not in ('end', 'bad', 'ok') and spec.eps(m, root, False):
        drain()
    qat.append(m.q)
    if root == 'decode':
        if m.q == ('ok',):
            s = buf.get('out', b'')
            k = first_bad(s)
            if k is None:
                return ['ok:' + s.hex()], False, qat
            bad = True
            spec.bad_utf8(m, 'out', s[k])
        return ['err:%s:%d' % (m.q[1], m.r['eb'])], bad, qat
    return toks + ['none'] * 3, bad, qat


UTF = [b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80', b'\xc0\xaf', b'\xff', b'\x80', b'\xe2\x82', b'\xf4\x90\x80\x80', b'\xc3']


def esc(b):
    return b''.join(R.choice([b'%%%02x', b'%%%02X']) % c for c in b)


def piece(root):
    k = R.randrange(14)
    w = bytes(R.choice(b'abcxyzABCXYZ019-._~') for _ in range(R.choice([0, 1, 1, 2, 3, 5, 12])))
    if root == 'field':
        return R.choice([w, w, b'=', b'=', b';', b'; ', b' ', b'\t', b'"', b'"' + w + b'"', b'"' + w + b'\\"' + w + b'"', b'\\', b'/', b',', b'&',
                         R.choice(UTF), b'"' + R.choice(UTF) + b'"', bytes([R.randrange(256)]), w + b'=' + w, w + b'="' + w + b'";', b'\r\n', b'\r\n '])
    if k < 4:
        return w
    return R.choice([b'%', b'%4', b'%zz', b'%4z', esc(w), esc(R.choice(UTF)), esc(R.choice(UTF)), R.choice(UTF), b'+', b'=', b'=', b'&', b'&', b';', b'=' + w + b'&',
                     bytes([R.randrange(256)]), esc(bytes([R.randrange(256)])), b'+' + w])


def gen(root):
    return b''.join(piece(root) for _ in range(R.choice([0, 1, 2, 3, 4, 6, 9])))


def script(root, data, d=0x3B, n=0):
    return '%s %s%s' % (JOB[root], '%d %d ' % (d, n) if root == 'field' else '', data.hex())


def params(root):
    return (R.choice([0x3B, 0x3B, 0x3B, 0x2C, 0x26, 0x3D, 0x2F, 0x20, 0x22, 0x5C, 0x41, R.randrange(256)]), R.randrange(2)) if root == 'field' else ()


def main():
    binary, root, secs, seed, repo, out = sys.argv[1:7]
    opt = dict(zip(sys.argv[7::2], sys.argv[8::2]))
    want = opt.get('--want')
    end = time.time() + float(secs)
    R.seed('%s/%s' % (seed, root))
    found, n, seen, states = {}, 0, set(), {}

    def go(cases):
        nonlocal n
        cs = [(script(root, *c), c) for c in cases]
        logs = conc.run_jobs(binary, [c[0] for c in cs], timeout=max(20, end - time.time() + 10))
        for (line, c), log in zip(cs, logs):
            if 'SKIPPED' in log:
                continue
            n += 1
            got = log.split(' ')[1:]
            exp, bad, qat = reference(root, *c)
            for i, q in enumerate(qat):
                l = states.setdefault(q, [])
                if len(l) < 6:
                    l.append((c[0][:i],) + tuple(c[1:]))
            seen.add(hash(line))
            if got != exp:
                ps = {attr_util.BASE[root]}
                if bad or any('!' in t for t in got):
                    ps.add('C25')
                for p in ps:
                    l = found.setdefault(p, [])
                    if len(l) < 5:
                        l.append({'type': root, 'kind': 'x', 'input': line, 'log': log, 'why': ['specified: ' + ' '.join(exp), 'got: ' + ' '.join(got)]})
        return time.time() < end and not (want and want in found)

    hints = json.load(open(opt['--hints'])) if '--hints' in opt else []
    alive = go([(gen(root),) + params(root) for _ in range(3000)])
    for h in hints[:40]:
        if alive and h:
            m = [v for q, v in states.items() if repr(q) == h['q']] or list(states.values())
            hb = bytes.fromhex(h['bytes'])
            alive = go([(p[0] + x,) + p[1:] for l in m[:4] for p in l for x in (hb, hb[:max(0, min(len(hb), h['left']))], hb[:1], b'')])
    while alive:
        # every byte in every state reached so far, with and without something behind
        for q in sorted(states, key=repr):
            if not alive:
                break
            p = R.choice(states[q])
            alive = go([(p[0] + bytes([b]) + t,) + p[1:] for b in range(256) for t in (b'', R.choice([gen(root), b'a=b;c']))])
        if alive:
            alive = go([(gen(root),) + params(root) for _ in range(4000)])
    with open(out, 'w') as f:
        json.dump({'type': root, 'evaluations': n, 'distinct': len(seen), 'states_reached': len(states), 'found': found, 'sample': [script(root, gen(root), *params(root))]}, f)


if __name__ == '__main__':
    main()
