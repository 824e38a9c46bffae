"""Concrete search on the compiled crate, HTTP/2: inputs, oracle run and comparison (see conc_h1)."""
import spec_h2 as spec
from specm import ConcM
from conc_h1 import R, pick, parse_log, harvest_literals, harvest_ints, chunkings, pauses, INTEREST, mism

LIT, INTS = [], [16, 64, 256, 1024]


class Ref:
    def __init__(self, typ, data, *_):
        m = ConcM(spec, spec.START['h2'], {})
        self.m = m
        self.flat, self.at, self.qat, self.pos = [], [], [], 0
        self.note()
        for b in data:
            if m.q[0] == 'err':
                break
            m.b = b
            q = m.q
            spec.step(m, 'h2')
            while spec.eps(m, 'h2', False):
                pass
            self.pos += 1
            self.note()
        self.q, self.total = m.q, self.pos

    def note(self):
        for x in self.m.log:
            if x[0] == 'e':
                self.flat.append(x)
            else:
                self.flat.extend(('d', x[1], c) for c in x[2])
        self.m.log = []
        self.at.append(len(self.flat))
        self.qat.append(self.m.q)


class Case:
    __slots__ = ('typ', 'data', 'chunks', 'pause', 'start', 'pre', 'kind', 'boundary', 'length', 'clen')

    def __init__(self, data, chunks, pause='none', start='new', pre=None):
        self.typ, self.data, self.chunks, self.pause, self.start, self.pre = 'h2', data, chunks, pause, start, pre
        self.kind, self.boundary, self.length, self.clen = 'x', b'', None, None

    def line(self):
        t = ['h2', 'new']
        if self.pre:
            t += self.pre + ['reset', '|', 'bc']
        t.append('p:' + self.pause)
        i = 0
        for n in self.chunks:
            t.append('s:' + self.data[i:i + n].hex())
            i += n
        t += ['s:', 's:6162']
        return ' '.join(t)

    def startq(self):
        return None


def base_ch(ch):
    return ch[:-4] if ch.endswith('_end') else ch


def check(case, log):
    bad = []
    for x in log:
        if x[0] == 'x':
            bad.append(('panic' if x[1].startswith(('PANIC', 'ABORT')) else 'progress' if x[1].split(':')[-1] in ('HANG', 'loop') else 'account', x[1]))
    if bad:
        return bad
    if case.pre is not None:
        k = max(i for i, x in enumerate(log) if x == ('|',))
        if log[k + 1][1] != 0:
            return [('init', 'byte_count() is %d after reset()' % log[k + 1][1])]
        log = log[k + 2:]
    ref = Ref('h2', case.data + b'ab')
    flat = ref.flat
    i = used = ncb = 0
    dead = paused = False
    pset = None if case.pause in ('none', 'all') else set(int(x) for x in case.pause.split(','))
    for x in log:
        if x[0] in ('e', 'F'):
            if dead:
                return [('terminal', 'callback %s after the parser was dead' % x[1])]
            if paused:
                return [('pause', 'callback %s after a callback returned false' % x[1])]
            if x[0] == 'F':
                for c in x[2]:
                    if i >= len(flat) or flat[i] != ('d', x[1], c):
                        return mism(x[1], flat, i, 'data byte %02x for %s' % (c, x[1]))
                    i += 1
                end = ('e', x[1] + '_end')
                if x[3]:
                    if i >= len(flat) or flat[i] != end:
                        return mism(end[1], flat, i, '%s marked finished' % x[1])
                    i += 1
                elif x[2] and i < len(flat) and flat[i] == end:
                    return [('event:' + end[1], 'last bytes for %s not marked finished' % x[1])]
            else:
                if i >= len(flat) or flat[i] != x:
                    return mism(x[1], flat, i, 'callback %s%r' % (x[1], x[2:]))
                i += 1
            paused = case.pause == 'all' or pset is not None and ncb in pset
            ncb += 1
        elif x[0] == 'r':
            _, kind, n, bc, state, av = x
            if dead:
                if kind != '<ParserError::Dead>' or state != 'Dead':
                    return [('terminal', 'dead parser answered %s state %s' % (kind, state))]
                if bc != used:
                    return [('account', 'byte_count() %d, consumed %d' % (bc, used))]
                continue
            if kind.startswith('<'):
                if paused:
                    return [('pause', 'error although a callback returned false')]
                if ref.q[0] != 'err' or used + av < ref.total:
                    return [('error', 'error %s, specification is in state %s' % (kind, ref.q))]
                if bc != ref.total:
                    return [('account', 'byte_count() %d, offending byte is the %dth' % (bc, ref.total))]
                if i < len(flat):
                    return [('event:' + flat[i][1], 'error before %s was delivered' % (flat[i],))]
                if state != 'Dead':
                    return [('terminal', 'state() %s after an error' % state)]
                used, dead = bc, True
                continue
            if n > av:
                return [('result', '%s(%d) for a stream of %d bytes' % (kind, n, av))]
            used += n
            if bc != used:
                return [('account', 'byte_count() %d, consumed %d' % (bc, used))]
            if kind not in ('Callback', 'Eos'):
                return [('result', '%s returned' % kind)]
            if paused != (kind == 'Callback'):
                return [('pause' if paused else 'result', '%s returned, a callback %s false' % (kind, 'returned' if paused else 'did not return'))]
            if ref.q[0] == 'err' and used >= ref.total:
                return [('error', '%s, but the specification rejects' % kind)]
            if kind == 'Callback':
                paused = False
                if i > ref.at[min(used, ref.total)]:
                    return [('account', 'Callback(%d): callbacks run ahead of the bytes consumed' % n)]
                continue
            if n != av:
                return [('result', 'Eos(%d) for a stream of %d bytes' % (n, av))]
            if i < ref.at[used]:
                return mism(None, flat, i, 'end of stream')
            if i > ref.at[used]:
                return [('event:' + flat[i - 1][1], 'callbacks ahead of the stream')]
            if state in ('Dead', 'Finished'):
                return [('terminal', 'state() is %s after Eos' % state)]
    return bad


# ------------------------------------------------------------------ inputs

def rnd(n):
    k = R.random()
    if k < .2:
        return bytes([pick([0, 255, 0x80, 0x7f])]) * n
    return bytes(R.randrange(256) for _ in range(n))


def frame():
    t = pick([0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 200, 255])
    fl = pick([0, 0, 8, 8, 0x20, 0x28, 0x28, 1, 4, 0x2d, 255])
    prio = t == 1 and fl & 0x20
    fixed = {2: 5, 3: 4, 4: 6, 5: 4, 7: 8, 8: 4}.get(t, 5 if prio else 0)
    padded = fl & 8 and t in (0, 1, 5, 10, 200, 255)
    pay = b''
    pad = 0
    if padded:
        pad = pick([0, 0, 1, 2, 5, 255])
        pay += bytes([pad])
    pay += rnd(fixed)
    if t in (0, 1, 5, 6, 7, 9, 10, 200, 255):
        pay += rnd(pick([0, 0, 1, 2, 3, 8, 20]))
    if padded:
        pay += rnd(pad)
    n = len(pay)
    k = R.random()
    if t == 4 and k < .2:
        n, pay = 0, b''
    elif k < .12:
        n = pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, n + 1, max(0, n - 1), n + pad, 256, 65536 + n])
        pay = pay[:n]
    elif k < .15:
        pay = pay[:R.randint(0, len(pay))]
    return n.to_bytes(3, 'big') + bytes([t, fl]) + rnd(4) + pay


def message(typ='h2'):
    d = b''.join(frame() for _ in range(R.randint(1, 4)))
    for _ in range(pick([0, 0, 0, 0, 1])):
        i = R.randrange(len(d))
        d = d[:i] + bytes([R.randrange(256)]) + d[i + 1:]
    return d, {}, 'new'


def make(typ, data, chunks, pause, aux, start, pre=None):
    return Case(data, chunks, pause, start, pre)


def group(typ='h2', nvar=3, msg=None):
    d, aux, start = msg or message()
    out = [make(typ, d, [len(d)] if d else [], 'none', aux, start)]
    for c in chunkings(len(d), nvar)[1:]:
        out.append(make(typ, d, c, 'none', aux, start))
        out[-1].kind = 'frag'
    for p in pauses(2):
        out.append(make(typ, d, [len(d)] if d else [], p, aux, start))
        out[-1].kind = 'pause'
    out.append(make(typ, d, chunkings(len(d), 1)[-1], pick(['all', '0,3', '2']), aux, start))
    out[-1].kind = 'mixed'
    if R.random() < .5:
        p = message()[0]
        p = p[:R.randint(0, len(p))]
        out.append(make(typ, d, [len(d)] if d else [], 'none', aux, start, ['p:' + pick(['none', 'all', '1,2']), pick(['s:', 't:']) + p.hex()]))
        out[-1].kind = 'reinit'
    return out


def exhaust_split(typ, msg):
    d, aux, start = msg
    out = [make(typ, d, [len(d)] if d else [], 'none', aux, start)]
    for i in range(1, len(d)):
        out.append(make(typ, d, [i, len(d) - i], 'none', aux, start))
        out[-1].kind = 'frag'
    out.append(make(typ, d, [1] * len(d), 'all', aux, start))
    out[-1].kind = 'mixed'
    return out


# ------------------------------------------------------------------ what an observer sees, without fragmentation

def view(log):
    flat, end = [], None
    k = max([i for i, x in enumerate(log) if x == ('|',)] or [-1])
    log = log[k + 1:]
    for x in log:
        if x[0] == 'F':
            flat.extend(('d', x[1], c) for c in x[2])
            if x[3]:
                flat.append(('e', x[1] + '_end'))
        elif x[0] in ('e', 'x'):
            flat.append(x)
        elif x[0] == 'r':
            if end is None or end in ('Eos', 'Callback'):
                end = x[1]
    rs = [x for x in log if x[0] == 'r']
    return flat, end, rs[-1][3] if rs else None


def same(a, b, typ):
    (fa, ea, ba), (fb, eb, bb) = a, b
    if fa != fb:
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x != y:
                return 'callbacks differ at %d: %s / %s' % (i, x, y)
        return 'one run makes %d callbacks/bytes more' % abs(len(fa) - len(fb))
    if ea != eb:
        return 'ended %s / %s' % (ea, eb)
    if ba != bb:
        return 'byte_count() %s / %s' % (ba, bb)
    return None
