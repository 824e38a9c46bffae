"""Concrete search on the compiled crate, HTTP/1.x: inputs, oracle run and comparison.

Used only to turn a refuted obligation into a failing input (and, labelled bounded, as the stand-in when
the verifier cannot decide); the oracle is the same specification the proof uses.
"""
import random
import spec_h1 as spec
from specm import ConcM

TYPES = ('head', 'chunked', 'multipart', 'url')
INIT = {'head': 'ih', 'chunked': 'ic', 'multipart': 'im', 'url': 'iu'}
BIG = 1 << 40


# ------------------------------------------------------------------ oracle

class Ref:
    """byte-at-a-time run of the specification; log[i] is everything owed after i bytes"""

    def __init__(self, typ, data, start=None, boundary=b'', length=None, clen=None, limit=None):
        m = ConcM(spec, start or spec.START[typ], {'rem': length} if typ == 'url' else {'blen': len(boundary)} if typ == 'multipart' else {})
        m.boundary = boundary
        self.m, self.typ, self.clen = m, typ, clen
        self.flat = []          # flattened log: ('e', name, args) / ('d', ch, byte)
        self.at = []            # at[i] = length of flat after i bytes
        self.qat = []
        self.pos = 0
        self.settle(False)
        self.note()
        for b in data:
            if m.q[0] in ('fin', 'err'):
                break
            self.settle(True)
            if m.q[0] in ('fin', 'err'):
                break
            m.b = b
            spec.step(m, typ)
            self.pos += 1
            self.settle(False)
            self.note()
        self.q = m.q
        self.total = self.pos

    def settle(self, avail):
        m = self.m
        while True:
            if m.q[0] == 'mdetect':
                m.log.append(('e', '?content_length'))
                spec.feed_content_length(m, self.clen)
            elif not spec.eps(m, self.typ, avail):
                break

    def note(self):
        for x in self.m.log:
            if x[0] == 'e':
                self.flat.append(x)
            else:
                self.flat.extend(('d', x[1], c) for c in x[2])
        self.m.log = []
        self.at.append(len(self.flat))
        self.qat.append(self.m.q)


def parse_log(line):
    """-> list of ('e',..)/('d',ch,byte)/('r',kind,n,bc,state,avail)/('x',..)"""
    out = []
    for t in line.split(' ')[1:]:
        k = t[:2]
        if k == 'D:':
            _, ch, hx = t.split(':')
            out.append(('D', ch, bytes.fromhex(hx)))
        elif k == 'E:':
            p = t.split(':')
            out.append(('e', p[1]) + tuple(int(x) for x in p[2:]))
        elif k == 'Q:':
            out.append(('e', '?content_length'))
        elif k == 'R|':
            p = t.split('|')
            out.append(('r', p[1], int(p[2]), int(p[3]), p[4], int(p[5])))
        elif k == 'F:':
            p = t.split(':')
            out.append(('F', p[1], bytes.fromhex(p[2]), int(p[3])))
        elif k == 'B|':
            p = t.split('|')
            out.append(('b', int(p[1]), p[2]))
        elif t == '|':
            out.append(('|',))
        else:
            out.append(('x', t))
    return out


EMPTY_OK = ()


class Case:
    __slots__ = ('typ', 'data', 'chunks', 'pause', 'boundary', 'length', 'clen', 'start', 'pre', 'group', 'kind')

    def __init__(self, typ, data, chunks, pause='none', boundary=b'', length=None, clen=None, start='init', pre=None, kind='x'):
        self.typ, self.data, self.chunks, self.pause = typ, data, chunks, pause
        self.boundary, self.length, self.clen, self.start, self.pre, self.kind = boundary, length, clen, start, pre, kind

    def line(self):
        t = ['h1', 'new']
        if self.pre:
            t += self.pre + ['bc', '|']
        if self.start == 'init':
            t.append(INIT[self.typ])
        elif self.start == 'reset':
            t.append('reset')
        if self.pre:
            t.append('bc')
        if self.typ == 'multipart':
            t += ['b:' + self.boundary.hex(), 'c:%s' % ('-' if self.clen is None else self.clen)]
        if self.typ == 'url':
            t.append('l:%d' % self.length)
        t.append('p:' + self.pause)
        i = 0
        for n in self.chunks:
            t.append('s:' + self.data[i:i + n].hex())
            i += n
        t.append('s:')
        t.append('s:6162')
        return ' '.join(t)

    def startq(self):
        return ('det', 0) if self.start == 'new' else None


def check(case, log):
    """compare one run with the specification -> list of (category, message)"""
    bad = []
    for x in log:
        if x[0] == 'x':
            bad.append(('panic' if x[1].startswith(('PANIC', 'ABORT')) else 'progress' if x[1].split(':')[-1] in ('HANG', 'loop') else 'account', x[1]))
    if bad:
        return bad
    if case.pre is not None:
        k = max(i for i, x in enumerate(log) if x == ('|',))
        b0, b1 = log[k - 1], log[k + 1]
        if b0[1] != b1[1]:
            bad.append(('init', 'byte_count() %d before re-initialisation, %d after' % (b0[1], b1[1])))
        base = b1[1]
        log = log[k + 2:]
    else:
        base = 0
    ref = Ref(case.typ, case.data + b'ab', case.startq(), case.boundary, case.length, case.clen)
    flat = ref.flat
    i = 0                     # position in flat
    used = 0                  # bytes consumed
    done = None
    paused = False
    ncb = 0
    pset = None if case.pause in ('none', 'all') else set(int(x) for x in case.pause.split(','))
    ci = 0                    # index of chunk being fed
    for x in log:
        if x[0] in ('D', 'e', 'F'):
            if done:
                bad.append(('terminal', 'callback %s after the parser was %s' % (x[1], done)))
                return bad
            if paused and x[1] != '?content_length':
                bad.append(('pause', 'callback %s after a callback returned false' % x[1]))
                return bad
            if x[0] == 'D':
                for c in x[2]:
                    if i >= len(flat) or flat[i] != ('d', x[1], c):
                        return bad + mism(x[1], flat, i, 'data byte %02x for %s' % (c, x[1]))
                    i += 1
            else:
                if i >= len(flat) or flat[i] != x:
                    return bad + mism(x[1], flat, i, 'callback %s%r' % (x[1], x[2:]))
                i += 1
            if x[1] != '?content_length':
                paused = case.pause == 'all' or pset is not None and ncb in pset
                ncb += 1
        elif x[0] == 'r':
            _, kind, n, bc, state, av = x
            if done == 'Finished':
                if kind != 'Finished' or n != 0 or state != 'Finished':
                    bad.append(('terminal', 'finished parser answered %s(%d) state %s' % (kind, n, state)))
                    return bad
                if bc != base + used:
                    bad.append(('account', 'byte_count() %d, consumed %d' % (bc, base + used)))
                    return bad
                ci += 1
                continue
            if done == 'Dead':
                if kind != '<ParserError::Dead>' or state != 'Dead':
                    bad.append(('terminal', 'dead parser answered %s state %s' % (kind, state)))
                    return bad
                ci += 1
                continue
            if kind.startswith('<'):
                if paused:
                    bad.append(('pause', 'error although a callback returned false'))
                err = kind[14:-1].split(':')
                if ref.q[0] != 'err' or used + av < ref.total:
                    bad.append(('error', 'error %s, specification is in state %s' % (kind, ref.q)))
                    return bad
                if err[0] != ref.q[1]:
                    bad.append(('error:' + ref.q[1], 'error %s, specification rejects with %s' % (kind, ref.q[1])))
                    bad.append(('error:' + err[0], bad[-1][1]))
                    return bad
                loose = ref.m.r['eb'] == spec.ANY
                if not loose and (len(err) < 2 or int(err[1]) != ref.m.r['eb']):
                    bad.append(('error:' + ref.q[1], 'error %s, offending byte is %d' % (kind, ref.m.r['eb'])))
                got = bc - base - used
                if not loose and got != ref.total - used:
                    bad.append(('account', 'byte_count() grew by %d, offending byte is at %d' % (got, ref.total - used)))
                rest = flat[i:]
                ev = [y for y in rest if y[0] == 'e']
                if ev:
                    bad.append(('event:' + ev[0][1], 'error before %s was delivered' % (ev[0],)))
                if state != 'Dead':
                    bad.append(('terminal', 'state() %s after an error' % state))
                if bad:
                    return bad
                used = bc - base
                done = 'Dead'
                ci += 1
                continue
            if n > av:
                bad.append(('result', '%s(%d) for a stream of %d bytes' % (kind, n, av)))
                return bad
            used += n
            if bc != base + used:
                bad.append(('account', 'byte_count() %d, consumed %d' % (bc, base + used)))
                return bad
            if paused != (kind == 'Callback'):
                bad.append(('pause' if paused else 'result', '%s returned, a callback %s false' % (kind, 'returned' if paused else 'did not return')))
                return bad
            if kind == 'Callback':
                paused = False
                # output so far must be owed by the bytes consumed (look-ahead commitments allowed)
                if used > ref.total:
                    bad.append(('account', 'consumed %d bytes, message ended after %d' % (used, ref.total)))
                    return bad
                if i > ref.at[min(used, ref.total)] and not early_ok(ref, used, i):
                    bad.append(('account', 'Callback(%d): callbacks run ahead of the bytes consumed' % n))
                    return bad
                continue
            ci += 1
            if kind == 'Eos':
                if n != av:
                    bad.append(('result', 'Eos(%d) for a stream of %d bytes' % (n, av)))
                    return bad
                if used > ref.total or ref.q[0] == 'err' and used >= ref.total:
                    bad.append(('error:%s' % ref.q[1] if ref.q[0] == 'err' else 'result', 'Eos, but the specification is %s' % (ref.q,)))
                    if ref.q[0] == 'fin':
                        bad.append(('event:body_finished', bad[-1][1]))
                    return bad
                if ref.q[0] == 'fin' and used >= ref.total:
                    bad.append(('result', 'Eos for a finished message'))
                    return bad
                if i != owed(ref, used):
                    return bad + mism(None, flat, i, 'end of stream') if i < owed(ref, used) else bad + [('event:' + flat[i - 1][1], 'callbacks ahead of the stream')]
                if state in ('Dead', 'Finished'):
                    bad.append(('terminal', 'state() is %s after Eos' % state))
                    return bad
            elif kind == 'Finished':
                if ref.q[0] != 'fin' or i != len(flat):
                    bad.append(('result', 'Finished in specification state %s' % (ref.q,)))
                    if i < len(flat):
                        bad.append(('event:' + flat[i][1], 'Finished before %s' % (flat[i],)))
                    return bad
                if used != ref.total:
                    bad.append(('account', 'Finished after %d bytes, message has %d' % (used, ref.total)))
                    return bad
                if state != 'Finished':
                    bad.append(('terminal', 'state() %s after Finished' % state))
                    return bad
                done = 'Finished'
    return bad


def owed(ref, used):
    """length of the log owed at a clean end of stream after `used` bytes"""
    return ref.at[used]


def early_ok(ref, used, i):
    """output committed before its bytes are consumed: a method known not to be HTTP/, a zero-byte step"""
    return i <= ref.at[-1] and all(x[0] == 'd' and x[1] in ('method', 'multipart_data') or x[0] == 'e' and x[1] in ('url_encoded_begin', 'body_finished', '?content_length')
                                   for x in ref.flat[ref.at[min(used, ref.total)]:i])


def mism(ch, flat, i, what):
    exp = flat[i] if i < len(flat) else None
    out = []
    msg = '%s, specification owes %s' % (what, 'nothing more' if exp is None else '%s %s' % (exp[1], exp[2:]))
    if ch:
        out.append(('event:' + ch.lstrip('?'), msg))
    if exp and exp[1] != ch:
        out.append(('event:' + exp[1].lstrip('?'), msg))
    return out


# ------------------------------------------------------------------ inputs

R = random.Random()


def pick(s):
    return R.choice(s)


def word(alpha, lo=1, hi=10):
    return bytes(pick(alpha) for _ in range(R.randint(lo, hi)))


TOK = sorted(spec.TOKEN)
VIS = sorted(spec.VIS)
FLD = sorted(spec.FIELD)
LOW = list(b'abcdefghijklmnopqrstuvwxyz')
UPP = list(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ')
HDRS = [b'Accept:', b'Accept-Charset:', b'Accept-Encoding:', b'Accept-Language:', b'Authorization:', b'Connection:', b'Content-Type:',
        b'Content-Length:', b'Cookie:', b'Cache-Control:', b'Content-Security-Policy:', b'Location:', b'Last-Modified:', b'Pragma:',
        b'Set-Cookie:', b'Transfer-Encoding:', b'User-Agent:', b'Upgrade:', b'Via:', b'Warning:', b'WWW-Authenticate:', b'Host:', b'X-Powered-By:',
        b'Date:', b'ETag:', b'Expires:', b'Server:', b'Referer:', b'Range:', b'TE:', b'Trailer:', b'Origin:', b'If-None-Match:']
METH = [b'GET', b'PUT', b'POST', b'HEAD', b'DELETE', b'OPTIONS', b'TRACE', b'CONNECT', b'PATCH', b'H', b'HT', b'HTT', b'HTTP', b'HTTPS', b'G', b'PRI',
        b'HEADER', b'HTTX', b'HTTPX', b'HTTQ']


def harvest_literals(files):
    """byte strings in the sources: fast paths look for them"""
    import re
    out = set()
    for f in files:
        try:
            t = open(f, errors='replace').read()
        except OSError:
            continue
        for m in re.finditer(r'b"((?:[^"\\]|\\.)*)"', t):
            s = m.group(1).encode().decode('unicode_escape').encode('latin1', 'replace')
            if 1 < len(s) < 40:
                out.add(s)
    return sorted(out)


LIT = []
INTS = [16, 32, 64, 128, 256, 1024]


def harvest_ints(files):
    import re
    out = set(INTS)
    for f in files:
        try:
            t = open(f, errors='replace').read()
        except OSError:
            continue
        for m in re.finditer(r'\b(0x[0-9A-Fa-f_]+|[0-9][0-9_]*)(?:[ui](?:size|8|16|32|64))?\b', re.sub(r'//.*', '', t)):
            try:
                v = int(m.group(1).replace('_', ''), 0)
            except ValueError:
                continue
            if 12 < v < 3000:
                out.add(v)
    return sorted(out)


def hname():
    k = R.random()
    if k < .45:
        n = pick(HDRS)
        if R.random() < .3:
            j = R.randrange(len(n))
            n = n[:j] + word(TOK, 1, 3) + n[j + R.randint(0, 1):]
            if not n.endswith(b':'):
                n += b':'
        return n
    if k < .6 and LIT:
        n = pick(LIT)
        if not n.endswith(b':'):
            n = n.strip() + b':'
        return n
    return word(pick([TOK, LOW, UPP, LOW + UPP]), 1, 30) + b':'


def hvalue():
    k = R.random()
    if k < .5:
        v = word(pick([VIS, LOW, FLD]), 1, 20)
    elif k < .7 and LIT:
        v = pick(LIT)
    elif k < .9:
        v = word(LOW, 0, 3) + b'"' + b''.join(pick([b'a', b'\\"', b'\\\\', b'x y', b';', b'\\z', b'\xe9']) for _ in range(R.randint(0, 4))) + b'"' + word(LOW, 0, 3)
    else:
        v = word(LOW, 1, 5) + b'\r\n' + pick([b' ', b'\t']) + word(LOW, 0, 5)
    return v.replace(b'\n', b'') if b'\r\n' not in v else v


def headers(lo=0, hi=4):
    return b''.join(hname() + pick([b'', b' ', b'\t ', b'  ']) + hvalue() + b'\r\n' for _ in range(R.randint(lo, hi))) + b'\r\n'


def version():
    return pick([b'1.1', b'1.0', b'2.0', b'0.9', b'12.34', b'999.999', b'1.12', b'10.1', b'100.2', b'1.123', b'1.1', b'1.1'])


def gen_head():
    s = pick([b'', b'', b'', b'\r\n', b' \t\r\n', b'\n'])
    if R.random() < .5:
        m = pick(METH) if R.random() < .8 else word(UPP, 1, 8)
        if R.random() < .1 and LIT:
            m = pick(LIT).strip()
        return s + m + b' ' + word(VIS, 1, 12) + b' HTTP/' + version() + b'\r\n' + headers()
    return s + b'HTTP/' + version() + b' ' + pick([b'200', b'404', b'999', b'001', b'000', b'100', b'503']) + b' ' + \
        word(sorted(spec.STATUS), 1, 12) + b'\r\n' + headers()


def ext():
    e = b';' + pick([b'', b' ', b'\t']) + word(TOK, 1, 8)
    k = R.random()
    if k < .2:
        return e
    e += b'=' + pick([b'', b' '])
    if k < .6:
        return e + word([c for c in VIS if c not in b';"'], 1, 8)
    return e + b'"' + b''.join(pick([b'a', b'\\"', b'\\\\', b'x y', b';', b'\\z', b'\xe9', b'=']) for _ in range(R.randint(0, 5))) + b'"' + pick([b'', b'z'])


def gen_chunked():
    out = b''
    for _ in range(R.randint(0, 3)):
        n = pick([1, 2, 5, 9, 10, 15, 16, 17, 26, 31])
        h = pick([b'%x', b'%X'])
        if R.random() < .1:
            n = pick([0x1234, 0xffff, 0x10000, 0xABCDEF, 0xFFFFFFFF, 0x12345678])
        out += h % n
        for _ in range(pick([0, 0, 0, 1, 2])):
            out += ext()
        out += b'\r\n' + bytes(R.randrange(256) for _ in range(min(n, 40)))
        if n > 40:
            return out
        out += b'\r\n'
    out += b'0' + b''.join(ext() for _ in range(pick([0, 0, 0, 1]))) + b'\r\n'
    return out + headers(0, 2)


def gen_multipart():
    bnd = pick([b'b', b'XX', b'--b', b'bound', b'-', b'aab', b'aaa', b'\nx', b'----------'] + ([word(LOW, 1, 70)]))
    clen = pick([None, None, None, 0, 1, 3, 7])
    out = b'--' + bnd + b'\r\n'
    for i in range(R.randint(1, 3)):
        out += headers(0, 2)
        if clen is not None:
            out += bytes(pick(b'ab\r\n-') for _ in range(clen))
        else:
            for _ in range(R.randint(0, 6)):
                out += pick([b'a', b'xyz', b'\r', b'\n', b'\r\n', b'\r\n-', b'\r\n--', b'\r\n--' + bnd[:-1], b'\r\r\n', b'-', b'--' + bnd, b'\r\n--' + bnd[:len(bnd) // 2] + b'Q',
                             bytes([R.randrange(256)]), b'\x00\xff'])
        out += b'\r\n--' + bnd + (b'\r\n' if R.random() < .6 else b'--')
    if not out.endswith(b'--'):
        out += headers(0, 1) + b'zz\r\n--' + bnd + b'--'
    return out, bnd, clen


def gen_url():
    out = b''
    for _ in range(R.randint(0, 12)):
        out += pick([b'a', b'name', b'=', b'&', b';', b'+', b'%41', b'%7e', b'%e9', b'%fF', b'value', b'&b=c', b'%', b'%4', b'~', b'!'])
    return out


INTEREST = [0, 9, 10, 13, 32, 33, 34, 37, 38, 43, 44, 45, 46, 47, 48, 57, 58, 59, 61, 64, 65, 70, 71, 72, 84, 80, 90, 91, 92, 96, 97, 102, 103, 122, 123, 126, 127, 128, 255]


def mutate(d):
    k = R.random()
    d = bytearray(d)
    if not d:
        return bytes([pick(INTEREST)])
    i = R.randrange(len(d))
    if k < .6:
        d[i] = pick(INTEREST) if R.random() < .7 else R.randrange(256)
    elif k < .75:
        d.insert(i, pick(INTEREST))
    elif k < .9:
        del d[i]
    else:
        del d[i:]
    return bytes(d)


def chunkings(n, count):
    out = [[n]] if n else [[]]
    for _ in range(count):
        k = R.random()
        if k < .25:
            out.append([1] * n)
        elif k < .6 and n > 1:
            a = R.randrange(1, n)
            out.append([a, n - a])
        else:
            c, left = [], n
            while left:
                x = min(left, R.choice([1, 1, 2, 3, 5, 8, 13, 30]))
                c.append(x)
                left -= x
            out.append(c)
    return out


def pauses(count):
    out = []
    for _ in range(count):
        k = R.random()
        out.append('all' if k < .4 else ','.join(str(x) for x in sorted(R.sample(range(12), R.randint(1, 5)))))
    return out


PRE_TOKS = None


def prehistory():
    """a parser that has already been used, for another message or halfway through one"""
    t = []
    for _ in range(R.randint(1, 2)):
        typ = pick(TYPES)
        t.append(INIT[typ])
        if typ == 'multipart':
            d, b, c = gen_multipart()
            t += ['b:' + b.hex(), 'c:%s' % ('-' if c is None else c)]
        else:
            d = {'head': gen_head, 'chunked': gen_chunked, 'url': gen_url}[typ]()
            if typ == 'url':
                t.append('l:%d' % R.randint(0, len(d) + 3))
        if R.random() < .6:
            d = d[:R.randrange(len(d) + 1)]
        if R.random() < .3:
            d = mutate(d)
        t += ['p:' + pick(['none', 'all', '1,2'])]
        t.append(pick(['s:', 't:']) + d.hex())
    return t, typ


def make(typ, data, chunks, pause, aux, start, pre=None):
    return Case(typ, data, chunks, pause, boundary=aux.get('b', b''), length=aux.get('l'), clen=aux.get('c'), start=start, pre=pre)


def message(typ):
    aux = {}
    if typ == 'multipart':
        d, aux['b'], aux['c'] = gen_multipart()
    else:
        d = {'head': gen_head, 'chunked': gen_chunked, 'url': gen_url}[typ]()
    for _ in range(pick([0, 0, 1, 1, 2])):
        d = mutate(d)
    if R.random() < .04 and d:
        i = R.randrange(len(d))
        d = d[:i] + d[i:i + 1] * (pick(INTS) + pick([-1, 0, 0, 1])) + d[i:]
    if typ == 'url':
        aux['l'] = pick([len(d), len(d), len(d), max(0, len(d) - R.randint(0, 4)), len(d) + R.randint(1, 5), BIG])
    start = 'init'
    if typ == 'head' and R.random() < .3:
        start = 'new'
    return d, aux, start


def group(typ, nvar=3, msg=None):
    """the same message whole, in pieces and with pauses; [0] is the reference run"""
    d, aux, start = msg or message(typ)
    out = [make(typ, d, [len(d)] if d else [], 'none', aux, start)]
    for c in chunkings(len(d), nvar)[1:]:
        out.append(make(typ, d, c, 'none', aux, start))
        out[-1].kind = 'frag'
    for p in pauses(2):
        out.append(make(typ, d, [len(d)] if d else [], p, aux, start))
        out[-1].kind = 'pause'
    c = chunkings(len(d), 1)[-1]
    out.append(make(typ, d, c, pick(['all', '0,3', '2']), aux, start))
    out[-1].kind = 'mixed'
    if R.random() < .4:
        t, lt = prehistory()
        st = 'init'
        if lt == typ and R.random() < .5:
            st = 'reset'
        out.append(make(typ, d, [len(d)] if d else [], 'none', aux, st, t))
        out[-1].kind = 'reinit'
        if start == 'new':
            out.pop()
    return out


def exhaust_split(typ, msg):
    """one message, every two-way split"""
    d, aux, start = msg
    out = [make(typ, d, [len(d)] if d else [], 'none', aux, start)]
    for i in range(1, len(d)):
        out.append(make(typ, d, [i, len(d) - i], 'none', aux, start))
        out[-1].kind = 'frag'
    out.append(make(typ, d, [1] * len(d), 'all', aux, start))
    out[-1].kind = 'mixed'
    return out


# ------------------------------------------------------------------ self-consistency views (no oracle)

def view(log):
    """what an observer sees, without fragmentation: flattened callbacks, how it ended, how much was consumed"""
    flat, end, used, err = [], None, 0, None
    for x in log:
        if x[0] == 'D':
            flat.extend(('d', x[1], c) for c in x[2])
        elif x[0] in ('e', 'x'):
            flat.append(x)
        elif x[0] == 'r':
            if end is None or end in ('Eos', 'Callback'):
                end = x[1]
    bc = None
    rs = [x for x in log if x[0] == 'r']
    return flat, end, rs[-1][3] if rs else None


def same(a, b, typ):
    """are two runs over the same bytes the same to an observer? None or message"""
    (fa, ea, ba), (fb, eb, bb) = a, b
    if ea is not None and ea.startswith('<') and eb is not None and eb.startswith('<'):
        # data still buffered inside the parser when it gives up may or may not have been delivered
        n = min(len(fa), len(fb))
        if fa[:n] != fb[:n] or any(x[0] == 'e' for x in fa[n:] + fb[n:]):
            return 'callbacks differ'
        ka, kb = ea.split(':')[2], eb.split(':')[2]
        if ka.rstrip('>') != kb.rstrip('>'):
            return 'errors differ: %s / %s' % (ea, eb)
        if 'MultipartBoundary' not in ea and (ea != eb or ba != bb):
            return 'errors differ: %s after %s bytes / %s after %s bytes' % (ea, ba, eb, bb)
        return None
    if fa != fb:
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x != y:
                return 'callbacks differ at %d: %s / %s' % (i, x, y)
        return 'one run makes %d callbacks/bytes more' % abs(len(fa) - len(fb))
    if ea != eb:
        return 'ended %s / %s' % (ea, eb)
    if ba != bb:
        return 'byte_count() %s / %s' % (ba, bb)
    return None
