"""Machines that run the executable specifications.

A specification is plain Python written against the small interface below.  `ConcM` runs it on real
bytes (the oracle used when a refuted obligation is replayed against the compiled crate); `SymM` runs
the very same code on symbolic bytes inside the verifier, forking on undecided conditions.
"""
import z3
from sym import add, sub, is_c, bv, zext, norm, mkbool, in_ranges, veq, vle, band, bor, bnot, Kill, cmp_
from sym import Unsupported


def mulc(a, k, w=64):
    if is_c(a):
        return (a * k) % (1 << w)
    return norm(a * z3.BitVecVal(k, w))


def shlc(a, k, w=64):
    if is_c(a):
        return (a << k) % (1 << w)
    return norm(a << z3.BitVecVal(k, w))


def shr(a, k, w=64):
    if is_c(a):
        return a >> k
    return norm(z3.LShR(a, k))


def or_(a, b, w=64):
    if is_c(a) and is_c(b):
        return a | b
    return norm(bv(a, w) | bv(b, w))


def and_(a, b, w=64):
    if is_c(a) and is_c(b):
        return a & b
    return norm(bv(a, w) & bv(b, w))


_RC = {}


class Base:
    def isin(self, b, s):
        if is_c(b):
            return b in s
        k = (b.get_id(), s)
        c = _RC.get(k)
        if c is None:
            c = _RC[k] = (mkbool(in_ranges(b, sorted(s), 8)), b)
        return self.cond(c[0])

    def eq(self, a, k, w=8):
        return self.cond(veq(a, k, w))

    def le(self, a, k, w=64):
        return self.cond(vle(a, k, w))

    def dig(self, b):
        """digit value as a 64-bit term"""
        return zext(sub(b, 48, 8), 8, 64)

    def hexval(self, b):
        if self.isin(b, DIGIT):
            return zext(sub(b, 48, 8), 8, 64)
        if self.isin(b, UPPER):
            return zext(sub(b, 0x37, 8), 8, 64)
        return zext(sub(b, 0x57, 8), 8, 64)

    def w64(self, b):
        return zext(b, 8, 64)

    def w8(self, v):
        return zext(v, 64, 8)


DIGIT = frozenset(range(48, 58))
UPPER = frozenset(range(65, 91))


class ConcM(Base):
    """concrete run"""

    def __init__(self, spec, q, regs):
        self.spec, self.q, self.r = spec, q, dict(regs)
        self.log = []
        self.conc = True

    def cond(self, c):
        assert isinstance(c, bool)
        return c

    def data(self, ch, by):
        if self.log and self.log[-1][0] == 'd' and self.log[-1][1] == ch:
            self.log[-1] = ('d', ch, self.log[-1][2] + by)
        else:
            self.log.append(('d', ch, by))

    def emit(self, ch):
        self.data(ch, bytes([self.b]))

    def out(self, ch, v):
        self.data(ch, bytes([v]))

    def out_const(self, ch, s):
        if s:
            self.data(ch, bytes(s))

    out_back = out_const

    def out_boundary(self, ch, k):
        self.out_const(ch, self.boundary[:k])

    def bnd(self, k):
        return self.boundary[k]

    def event(self, name, *args):
        self.log.append(('e', name) + tuple(args))


class SymM(Base):
    def __init__(self, ex, st, dec):
        self.ex, self.st, self.dec, self.i = ex, st, dec, 0
        self.alts = []
        self.conc = False

    # state proxies
    @property
    def q(self):
        return self.st.q

    @q.setter
    def q(self, v):
        self.st.q = v

    @property
    def r(self):
        return self.st.regs

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if self.i < len(self.dec):
            v = self.dec[self.i]
            self.i += 1
            self.ex.assume(self.st, c if v else bnot(c))
            return v
        ex, st = self.ex, self.st
        t = ex.feasible(st, c)
        f = ex.feasible(st, bnot(c))
        if t and f:
            self.alts.append(self.dec + [False])
            self.dec = self.dec + [True]
            self.i += 1
            ex.assume(st, c)
            return True
        self.dec = self.dec + [t]
        self.i += 1
        if not t and not f:
            raise Kill()
        ex.learn(st, c if t else bnot(c))
        return t

    def push(self, item):
        q = self.st.queue
        if q and item[0] == 'sl' and q[-1][0] == 'sl' and q[-1][1:3] == item[1:3] and veq(q[-1][4], item[3]) is True:
            self.st.queue = q[:-1] + (('sl', item[1], item[2], q[-1][3], item[4]),)
        else:
            self.st.queue = q + (item,)

    def emit(self, ch):
        self.push(('sl', ch, ('S',), self.pos, add(self.pos, 1)))

    def emit_range(self, ch, a, b):
        self.push(('sl', ch, ('S',), a, b))

    def out(self, ch, v):
        self.push(('by', ch, v))

    def out_const(self, ch, s):
        for c in s:
            self.push(('by', ch, c))

    def out_back(self, ch, s):
        """constant output that the bytes just read may equal"""
        ex, st, n = self.ex, self.st, len(s)
        a = sub(st.g, n)
        if n and ex.valid(st, band(vle(n, st.g), *[veq(ex.read_byte(st, ('S',), add(a, i)), c, 8) for i, c in enumerate(s)])):
            self.emit_range(ch, a, st.g)
        else:
            self.out_const(ch, s)

    def out_boundary(self, ch, k):
        if self.cond(veq(k, 0)):
            return
        self.push(('sl', ch, ('B',), 0, k))

    def bnd(self, k):
        return self.ex.read_byte(self.st, ('B',), k)

    def event(self, name, *args):
        self.push(('ev', name) + tuple(args))


def run_sym(ex, st, fn):
    """run fn(machine) on every feasible decision vector; returns the resulting states"""
    out = []
    work = [[]]
    while work:
        dec = work.pop()
        s = st.fork() if work or out or True else st
        m = SymM(ex, s, dec)
        try:
            fn(m)
            out.append(s)
        except Kill:
            pass
        work.extend(m.alts)
        if len(out) > 400:
            raise Unsupported('specification forks too much')
    return out
