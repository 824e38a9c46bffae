"""Symbolic values and the MIR executor (path-wise verification condition generation).

Integers are raw values: python int (concrete, reduced modulo 2**width) or a z3 bit-vector of the
machine width, so machine arithmetic is exact.  Aggregates are immutable and memory is a dict from
cells to values, which makes copying a path state cheap.
"""
import heapq, re, itertools
import z3
from mirparse import Unsupported, parse_place, parse_operand, split_top, strip_generics, find_close

WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64,
         'isize': 64, 'u128': 128, 'i128': 128, 'char': 32}


class Int:
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty):
        self.v = v
        self.ty = ty

    def __repr__(self):
        return '%s_%s' % (self.v, self.ty)


class Struct:
    __slots__ = ('name', 'variant', 'fields')

    def __init__(self, name, fields=(), variant=None):
        self.name = name
        self.fields = tuple(fields)
        self.variant = variant

    def __repr__(self):
        return '%s%s%r' % (self.name, '::' + self.variant if self.variant else '', self.fields)


class Arr:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Ref:
    __slots__ = ('cell', 'proj')

    def __init__(self, cell, proj=()):
        self.cell = cell
        self.proj = tuple(proj)

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.cell, self.proj)


class SliceRef:
    """fat pointer into a byte object"""
    __slots__ = ('obj', 'start', 'len')

    def __init__(self, obj, start, ln):
        self.obj = obj
        self.start = start
        self.len = ln

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.obj, self.start, self.len)


class ElemRef:
    __slots__ = ('obj', 'idx')

    def __init__(self, obj, idx):
        self.obj = obj
        self.idx = idx


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn ' + self.name


class VecV:
    """Vec<u8>/String contents: tuple of ('c', bytes) | ('b', raw8) | ('s', obj, start, len)"""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)


class Opaque:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


UNIT = Struct('()')


class AnyBytes:
    """raw bytes object descriptor wrapper for Vec contents (hashable by identity)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs


# ------------------------------------------------------------------ raw arithmetic

def is_c(v):
    return isinstance(v, int)


def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def norm(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def add(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a + b) % (1 << w)
    if is_c(b) and b == 0:
        return a
    if is_c(a) and a == 0:
        return b
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a - b) % (1 << w)
    if is_c(b) and b == 0:
        return a
    return norm(bv(a, w) - bv(b, w))


def zext(v, w, w2):
    if is_c(v):
        return v
    if w == w2:
        return v
    if w2 > w:
        return z3.ZeroExt(w2 - w, v)
    return norm(z3.Extract(w2 - 1, 0, v))


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def cmp_(op, a, b, w, signed):
    if is_c(a) and is_c(b):
        if signed:
            h = 1 << (w - 1)
            a = a - (1 << w) if a >= h else a
            b = b - (1 << w) if b >= h else b
        return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
    A, B = bv(a, w), bv(b, w)
    if op == 'Eq':
        return mkbool(A == B)
    if op == 'Ne':
        return mkbool(A != B)
    if signed:
        return mkbool({'Lt': A < B, 'Le': A <= B, 'Gt': A > B, 'Ge': A >= B}[op])
    return mkbool({'Lt': z3.ULT(A, B), 'Le': z3.ULE(A, B), 'Gt': z3.UGT(A, B), 'Ge': z3.UGE(A, B)}[op])


def veq(a, b, w=64):
    return cmp_('Eq', a, b, w, False)


def vle(a, b, w=64):
    return cmp_('Le', a, b, w, False)


def bnot(b):
    return (not b) if isinstance(b, bool) else mkbool(z3.Not(b))


def band(*bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*bs):
    out = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


_UF = {}


def byte_of(obj, idx):
    """raw byte of an abstract byte object ('S' stream, 'B' boundary, ...) at index"""
    f = _UF.get(obj)
    if f is None:
        f = _UF[obj] = z3.Function('mem_' + '_'.join(map(str, obj)), z3.BitVecSort(64), z3.BitVecSort(8))
    return f(bv(idx, 64))


# ------------------------------------------------------------------ state

class Frame:
    __slots__ = ('fn', 'block', 'idx', 'ret', 'retblk', 'fid', 'wrap')

    def __init__(self, fn, block, idx, ret, retblk, fid, wrap=None):
        self.fn, self.block, self.idx, self.ret, self.retblk, self.fid = fn, block, idx, ret, retblk, fid
        self.wrap = wrap      # (enum, variant) the caller puts around the result (Option::map and the like)

    def copy(self):
        return Frame(self.fn, self.block, self.idx, self.ret, self.retblk, self.fid, self.wrap)


class St:
    __slots__ = ('frames', 'mem', 'pc', 'q', 'regs', 'g', 'queue', 'known', 'paused', 'facts', 'model', 'trace', 'extra', 'unrolled')

    def __init__(self):
        self.frames = []
        self.unrolled = {}     # loop heads passed with a concrete counter on this path
        self.mem = {}
        self.pc = ()
        self.q = None          # spec control state
        self.regs = {}         # spec registers (raw 64-bit)
        self.g = 0             # spec cursor in the current stream
        self.queue = ()        # spec output not yet delivered
        self.known = {}        # (obj, idx id) -> concrete byte
        self.paused = False
        self.facts = ()
        self.model = None
        self.trace = ()
        self.extra = {}

    def fork(self):
        s = St.__new__(St)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc, s.q, s.regs, s.g, s.queue = self.pc, self.q, dict(self.regs), self.g, self.queue
        s.known, s.paused, s.facts, s.model, s.trace = dict(self.known), self.paused, self.facts, self.model, self.trace
        s.extra = dict(self.extra)
        s.unrolled = self.unrolled
        return s


class Kill(Exception):
    """this path ends here (failure already recorded, or infeasible)"""


# ------------------------------------------------------------------ solver

class Solver:
    def __init__(self, timeout_ms=20000):
        self.t = 0.0
        self.n = 0
        self.timeout = timeout_ms
        self.unknown = 0
        self.cache = {}
        self.hard = 0
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', 2000)
        self.stack = []
        self.uses = 0

    def inc(self, cs):
        """the incremental solver with exactly cs asserted; conjuncts shared with the last query are kept"""
        self.uses += 1
        if self.uses > 3000:
            self.reset()
        k = 0
        st = self.stack
        while k < len(st) and k < len(cs) and st[k] == cs[k].get_id():
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            del st[k:]
        for c in cs[k:]:
            self.s.push()
            self.s.add(c)
            st.append(c.get_id())
        return self.s

    def check(self, conds):
        """'sat' -> model, 'unsat' -> None ; raises Unsupported on unknown"""
        import time
        cs = [c for c in conds if c is not True]
        for c in cs:
            if c is False:
                return None
        if not cs:
            return True
        key = frozenset(c.get_id() for c in cs)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        t = time.time()
        s = self.inc(cs)
        r = s.check()
        self.n += 1
        if r == z3.unknown:
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', self.timeout)
            s.add(*cs)
            r = s.check()
            self.hard += 1
        self.t += time.time() - t
        if r == z3.unsat:
            m = None
        elif r == z3.sat:
            m = s.model()
        else:
            self.unknown += 1
            raise Unsupported('solver answered unknown')
        self.cache[key] = (m, cs)
        return m


def mtrue(model, c):
    """does the model satisfy c?"""
    if isinstance(c, bool):
        return c
    return z3.is_true(model.eval(c, model_completion=True))


# ------------------------------------------------------------------ executor

class Exec:
    """drives path states; subclasses provide the ghost hooks"""

    def __init__(self, prog, solver):
        self.P = prog
        self.S = solver
        self.fresh_n = itertools.count()
        self.oblig = 0
        self.folded = 0
        self.by_cat = {}
        self.fails = []
        self.fns_used = set()
        self.builtins_used = set()
        self.paths = 0
        self.max_states = 60000

    # -- helpers
    def fresh(self, name, w):
        return z3.BitVec('%s!%d' % (name, next(self.fresh_n)), w)

    def fresh_bool(self, name):
        return z3.Bool('%s!%d' % (name, next(self.fresh_n)))

    def feasible(self, st, c):
        """is pc & c satisfiable? updates nothing"""
        if c is False:
            return False
        if c is True:
            return True
        if st.model is not None and st.model is not True and mtrue(st.model, c):
            return True
        return self.S.check(st.pc + (c,)) is not None

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise Kill()
        st.pc = st.pc + (c,)
        self.learn(st, c)
        if st.model is not None and st.model is not True and mtrue(st.model, c):
            return
        m = self.S.check(st.pc)
        if m is None:
            raise Kill()
        st.model = m

    def learn(self, st, c):
        """remember bytes fixed to a constant"""
        if z3.is_and(c):
            for x in c.children():
                self.learn(st, x)
        elif z3.is_eq(c):
            a, b = c.children()
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b) and z3.is_app(a) and a.num_args() == 1 and a.decl().name().startswith('mem_'):
                st.known[a.get_id()] = (b.as_long(), a)

    def split(self, st, c):
        """[(state, bool)] for the feasible outcomes of condition c"""
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        f = st.fork()
        try:
            self.assume(f, bnot(c))
            out.append((f, False))
        except Kill:
            pass
        if not out:
            st.pc = st.pc
            self.learn(st, c)
            return [(st, True)]
        try:
            self.assume(st, c)
            out.insert(0, (st, True))
        except Kill:
            pass
        return out

    def prove(self, st, c, cat, msg):
        """obligation: pc -> c. On failure record it, then assume c to look for further failures."""
        self.oblig += 1
        self.by_cat[cat] = self.by_cat.get(cat, 0) + 1
        if c is True:
            self.folded += 1
            return True
        m = True
        if c is not False:
            if st.model is not None and st.model is not True and not mtrue(st.model, c):
                m = st.model
            else:
                m = self.S.check(st.pc + (bnot(c),))
        elif st.model is not None:
            m = st.model
        if m is None:
            return True
        self.fail(st, cat, msg, m)
        self.assume(st, c)     # raises Kill when impossible
        return False

    def where(self, st):
        return '/'.join('%s:%s' % (f.fn.name.rsplit('::', 1)[-1], f.block) for f in st.frames)

    def fail(self, st, cat, msg, model=None):
        self.fails.append({'cat': cat, 'msg': msg, 'where': self.where(st), 'model': model, 'st': st.fork()})

    # -- memory
    def read_byte(self, st, obj, idx):
        """raw u8 at obj[idx] (bounds already checked)"""
        if isinstance(obj, AnyBytes):
            return self.seg_byte(st, obj.segs, idx)
        k = obj[0]
        if k == 'const':
            if is_c(idx):
                return obj[1][idx]
            r = bv(0, 8)
            for i in range(len(obj[1]) - 1, -1, -1):
                r = z3.If(idx == i, bv(obj[1][i], 8), r)
            return norm(r)
        if k == 'cell':
            v = self.get_path(st, st.mem[obj[1]], obj[2])
            if isinstance(v, Arr):
                if is_c(idx):
                    return v.items[idx].v
                r = bv(v.items[-1].v, 8)
                for i in range(len(v.items) - 2, -1, -1):
                    r = z3.If(bv(idx, 64) == i, bv(v.items[i].v, 8), r)
                return norm(r)
            if isinstance(v, VecV):
                return self.seg_byte(st, v.segs, idx)
            raise Unsupported('byte of ' + repr(v))
        t = byte_of(obj, idx)
        kn = st.known.get(t.get_id())
        if kn is not None:
            return kn[0]
        return t

    def seg_byte(self, st, segs, idx):
        if not is_c(idx):
            n = sum(len(x[1]) if x[0] == 'c' else 1 if x[0] == 'b' else x[3] if is_c(x[3]) else 1000 for x in segs)
            if not 0 < n <= 64:
                raise Unsupported('symbolic index into vector')
            r = bv(self.seg_byte(st, segs, n - 1), 8)
            for i in range(n - 2, -1, -1):
                r = z3.If(idx == i, bv(self.seg_byte(st, segs, i), 8), r)
            return norm(r)
        for s in segs:
            if s[0] == 'c':
                if idx < len(s[1]):
                    return s[1][idx]
                idx -= len(s[1])
            elif s[0] == 'b':
                if idx == 0:
                    return s[1]
                idx -= 1
            else:
                if not is_c(s[3]):
                    raise Unsupported('index past symbolic segment')
                if idx < s[3]:
                    return self.read_byte(st, s[1], add(s[2], idx))
                idx -= s[3]
        raise Unsupported('index out of vector')

    def get_path(self, st, v, proj):
        for p in proj:
            if p[0] == 'field':
                if isinstance(v, Struct):
                    v = v.fields[p[1]]
                else:
                    raise Unsupported('field of %r' % (v,))
            elif p[0] == 'variant':
                if not isinstance(v, Struct) or v.variant != p[1]:
                    raise Unsupported('downcast %r to %s' % (v, p[1]))
            elif p[0] == 'idx':
                if isinstance(v, Arr) and is_c(p[1]):
                    v = v.items[p[1]]
                else:
                    raise Unsupported('index of %r' % (v,))
            else:
                raise Unsupported('path')
        return v

    def set_path(self, v, proj, nv):
        if not proj:
            return nv
        p = proj[0]
        if p[0] == 'field':
            if not isinstance(v, Struct):
                raise Unsupported('set field of %r' % (v,))
            f = list(v.fields)
            f[p[1]] = self.set_path(f[p[1]], proj[1:], nv)
            return Struct(v.name, f, v.variant)
        if p[0] == 'variant':
            if v.variant != p[1]:
                raise Unsupported('set through downcast')
            return self.set_path(v, proj[1:], nv)
        if p[0] == 'idx':
            if isinstance(v, Arr) and is_c(p[1]):
                it = list(v.items)
                it[p[1]] = self.set_path(it[p[1]], proj[1:], nv)
                return Arr(it)
        raise Unsupported('set path')

    def resolve_place(self, st, place):
        """-> ('mem', cell, proj) | ('elem', obj, idx) | ('slice', SliceRef) for a deref'd slice"""
        loc, proj = place
        fid = st.frames[-1].fid
        cur = ('mem', (fid, loc), ())
        for p in proj:
            if p[0] == 'deref':
                v = self.load(st, cur)
                if isinstance(v, Ref):
                    cur = ('mem', v.cell, v.proj)
                elif isinstance(v, ElemRef):
                    cur = ('elem', v.obj, v.idx)
                elif isinstance(v, SliceRef):
                    cur = ('slice', v)
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif p[0] == 'field':
                if cur[0] != 'mem':
                    raise Unsupported('field of elem')
                cur = ('mem', cur[1], cur[2] + (('field', p[1]),))
            elif p[0] == 'variant':
                cur = ('mem', cur[1], cur[2] + (('variant', p[1]),))
            elif p[0] in ('index', 'cindex'):
                if p[0] == 'index':
                    i = self.load(st, ('mem', (fid, p[1]), ())).v
                    icell = (fid, p[1])
                else:
                    i = p[1]
                if cur[0] == 'slice':
                    sr = cur[1]
                    if p[0] == 'cindex' and p[2]:
                        i = sub(sr.len, i)
                    cur = ('elem', sr.obj, add(sr.start, i))
                else:
                    v = self.load(st, cur)
                    if isinstance(v, Arr) and p[0] == 'cindex' and p[2]:
                        i = len(v.items) - i
                    if isinstance(v, Arr) and all(isinstance(x, Int) for x in v.items) and not is_c(i):
                        cur = ('arrsel', v, i, cur)
                    elif is_c(i):
                        cur = ('mem', cur[1], cur[2] + (('idx', i),))
                    elif isinstance(v, Arr) and v.items and isinstance(v.items[0], (Struct, Arr)) and p[0] == 'index':
                        raise NeedIndex(icell, i, len(v.items))
                    else:
                        cur = ('arrsel', v, i, cur)
            elif p[0] == 'subslice':
                if cur[0] != 'slice':
                    raise Unsupported('subslice')
                sr = cur[1]
                end = sub(sr.len, p[2]) if p[3] else p[2]
                cur = ('slice', SliceRef(sr.obj, add(sr.start, p[1]), sub(end, p[1])))
            else:
                raise Unsupported('place elem ' + p[0])
        return cur

    def load(self, st, r):
        if r[0] == 'mem':
            if r[1] not in st.mem:
                raise Unsupported('read of dead cell %s' % (r[1],))
            return self.get_path(st, st.mem[r[1]], r[2])
        if r[0] == 'elem':
            return Int(self.read_byte(st, r[1], r[2]), 'u8')
        if r[0] == 'slice':
            return r[1]
        if r[0] == 'arrsel':
            v, i = r[1], r[2]
            if not isinstance(v, Arr):
                raise Unsupported('array select')
            it = v.items
            if isinstance(it[0], bool):
                yes = [k for k, x in enumerate(it) if x is True]
                return mkbool(in_ranges(i, yes, 64))
            if isinstance(it[0], Int):
                w = WIDTH[it[0].ty]
                e = bv(it[-1].v, w)
                for k in range(len(it) - 2, -1, -1):
                    e = z3.If(bv(i, 64) == k, bv(it[k].v, w), e)
                return Int(norm(e), it[0].ty)
            raise Unsupported('array select of aggregates')
        raise Unsupported('load')

    def store(self, st, place, v):
        r = self.resolve_place(st, place)
        if r[0] == 'arrsel' and r[3][0] == 'mem' and isinstance(r[1], Arr) and isinstance(v, Int) and all(isinstance(x, Int) for x in r[1].items):
            w = WIDTH[v.ty]
            items = [Int(norm(z3.If(bv(r[2], 64) == k, bv(v.v, w), bv(x.v, w))), v.ty) for k, x in enumerate(r[1].items)]
            v = Arr(items)
            r = r[3]
        if r[0] != 'mem':
            raise Unsupported('store through ' + r[0])
        if not r[2]:
            st.mem[r[1]] = v
        else:
            if r[1] not in st.mem:
                # field-wise initialisation of an uninitialised local
                raise Unsupported('store into dead cell')
            st.mem[r[1]] = self.set_path(st.mem[r[1]], r[2], v)

    # -- operands
    def operand(self, st, op):
        if op[0] in ('copy', 'move'):
            return self.load(st, self.resolve_place(st, op[1]))
        if op[0] == 'fnitem':
            return FnPtr(op[1])
        return self.const(st, op[1])

    def const(self, st, t):
        if t == '()':
            return UNIT
        if t == 'true':
            return True
        if t == 'false':
            return False
        m = re.match(r'(-?\d+)_(\w+)$', t)
        if m and m.group(2) in WIDTH:
            return Int(int(m.group(1)) % (1 << WIDTH[m.group(2)]), m.group(2))
        if t.startswith('b"'):
            return SliceRef(('const', unescape(t[2:-1])), 0, len(unescape(t[2:-1])))
        if t.startswith('"'):
            s = unescape(t[1:-1])
            return SliceRef(('const', s), 0, len(s))
        m = re.match(r"b?'(.*)'$", t)
        if m:
            return Int(unescape(m.group(1))[0], 'u8' if t[0] == 'b' else 'char')
        m = re.match(r'\{(alloc\d+): &', t)
        if m:
            return self.alloc_ref(st, m.group(1))
        m = re.match(r'(?:core::num::<impl )?(u8|u16|u32|u64|usize)(?:>)?::(MAX|MIN|BITS)$', t)
        if m:
            w = WIDTH[m.group(1)]
            return Int({'MAX': (1 << w) - 1, 'MIN': 0}[m.group(2)], m.group(1)) if m.group(2) != 'BITS' else Int(w, 'u32')
        key = t
        c = self.P.consts.get(key)
        if c is None:
            cn = strip_generics(t)
            segs = cn.split('::')
            hits = [(k, x) for k, x in self.P.consts.items() if k == segs[-1] or k.endswith('::' + segs[-1])]
            if 'promoted' in t:
                hits = self.find_promoted(t)
            if len(hits) > 1:
                h2 = [(k, x) for k, x in hits if all(s in k for s in segs[-2:-1])]
                hits = h2 or hits
            if len(hits) == 1 or (hits and all(x == hits[0][1] for _, x in hits)):
                key, c = hits[0]
        if c is None:
            if self.P.resolve(t) or re.match(r'[\w:<>\' ,]+$', t):
                return FnPtr(t)
            raise Unsupported('const ' + t)
        if c[0] == 'lit':
            return self.const(st, re.sub(r'^const ', '', c[1]))
        return self.eval_const_fn(st, key, c[1])

    def find_promoted(self, t):
        m = re.match(r'(.*)::(\w+)::promoted\[(\d+)\]$', strip_generics(t))
        if not m:
            return []
        tail = '::%s::promoted[%s]' % (m.group(2), m.group(3))
        hits = [(k, x) for k, x in self.P.consts.items() if k.endswith(tail) or k == tail[2:]]
        if len(hits) > 1:
            ty = m.group(1).split('::')[-1].strip('<>').split(' ')[0]
            out = []
            for k, x in hits:
                f = x[1]
                info = self.P.impl_info(f) if x[0] == 'fn' else None
                if info and info[1] == ty:
                    out.append((k, x))
            hits = out or hits
        return hits

    def eval_const_fn(self, st, key, fn):
        cell = ('promo', key)
        if cell in st.mem:
            return st.mem[cell]
        self.P.prepare(fn)
        sub_ = St()
        sub_.frames = [Frame(fn, 'bb0', 0, None, None, ('K', key))]
        sub_.mem = st.mem
        # straight-line constant evaluation
        f = sub_.frames[0]
        while True:
            for s in fn.blocks[f.block]:
                if s[0] == 'return':
                    v = sub_.mem[(f.fid, 0)]
                    st.mem[cell] = v
                    return v
                if s[0] == 'goto':
                    f.block = s[1]
                    break
                if s[0] == 'assign':
                    self.assign(sub_, s)
                elif s[0] in ('nop', 'dead'):
                    pass
                elif s[0] == 'assert':
                    f.block = s[4]
                    break
                elif s[0] == 'call' and re.match(r'(?:std|core)::ops::RangeInclusive::<\w+>::new$', s[2]):
                    import builtins_more
                    builtins_more.call(self, sub_, s, s[2], [self.operand(sub_, o) for o in s[3]])
                    break
                else:
                    raise Unsupported('const fn ' + key)

    def alloc_ref(self, st, name):
        a = self.P.allocs.get(name)
        if a is None:
            raise Unsupported('alloc ' + name)
        if a[0] == 'bytes':
            return SliceRef(('const', a[1]), 0, len(a[1]))
        cell = ('static', a[1])
        if cell not in st.mem:
            c = self.P.consts.get(a[1])
            if not c:
                hits = [x for k, x in self.P.consts.items() if k.split('::')[-1] == a[1].split('::')[-1]]
                c = hits[0] if len(hits) == 1 else None
            if not c or c[0] != 'fn':
                raise Unsupported('static ' + a[1])
            st.mem[cell] = self.eval_const_fn(st, 'static ' + a[1], c[1])
        return Ref(cell)

    # -- rvalues
    def assign(self, st, s):
        self.store(st, s[1], self.rvalue(st, s[2], s[1]))

    def place_ty(self, st, place):
        loc, proj = place
        ty = st.frames[-1].fn.types.get(loc, '')
        for p in proj:
            if p[0] == 'field':
                ty = p[2]
        return ty

    def rvalue(self, st, rv, dest=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1])
        if k == 'ref':
            r = self.resolve_place(st, rv[2])
            if r[0] == 'mem':
                return Ref(r[1], r[2])
            if r[0] == 'elem':
                return ElemRef(r[1], r[2])
            if r[0] == 'slice':
                return r[1]
            raise Unsupported('ref to ' + r[0])
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]))
        if k == 'un':
            v = self.operand(st, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, Int):
                    w = WIDTH[v.ty]
                    return Int(((1 << w) - 1) ^ v.v if is_c(v.v) else norm(~v.v), v.ty)
                return bnot(v)
            if rv[1] == 'Neg':
                return Int(sub(0, v.v, WIDTH[v.ty]), v.ty)
            if rv[1] == 'PtrMetadata':
                if isinstance(v, SliceRef):
                    return Int(v.len, 'usize')
                if isinstance(v, Ref):
                    t = self.get_path(st, st.mem[v.cell], v.proj)
                    if isinstance(t, SliceRef):
                        return Int(t.len, 'usize')
                    if isinstance(t, Arr):
                        return Int(len(t.items), 'usize')
            raise Unsupported('unop %s of %r' % (rv[1], v))
        if k == 'cast':
            return self.cast(st, rv)
        if k == 'discr':
            v = self.load(st, self.resolve_place(st, rv[1]))
            return self.discr(st, v, self.place_ty(st, rv[1]))
        if k == 'len':
            v = self.load(st, self.resolve_place(st, rv[1]))
            if isinstance(v, SliceRef):
                return Int(v.len, 'usize')
            if isinstance(v, Arr):
                return Int(len(v.items), 'usize')
            raise Unsupported('len')
        if k == 'tuple':
            return Struct('()', [self.operand(st, o) for o in rv[1]])
        if k == 'array':
            return Arr([self.operand(st, o) for o in rv[1]])
        if k == 'repeat':
            n = re.sub(r'_usize$', '', rv[2].replace('const ', ''))
            if not n.isdigit() or int(n) > 4096:
                raise Unsupported('repeat')
            return Arr([self.operand(st, rv[1])] * int(n))
        if k == 'closure':
            return Struct(rv[1], [self.operand(st, o) for o in rv[2]])
        if k == 'agg':
            return self.aggregate(st, rv, dest)
        raise Unsupported('rvalue ' + k)

    def aggregate(self, st, rv, dest):
        name = strip_generics(rv[1])
        vals = [self.operand(st, o) for o in rv[2]]
        segs = name.split('::')
        if len(segs) >= 2:
            vs = self.P.enum_variants('::'.join(segs[:-1]))
            if vs and segs[-1] in vs:
                return Struct(segs[-2] if segs[-2] not in ('Option', 'Result') else segs[-2], vals, segs[-1])
        return Struct(segs[-1], vals)

    def discr(self, st, v, ty=''):
        if isinstance(v, Struct) and v.variant:
            if v.name == 'SymEnum':
                return v.fields[0]
            vs = self.enum_of(v, ty)
            return Int(vs[v.variant] % (1 << 64), 'isize')
        raise Unsupported('discriminant of %r' % (v,))

    def enum_of(self, v, ty=''):
        t = strip_generics(ty).strip('&').strip()
        if t.split('::')[-1] == v.name:
            vs = self.P.enum_variants(t)
            if vs and v.variant in vs:
                return vs
        c = self.P.enums.get(v.name)
        if c:
            ok = [vs for _, vs in c if v.variant in vs]
            if len({x[v.variant] for x in ok}) == 1:
                return ok[0]
            if ok:
                return ok[0]
        vs = self.P.enum_variants(v.name)
        if not vs or v.variant not in vs:
            raise Unsupported('enum %s::%s' % (v.name, v.variant))
        return vs

    def cast(self, st, rv):
        kind, op, ty = rv[1], rv[2], rv[3]
        if op[0] == 'fnitem':
            return FnPtr(op[1])
        v = self.operand(st, op)
        if kind == 'IntToInt':
            if isinstance(v, bool):
                return Int(int(v), ty)
            if isinstance(v, Int):
                w, w2 = WIDTH[v.ty], WIDTH[ty]
                if is_c(v.v):
                    x = v.v
                    if v.ty[0] == 'i' and x >= 1 << (w - 1):
                        x -= 1 << w
                    return Int(x % (1 << w2), ty)
                if w2 > w and v.ty[0] == 'i':
                    return Int(norm(z3.SignExt(w2 - w, v.v)), ty)
                return Int(zext(v.v, w, w2), ty)
            if isinstance(v, z3.BoolRef):
                w2 = WIDTH[ty]
                return Int(norm(z3.If(v, bv(1, w2), bv(0, w2))), ty)
            if isinstance(v, Struct) and v.variant:
                return Int(self.enum_of(v)[v.variant] % (1 << WIDTH[ty]), ty)
            raise Unsupported('IntToInt of %r' % (v,))
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                if isinstance(v, SliceRef):
                    return v
                if isinstance(v, Ref):
                    try:
                        t = self.get_path(st, st.mem[v.cell], v.proj)
                    except KeyError:
                        raise Unsupported('unsize of dead cell')
                    if isinstance(t, Arr):
                        return SliceRef(('cell', v.cell, v.proj), 0, len(t.items))
                return v
            return v
        if kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype', 'FnPtrToPtr'):
            if isinstance(v, (Ref, SliceRef, FnPtr)):
                return v
        raise Unsupported('cast ' + kind)

    def binop(self, st, op, a, b):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if op == 'BitAnd':
                return mkbool(band(a, b)) if not isinstance(band(a, b), bool) else band(a, b)
            if op == 'BitOr':
                r = bor(a, b)
                return r if isinstance(r, bool) else mkbool(r)
            if isinstance(a, bool) and isinstance(b, bool):
                return {'Eq': a == b, 'Ne': a != b, 'BitXor': a != b}[op]
            A = z3.BoolVal(a) if isinstance(a, bool) else a
            B = z3.BoolVal(b) if isinstance(b, bool) else b
            return mkbool(A == B) if op == 'Eq' else mkbool(A != B)
        if isinstance(a, Ref) or isinstance(a, FnPtr) or isinstance(a, Struct):
            raise Unsupported('binop on %r' % (a,))
        ty = a.ty
        w = WIDTH[ty]
        signed = ty[0] == 'i'
        x, y = a.v, b.v
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return cmp_(op, x, y, w, signed)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if signed:
                raise Unsupported('signed overflow arithmetic')
            if is_c(x) and is_c(y):
                r = {'A': x + y, 'S': x - y, 'M': x * y}[op[0]]
                return Struct('()', [Int(r % (1 << w), ty), not (0 <= r < (1 << w))])
            X, Y = bv(x, w), bv(y, w)
            if op[0] == 'A':
                return Struct('()', [Int(add(x, y, w), ty), mkbool(z3.UGT(X, ~Y) if not is_c(y) else z3.UGT(X, bv((1 << w) - 1 - y, w)))])
            if op[0] == 'S':
                return Struct('()', [Int(sub(x, y, w), ty), mkbool(z3.ULT(X, Y))])
            return Struct('()', [Int(norm(X * Y), ty), mkbool(z3.Not(z3.BVMulNoOverflow(X, Y, False)))])
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            wb = WIDTH[b.ty]
            if is_c(x) and is_c(y):
                sh = y % w
                return Int((x << sh) % (1 << w) if op.startswith('Shl') else x >> sh, ty)
            Y = bv(y % w, w) if is_c(y) else zext(y, wb, w)
            X = bv(x, w)
            if op.startswith('Shl'):
                return Int(norm(X << Y), ty)
            return Int(norm(z3.LShR(X, Y)) if not signed else norm(X >> Y), ty)
        op0 = op.replace('Unchecked', '')
        if op0 in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Div', 'Rem'):
            if is_c(x) and is_c(y) and not signed:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Div': lambda: x // y if y else 0,
                     'Rem': lambda: x % y if y else 0}[op0]()
                return Int(r % (1 << w), ty)
            X, Y = bv(x, w), bv(y, w)
            if signed and op0 in ('Div', 'Rem'):
                raise Unsupported('signed division')
            r = {'Add': lambda: X + Y, 'Sub': lambda: X - Y, 'Mul': lambda: X * Y, 'BitAnd': lambda: X & Y,
                 'BitOr': lambda: X | Y, 'BitXor': lambda: X ^ Y, 'Div': lambda: z3.UDiv(X, Y),
                 'Rem': lambda: z3.URem(X, Y)}[op0]()
            return Int(norm(r), ty)
        raise Unsupported('binop ' + op)

    # -- main loop
    def prio(self, st):
        return tuple((f.fn.order.get(f.block, 0), f.idx) for f in st.frames)

    def run(self, states):
        """execute states to completion; cutpoints and returns go to the hooks"""
        heap, cnt, waiting = [], itertools.count(), {}

        def push(s):
            k = tuple((f.fn.name, f.block, f.idx) for f in s.frames)
            if k in waiting:
                waiting[k].append(s)
            else:
                waiting[k] = [s]
                heapq.heappush(heap, (self.prio(s), next(cnt), k))

        for s in states:
            push(s)
        n = 0
        while heap:
            _, _, k = heapq.heappop(heap)
            group = waiting.pop(k)
            if len(group) > 1:
                group = self.merge(group)
            for s in group:
                n += 1
                if n > self.max_states:
                    raise Unsupported('too many path states')
                try:
                    for r in self.step_block(s):
                        push(r)
                except Kill:
                    pass
                except Unsupported as e:
                    self.fail(s, 'tool', 'unsupported: %s' % e)
                except RecursionError:
                    self.fail(s, 'tool', 'recursion limit')

    def sig(self, v, out):
        if isinstance(v, Int):
            out.append(v.v if is_c(v.v) else ('z', v.v.get_id()))
            out.append(v.ty)
        elif isinstance(v, (bool, str, bytes, int, type(None))):
            out.append(v)
        elif isinstance(v, z3.ExprRef):
            out.append(('z', v.get_id()))
        elif isinstance(v, Struct):
            out.append((v.name, v.variant, len(v.fields)))
            for f in v.fields:
                self.sig(f, out)
        elif isinstance(v, Arr):
            out.append(('arr', len(v.items)))
            if len(v.items) > 64:
                out.append(id(v))
            else:
                for f in v.items:
                    self.sig(f, out)
        elif isinstance(v, Ref):
            out.append(('ref', v.cell, tuple((p[0], p[1] if is_c(p[1]) or isinstance(p[1], str) else p[1].get_id()) for p in v.proj)))
        elif isinstance(v, SliceRef):
            out.append('sl')
            self.sig(v.obj, out)
            self.sig(v.start, out)
            self.sig(v.len, out)
        elif isinstance(v, ElemRef):
            out.append('el')
            self.sig(v.obj, out)
            self.sig(v.idx, out)
        elif isinstance(v, FnPtr):
            out.append(('fn', v.name))
        elif isinstance(v, Opaque):
            out.append(('op', v.tag))
        elif isinstance(v, VecV):
            out.append('vec')
            self.sig(v.segs, out)
        elif isinstance(v, AnyBytes):
            out.append('any')
            self.sig(v.segs, out)
        elif isinstance(v, (tuple, list)):
            out.append(('t', len(v)))
            for f in v:
                self.sig(f, out)
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                out.append(k)
                self.sig(v[k], out)
        else:
            raise Unsupported('sig of %r' % (v,))

    def state_sig(self, s):
        out = []
        for c in sorted((c for c in s.mem if c[0] not in ('promo', 'static') and not (isinstance(c[0], tuple) and c[0][0] == 'K')), key=str):
            out.append(c)
            self.sig(s.mem[c], out)
        self.sig((s.q, s.g, s.queue, s.paused, s.facts), out)
        self.sig(s.regs, out)
        self.sig(s.extra, out)
        return tuple(out)

    def merge(self, group):
        by = {}
        for s in group:
            by.setdefault(self.state_sig(s), []).append(s)
        out = []
        for g in by.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            base = g[0]
            pcs = [{c.get_id(): c for c in s.pc} for s in g]
            common = [c for c in g[0].pc if all(c.get_id() in p for p in pcs)]
            cid = {c.get_id() for c in common}
            alts = []
            for s in g:
                rest = [c for c in s.pc if c.get_id() not in cid]
                alts.append(z3.And(*rest) if len(rest) > 1 else rest[0] if rest else None)
            if any(a is None for a in alts):
                base.pc = tuple(common)
            else:
                base.pc = tuple(common) + (z3.Or(*alts),)
            base.known = {k: v for k, v in base.known.items() if all(k in s.known and s.known[k][0] == v[0] for s in g)}
            out.append(base)
        return out

    def step_block(self, st):
        """run st to the end of its current block; returns successor states"""
        f = st.frames[-1]
        stmts = f.fn.blocks[f.block]
        i = f.idx
        while True:
            s = stmts[i]
            k = s[0]
            f.idx = i
            if k == 'assign':
                try:
                    self.assign(st, s)
                except NeedIndex as e:
                    # an element of a table of structures: one path per index
                    out = []
                    for t, v in self.pick(st, e.term, e.n):
                        t.mem[e.cell] = Int(v, 'usize')
                        out.append(t)
                    return out
            elif k == 'nop':
                pass
            elif k == 'dead':
                st.mem.pop((f.fid, s[1]), None)
            elif k == 'goto':
                return self.goto(st, s[1])
            elif k == 'switch':
                return self.switch(st, s)
            elif k == 'assert':
                c = self.operand(st, s[2])
                if s[1]:
                    c = bnot(c)
                self.prove(st, c, 'panic', 'assert: ' + s[3][:80])
                return self.goto(st, s[4])
            elif k == 'return':
                return self.do_return(st)
            elif k == 'call':
                return self.call(st, s)
            elif k == 'drop':
                return self.goto(st, s[2])
            elif k == 'unreachable':
                # reachable only if the compiler's exhaustiveness reasoning is wrong
                self.prove(st, False, 'panic', 'unreachable reached')
                raise Kill()
            elif k == 'unsupported':
                raise Unsupported(s[1])
            elif k == 'setdiscr':
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('stmt ' + k)
            i += 1

    def pick(self, st, term, n):
        """[(state, k)]: term == k for the feasible k below n"""
        if is_c(term):
            return [(st, term)]
        if n > 300:
            raise Unsupported('large table')
        out = []
        for k in range(n):
            t = st.fork()
            try:
                self.assume(t, mkbool(term == k))
                out.append((t, k))
            except Kill:
                pass
        return out

    def goto(self, st, blk):
        f = st.frames[-1]
        f.block, f.idx = blk, 0
        live = f.fn.live[blk]
        for c in [c for c in st.mem if c[0] == f.fid and c[1] not in live]:
            del st.mem[c]
        if blk in f.fn.heads:
            return [st] if self.unroll(st) else self.at_head(st)
        return [st]

    def unroll(self, st):
        """a loop over a concrete counter that reads no input is walked through instead of being cut"""
        f = st.frames[-1]
        hit, lim = False, 8
        if f.fn.name.startswith('vp_'):
            v = st.mem.get((f.fid, 1))
            while isinstance(v, Ref):
                v = self.get_path(st, st.mem[v.cell], v.proj)
            cs = [v]
        else:
            ctr = f.fn.counted(f.block)
            if ctr is None:
                return False
            cs = [st.mem.get((f.fid, n)) for n in ctr]
        for v in cs:
            if isinstance(v, Int) and is_c(v.v):
                hit = True
            else:
                r = counter(v)
                if r is not None and is_c(sub(r[1], r[0], r[2])):
                    hit, lim = True, 64
        k = (f.fid, f.block)
        c, n = st.unrolled.get(k, (0, len(st.pc)))
        if not hit or c >= (64 if n == len(st.pc) else lim):
            return False
        st.unrolled = dict(st.unrolled)
        st.unrolled[k] = (c + 1, n)
        return True

    def at_head(self, st):
        raise NotImplementedError

    def switch(self, st, s):
        v = self.operand(st, s[1])
        if isinstance(v, z3.BoolRef):
            out = []
            for s2, val in self.split(st, v):
                t = None
                for c, b in s[2]:
                    if c == int(val):
                        t = b
                out += self.goto(s2, t or s[3])
            return out
        if isinstance(v, bool):
            v = Int(int(v), 'u8')
        w = WIDTH[v.ty]
        if is_c(v.v):
            for c, b in s[2]:
                if c % (1 << w) == v.v:
                    return self.goto(st, b)
            if s[3] is None:
                raise Kill()
            return self.goto(st, s[3])
        out = []
        rest = []
        groups = {}
        for c, b in s[2]:
            groups.setdefault(b, []).append(c % (1 << w))
        for b, cs in groups.items():
            cond = bor(*[v.v == c for c in cs])
            s2 = st.fork()
            try:
                self.assume(s2, mkbool(cond))
                out += self.goto(s2, b)
            except Kill:
                pass
            rest += cs
        if s[3] is not None:
            try:
                self.assume(st, mkbool(z3.And(*[v.v != c for c in rest])))
                out += self.goto(st, s[3])
            except Kill:
                pass
        return out

    def do_return(self, st):
        f = st.frames.pop()
        v = st.mem.get((f.fid, 0), UNIT)
        if f.wrap:
            v = Struct(f.wrap[0], [v], f.wrap[1])
        for c in [c for c in st.mem if c[0] == f.fid]:
            del st.mem[c]
        if not st.frames:
            return self.at_exit(st, f, v)
        if f.ret is not None:
            self.store(st, f.ret, v)
        return self.goto(st, f.retblk)

    def at_exit(self, st, f, v):
        raise NotImplementedError

    def enter(self, st, fn, args, ret, retblk):
        self.P.prepare(fn)
        self.fns_used.add(fn.name)
        if len(st.frames) > 12:
            raise Unsupported('call depth')
        fid = st.frames[-1].fid + ((fn.name.rsplit('::', 1)[-1], st.frames[-1].block),) if st.frames else (fn.name.rsplit('::', 1)[-1],)
        st.frames.append(Frame(fn, 'bb0', 0, ret, retblk, fid))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        if 'bb0' in fn.heads:
            return self.at_head(st)
        return [st]

    def ret(self, st, s, v):
        """finish a builtin call"""
        if s[4] is None:
            raise Kill()
        w = getattr(s, 'wrap', None)
        if w:
            v = Struct(w[0], [v], w[1])
        if s[1] is not None:
            self.store(st, s[1], v)
        return self.goto(st, s[4])

    def call(self, st, s):
        callee = s[2]
        args = [self.operand(st, o) for o in s[3]]
        m = re.match(r'(move|copy) (.*)$', callee)
        if m:
            fp = self.load(st, self.resolve_place(st, parse_place(m.group(2))))
            if isinstance(fp, FnPtr):
                return self.call_named(st, s, fp.name, args)
            raise Unsupported('call through %r' % (fp,))
        return self.call_named(st, s, callee, args)

    def call_named(self, st, s, callee, args):
        r = self.hook_call(st, s, callee, args)
        if r is not None:
            return r
        fn = self.P.resolve(callee, st.frames[-1].fn.name)
        if fn is not None:
            return self.enter(st, fn, args, s[1], s[4])
        import builtins_mir
        r = builtins_mir.call(self, st, s, callee, args)
        if r is None:
            import builtins_more
            import builtins_iter
            r = builtins_iter.call(self, st, s, callee, args)
            if r is None:
                r = builtins_more.call(self, st, s, callee, args)
        if r is None:
            raise Unsupported('call to ' + callee)
        self.builtins_used.add(strip_generics(callee))
        return r

    def hook_call(self, st, s, callee, args):
        return None


class NeedIndex(Exception):
    def __init__(self, cell, term, n):
        self.cell, self.term, self.n = cell, term, n


class Wrapped(tuple):
    """a call statement whose result is put in an enum variant"""
    wrap = None


def counter(v):
    """(next, end, width) of a range or slice iterator"""
    if not isinstance(v, Struct):
        return None
    n = v.name.split('<')[0].split('::')[-1]
    if n == 'Range' and all(isinstance(x, Int) for x in v.fields):
        return v.fields[0].v, v.fields[1].v, WIDTH[v.fields[0].ty]
    if n == 'RangeInclusive' and isinstance(v.fields[2], bool):
        w = WIDTH[v.fields[0].ty]
        e = add(v.fields[1].v, 1, w)
        return e if v.fields[2] else v.fields[0].v, e, w
    if n in ('SliceIter', 'SliceIterV'):
        return v.fields[0].start, add(v.fields[0].start, v.fields[0].len), 64
    if n == 'ArrIter':
        return v.fields[1].v, len(v.fields[0].items), 64
    if n in ('Enumerate', 'Rev', 'Zip', 'Take'):
        return counter(v.fields[0])
    return None


def in_set(b, ks):
    """z3 condition: the byte b is one of ks"""
    if is_c(b):
        return b in ks
    if len(ks) > 128:
        return bnot(in_set(b, [c for c in range(256) if c not in set(ks)]))
    return bor(*[veq(b, c, 8) for c in ks]) if ks else False


def in_ranges(i, ks, w):
    """z3 condition: i in the set ks"""
    if not ks:
        return False
    rs, a = [], ks[0]
    p = a
    for k in ks[1:]:
        if k != p + 1:
            rs.append((a, p))
            a = k
        p = k
    rs.append((a, p))
    if is_c(i):
        return any(a <= i <= b for a, b in rs)
    out = []
    for a, b in rs:
        if a == b:
            out.append(i == a)
        else:
            out.append(z3.And(z3.UGE(i, a), z3.ULE(i, b)) if a else z3.ULE(i, b))
    return z3.Or(*out) if len(out) > 1 else out[0]


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'x':
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            if d == 'u':
                j = s.index('}', i)
                out += chr(int(s[i + 3:j], 16)).encode()
                i = j + 1
                continue
            out.append({'n': 10, 'r': 13, 't': 9, '0': 0, '\\': 92, '"': 34, "'": 39}[d])
            i += 2
            continue
        out += c.encode()
        i += 1
    return bytes(out)
