"""Contract inference and checking for the streaming parsers.

The contract of the whole parser is refinement of the executable specification: every callback the
code makes is the next output the specification owes, every result agrees with the specification's
state.  Every loop head and the resting point between two resume() calls is a cutpoint; the invariant
of each (the contract of the state function about to run, keyed by the discrete part of the state) is
a conjunction of template predicates found as the strongest one that every arrival satisfies, and each
is then proved inductive by z3 on the current MIR.
"""
import re, time, itertools, hashlib, json, zlib
import z3
from mirparse import Unsupported, strip_generics
from sym import *
from sym import _UF
import builtins_mir
from builtins_mir import slice_of, slice_segs
from specm import SymM, run_sym, mulc

S = ('S',)
BND = ('B',)
MAXLEN = 1 << 62


CONTENT = ('c', 'ch', 'junk')      # vector segments without integer leaves


def map_leaves(v, f):
    """rebuild v with every integer leaf replaced by f(raw, width)"""
    if isinstance(v, Int):
        return Int(f(v.v, WIDTH[v.ty]), v.ty)
    if isinstance(v, Struct):
        return Struct(v.name, [map_leaves(x, f) for x in v.fields], v.variant)
    if isinstance(v, Arr):
        return Arr([map_leaves(x, f) for x in v.items])
    if isinstance(v, SliceRef):
        if v.obj[0] == 'const' if isinstance(v.obj, tuple) else False:
            return v
        o = AnyBytes(map_segs(v.obj.segs, f)) if isinstance(v.obj, AnyBytes) else v.obj
        return SliceRef(o, f(v.start, 64), f(v.len, 64))
    if isinstance(v, ElemRef):
        return ElemRef(v.obj, f(v.idx, 64))
    if isinstance(v, VecV):
        return VecV(map_segs(v.segs, f))
    return v


def map_segs(segs, f):
    return tuple(s if s[0] in CONTENT else ('b', f(s[1], 8)) if s[0] == 'b' else ('s', s[1], f(s[2], 64), f(s[3], 64)) for s in segs)


def map_queue(q, f):
    out = []
    for it in q:
        if it[0] == 'sl':
            out.append(it[:3] + (f(it[3], 64), f(it[4], 64)))
        elif it[0] == 'by':
            out.append(it[:2] + (f(it[2], 8),))
        else:
            out.append(it[:2] + tuple(f(a, 64) for a in it[2:]))
    return tuple(out)


def shape(v, out):
    if isinstance(v, Int):
        out.append(v.ty)
    elif isinstance(v, bool):
        out.append(v)
    elif isinstance(v, z3.BoolRef):
        raise Unsupported('symbolic bool at cutpoint')
    elif isinstance(v, Struct):
        out.append((v.name, v.variant, len(v.fields)))
        for x in v.fields:
            shape(x, out)
    elif isinstance(v, Arr):
        out.append(('arr', len(v.items)))
        for x in v.items:
            shape(x, out)
    elif isinstance(v, Ref):
        out.append(('ref', v.cell, v.proj))
    elif isinstance(v, SliceRef):
        if isinstance(v.obj, AnyBytes):
            out.append('slv')
            shape_segs(v.obj.segs, out)
        elif v.obj[0] == 'const':
            out.append(('slc', v.obj, v.start, v.len))
        else:
            out.append(('sl', v.obj))
    elif isinstance(v, ElemRef):
        out.append(('el', v.obj if not isinstance(v.obj, AnyBytes) else 'any'))
    elif isinstance(v, FnPtr):
        out.append(('fn', fn_short(v.name)))
    elif isinstance(v, Opaque):
        out.append(('op', v.tag))
    elif isinstance(v, VecV):
        out.append('vec')
        shape_segs(v.segs, out)
    else:
        raise Unsupported('shape of %r' % (v,))


def shape_segs(segs, out):
    for s in segs:
        out.append(s if s[0] in CONTENT else 'b' if s[0] == 'b' else ('s', s[1]))


def fn_short(n):
    return strip_generics(n).rsplit('::', 1)[-1]


def sym_bools(v, out):
    if isinstance(v, z3.BoolRef):
        out.append(v)
    elif isinstance(v, Struct):
        for x in v.fields:
            sym_bools(x, out)
    elif isinstance(v, Arr):
        for x in v.items:
            sym_bools(x, out)


def subst_bool(v, c, val):
    if isinstance(v, z3.BoolRef):
        return val if v.eq(c) else v
    if isinstance(v, Struct):
        return Struct(v.name, [subst_bool(x, c, val) for x in v.fields], v.variant)
    if isinstance(v, Arr):
        return Arr([subst_bool(x, c, val) for x in v.items])
    return v


def is_static(c):
    return c[0] in ('promo', 'static') or isinstance(c[0], tuple) and c[0][0] == 'K'


class Node:
    __slots__ = ('key', 'ex', 'names', 'widths', 'samples', 'arrivals', 'preds', 'inst', 'dirty', 'fails', 'zero', 'id',
                 'visits', 'q', 'peek', 'stats', 'pos', 'dead', 'root', 'parent', 'first', 'warm', 'ckey', 'nth', 'cands')


# ------------------------------------------------------------------ templates

class Templates:
    def __init__(self, consts, fields, classes, offs=()):
        sig = {}
        self.atom = [sig.setdefault(tuple(b in c for c in classes), len(sig)) for b in range(256)]
        self.natoms = len(sig)
        self.members = [frozenset(b for b in range(256) if self.atom[b] == a) for a in range(self.natoms)]
        self.consts = sorted(set(consts))
        self.fields = fields          # (shift, mask) of packed words, by width
        self.offs = offs              # offsets tried between a packed field and a ghost value

    def generate(self, widths, samples, bytesat, pos=(), peek0=()):
        """pos: leaves that are positions in the stream (never pinned to a constant); strongest conjunction over the samples; samples: list of (vals, model) """
        n = len(widths)
        preds = []
        rep = {}
        V = [s[0] for s in samples]
        live = []
        reps = []
        cvals = set()
        eqd = set()
        for i in sorted(range(n), key=lambda i: (i not in pos, i not in peek0)):
            v0 = V[0][i]
            if i not in pos and all(v[i] == v0 for v in V):
                preds.append(('c', i, v0))
                if widths[i] == 64:
                    cvals.add(v0)
                continue
            for j in reps:
                if widths[j] == widths[i]:
                    d = (v0 - V[0][j]) % (1 << widths[i])
                    if all((v[i] - v[j]) % (1 << widths[i]) == d for v in V):
                        preds.append(('e', i, j, d))
                        if d == 0:
                            eqd.add(i)
                        else:
                            live.append(i)
                        break
            else:
                live.append(i)
                reps.append(i)
        w64 = [i for i in live if widths[i] == 64]
        lset = set(w64)
        # bit fields
        for i in live:
            if widths[i] in self.fields:
                for sh, mask in self.fields[widths[i]]:
                    f0 = (V[0][i] >> sh) & mask
                    if all((v[i] >> sh) & mask == f0 for v in V):
                        preds.append(('fc', i, sh, mask, f0))
                        continue
                    hit = False
                    for j in w64:
                        for K in (1, 10, 16, 100):
                            if all((v[i] >> sh) & mask == v[j] * K for v in V):
                                preds.append(('f', i, sh, mask, j, K))
                                hit = True
                                break
                        else:
                            d = f0 - V[0][j]
                            if d in self.offs and all((v[i] >> sh) & mask == v[j] + d for v in V):
                                preds.append(('fa', i, sh, mask, j, d))
                    mx = max((v[i] >> sh) & mask for v in V)
                    for c in self.consts:
                        if mx <= c < mask:
                            preds.append(('fb', i, sh, mask, c))
                            break
        for i in range(n):
            if widths[i] == 8:
                last = False
                for j in w64:
                    if j not in pos:
                        continue
                    for off in (-1,):
                        if all(bytesat(s, v[j] + off) == v[i] for v, s in samples):
                            preds.append(('sb', i, j, off))
                            last = True
                if (i in peek0 or last) and i in live:
                    a = frozenset(self.atom[v[i]] for v in V)
                    if len(a) < self.natoms:
                        preds.append(('at', i, a))
        for i in live:
            mx = max(v[i] for v in V)
            for c in self.consts:
                if mx <= c < (1 << widths[i]) - 1:
                    preds.append(('b', i, c))
                    break
            if widths[i] == 64 and min(v[i] for v in V) >= 1:
                lo = min(v[i] for v in V)
                preds.append(('ge', i, max([1] + [c for c in cvals if c <= lo] + [c for c in self.offs if 0 < c <= lo])))
            if widths[i] < 64:
                for j in live:
                    if j != i and widths[j] == 64 and all(v[i] == v[j] for v in V):
                        preds.append(('z', i, j))
        for i in range(n):
            if self.offs and widths[i] == 16:
                for j in w64:
                    for sh in (0, 16):
                        if any(v[j] >> 16 for v in V) and all(v[i] == (v[j] >> sh) & 0xFFFF for v in V):
                            preds.append(('h', i, j, sh))
        r64 = [i for i in range(n) if widths[i] == 64 and i not in eqd]
        for i in r64:
            for j in r64:
                if i != j and (i in lset or j in lset) and not (i not in lset and V[0][i] == 0):
                    if all(v[i] < v[j] for v in V):
                        preds.append(('lt', i, j))
                        lo = min(v[j] - v[i] for v in V)
                        lo = max([1] + [c for c in self.offs if c <= lo])
                        if lo > 1:
                            preds.append(('lo', i, j, lo))
                    elif all(v[i] <= v[j] for v in V):
                        preds.append(('le', i, j))
        m = (1 << 64) - 1
        for a, i in enumerate(w64):
            for j in w64[a + 1:]:
                for k in w64:
                    if k != i and k != j and all(min(v[i], v[j]) == v[k] for v in V):
                        preds.append(('mn', i, j, k))
        for a, i in enumerate(r64):
            for j in r64[a + 1:]:
                if not (i in lset or j in lset):
                    continue
                for k in r64:
                    if k != i and k != j:
                        d = (V[0][k] - V[0][i] - V[0][j]) & m
                        if all((v[i] + v[j] + d) & m == v[k] for v in V):
                            preds.append(('s', i, j, k, d))
        return preds


def pred_z3(p, t, widths, T=None):
    """predicate over leaf terms t (raw values)"""
    k = p[0]
    if k == 'at':
        s = sorted(set().union(*[T.members[a] for a in p[2]]))
        return t[p[1]] in s if is_c(t[p[1]]) else mkbool(in_ranges(t[p[1]], s, 8))
    w = widths
    if k == 'c':
        return veq(t[p[1]], p[2], w[p[1]])
    if k == 'e':
        return veq(t[p[1]], add(t[p[2]], p[3], w[p[1]]), w[p[1]])
    if k in ('f', 'fc', 'fb', 'fa'):
        x, wx = t[p[1]], w[p[1]]
        sh, mask = p[2], p[3]
        e = (x >> sh) & mask if is_c(x) else norm(z3.LShR(x, sh) & z3.BitVecVal(mask, wx))
        if k == 'f':
            return veq(zext(e, wx, 64), mulc(t[p[4]], p[5]))
        if k == 'fa':
            return veq(zext(e, wx, 64), add(t[p[4]], p[5] % (1 << 64)))
        if k == 'fc':
            return veq(e, p[4], wx)
        return vle(e, p[4], wx)
    if k == 'h':
        x = t[p[2]]
        e = (x >> p[3]) & 0xFFFF if is_c(x) else norm(z3.LShR(x, p[3]) & z3.BitVecVal(0xFFFF, 64))
        return veq(zext(t[p[1]], 16, 64), e)
    if k == 'sb':
        return veq(t[p[1]], byte_of(S, add(t[p[2]], p[3] % (1 << 64))), 8)
    if k == 'b':
        return vle(t[p[1]], p[2], w[p[1]])
    if k == 'ge':
        return vle(p[2], t[p[1]], 64)
    if k == 'z':
        return veq(zext(t[p[1]], w[p[1]], 64), t[p[2]])
    if k == 'lt':
        return cmp_('Lt', t[p[1]], t[p[2]], 64, False)
    if k == 'lo':
        return band(vle(t[p[1]], t[p[2]]), vle(p[3], sub(t[p[2]], t[p[1]])))
    if k == 'le':
        return vle(t[p[1]], t[p[2]])
    if k == 'mn':
        a, b = t[p[1]], t[p[2]]
        return band(vle(t[p[3]], a), vle(t[p[3]], b), bor(veq(t[p[3]], a), veq(t[p[3]], b)))
    if k == 's':
        return veq(add(add(t[p[1]], t[p[2]]), p[4]), t[p[3]])
    raise AssertionError(p)


class Cooled(Exception):
    """a committed contract does not hold any more"""


class Engine(Exec):
    FIELDS = {}
    OFFS = ()

    def __init__(self, prog, solver, spec, typ, entry, log=None):
        super().__init__(prog, solver)
        self.spec, self.typ, self.entry = spec, typ, entry
        self.nodes = {}
        self.work = []
        self.cur = None
        self.arr = []
        self.log = log
        self.T = Templates(self.harvest_consts(), self.harvest_fields(), spec.CLASSES, self.OFFS)
        self.edges = {}
        self.deadline = None
        self.max_nodes = 1500
        self.cache, self.ckeys, self.warm_checks, self.cooled = {}, {}, 0, []
        self.shard = None
        self.moves = {}
        self.acc = {}

    # ---------------------------------------------------------------- template constants from the program text
    def harvest_consts(self):
        return [0, 1, 9, 15, 99, 255, 990, 999, 9999, 0x3FFF, 0xFFFF, 0xFFFFFF, 0x7FFFFFFF, 0xFFFFFFFF] + \
               [(1 << (4 * k)) - 1 for k in range(1, 9)] + [MAXLEN, (1 << 63) - 1]

    def harvest_fields(self):
        return {w: sorted(f) for w, f in self.FIELDS.items()}

    # ---------------------------------------------------------------- environment access
    def context(self, st):
        for c, v in st.mem.items():
            if isinstance(v, Struct):
                if v.name == 'ByteStream':
                    return v
                for x in v.fields:
                    if isinstance(x, Struct) and x.name == 'ByteStream':
                        return x
        return None

    @staticmethod
    def stream_leaves(st):
        """names of the leaves that are the mark and the cursor of a stream"""
        out = set()
        for c, v in st.mem.items():
            if not isinstance(v, Struct):
                continue
            n = [0]

            def count(raw, w):
                n[0] += 1
                return raw
            for x in [v] if v.name == 'ByteStream' else v.fields:
                if isinstance(x, Struct) and x.name == 'ByteStream':
                    out |= {'%s.%d' % (c, n[0] + 1), '%s.%d' % (c, n[0] + 4)}
                map_leaves(x, count)
        return out

    def cursor(self, st):
        c = self.context(st)
        if c is None:
            return None
        return c.fields[3].v

    def stream_len(self, st):
        return st.extra['slen']

    def eval_fn(self, st, fn, args):
        """run a function to completion outside the ghost world: list of (state, value)"""
        res = []
        saved = self.exit_cb, self.cur
        self.cur = None

        def cb(s, f, v):
            res.append((s, v))
            return []
        self.exit_cb = cb
        s = st.fork()
        s.frames = []
        try:
            self.run(self.enter(s, fn, args, None, None))
        finally:
            self.exit_cb, self.cur = saved
        return res

    # ---------------------------------------------------------------- ghost synchronisation
    def spec_run(self, st, fn):
        def wrapped(m):
            m.pos = m.st.g
            fn(m)
        return run_sym(self, st, wrapped)

    def consume_one(self, st):
        typ, spec = self.typ, self.spec

        def f(m):
            spec.step(m, typ)
            m.st.g = add(m.st.g, 1)
        b = self.read_byte(st, S, st.g)

        def g(m):
            m.b = self.read_byte(m.st, S, m.st.g)
            f(m)
        return self.spec_run(st, g)

    def do_eps(self, st, avail):
        """run the specification's zero-byte transitions; avail says another byte is known to be there"""
        typ, spec = self.typ, self.spec

        def f(m):
            m.b = None
            while spec.eps(m, typ, avail):
                pass
        return self.spec_run(st, f)

    def sync(self, st, upto=None):
        """advance the specification to the code's cursor"""
        idx = self.cursor(st) if upto is None else upto
        if idx is None:
            return [st]
        done, work = [], [st]
        steps = 0
        while work:
            s = work.pop()
            steps += 1
            if steps > 4000:
                raise Unsupported('cursor runs too far ahead')
            if self.deadline and steps % 16 == 0 and time.time() > self.deadline:
                raise TimeoutError()
            d = sub(idx, s.g)
            if is_c(d):
                if d == 0 or d >> 63:
                    done.append(s)
                    continue
                if d > 4096:
                    raise Unsupported('cursor moves too far')
            else:
                D = z3.BitVecVal(0, 64)
                if self.S.check(s.pc + (z3.And(idx != s.g, z3.ULE(bv(s.g, 64), bv(idx, 64))),)) is None:
                    done.append(s)
                    continue
                r = self.bulk(s, idx)
                if r is not None:
                    work.extend(r)
                    continue
            if s.q[0] in ('fin', 'err'):
                self.fail(s, 'account' if s.q[0] == 'fin' else 'error', 'bytes consumed after the message %s' %
                          ('finished' if s.q[0] == 'fin' else 'was rejected (%s)' % (s.q[1],)), s.model)
                continue
            for s1 in self.do_eps(s, True):
                if s1.q[0] in ('fin', 'err'):
                    work.append(s1)
                else:
                    work.extend(self.consume_one(s1))
        return done

    def bulk(self, s, idx):
        """symbolic advance from s.g to idx; None when not applicable"""
        q = s.q[0]
        n = sub(idx, s.g)
        if q in self.spec.COUNTED:
            ch, nxt = self.spec.COUNTED[q]
            out = []
            for s2, ok in self.split(s, vle(n, s2_len(s))):
                if ok:
                    m = SymM(self, s2, [])
                    m.emit_range(ch, s2.g, idx)
                    s2.regs['len'] = sub(s2.regs['len'], n)
                    s2.g = idx
                    for s3, z in self.split(s2, veq(s2.regs['len'], 0)):
                        if z:
                            s3.regs.pop('len')
                            self.spec_counted_done(s3, nxt)
                        out.append(s3)
                else:
                    e = add(s2.g, s2.regs['len'])
                    m = SymM(self, s2, [])
                    m.emit_range(ch, s2.g, e)
                    s2.regs.pop('len')
                    s2.g = e
                    self.spec_counted_done(s2, nxt)
                    out.append(s2)
            return out
        if q == 'mb':
            for f in s.facts:
                if f[0] == 'match' and veq(f[1], s.g) is True and self.valid(s, veq(f[3], n)) and self.valid(s, veq(f[2], s.regs['k'])):
                    out = []
                    s.regs['k'] = add(s.regs['k'], n)
                    s.g = idx
                    for s2, e in self.split(s, veq(s.regs['k'], s.regs['blen'])):
                        if e:
                            s2.regs.pop('k')
                            s2.q = ('mbcr',)
                        out.append(s2)
                    return out
        r = self.bulk_scan(s, n)
        if r is None:
            r = self.bulk_more(s, idx, n)
        if r is not None:
            return r
        # exactly one byte?
        if self.valid(s, veq(n, 1)):
            out = []
            for s1 in self.do_eps(s, True):
                if s1.q[0] in ('fin', 'err'):
                    out.append(s1)
                    self.fail(s1, 'account', 'bytes consumed after the end', s1.model)
                    out.pop()
                else:
                    for s2 in self.consume_one(s1):
                        s2.g = idx
                        out.append(s2)
            return out
        raise Unsupported('symbolic cursor advance in specification state %s' % (s.q,))

    def bulk_more(self, s, idx, n):
        return None

    def bulk_scan(self, s, n):
        """the cursor moves over bytes the code is known to have looked at (fact 'scan': start, length and the
        set of values each of them is in): all of them at once in a state in which the specification does the
        same with each, one of them otherwise; None when the next byte is not such a byte"""
        if s.q[0] in ('end', 'bad', 'ok', 'fin', 'err'):
            return None
        f = next((f for f in s.facts if f[0] == 'scan' and not (is_c(f[2]) and f[2] == 0) and self.valid(s, veq(f[1], s.g))), None)
        if f is None:
            return None
        k = f[2] if self.valid(s, vle(f[2], n)) else n if self.valid(s, vle(n, f[2])) else None
        if k is None:
            return None
        out = []
        for s1, z in self.split(s, veq(k, 0)):
            if z:
                s1.facts = tuple(x for x in s1.facts if x is not f)
                out.append(s1)
                continue
            t = s1.fork()
            t.g = j = self.fresh('scan', 64)
            try:
                self.assume(t, mkbool(band(vle(s1.g, j), cmp_('Lt', j, add(s1.g, k), 64, False))))
                self.assume(t, mkbool(in_set(self.read_byte(t, S, j), f[3])))
            except Kill:
                return None
            sig, ch = self.spec_sig(s1), set()
            for t1 in self.do_eps(t, True):
                for t2 in (self.consume_one(t1) if t1.q[0] not in ('end', 'bad', 'ok', 'fin', 'err') else [t1]):
                    same = self.spec_sig(t2) == sig and veq(t2.g, add(j, 1)) is True
                    if same and t2.queue == s1.queue:
                        ch.add(None)
                    elif same and t2.queue[:-1] == s1.queue and t2.queue[-1][0] == 'sl' and self.same_range(t2.queue[-1], j):
                        ch.add(t2.queue[-1][1])
                    else:
                        ch.add('?')
            if len(ch) == 1 and '?' not in ch:
                c = ch.pop()
                if c is not None:
                    SymM(self, s1, []).emit_range(c, s1.g, add(s1.g, k))
                rest, s1.g = (add(f[1], k), sub(f[2], k), f[3], 0), add(s1.g, k)
                s1.facts = tuple(x for x in s1.facts if x is not f) + (('scan',) + rest,)
                out.append(s1)
                continue
            if f[4] == 4:
                self.fail(s1, 'tool', 'unsupported: the bytes passed over mean different things to the specification (state %s)' % (s1.q,))
                continue
            self.assume(s1, mkbool(in_set(self.read_byte(s1, S, s1.g), f[3])))
            s1.facts = tuple(x for x in s1.facts if x is not f) + (('scan', add(f[1], 1), sub(f[2], 1), f[3], f[4] + 1),)
            for s2 in self.do_eps(s1, True):
                out += self.consume_one(s2) if s2.q[0] not in ('end', 'bad', 'ok', 'fin', 'err') else [s2]
        return out

    @staticmethod
    def same_range(it, j):
        return it[2] == S and veq(it[3], j) is True and veq(it[4], add(j, 1)) is True

    def spec_sig(self, st):
        out = []
        self.sig((st.q, st.paused), out)
        self.sig(st.regs, out)
        self.sig(st.extra, out)
        return tuple(out)

    def spec_counted_done(self, s, nxt):
        s.q = nxt

    def valid(self, st, c):
        if isinstance(c, bool):
            return c
        if st.model is not None and st.model is not True and not mtrue(st.model, c):
            return False
        return self.S.check(st.pc + (bnot(c),)) is None

    def bulk_compare(self, st, a, b, n):
        """equality of two equally long byte slices of symbolic length"""
        if a.obj == BND and b.obj == S:
            a, b = b, a
        if a.obj == S and b.obj == BND:
            t = st.fork()
            t.facts = t.facts + (('match', a.start, b.start, n),)
            f = st
            out = [(t, True)]
            try:
                self.assume(f, z3.Not(bv(n, 64) == 0))
                f.facts = f.facts + (('mismatch', a.start, b.start, n),)
                out.append((f, False))
            except Kill:
                pass
            return out
        raise Unsupported('symbolic-length comparison')

    def room(self, st, n):
        slen = st.extra.get('slen')
        return slen is not None and self.valid(st, band(vle(st.g, MAXLEN), vle(add(st.g, n), slen)))

    def differs(self, st, bs):
        return self.valid(st, bor(*[bnot(veq(self.read_byte(st, S, add(st.g, i)), c, 8)) for i, c in enumerate(bs)]))

    def resolve_mismatch(self, st):
        """lemma (boundary holds no CR): with a known mismatch in the bytes ahead, the boundary attempt may be
        given up now; the matching bytes are then re-read as plain data, which yields the same output."""
        if st.q[0] != 'mb':
            m = SymM(self, st, [])
            return self.spec.early(m, lambda n: self.room(st, n), lambda bs: self.differs(st, bs))
        for f in st.facts:
            if f[0] == 'mismatch' and self.valid(st, veq(f[1], st.g)) and self.valid(st, veq(f[2], st.regs['k'])):
                m = SymM(self, st, [])
                self.spec.mb_mismatch(m, st.q[1])
                return True
        return False

    # ---------------------------------------------------------------- handler calls
    def hook_call(self, st, s, callee, args):
        m = re.match(r'<(?:&mut )*T as (?:[\w:]+::)?HttpHandler>::(\w+)$', callee)
        if not m:
            return None
        name = m.group(1)
        if st.paused:
            self.fail(st, 'pause', 'handler %s called after a callback returned false' % name, st.model)
            raise Kill()
        out = []
        for s1 in self.sync(st):
            try:
                if name == 'content_length':
                    out += self.content_length(s1, s)
                    continue
                ch = name[3:] if name.startswith('on_') else name
                vals = args[1:]
                if ch in self.spec.DATA:
                    sl = slice_of(self, s1, vals[0])
                    rs = self.deliver_data(s1, ch, sl)
                else:
                    raws = []
                    for v in vals:
                        raws += self.flat(s1, v)
                    rs = self.deliver_event(s1, ch, raws)
                for s2 in rs:
                    t = s2.fork()
                    t.paused = True
                    for s3, v in ((s2, True), (t, False)):
                        try:
                            out += self.ret(s3, s, v)
                        except Kill:
                            pass
            except Kill:
                pass
        return out

    def flat(self, st, v):
        if isinstance(v, Int):
            return [zext(v.v, WIDTH[v.ty], 64)]
        if isinstance(v, bool):
            return [int(v)]
        if isinstance(v, z3.BoolRef):
            return [norm(z3.If(v, bv(1, 64), bv(0, 64)))]
        if isinstance(v, Struct) and v.variant:
            out = [int(self.enum_of(v)[v.variant])]
            for f in v.fields:
                out += self.flat(st, f)
            return out
        if isinstance(v, Struct):
            out = []
            for f in v.fields:
                out += self.flat(st, f)
            return out
        raise Unsupported('handler argument %r' % (v,))

    def content_length(self, st, s):
        if st.queue or st.q[0] != 'mdetect':
            self.fail(st, 'event:content_length', 'content_length asked in %s with %s undelivered' % (st.q, qs(st)), st.model)
            raise Kill()
        t = st.fork()
        n = self.fresh('clen', 64)
        out = []
        self.spec_feed(st, None)
        out += self.ret(st, s, Struct('Option', [], 'None'))
        for t2 in self.spec_run(t, lambda m: self.spec.feed_content_length(m, n)):
            out += self.ret(t2, s, Struct('Option', [Int(n, 'usize')], 'Some'))
        return out

    def spec_feed(self, st, n):
        m = SymM(self, st, [])
        self.spec.feed_content_length(m, n)

    def refill(self, st):
        """specification owes nothing: give up a boundary attempt or take a zero-byte step if that is due"""
        if st.queue:
            return [st]
        if self.resolve_mismatch(st):
            return [st]
        slen = self.stream_len(st)
        out = []
        for s2, av in self.split(st, cmp_('Lt', st.g, slen, 64, False)):
            for s3 in self.do_eps(s2, av):
                if s3.queue or not av or s3.q[0] in ('fin', 'err'):
                    out.append(s3)
                else:
                    out += self.lookahead(s3)
        return out

    def lookahead(self, st):
        """specification transitions that inspect the next byte without consuming it"""
        spec, typ = self.spec, self.typ

        def f(m):
            m.b = self.read_byte(m.st, S, m.st.g)
            q, r, qu = m.st.q, dict(m.st.regs), m.st.queue
            if not spec._step(m, typ):
                m.st.q, m.st.regs, m.st.queue = q, r, qu
        return self.spec_run(st, f)

    def deliver_event(self, st, ch, raws):
        out = []
        for s in self.refill(st):
            try:
                if not s.queue or s.queue[0][0] != 'ev' or s.queue[0][1] != ch:
                    self.fail(s, 'event:' + ch, 'callback %s made, specification owes %s (state %s)' % (ch, qs(s), s.q), s.model)
                    continue
                it = s.queue[0]
                if len(raws) != len(it) - 2:
                    self.fail(s, 'event:' + ch, 'arity of %s' % ch, s.model)
                    continue
                ok = band(*[x if not isinstance(x, bool) or not x else True for x in [veq(a, b) for a, b in zip(raws, it[2:])]])
                self.prove(s, ok if isinstance(ok, bool) else mkbool(ok), 'event:' + ch, 'arguments of %s' % ch)
                s.queue = s.queue[1:]
                out.append(s)
            except Kill:
                pass
        return out

    def deliver_data(self, st, ch, sl):
        pieces = []
        for p in slice_segs(self, st, sl):
            if p[0] == 'c':
                pieces += [('b', c) for c in p[1]]
            else:
                pieces.append(p)
        done, work = [], [(st, tuple(pieces))]
        while work:
            s, ps = work.pop()
            try:
                if not ps:
                    done.append(s)
                    continue
                p = ps[0]
                if p[0] == 's':
                    if is_c(p[3]) and p[3] == 0:
                        work.append((s, ps[1:]))
                        continue
                    if not is_c(p[3]):
                        z = [x for x in self.split(s, veq(p[3], 0))]
                        if len(z) == 2 or z[0][1]:
                            for s2, e in z:
                                if e:
                                    work.append((s2, ps[1:]))
                                else:
                                    work += self.match_slice(s2, ch, ps)
                            continue
                    work += self.match_slice(s, ch, ps)
                else:
                    for s1 in self.refill(s):
                        it = s1.queue[0] if s1.queue else None
                        if it and it[0] == 'by' and it[1] == ch:
                            self.prove(s1, veq(p[1], it[2], 8), 'event:' + ch, 'byte given to %s' % ch)
                            s1.queue = s1.queue[1:]
                            work.append((s1, ps[1:]))
                        elif it and it[0] == 'sl' and it[1] == ch:
                            self.prove(s1, veq(p[1], self.read_byte(s1, it[2], it[3]), 8), 'event:' + ch, 'byte given to %s' % ch)
                            for s2, e in self.split(s1, veq(add(it[3], 1), it[4])):
                                s2.queue = (() if e else (it[:3] + (add(it[3], 1), it[4]),)) + s2.queue[1:]
                                work.append((s2, ps[1:]))
                        else:
                            self.fail(s1, 'event:' + ch, 'data for %s, specification owes %s (state %s)' % (ch, qs(s1), s1.q), s1.model)
            except Kill:
                pass
        return done

    def match_slice(self, st, ch, ps):
        """first piece ('s', obj, start, len) with len > 0 against the queue front"""
        out = []
        p = ps[0]
        for s in self.refill(st):
            try:
                it = s.queue[0] if s.queue else None
                if not it or it[0] == 'ev' or it[1] != ch:
                    self.fail(s, 'event:' + ch, 'data for %s, specification owes %s (state %s)' % (ch, qs(s), s.q), s.model)
                    continue
                if it[0] == 'by':
                    self.prove(s, veq(self.read_byte(s, p[1], p[2]), it[2], 8), 'event:' + ch, 'byte given to %s' % ch)
                    s.queue = s.queue[1:]
                    np = ('s', p[1], add(p[2], 1), sub(p[3], 1))
                    out.append((s, (np,) + ps[1:]))
                    continue
                ln = sub(it[4], it[3])
                same = p[1] == it[2]
                if not same or not self.valid(s, veq(p[2], it[3])):
                    if is_c(p[3]) and p[3] <= 64:
                        bs = tuple(('b', self.read_byte(s, p[1], add(p[2], i))) for i in range(p[3]))
                        out.append((s, bs + ps[1:]))
                        continue
                    self.prove(s, veq(p[2], it[3]) if same else False, 'event:' + ch, 'data given to %s starts where the specification says' % ch)
                for s2, e in self.split(s, veq(p[3], ln)):
                    if e:
                        s2.queue = s2.queue[1:]
                        out.append((s2, ps[1:]))
                        continue
                    for s3, lt in self.split(s2, cmp_('Lt', p[3], ln, 64, False)):
                        if lt:
                            s3.queue = (it[:3] + (add(it[3], p[3]), it[4]),) + s3.queue[1:]
                            out.append((s3, ps[1:]))
                        else:
                            s3.queue = s3.queue[1:]
                            out.append((s3, (('s', p[1], add(p[2], ln), sub(p[3], ln)),) + ps[1:]))
            except Kill:
                pass
        return out

    # ---------------------------------------------------------------- cutpoints
    def at_head(self, st):
        if self.cur is None:
            return [st]
        f, upto = st.frames[-1], None
        if f.fn.tests_first(f.block):
            # the byte read last is still to be tested: the specification has not seen it either
            idx = self.cursor(st)
            if idx is not None and self.valid(st, cmp_('Lt', st.g, idx, 64, False)):
                upto = sub(idx, 1)
        for s in self.sync(st, upto):
            self.arrive(s)
        return []

    def arrive(self, st, rest=False):
        """record an arrival at a cutpoint"""
        if not rest and st.q[0] == 'det':
            self.resolve_mismatch(st)
        st = self.settle(st)
        st.facts = ()
        bools = []
        for c in st.mem:
            if not is_static(c):
                sym_bools(st.mem[c], bools)
        if bools:
            for s2, val in self.split(st, bools[0]):
                s2.mem = {c: (subst_bool(v, bools[0], val) if not is_static(c) else v) for c, v in s2.mem.items()}
                self.arrive(s2, rest)
            return
        key, leaves, names, widths = self.abstract(st, rest)
        self.arr.append((key, leaves, names, widths, st, rest))

    def settle(self, st):
        return st

    @staticmethod
    def cell_order(st):
        """cells of a state in an order that does not depend on how locals and blocks are numbered"""
        depth = {f.fid: i for i, f in enumerate(st.frames)}
        return sorted((c for c in st.mem if not is_static(c)),
                      key=lambda c: (1, depth[c[0]], c[1]) if c[0] in depth else (0, str(c), 0))

    @staticmethod
    def canon(st, sh, cells):
        """the key of a contract up to renumbering of locals and basic blocks"""
        depth = {f.fid: i for i, f in enumerate(st.frames)}
        cnt, names = {}, {}
        for c in cells:
            if c[0] in depth:
                d = depth[c[0]]
                names[c] = ('L', d, cnt.get(d, 0))
                cnt[d] = cnt.get(d, 0) + 1
        out = []
        for i, x in enumerate(sh):
            if i < len(st.frames):
                out.append(x[0])
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'cell':
                out.append(('cell', names.get(x[1], x[1])))
            elif isinstance(x, tuple) and len(x) == 3 and x[0] == 'ref':
                out.append(('ref', names.get(x[1], x[1]), x[2]))
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'sl' and isinstance(x[1], tuple) and x[1][0] == 'cell':
                out.append(('sl', ('cell', names.get(x[1][1], x[1][1]), x[1][2])))
            else:
                out.append(x)
        return hashlib.sha1(repr(out).encode()).hexdigest()[:20]

    def abstract(self, st, rest):
        sh, leaves, names, widths = [], [], [], []
        for f in st.frames:
            sh.append((f.fn.name, f.block, f.idx, f.fid))
        cells = self.cell_order(st)

        cur = [None, 0]

        def col(raw, w):
            leaves.append(raw)
            widths.append(w)
            names.append('%s.%d' % (cur[0], cur[1]))
            cur[1] += 1
            return raw
        for c in cells:
            sh.append(('cell', c))
            cur[0], cur[1] = c, 0
            shape(st.mem[c], sh)
            map_leaves(st.mem[c], col)
        sh.append(('q', st.q))
        for k in sorted(st.regs):
            sh.append(('reg', k))
            cur[0], cur[1] = 'reg:' + k, 0
            col(st.regs[k], 8 if k == 'pk' else 64)
        cur[0], cur[1] = 'g', 0
        col(st.g, 64)
        if not rest:
            # derived leaf: the next byte of the stream
            cur[0], cur[1] = 'nb', 0
            col(self.read_byte(st, S, st.g), 8)
        for it in st.queue:
            sh.append(it[:3] if it[0] == 'sl' else it[:2] + ((len(it),) if it[0] == 'ev' else ()))
        cur[0], cur[1] = 'queue', 0
        map_queue(st.queue, col)
        sh.append(('paused', st.paused))
        for k in sorted(st.extra):
            if k == 'slen':
                cur[0], cur[1] = 'slen', 0
                col(st.extra[k], 64)
            else:
                sh.append((k, st.extra[k]))
        return tuple(sh), leaves, names, widths

    def instantiate(self, node):
        """a fresh symbolic state satisfying exactly the node's invariant"""
        st0 = node.ex
        w = node.widths
        terms = [None] * len(w)
        for p in node.preds:
            if p[0] == 'c':
                terms[p[1]] = p[2]
        nb = node.names.index('nb.0') if 'nb.0' in node.names else None
        if nb is not None:
            terms[nb] = 0
        defer = []
        for i in range(len(w)):
            if terms[i] is None:
                e = next((p for p in node.preds if p[0] == 'e' and p[1] == i), None)
                z = next((p for p in node.preds if p[0] == 'z' and p[1] == i), None)
                f = next((p for p in node.preds if p[0] == 'f' and p[4] == i), None)
                if e is not None:
                    defer.append((i, e))
                else:
                    terms[i] = self.fresh('n%d_%s' % (node.id, node.names[i].split("'")[-1].strip('(), ')), w[i])
        late = []
        for i, e in defer:
            if e[2] == nb:
                late.append((i, e))
            else:
                terms[i] = add(terms[e[2]], e[3], w[i])
        if nb is not None:
            terms[nb] = self.read_byte(st0, S, terms[node.names.index('g.0')])
        for i, e in late:
            terms[i] = add(terms[e[2]], e[3], w[i])
        st = st0.fork()
        it = iter(terms)

        def nx(raw, width):
            return next(it)
        for c in self.cell_order(st):
            st.mem[c] = map_leaves(st.mem[c], nx)
        for k in sorted(st.regs):
            st.regs[k] = nx(None, 8 if k == 'pk' else 64)
        st.g = nx(None, 64)
        if nb is not None:
            nx(None, 8)
        st.queue = map_queue(st.queue, nx)
        if 'slen' in st.extra:
            st.extra['slen'] = nx(None, 64)
        st.pc, st.known, st.facts, st.model = (), {}, (), None
        cs, seen = [], set()
        for p in node.preds:
            if p[0] not in ('c', 'e') or p[1] == nb:
                c = pred_z3(p, terms, w, self.T)
                if c is not True and (c is False or c.get_id() not in seen):
                    cs.append(c)
                    seen.add(c is False or c.get_id())
        st.pc = tuple(x for x in cs if x is not False)
        if any(x is False for x in cs):
            raise Unsupported('contradictory invariant')
        st.model = self.S.check(st.pc)
        if st.model is None:
            raise Unsupported('contradictory invariant')
        return st

    # ---------------------------------------------------------------- invariant inference
    def sample(self, model, leaves, widths):
        if model is True or model is None:
            s = z3.Solver()
            s.check()
            model = s.model()
        vals = []
        for l, w in zip(leaves, widths):
            vals.append(l if is_c(l) else model.eval(l, model_completion=True).as_long())
        return (vals, model)

    def bytesat(self, model, idx):
        v = model.eval(byte_of(S, idx % (1 << 64)), model_completion=True)
        return v.as_long()

    def process_arrivals(self, src):
        """fold the arrivals of one exploration into the target nodes; returns nodes whose invariant changed"""
        touched = {}
        fresh_warm = set()
        for key, leaves, names, widths, st, rest in self.arr:
            n = self.nodes.get(key)
            if n is None:
                n = Node()
                n.key, n.ex, n.names, n.widths = key, st.fork(), names, widths
                n.samples, n.arrivals, n.preds, n.dirty = [], {}, None, False
                n.fails, n.zero, n.id, n.visits, n.q = [], [], len(self.nodes), 0, st.q
                n.stats = None
                n.dead = False
                n.root = src is None
                ctx = self.stream_leaves(st)
                n.pos = set()
                if not rest:
                    for i, nm in enumerate(names):
                        if widths[i] == 64 and (nm in ('g.0',) or nm.startswith('queue.') and self.queue_pos(st, int(nm[6:]))
                                                or nm in ctx):
                            n.pos.add(i)
                    # stable order: g first
                n.parent = src.id if src else None
                n.peek = [i for i, nm in enumerate(names) if nm in ('reg:pk.0', 'nb.0')]
                self.nodes[key] = n
                n.ckey = self.canon(st, key, self.cell_order(st))
                n.nth = self.ckeys.get(n.ckey, 0)
                self.ckeys[n.ckey] = n.nth + 1
                n.warm = False
                # candidate contracts: recorded for a loop that does the same; the ones of this very loop first
                sig, rank = self.loop_of(n)
                have = [(c['r'] != rank, c['at'] != self.place(n), i != n.nth, i) for i, c in enumerate(self.cache.get(n.ckey, ()))
                        if c['w'] == list(widths) and c['s'] == sig]
                n.cands = [x[-1] for x in sorted(have)]
                if n.cands:
                    n.warm = True
                    n.preds = self.candidate(n)
                    fresh_warm.add(n.id)
            if key not in touched:
                touched[key] = (n, [])
            touched[key][1].append((st.pc, leaves, st.model, set()))
            if not rest and src is not None and self.start_idx is not None:
                self.measure(src, n, st)
        changed = []
        sid = src.id if src else -1 - len(self.nodes)
        for n in list(self.nodes.values()):
            if n.key in touched:
                n.arrivals[sid] = touched[n.key][1]
                n.dead = False
            elif sid in n.arrivals:
                self.drop(n, sid)
                continue
            else:
                continue
            old = n.preds
            new = self.infer(n, n.arrivals[sid])
            if new != old or n.id in fresh_warm:
                n.preds = new
                changed.append(n)
        self.arr = []
        return changed

    def progress(self, st):
        f = st.frames[-1]
        return st.g if f.fn.tests_first(f.block) else self.cursor(st)

    @staticmethod
    def ranges(st):
        """what counted loops still have to go through: cell -> (start, end)"""
        out = {}
        for f in st.frames:
            for c, v in st.mem.items():
                r = counter(v) if c[0] == f.fid else None
                if r is not None:
                    out[c] = r
        return out

    def measure(self, src, n, st):
        """termination: how the cursor moves from one cutpoint of a call to the next"""
        i0, i1 = self.start_idx[0], self.progress(st)
        k = (src.id, n.id)
        if i0 is None or i1 is None:
            d = 'none'
        elif self.valid(st, cmp_('Lt', i0, i1, 64, False)):
            d = 'pos'
        elif self.valid(st, vle(i0, i1)):
            d = 'zero'
            if self.same_place(src, n):
                new = self.ranges(st)
                for c, (a, b, w) in self.start_rng.items():
                    if c in new and new[c][2] == w:
                        a1, b1 = new[c][:2]
                        if self.valid(st, veq(b, b1, w)) and self.valid(st, cmp_('Lt', a, a1, w, False)) and self.valid(st, vle(a1, b1, w)):
                            d = 'range'
        else:
            d = 'back'
        order = ('pos', 'range', 'zero', 'none', 'back')
        self.moves[k] = max(self.moves.get(k, 'pos'), d, key=order.index)

    @staticmethod
    def place_key(n):
        return [(f.fn.name, f.block, f.fid) for f in n.ex.frames]

    def same_place(self, a, b):
        return self.place_key(a) == self.place_key(b)

    def termination(self):
        """every cycle of cutpoints inside one call moves the cursor forward; list of the ones not shown to"""
        import networkx
        g = networkx.DiGraph()
        live = {n.id: n for n in self.nodes.values() if not n.dead}
        for (a, b), d in self.moves.items():
            if a in live and b in live:
                g.add_edge(a, b, d=d)
        bad = []
        for comp in networkx.strongly_connected_components(g):
            h = g.subgraph(comp)
            for a, b, d in h.edges(data='d'):
                if d == 'back':
                    bad.append((live[a], live[b], 'the cursor may move backwards'))
            if any(d == 'range' for _, _, d in h.edges(data='d')):
                # a counted loop only counts up: its own steps, between contracts of the same loop, end
                pl = lambda a: repr(self.place_key(live[a]))
                rep = {pl(a): a for a in comp}
            else:
                pl = lambda a: a
                rep = {a: a for a in comp}
            z = networkx.DiGraph((pl(a), pl(b)) for a, b, d in h.edges(data='d') if d in ('zero', 'none') or d == 'range' and pl(a) != pl(b))
            try:
                cyc = networkx.find_cycle(z)
                bad.append((live[rep[cyc[0][0]]], live[rep[cyc[0][1]]], 'a cycle need not consume input'))
            except networkx.NetworkXNoCycle:
                pass
        return bad

    def drop(self, n, sid):
        """the exploration of sid no longer arrives at n"""
        del n.arrivals[sid]
        if not n.arrivals and not n.dead:
            n.dead = True
            n.fails = []
            n.preds = None
            n.samples = []
            if n in self.work:
                self.work.remove(n)
                n.dirty = False
            for m in list(self.nodes.values()):
                if n.id in m.arrivals:
                    self.drop(m, n.id)

    @staticmethod
    def queue_pos(st, k):
        i = 0
        for it in st.queue:
            c = {'sl': 2, 'by': 1}.get(it[0], len(it) - 2)
            if k < i + c:
                return it[0] == 'sl' and it[2] == S
            i += c
        return False

    def violates(self, preds, pc, leaves, w):
        """a model of pc in which some predicate fails; None when they all follow"""
        cs, seen = [], {c.get_id() for c in pc}
        for p in preds:
            c = pred_z3(p, leaves, w, self.T)
            if c is False:
                m = self.S.check(pc)
                if m is not None:
                    return m
                return None
            if c is not True and c.get_id() not in seen:
                cs.append(c)
                seen.add(c.get_id())
        for c in cs:
            m = self.S.check(pc + (z3.Not(c),))
            if m is not None:
                return m
        return None

    def load_cache(self, path):
        import os
        if os.path.exists(path):
            self.cache = json.load(open(path))

    def save_cache(self, path):
        out = {}
        for n in self.nodes.values():
            if not n.dead:
                out.setdefault(n.ckey, {})[n.nth] = {
                    'at': self.place(n), 's': self.loop_of(n)[0], 'r': self.loop_of(n)[1], 'q': repr(n.q), 'leaves': [str(x) for x in n.names], 'w': list(n.widths),
                    'p': [[sorted(x) if isinstance(x, frozenset) else x for x in p] for p in n.preds]}
        out = {k: [v[i] for i in sorted(v)] for k, v in out.items()}
        with open(path, 'w') as f:
            f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(out[k])) for k in sorted(out)) + '\n}\n')

    def loop_of(self, n):
        """signature and rank of the loop a contract belongs to; the parse loop, through which the functions
        meet, keeps its contracts however it is written"""
        f = n.ex.frames[-1] if n.ex.frames else None
        if f is None or fn_short(f.fn.name) in ('parse', 'resume'):
            return ('', 0)
        return f.fn.loop_signature(f.block)

    def candidate(self, n):
        c = self.cache[n.ckey][n.cands.pop(0)]
        return tuple(tuple(frozenset(x) if isinstance(x, list) else x for x in p) for p in c['p'])

    def infer(self, n, fresh):
        w = n.widths
        if n.warm:
            # the committed contract is the candidate: one obligation per arrival
            for i, (pc, leaves, model, done) in enumerate(fresh):
                self.warm_checks += 1
                if self.shard and zlib.crc32(repr((n.ckey, n.nth, i, self.cur.ckey if self.cur else 0)).encode()) % self.shard[1] != self.shard[0]:
                    continue
                m = self.violates(n.preds, pc, leaves, w)
                while m is not None and n.cands and not self.shard:
                    # another recorded contract of the same shape may be the one of this place
                    n.preds = self.candidate(n)
                    for arrs in n.arrivals.values():
                        for pc2, leaves2, _, done2 in arrs:
                            done2.clear()
                            self.warm_checks += 1
                            m = self.violates(n.preds, pc2, leaves2, w)
                            if m is not None:
                                break
                            done2.update(n.preds)
                        if m is not None:
                            break
                    else:
                        m = None
                if m is not None:
                    n.warm = False
                    self.cooled.append(n)
                    break
                done.update(n.preds)
            if n.warm:
                return n.preds
            if self.shard:
                raise Cooled()
            for arrs in n.arrivals.values():
                for pc, leaves, model, _ in arrs:
                    n.samples.append(self.sample(model, leaves, w))
            n.samples.append(self.sample(m, leaves, w))
            fresh = ()
        for pc, leaves, model, _ in fresh:
            n.samples.append(self.sample(model, leaves, w))
        rounds = 0
        while True:
            # strongest candidate on the samples; every arrival must satisfy it (each arrival remembers
            # which predicates it has been proved to satisfy)
            cand = self.T.generate(w, n.samples, self.bytesat, n.pos, n.peek)
            bad = False
            for arrs in n.arrivals.values():
                for a in arrs:
                    pc, leaves, model, done = a
                    todo = [p for p in cand if p not in done]
                    m = self.violates(todo, pc, leaves, w)
                    if m is not None:
                        n.samples.append(self.sample(m, leaves, w))
                        bad = True
                        break
                    done.update(todo)
                if bad:
                    break
            rounds += 1
            if not bad:
                return tuple(cand)
            if rounds > 400:
                raise Unsupported('invariant inference does not settle')

    # ---------------------------------------------------------------- driver
    def add_root(self, states):
        """states: resting states (no frames)"""
        self.cur = None
        for s in states:
            self.arrive(s, True)
        for n in self.process_arrivals(None):
            self.queue_node(n)

    def queue_node(self, n):
        if not n.dirty:
            n.dirty = True
            self.work.append(n)

    def explore_all(self):
        t0 = time.time()
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise TimeoutError()
            n = min(self.work, key=lambda x: (x.visits, x.id))
            self.work.remove(n)
            n.dirty = False
            n.visits += 1
            if n.visits > 60:
                raise Unsupported('node revisited too often')
            self.explore(n)
            if self.max_nodes and len(self.nodes) > self.max_nodes:
                raise Unsupported('too many contract nodes')

    def explore(self, n):
        self.fails = []
        self.arr = []
        self.cur = n
        self.start_idx = None
        for k in [k for k in self.moves if k[0] == n.id]:
            del self.moves[k]
        ob0 = self.oblig
        t0 = time.time()
        try:
            st = self.instantiate(n)
            self.run_node(n, st)
        except Unsupported as e:
            self.fails.append({'cat': 'tool', 'msg': str(e), 'where': '', 'model': None, 'st': None})
        n.fails = self.fails
        n.stats = (self.oblig - ob0, time.time() - t0)
        ch = self.process_arrivals(n)
        if self.log:
            self.log('node %d q=%s at %s: %d obligations, %d fails, %d changed, %.2fs' % (
                n.id, n.q, self.place(n), n.stats[0], len(n.fails), len(ch), n.stats[1]))
            for f in n.fails[:3]:
                self.log('   FAIL %s %s @ %s' % (f['cat'], f['msg'], f['where']))
        for c in ch:
            self.queue_node(c)

    def place(self, n):
        return '/'.join('%s:%s' % (fn_short(f.fn.name), f.block) for f in n.ex.frames) or 'rest'

    def run_node(self, n, st):
        if st.frames:
            self.start_idx = (self.progress(st), st.g)
            self.start_rng = self.ranges(st)
            # instantiate() restarts at the loop head itself
            self.run([st])
        else:
            self.start_idx, self.start_rng = None, {}
            self.run(self.begin(st))

    def fail(self, st, cat, msg, model=None):
        super().fail(st, cat, msg, model)
        self.fails[-1]['g0'] = self.start_idx[1] if getattr(self, 'start_idx', None) else 0

    def collect_fails(self):
        out = []
        for n in self.nodes.values():
            if n.dead:
                continue
            for f in n.fails:
                f['node'] = n
                out.append(f)
        return out


def s2_len(s):
    return s.regs['len']


def qs(st):
    return [it[:2] for it in st.queue] or 'nothing'
