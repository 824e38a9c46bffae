"""Contracts assumed for iterators over bytes and counters (adaptors, and methods that call a closure:
models/models.rs gives those as loops over `next`)."""
import os
import re
import z3
from mirparse import Program, Unsupported, strip_generics
from sym import *
from builtins_mir import some, NONE, slice_of, deref_byte, slices_eq

HERE = os.path.dirname(os.path.abspath(__file__))
LOOPS = ('position', 'any', 'all', 'find', 'fold', 'for_each')
ITERS = ('SliceIter', 'SliceIterV', 'Range', 'RangeInclusive', 'Enumerate', 'Rev', 'Take', 'Skip', 'TakeWhile', 'Zip', 'ArrIter')


def name_of(it):
    return it.name.split('<')[0].split('::')[-1] if isinstance(it, Struct) else None


def elem(ex, st, obj, idx):
    """reference to an element of a slice"""
    if not isinstance(obj, AnyBytes) and obj[0] == 'cell':
        v = ex.get_path(st, st.mem[obj[1]], obj[2])
        if isinstance(v, Arr) and not (v.items and isinstance(v.items[0], Int) and v.items[0].ty == 'u8'):
            if not is_c(idx):
                raise Unsupported('reference to a table entry')
            return Ref(obj[1], tuple(obj[2]) + (('idx', idx),))
    return ElemRef(obj, idx)


def nexts(ex, st, it):
    """[(state, iterator afterwards, item or None)]"""
    k = name_of(it)
    if k in ('SliceIter', 'SliceIterV'):
        sl = it.fields[0]
        out = []
        for t, v in ex.split(st, cmp_('Lt', 0, sl.len, 64, False)):
            if v:
                e = elem(ex, t, sl.obj, sl.start)
                out.append((t, Struct(it.name, [SliceRef(sl.obj, add(sl.start, 1), sub(sl.len, 1))]), e if k == 'SliceIter' else deref_byte(ex, t, e)))
            else:
                out.append((t, it, None))
        return out
    if k == 'Range':
        a, b = it.fields
        w = WIDTH[a.ty]
        return [(t, Struct(it.name, [Int(add(a.v, 1, w), a.ty), b]) if v else it, a if v else None)
                for t, v in ex.split(st, cmp_('Lt', a.v, b.v, w, a.ty[0] == 'i'))]
    if k == 'RangeInclusive':
        a, b, done = it.fields
        w = WIDTH[a.ty]
        out = []
        for s1, d in ex.split(st, done) if not isinstance(done, bool) else [(st, done)]:
            if d:
                out.append((s1, it, None))
                continue
            for s2, lt in ex.split(s1, cmp_('Lt', a.v, b.v, w, a.ty[0] == 'i')):
                if lt:
                    out.append((s2, Struct(it.name, [Int(add(a.v, 1, w), a.ty), b, False]), a))
                    continue
                for s3, eq in ex.split(s2, veq(a.v, b.v, w)):
                    out.append((s3, Struct(it.name, [a, b, True]), a if eq else None))
        return out
    if k == 'ArrIter':
        a, i = it.fields
        if not is_c(i.v):
            raise Unsupported('array iterator')
        return [(st, Struct('ArrIter', [a, Int(i.v + 1, 'usize')]), a.items[i.v]) if i.v < len(a.items) else (st, it, None)]
    if k == 'Enumerate':
        i = it.fields[1]
        return [(t, Struct('Enumerate', [n, Int(add(i.v, 1), 'usize') if x is not None else i]), None if x is None else Struct('', [i, x]))
                for t, n, x in nexts(ex, st, it.fields[0])]
    if k == 'Zip':
        out = []
        for t, n, x in nexts(ex, st, it.fields[0]):
            if x is None:
                out.append((t, Struct('Zip', [n, it.fields[1]]), None))
                continue
            for u, m, y in nexts(ex, t, it.fields[1]):
                out.append((u, Struct('Zip', [n, m]), None if y is None else Struct('', [x, y])))
        return out
    if k == 'Take':
        n = it.fields[1]
        out = []
        for t, v in ex.split(st, cmp_('Lt', 0, n.v, 64, False)):
            if not v:
                out.append((t, it, None))
                continue
            for u, m, x in nexts(ex, t, it.fields[0]):
                out.append((u, Struct('Take', [m, Int(sub(n.v, 1), 'usize')]), x))
        return out
    if k == 'Rev':
        inner = it.fields[0]
        ki = name_of(inner)
        if ki == 'Range':
            a, b = inner.fields
            w = WIDTH[a.ty]
            last = Int(sub(b.v, 1, w), a.ty)
            return [(t, Struct('Rev', [Struct(inner.name, [a, last])]) if v else it, last if v else None)
                    for t, v in ex.split(st, cmp_('Lt', a.v, b.v, w, a.ty[0] == 'i'))]
        if ki in ('SliceIter', 'SliceIterV'):
            sl = inner.fields[0]
            out = []
            for t, v in ex.split(st, cmp_('Lt', 0, sl.len, 64, False)):
                if v:
                    n = sub(sl.len, 1)
                    e = elem(ex, t, sl.obj, add(sl.start, n))
                    out.append((t, Struct('Rev', [Struct(inner.name, [SliceRef(sl.obj, sl.start, n)])]), e if ki == 'SliceIter' else deref_byte(ex, t, e)))
                else:
                    out.append((t, it, None))
            return out
    raise Unsupported('next of %s' % k)


def skip(ex, st, it, n):
    """[(state, iterator with the first n items dropped)]"""
    k = name_of(it)
    out = []
    if k in ('SliceIter', 'SliceIterV'):
        sl = it.fields[0]
        for t, v in ex.split(st, vle(n, sl.len)):
            m = n if v else sl.len
            out.append((t, Struct(it.name, [SliceRef(sl.obj, add(sl.start, m), sub(sl.len, m))])))
        return out
    if k == 'Enumerate':
        for t, m in skip(ex, st, it.fields[0], n):
            out.append((t, Struct('Enumerate', [m, Int(add(it.fields[1].v, n), 'usize')])))
        return out
    raise Unsupported('skip of %s' % k)


def model(ex, name):
    n = 'vp_' + name
    if n not in ex.P.fns:
        p = Program()
        p.load(os.path.join(HERE, 'models', 'models.mir'), os.path.join(HERE, 'models'))
        for k, f in p.fns.items():
            ex.P.fns.setdefault(k, f)
        ex.P._resolve_cache.clear()
    return ex.P.fns[n]


def get(ex, st, v):
    while isinstance(v, Ref):
        v = ex.get_path(st, st.mem[v.cell], v.proj)
    return v


def put(ex, st, ref, v):
    while isinstance(ex.get_path(st, st.mem[ref.cell], ref.proj), Ref):
        ref = ex.get_path(st, st.mem[ref.cell], ref.proj)
    st.mem[ref.cell] = ex.set_path(st.mem[ref.cell], ref.proj, v)


def scan(ex, st, it, k, f):
    """a search through stream bytes for one a closure accepts, by the contract of the method instead of its
    loop: [(state, bytes passed over, found one)], where the state knows the set of values of the bytes passed
    over; None when the closure does more than look at the byte"""
    if name_of(it) not in ('SliceIter', 'SliceIterV') or not hasattr(ex, 'bulk_scan'):
        return None
    sl = it.fields[0]
    if is_c(sl.len) or sl.obj != ('S',):
        return None
    j = ex.fresh('scan', 64)
    base = st.fork()
    base.model = None
    cell = (('scan',), 0)
    base.mem[cell] = Struct(it.name, [SliceRef(sl.obj, j, 1)])
    one = base.mem[cell] if k == 'take_while_count' else Ref(cell)
    try:
        rs = ex.eval_fn(base, model(ex, k), [one, f])
    except Unsupported:
        return None
    b = byte_of(sl.obj, j)
    yes = []
    for t, v in rs:
        if t.q != st.q or t.queue != st.queue or any(c not in t.mem or t.mem[c] is not x for c, x in st.mem.items()):
            return None
        hit = v.variant == 'Some' if isinstance(v, Struct) else v
        if k == 'take_while_count':
            hit = veq(v.v, 0)
        elif k == 'all':
            hit = bnot(hit)
        yes.append(band(*(list(t.pc[len(st.pc):]) + [hit])))
    cond = bor(*yes)
    stop = []
    for c in range(256):
        r = cond if isinstance(cond, bool) else z3.simplify(z3.substitute(cond, (b, z3.BitVecVal(c, 8))))
        if not isinstance(r, bool):
            r = True if z3.is_true(r) else False if z3.is_false(r) else None
        if r is None:
            return None
        if r:
            stop.append(c)
    go = tuple(c for c in range(256) if c not in set(stop))
    out = []
    t = st.fork()
    i = ex.fresh('at', 64)
    try:
        ex.assume(t, mkbool(cmp_('Lt', i, sl.len, 64, False)))
        ex.assume(t, mkbool(in_set(ex.read_byte(t, sl.obj, add(sl.start, i)), stop)))
        t.facts = t.facts + (('scan', sl.start, i, go, 0),)
        out.append((t, i, True))
    except Kill:
        pass
    st.facts = st.facts + (('scan', sl.start, sl.len, go, 0),)
    out.append((st, sl.len, False))
    return out


def equal(ex, st, it, f):
    """a closure over pairs of bytes that says whether they are equal (or differ): which, and the comparison of
    the two slices, as far as the shorter one goes"""
    a, b = it.fields
    if any(name_of(x) not in ('SliceIter', 'SliceIterV') or not isinstance(x.fields[0].obj, tuple) or x.fields[0].obj[0] not in ('S', 'B', 'const', 'cell') for x in (a, b)):
        return None
    a, b = a.fields[0], b.fields[0]
    if is_c(a.len) or is_c(b.len) or not hasattr(ex, 'bulk_compare'):
        return None
    i, j = ex.fresh('at', 64), ex.fresh('at', 64)
    base = st.fork()
    base.model = None
    cell = (('scan',), 0)
    base.mem[cell] = Struct('Zip', [Struct(it.fields[0].name, [SliceRef(a.obj, i, 1)]), Struct(it.fields[1].name, [SliceRef(b.obj, j, 1)])])
    try:
        rs = ex.eval_fn(base, model(ex, 'all'), [Ref(cell), f])
        same = veq(ex.read_byte(st, a.obj, i), ex.read_byte(st, b.obj, j), 8)
    except Unsupported:
        return None
    if not rs or any(t.q != st.q or t.queue != st.queue or any(c not in t.mem or t.mem[c] is not x for c, x in st.mem.items()) for t, v in rs):
        return None
    if all(ex.valid(t, veq_bool(v, same)) for t, v in rs):
        kind = 'eq'
    elif all(ex.valid(t, veq_bool(v, bnot(same))) for t, v in rs):
        kind = 'ne'
    else:
        return None

    def go():
        out = []
        for t, v in ex.split(st, vle(a.len, b.len)):
            n = a.len if v else b.len
            out += slices_eq(ex, t, SliceRef(a.obj, a.start, n), SliceRef(b.obj, b.start, n))
        return out
    return kind, go


def veq_bool(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    z = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    return mkbool(z(a) == z(b))


def call(ex, st, s, callee, args):
    m = re.search(r'slice::<impl \[(.*)\]>::(iter|get::<usize>|len|first|last)$', callee) or re.match(r'<&\[(.*)\] as (IntoIterator)>::into_iter$', callee)
    if m and m.group(1) != 'u8':
        # a table of something other than bytes
        sl, k = slice_of(ex, st, args[0]), m.group(2)
        if k in ('iter', 'IntoIterator'):
            return ex.ret(st, s, Struct('SliceIter', [sl]))
        if k == 'len':
            return ex.ret(st, s, Int(sl.len, 'usize'))
        i = args[1].v if k[0] == 'g' else 0 if k == 'first' else sub(sl.len, 1)
        out = []
        for t, v in ex.split(st, cmp_('Lt', i if k[0] == 'g' else 0, sl.len, 64, False)):
            if not v:
                out += ex.ret(t, s, NONE)
                continue
            if not is_c(sl.len) or not is_c(sl.start):
                raise Unsupported('part of a table')
            for u, j in ex.pick(t, i, sl.len):
                out += ex.ret(u, s, some(elem(ex, u, sl.obj, sl.start + j)))
        return out
    m = re.match(r'<(.*) as (?:std::iter::)?(?:Iterator|IntoIterator|ExactSizeIterator|DoubleEndedIterator)>::(\w+)(::<.*>)?$', callee) or \
        re.match(r'((?:core|std)::iter::range::<impl Iterator for .*>)::(\w+)(::<.*>)?$', callee)
    if not m:
        return None
    k = m.group(2)
    ref = args[0] if args and isinstance(args[0], Ref) else None
    it = get(ex, st, args[0]) if args else None
    n = name_of(it)
    if k == 'into_iter' and isinstance(it, Arr):
        if ref is None:
            return ex.ret(st, s, Struct('ArrIter', [it, Int(0, 'usize')]))
        return ex.ret(st, s, Struct('SliceIter', [slice_of(ex, st, ref)]))
    if n not in ITERS:
        return None
    if k == 'into_iter' or k == 'by_ref' or k in ('copied', 'cloned') and n not in ('SliceIter',):
        return ex.ret(st, s, args[0])
    if k in ('copied', 'cloned'):
        return ex.ret(st, s, Struct('SliceIterV', it.fields))
    if k == 'next' and ref is not None:
        while isinstance(ex.get_path(st, st.mem[ref.cell], ref.proj), Ref):
            ref = ex.get_path(st, st.mem[ref.cell], ref.proj)
        out = []
        for t, new, x in nexts(ex, st, it):
            t.mem[ref.cell] = ex.set_path(t.mem[ref.cell], ref.proj, new)
            out += ex.ret(t, s, NONE if x is None else some(x))
        return out
    if k == 'enumerate' and ref is None:
        return ex.ret(st, s, Struct('Enumerate', [it, Int(0, 'usize')]))
    if k == 'rev' and ref is None and n in ('Range', 'SliceIter', 'SliceIterV'):
        return ex.ret(st, s, Struct('Rev', [it]))
    if k == 'take' and ref is None:
        return ex.ret(st, s, Struct('Take', [it, args[1]]))
    if k == 'take_while' and ref is None:
        return ex.ret(st, s, Struct('TakeWhile', [it, args[1]]))
    if k == 'zip' and ref is None:
        o = args[1] if not isinstance(args[1], (SliceRef, Ref)) else Struct('SliceIter', [slice_of(ex, st, args[1])])
        if name_of(o) in ITERS:
            return ex.ret(st, s, Struct('Zip', [it, o]))
    if k == 'skip' and ref is None:
        out = []
        for t, new in skip(ex, st, it, args[1].v):
            out += ex.ret(t, s, new)
        return out
    if k in ('len', 'count') and n in ('SliceIter', 'SliceIterV'):
        return ex.ret(st, s, Int(it.fields[0].len, 'usize'))
    if k == 'count' and n == 'TakeWhile':
        r = scan(ex, st, it.fields[0], 'take_while_count', it.fields[1])
        if r is not None:
            ex.builtins_used.add('Iterator::take_while + count')
            return [x for t, i, found in r for x in ex.ret(t, s, Int(i, 'usize'))]
        ex.builtins_used.add('Iterator::take_while + count')
        return ex.enter(st, model(ex, 'take_while_count'), list(it.fields), s[1], s[4])
    if k in LOOPS and n != 'TakeWhile':
        ex.builtins_used.add('Iterator::' + k)
        r = scan(ex, st, it, k, args[1]) if k in ('position', 'any', 'all', 'find') and ref is not None else None
        if r is not None:
            out = []
            sl = it.fields[0]
            for t, i, found in r:
                m = add(i, 1) if found else sl.len
                put(ex, t, ref, Struct(it.name, [SliceRef(sl.obj, add(sl.start, m), sub(sl.len, m))]))
                if k == 'find':
                    e = elem(ex, t, sl.obj, add(sl.start, i))
                    v = e if n == 'SliceIter' else deref_byte(ex, t, e)
                else:
                    v = Int(i, 'usize')
                out += ex.ret(t, s, found == (k == 'any') if k in ('any', 'all') else some(v) if found else NONE)
            return out
        r = equal(ex, st, it, args[1]) if k in ('all', 'any') and n == 'Zip' and ref is not None else None
        if r is not None:
            kind, rs = r
            if (k, kind) in (('all', 'eq'), ('any', 'ne')):
                out = []
                for t, v in rs():
                    put(ex, t, ref, Struct('spent', []))
                    out += ex.ret(t, s, v if k == 'all' else bnot(v))
                return out
        return ex.enter(st, model(ex, k), args, s[1], s[4])
    return None
