"""More contracts assumed for standard-library functions, for spellings the crate does not use at present
but an equivalent version of it may: combinators, `?`, slice iterators, ranges, byte-order conversions.
Each is the documented meaning of the function; nothing here is used on the unchanged tree unless listed
in the evidence (assumed_contracts_used)."""
import re
import z3
from mirparse import Unsupported, strip_generics
from sym import *
from builtins_mir import some, NONE, slice_of, slice_segs, deref_byte, concat_results, slices_eq

HEXD = [(c, int(chr(c), 16)) for c in map(ord, '0123456789abcdefABCDEF')]


def get(ex, st, v):
    while isinstance(v, Ref):
        v = ex.get_path(st, st.mem[v.cell], v.proj)
    return v


def put(ex, st, ref, v):
    st.mem[ref.cell] = ex.set_path(st.mem[ref.cell], ref.proj, v)


def apply(ex, st, s, f, args, wrap=None):
    """call a closure or a function value; its result, wrapped, is the result of the call s"""
    ref = None
    while isinstance(f, Ref):
        ref, f = f, ex.get_path(st, st.mem[f.cell], f.proj)
    if isinstance(f, FnPtr):
        fn = ex.P.resolve(f.name, st.frames[-1].fn.name)
        if fn is None or not fn.blocks:
            segs = strip_generics(f.name).split('::')
            vs = len(segs) > 1 and ex.P.enum_variants('::'.join(segs[:-1]))
            if vs and segs[-1] in vs:
                v = Struct(segs[-2], list(args), segs[-1])
                return ex.ret(st, s, Struct(wrap[0], [v], wrap[1]) if wrap else v)
            if wrap:
                s = Wrapped(s)
                s.wrap = wrap
            return ex.call_named(st, s, f.name, list(args))
    elif isinstance(f, Struct) and f.name.startswith('{closure@'):
        fs = [x for x in ex.P.fns.values() if f.name in x.types.get(1, '')]
        if len(fs) != 1:
            raise Unsupported('closure ' + f.name)
        fn = fs[0]
        if fn.types[1].startswith('&') and ref is not None:
            f = ref
        elif fn.types[1].startswith('&'):
            c = (st.frames[-1].fid, 100000)
            st.mem[c] = f
            f = Ref(c)
        args = [f] + list(args)
    else:
        raise Unsupported('call of %r' % (f,))
    out = ex.enter(st, fn, args, s[1], s[4])
    if wrap:
        for x in out:
            x.frames[-1].wrap = wrap
        if not out:
            raise Unsupported('closure that starts with a loop')
    return out


def closure_result(ex, st, s, f, args):
    return apply(ex, st, s, f, args)


def lower(x):
    r = in_ranges(x, list(range(65, 91)), 8)
    if isinstance(r, bool):
        return x ^ 32 if r else x
    return norm(z3.If(r, x ^ 32, x))


def err(v):
    return Struct('Result', [v], 'Err')


def ok(v):
    return Struct('Result', [v], 'Ok')


def call(ex, st, s, callee, args):
    c = strip_generics(callee)
    # ---- the ? operator
    if re.match(r'<.* as Try>::branch$', callee):
        v = args[0]
        if not isinstance(v, Struct) or v.variant not in ('Ok', 'Err', 'Some', 'None'):
            raise Unsupported('? on %r' % (v,))
        if v.variant in ('Ok', 'Some'):
            return ex.ret(st, s, Struct('ControlFlow', [v.fields[0]], 'Continue'))
        return ex.ret(st, s, Struct('ControlFlow', [v], 'Break'))
    m = re.match(r'<(?:std::result::)?(Result|Option)<.*> as FromResidual<(.*)>>::from_residual$', callee)
    if m:
        v = args[0]
        if v.variant == 'None':
            return ex.ret(st, s, NONE)
        e1 = re.match(r'<(?:std::result::)?Result<.*, ([^,]*)> as FromResidual<(?:std::result::)?Result<[^,]*, ([^,]*)>>>', callee)
        if v.variant == 'Err' and e1 and e1.group(1) == e1.group(2):
            return ex.ret(st, s, v)
        raise Unsupported('? with a conversion')
    m = re.match(r'<(.*) as (?:From|Into)<(.*)>>::(?:from|into)$', callee)
    if m and m.group(1) == m.group(2):
        return ex.ret(st, s, args[0])
    # ---- closures and function values
    m = re.match(r'<.* as (?:std::ops::|core::ops::)?Fn(?:Mut|Once)?<\(.*\)>>::call(?:_mut|_once)?$', callee)
    if m and isinstance(args[1], Struct):
        return apply(ex, st, s, args[0], list(args[1].fields))
    # ---- options and results
    m = re.match(r'Option::<.*>::(map|and_then|ok_or|ok_or_else|map_or|unwrap_or_else|or|take|filter|is_some_and|unwrap_or_default|as_ref)(::<.*>)?$', callee)
    if m:
        k, v = m.group(1), args[0]
        if k in ('take', 'as_ref'):
            old = get(ex, st, v)
            if k == 'as_ref':
                if isinstance(old, Struct) and old.variant == 'None':
                    return ex.ret(st, s, NONE)
                raise Unsupported('as_ref')
            put(ex, st, v, NONE)
            return ex.ret(st, s, old)
        if not isinstance(v, Struct) or v.variant not in ('Some', 'None'):
            raise Unsupported('option %r' % (v,))
        x = v.fields[0] if v.variant == 'Some' else None
        if x is None:
            if k in ('map', 'and_then', 'filter'):
                return ex.ret(st, s, NONE)
            if k == 'is_some_and':
                return ex.ret(st, s, False)
            if k == 'ok_or':
                return ex.ret(st, s, err(args[1]))
            if k == 'ok_or_else':
                return apply(ex, st, s, args[1], [], ('Result', 'Err'))
            if k in ('map_or', 'or'):
                return ex.ret(st, s, args[1])
            if k == 'unwrap_or_else':
                return apply(ex, st, s, args[1], [])
            raise Unsupported(callee)
        if k == 'map':
            return apply(ex, st, s, args[1], [x], ('Option', 'Some'))
        if k in ('and_then', 'is_some_and'):
            return apply(ex, st, s, args[1], [x])
        if k in ('ok_or', 'ok_or_else'):
            return ex.ret(st, s, ok(x))
        if k == 'map_or':
            return apply(ex, st, s, args[2], [x])
        if k == 'unwrap_or_else':
            return ex.ret(st, s, x)
        if k == 'or':
            return ex.ret(st, s, v)
        raise Unsupported(callee)
    m = re.match(r'Result::<.*>::(map|map_err|ok|err|is_ok|is_err|and_then|unwrap_or|unwrap|expect)(::<.*>)?$', callee)
    if m:
        k, v = m.group(1), get(ex, st, args[0]) if m.group(1).startswith('is_') else args[0]
        if not isinstance(v, Struct) or v.variant not in ('Ok', 'Err'):
            raise Unsupported('result %r' % (v,))
        good, x = v.variant == 'Ok', v.fields[0]
        if k in ('is_ok', 'is_err'):
            return ex.ret(st, s, good == (k == 'is_ok'))
        if k in ('ok', 'err'):
            return ex.ret(st, s, some(x) if good == (k == 'ok') else NONE)
        if k in ('unwrap', 'expect'):
            ex.prove(st, good, 'panic', 'unwrap of Err')
            return ex.ret(st, s, x)
        if k == 'unwrap_or':
            return ex.ret(st, s, x if good else args[1])
        if k == 'map':
            return apply(ex, st, s, args[1], [x], ('Result', 'Ok')) if good else ex.ret(st, s, v)
        if k == 'map_err':
            return ex.ret(st, s, v) if good else apply(ex, st, s, args[1], [x], ('Result', 'Err'))
        if k == 'and_then':
            return apply(ex, st, s, args[1], [x]) if good else ex.ret(st, s, v)
    # ---- memory
    m = re.match(r'(?:std|core)::mem::(replace|swap|take)::<(.*)>$', callee)
    if m:
        k, ty = m.groups()
        a = args[0]
        old = get(ex, st, a)
        if not isinstance(old, (Int, bool, Struct)):
            raise Unsupported(callee)
        if k == 'replace':
            put(ex, st, a, args[1])
            return ex.ret(st, s, old)
        if k == 'swap':
            b = args[1]
            new = get(ex, st, b)
            put(ex, st, a, new)
            put(ex, st, b, old)
            return ex.ret(st, s, UNIT)
        if ty in WIDTH:
            put(ex, st, a, Int(0, ty))
        elif isinstance(old, Struct) and old.variant in ('Some', 'None'):
            put(ex, st, a, NONE)
        else:
            raise Unsupported(callee)
        return ex.ret(st, s, old)
    # ---- ranges
    m = re.match(r'(?:std|core)::ops::RangeInclusive::<(\w+)>::(new|contains|start|end)(::<.*>)?$', callee)
    if m and m.group(1) in WIDTH:
        ty, k = m.group(1), m.group(2)
        if k == 'new':
            return ex.ret(st, s, Struct('RangeInclusive', [args[0], args[1], False]))
        r = get(ex, st, args[0])
        if k == 'contains':
            x = get(ex, st, args[1])
            x = x if isinstance(x, Int) else deref_byte(ex, st, args[1])
            w, sg = WIDTH[ty], ty[0] == 'i'
            return ex.ret(st, s, band(cmp_('Le', r.fields[0].v, x.v, w, sg), cmp_('Le', x.v, r.fields[1].v, w, sg)))
    m = re.match(r'(?:std|core)::ops::Range::<(\w+)>::contains::<.*>$', callee)
    if m and m.group(1) in WIDTH:
        r = get(ex, st, args[0])
        x = get(ex, st, args[1])
        x = x if isinstance(x, Int) else deref_byte(ex, st, args[1])
        w, sg = WIDTH[m.group(1)], m.group(1)[0] == 'i'
        return ex.ret(st, s, band(cmp_('Le', r.fields[0].v, x.v, w, sg), cmp_('Lt', x.v, r.fields[1].v, w, sg)))
    if re.match(r'<(?:std::ops::|core::ops::)?RangeInclusive<\w+> as IntoIterator>::into_iter$', callee):
        return ex.ret(st, s, args[0])
    m = re.match(r'(?:<|core::iter::range::<impl Iterator for )(?:std::ops::|core::ops::)?RangeInclusive<(\w+)>(?: as Iterator)?>::next$', callee)
    if m and m.group(1) in WIDTH and m.group(1)[0] == 'u':
        r = get(ex, st, args[0])
        a, b, done = r.fields
        w = WIDTH[a.ty]
        out = []
        for s1, d in ex.split(st, done) if not isinstance(done, bool) else [(st, done)]:
            if d:
                out += ex.ret(s1, s, NONE)
                continue
            for s2, lt in ex.split(s1, cmp_('Lt', a.v, b.v, w, False)):
                if lt:
                    put(ex, s2, args[0], Struct(r.name, [Int(add(a.v, 1, w), a.ty), b, False]))
                    out += ex.ret(s2, s, some(a))
                    continue
                for s3, eq in ex.split(s2, veq(a.v, b.v, w)):
                    put(ex, s3, args[0], Struct(r.name, [a, b, True]))
                    out += ex.ret(s3, s, some(a) if eq else NONE)
        return out
    # ---- slices
    if re.search(r'slice::<impl \[u8\]>::iter$', callee) or callee == '<&[u8] as IntoIterator>::into_iter' or callee == '<&Vec<u8> as IntoIterator>::into_iter':
        return ex.ret(st, s, Struct('SliceIter', [slice_of(ex, st, args[0])]))
    if re.match(r"<(?:std|core)::slice::Iter<'_, u8> as IntoIterator>::into_iter$", callee) or re.match(r"<(?:Cloned|Copied)<(?:std|core)::slice::Iter<'_, u8>> as IntoIterator>::into_iter$", callee) \
            or re.match(r"<(?:std|core)::slice::Iter<'_, u8> as Iterator>::(cloned|copied)::", callee):
        if callee.endswith('into_iter'):
            return ex.ret(st, s, args[0])
        return ex.ret(st, s, Struct('SliceIterV', args[0].fields))
    if re.match(r"<(?:Cloned<|Copied<)?(?:std|core)::slice::Iter<'_, u8>>? as Iterator>::next$", callee) or re.match(r"<(?:std::iter::)?(?:Cloned|Copied)<(?:std|core)::slice::Iter<'_, u8>> as Iterator>::next$", callee):
        it = get(ex, st, args[0])
        sl = it.fields[0]
        out = []
        for s2, v in ex.split(st, cmp_('Lt', 0, sl.len, 64, False)):
            if v:
                put(ex, s2, args[0], Struct(it.name, [SliceRef(sl.obj, add(sl.start, 1), sub(sl.len, 1))]))
                e = ElemRef(sl.obj, sl.start)
                out += ex.ret(s2, s, some(e if it.name == 'SliceIter' else deref_byte(ex, s2, e)))
            else:
                out += ex.ret(s2, s, NONE)
        return out
    if re.search(r'slice::<impl \[u8\]>::split_at$', callee):
        sl = slice_of(ex, st, args[0])
        n = args[1].v
        ex.prove(st, vle(n, sl.len), 'panic', 'split_at within the slice')
        return ex.ret(st, s, Struct('', [SliceRef(sl.obj, sl.start, n), SliceRef(sl.obj, add(sl.start, n), sub(sl.len, n))]))
    if re.search(r'slice::<impl \[u8\]>::ends_with$', callee):
        a, b = slice_of(ex, st, args[0]), slice_of(ex, st, args[1])
        out = []
        for s2, v in ex.split(st, vle(b.len, a.len)):
            if not v:
                out += ex.ret(s2, s, False)
            else:
                out += concat_results(ex, s, slices_eq(ex, s2, SliceRef(a.obj, add(a.start, sub(a.len, b.len)), b.len), b))
        return out
    m = re.search(r'slice::<impl \[u8\]>::split_(first|last)$', callee)
    if m:
        sl = slice_of(ex, st, args[0])
        out = []
        for s2, v in ex.split(st, cmp_('Lt', 0, sl.len, 64, False)):
            if not v:
                out += ex.ret(s2, s, NONE)
                continue
            n = sub(sl.len, 1)
            if m.group(1) == 'first':
                t = Struct('', [ElemRef(sl.obj, sl.start), SliceRef(sl.obj, add(sl.start, 1), n)])
            else:
                t = Struct('', [ElemRef(sl.obj, add(sl.start, n)), SliceRef(sl.obj, sl.start, n)])
            out += ex.ret(s2, s, some(t))
        return out
    m = re.search(r'slice::<impl \[u8\]>::get::<(?:std::ops::|core::ops::)?(Range|RangeFrom|RangeTo)<usize>>$', callee)
    if m:
        sl, r, k = slice_of(ex, st, args[0]), args[1], m.group(1)
        a = 0 if k == 'RangeTo' else r.fields[0].v
        b = sl.len if k == 'RangeFrom' else r.fields[-1].v
        out = []
        for s1, v in ex.split(st, vle(a, b)):
            if not v:
                out += ex.ret(s1, s, NONE)
                continue
            for s2, w in ex.split(s1, vle(b, sl.len)):
                out += ex.ret(s2, s, some(SliceRef(sl.obj, add(sl.start, a), sub(b, a))) if w else NONE)
        return out
    if re.search(r'slice::<impl \[u8\]>::contains$', callee):
        sl = slice_of(ex, st, args[0])
        x = deref_byte(ex, st, args[1])
        if is_c(sl.len) and sl.len <= 256:
            r = False
            for i in range(sl.len):
                r = bor(r, cmp_('Eq', ex.read_byte(st, sl.obj, add(sl.start, i)), x.v, 8, False))
            return ex.ret(st, s, r)
    if re.search(r'slice::(ascii::)?<impl \[u8\]>::eq_ignore_ascii_case$', callee):
        a, b = slice_of(ex, st, args[0]), slice_of(ex, st, args[1])
        n = a.len if is_c(a.len) else b.len
        if is_c(n) and n <= 256:
            out = []
            for s2, v in ex.split(st, veq(a.len, b.len)):
                r = v
                for i in range(n if v else 0):
                    r = band(r, cmp_('Eq', lower(ex.read_byte(s2, a.obj, add(a.start, i))), lower(ex.read_byte(s2, b.obj, add(b.start, i))), 8, False))
                out += ex.ret(s2, s, r)
            return out
    # ---- vectors
    if re.search(r'slice::<impl \[u8\]>::to_vec$', callee) or callee == '<[u8] as ToOwned>::to_owned' or re.match(r'<Vec<u8> as From<&(\[u8\]|\[u8; \d+\])>>::from$', callee):
        return ex.ret(st, s, VecV(tuple(slice_segs(ex, st, slice_of(ex, st, args[0])))))
    if re.search(r'slice::<impl \[&\[u8\]\]>::concat::<u8>$', callee):
        sl = slice_of(ex, st, args[0])
        v = ex.get_path(st, st.mem[sl.obj[1]], sl.obj[2]) if isinstance(sl.obj, tuple) and sl.obj[0] == 'cell' else None
        if not isinstance(v, Arr) or not is_c(sl.start) or not is_c(sl.len):
            raise Unsupported('concat')
        return ex.ret(st, s, VecV(tuple(g for x in v.items[sl.start:sl.start + sl.len] for g in slice_segs(ex, st, slice_of(ex, st, x)))))
    if callee == 'Vec::<u8>::reserve':
        return ex.ret(st, s, UNIT)
    if callee == 'Vec::<u8>::truncate' and is_c(args[1].v) and args[1].v == 0:
        put(ex, st, args[0], VecV())
        return ex.ret(st, s, UNIT)
    m = re.match(r'<Vec<u8> as Extend<&?u8>>::extend::<(.*)>$', callee)
    if m:
        src = args[1]
        if isinstance(src, Struct) and src.name in ('SliceIter', 'SliceIterV'):
            src = src.fields[0]
        v = get(ex, st, args[0])
        if isinstance(v, VecV):
            put(ex, st, args[0], VecV(v.segs + tuple(slice_segs(ex, st, slice_of(ex, st, src)))))
            return ex.ret(st, s, UNIT)
    # ---- numbers and characters
    m = re.match(r'core::num::<impl (u16|u32|u64)>::from_(be|le)_bytes$', callee)
    if m:
        a = get(ex, st, args[0])
        w = WIDTH[m.group(1)]
        if isinstance(a, Arr) and len(a.items) * 8 == w:
            items = a.items if m.group(2) == 'be' else a.items[::-1]
            n = len(items)
            t = 0
            for i, x in enumerate(items):
                y = Int(zext(x.v, 8, w), m.group(1))
                if i < n - 1:
                    y = ex.binop(st, 'Shl', y, Int(8 * (n - 1 - i), 'u32'))
                t = y if i == 0 else ex.binop(st, 'BitOr', t, y)
            return ex.ret(st, s, t)
    m = re.match(r'core::num::<impl (u8|u16|u32|u64|usize)>::(pow|saturating_add|is_ascii|is_ascii_graphic|is_ascii_control|eq_ignore_ascii_case|wrapping_shl|wrapping_mul|wrapping_neg)$', callee)
    if m:
        ty, k = m.groups()
        w = WIDTH[ty]
        if k == 'eq_ignore_ascii_case':
            return ex.ret(st, s, cmp_('Eq', lower(deref_byte(ex, st, args[0]).v), lower(deref_byte(ex, st, args[1]).v), 8, False))
        if k in ('is_ascii', 'is_ascii_graphic', 'is_ascii_control'):
            x = deref_byte(ex, st, args[0]).v
            r = in_ranges(x, list(range(128)) if k == 'is_ascii' else list(range(33, 127)) if k == 'is_ascii_graphic' else list(range(32)) + [127], 8)
            return ex.ret(st, s, r if isinstance(r, bool) else mkbool(r))
        if k == 'pow' and is_c(args[0].v) and is_c(args[1].v):
            v = args[0].v ** args[1].v
            ex.prove(st, v < 1 << w, 'panic', 'pow does not overflow')
            return ex.ret(st, s, Int(v % (1 << w), ty))
        if k == 'saturating_add':
            t = ex.binop(st, 'AddWithOverflow', args[0], args[1])
            out = []
            for s2, v in ex.split(st, t.fields[1]):
                out += ex.ret(s2, s, Int((1 << w) - 1, ty) if v else t.fields[0])
            return out
    if callee in ('<char as From<u8>>::from', '<u8 as Into<char>>::into'):
        return ex.ret(st, s, Int(zext(args[0].v, 8, 32), 'char'))
    m = re.match(r'(?:core::)?char::methods::<impl char>::(to_digit|is_digit|is_ascii_digit|is_ascii_hexdigit|is_ascii_uppercase|is_ascii_lowercase|is_ascii_alphabetic|is_ascii_graphic)$', callee)
    if m:
        k = m.group(1)
        x = args[0] if isinstance(args[0], Int) else get(ex, st, args[0])
        if k in ('to_digit', 'is_digit'):
            if not is_c(args[1].v) or args[1].v not in (10, 16):
                raise Unsupported(callee)
            groups = [(48, 57, 48)] + ([(65, 70, 55), (97, 102, 87)] if args[1].v == 16 else [])
            out, rest = [], [st]
            for a, b, d in groups:
                nxt = []
                for s1 in rest:
                    r = in_ranges(x.v, list(range(a, b + 1)), 32)
                    for s2, v in ex.split(s1, r if isinstance(r, bool) else mkbool(r)):
                        if v:
                            out += ex.ret(s2, s, some(Int(sub(x.v, d, 32), 'u32')) if k == 'to_digit' else True)
                        else:
                            nxt.append(s2)
                rest = nxt
            for s1 in rest:
                out += ex.ret(s1, s, NONE if k == 'to_digit' else False)
            return out
        S = {'is_ascii_digit': '0-9', 'is_ascii_hexdigit': '0-9A-Fa-f', 'is_ascii_uppercase': 'A-Z', 'is_ascii_lowercase': 'a-z', 'is_ascii_alphabetic': 'A-Za-z', 'is_ascii_graphic': '!-~'}[k]
        r = in_ranges(x.v, [b for b in range(128) if re.match('[%s]' % S, chr(b))], 32)
        return ex.ret(st, s, r if isinstance(r, bool) else mkbool(r))
    return None
