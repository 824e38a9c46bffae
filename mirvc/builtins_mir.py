"""Contracts assumed for the standard-library functions the crate calls (trusted base)."""
import re
import z3
from mirparse import Unsupported, strip_generics
from sym import *


def slice_of(ex, st, v):
    """view v (SliceRef, or Ref to SliceRef/Arr/VecV) as a SliceRef"""
    for _ in range(4):
        if isinstance(v, SliceRef):
            return v
        if isinstance(v, Ref):
            t = ex.get_path(st, st.mem[v.cell], v.proj)
            if isinstance(t, Arr):
                return SliceRef(('cell', v.cell, v.proj), 0, len(t.items))
            if isinstance(t, VecV):
                return vec_slice(ex, t, st)
            v = t
            continue
        break
    raise Unsupported('slice view of %r' % (v,))


def seg_len(segs):
    n = 0
    for s in segs:
        n = add(n, len(s[1]) if s[0] == 'c' else 1 if s[0] == 'b' else s[3])
    return n


def vec_slice(ex, v, st=None):
    if any(x[0] in ('ch', 'junk') for x in v.segs):
        return ex.vec_view(st, v)
    return SliceRef(AnyBytes(v.segs), 0, seg_len(v.segs))


def deref_byte(ex, st, v):
    for _ in range(4):
        if isinstance(v, Int):
            return v
        if isinstance(v, ElemRef):
            return Int(ex.read_byte(st, v.obj, v.idx), 'u8')
        if isinstance(v, Ref):
            v = ex.get_path(st, st.mem[v.cell], v.proj)
            continue
        break
    raise Unsupported('scalar view of %r' % (v,))


def slices_eq(ex, st, a, b):
    """list of (state, bool)"""
    la, lb = a.len, b.len
    if is_c(la) and is_c(lb):
        if la != lb:
            return [(st, False)]
        n = la
    else:
        leq = veq(la, lb)
        if leq is not True:
            out = []
            for s2, val in ex.split(st, leq):
                if not val:
                    out.append((s2, False))
                else:
                    n = la if is_c(la) else lb
                    out += slices_eq(ex, s2, SliceRef(a.obj, a.start, n), SliceRef(b.obj, b.start, n))
            return out
        n = la
    if is_c(n):
        if n > 4096:
            raise Unsupported('long constant compare')
        cs = []
        for i in range(n):
            cs.append(veq(ex.read_byte(st, a.obj, add(a.start, i)), ex.read_byte(st, b.obj, add(b.start, i)), 8))
        c = band(*cs)
        return ex.split(st, c if isinstance(c, bool) else mkbool(c))
    return ex.bulk_compare(st, a, b, n)


def concat_results(ex, s, rs):
    out = []
    for st, v in rs:
        try:
            out += ex.ret(st, s, v)
        except Kill:
            pass
    return out


def some(v):
    return Struct('Option', [v], 'Some')


NONE = Struct('Option', [], 'None')


def call(ex, st, s, callee, args):
    c = strip_generics(callee)
    # ---- slices
    if re.search(r'slice::<impl \[\w+\]>::len$|slice::<impl \[u8\]>::len$', callee) or c.endswith('::len') and ('[u8]' in callee or 'Vec' in callee or 'str' in callee or 'String' in callee):
        sl = slice_of(ex, st, args[0])
        return ex.ret(st, s, Int(sl.len, 'usize'))
    if 'impl [u8]>::is_empty' in callee:
        return ex.ret(st, s, veq(slice_of(ex, st, args[0]).len, 0))
    if 'impl [u8]>::get_unchecked' in callee and isinstance(args[1], Int):
        sl = slice_of(ex, st, args[0])
        ex.prove(st, cmp_('Lt', args[1].v, sl.len, 64, False), 'panic', 'get_unchecked index within the slice')
        return ex.ret(st, s, ElemRef(sl.obj, add(sl.start, args[1].v)))
    if 'impl [u8]>::get::<usize>' in callee:
        sl = slice_of(ex, st, args[0])
        out = []
        for s2, v in ex.split(st, cmp_('Lt', args[1].v, sl.len, 64, False)):
            out += ex.ret(s2, s, some(ElemRef(sl.obj, add(sl.start, args[1].v))) if v else NONE)
        return out
    if re.search(r'impl \[u8\]>::(first|last)$', callee):
        sl = slice_of(ex, st, args[0])
        out = []
        for s2, v in ex.split(st, cmp_('Lt', 0, sl.len, 64, False)):
            idx = 0 if c.endswith('first') else sub(sl.len, 1)
            out += ex.ret(s2, s, some(ElemRef(sl.obj, add(sl.start, idx))) if v else NONE)
        return out
    if 'impl [u8]>::starts_with' in callee:
        a, b = slice_of(ex, st, args[0]), slice_of(ex, st, args[1])
        out = []
        for s2, v in ex.split(st, vle(b.len, a.len)):
            if not v:
                out += ex.ret(s2, s, False)
            else:
                out += concat_results(ex, s, slices_eq(ex, s2, SliceRef(a.obj, a.start, b.len), b))
        return out
    m = re.match(r'<\[u8\] as Index<(?:std::ops::|core::ops::)?(Range\w*)(<usize>)?>>::index$', callee) or \
        re.match(r'<Vec<u8> as Index<(?:std::ops::|core::ops::)?(Range\w*)(<usize>)?>>::index$', callee) or \
        re.match(r'<\[u8; \d+\] as Index<(?:std::ops::|core::ops::)?(Range\w*)(<usize>)?>>::index$', callee)
    if m:
        sl = slice_of(ex, st, args[0])
        kind = m.group(1)
        r = args[1]
        if kind == 'Range':
            a, b = r.fields[0].v, r.fields[1].v
        elif kind == 'RangeFrom':
            a, b = r.fields[0].v, sl.len
        elif kind == 'RangeTo':
            a, b = 0, r.fields[0].v
        elif kind == 'RangeFull':
            a, b = 0, sl.len
        else:
            raise Unsupported('index by ' + kind)
        ex.prove(st, vle(a, b), 'panic', 'slice range start <= end')
        ex.prove(st, vle(b, sl.len), 'panic', 'slice range end <= len')
        return ex.ret(st, s, SliceRef(sl.obj, add(sl.start, a), sub(b, a)))
    # ---- comparisons
    if re.match(r'<&*(mut )?(u8|usize|u16|u32|u64) as PartialEq(<&*(u8|usize|u16|u32|u64)>)?>::(eq|ne)$', callee):
        a, b = deref_byte(ex, st, args[0]), deref_byte(ex, st, args[1])
        r = cmp_('Eq', a.v, b.v, WIDTH[a.ty], False)
        return ex.ret(st, s, r if callee.endswith('eq') else bnot(r))
    m = re.match(r'<&*(u8|usize|u16|u32|u64) as PartialOrd(?:<&*(?:u8|usize|u16|u32|u64)>)?>::(lt|le|gt|ge)$', callee)
    if m:
        a, b = deref_byte(ex, st, args[0]), deref_byte(ex, st, args[1])
        return ex.ret(st, s, cmp_({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m.group(2)], a.v, b.v, WIDTH[a.ty], False))
    if re.match(r'<&*\[u8(; \d+)?\] as PartialEq(<&*\[u8(; \d+)?\]>)?>::(eq|ne)$', callee):
        a, b = slice_of(ex, st, args[0]), slice_of(ex, st, args[1])
        neg = callee.endswith('ne')
        return concat_results(ex, s, [(x, bnot(v) if neg else v) for x, v in slices_eq(ex, st, a, b)])
    # ---- options
    m = re.match(r'Option::<.*>::(unwrap|expect|is_some|is_none|unwrap_or|copied|cloned)$', callee)
    if m:
        v = args[0]
        k = m.group(1)
        if isinstance(v, Ref):
            v = ex.get_path(st, st.mem[v.cell], v.proj)
        if not isinstance(v, Struct) or v.variant not in ('Some', 'None'):
            raise Unsupported('option %r' % (v,))
        if k in ('is_some', 'is_none'):
            return ex.ret(st, s, (v.variant == 'Some') == (k == 'is_some'))
        if k in ('unwrap', 'expect'):
            ex.prove(st, v.variant == 'Some', 'panic', 'unwrap of None')
            return ex.ret(st, s, v.fields[0])
        if k == 'unwrap_or':
            return ex.ret(st, s, v.fields[0] if v.variant == 'Some' else args[1])
        if v.variant == 'None':
            return ex.ret(st, s, v)
        x = v.fields[0]
        if isinstance(x, (Ref, ElemRef)):
            return ex.ret(st, s, some(deref_byte(ex, st, x)))
    # ---- Vec / String
    if re.match(r'(Vec::<u8>|String)::(new|with_capacity)$', callee):
        return ex.ret(st, s, VecV())
    if callee == 'String::as_mut_vec':
        return ex.ret(st, s, args[0])
    if re.match(r'Vec::<u8>::(extend_from_slice|push|clear|append)$', callee):
        ref = args[0]
        v = ex.get_path(st, st.mem[ref.cell], ref.proj)
        if not isinstance(v, VecV):
            raise Unsupported('vec op')
        if callee.endswith('push'):
            nv = VecV(v.segs + (('b', args[1].v),))
        elif callee.endswith('clear'):
            nv = VecV()
        else:
            sl = slice_of(ex, st, args[1])
            nv = VecV(v.segs + tuple(slice_segs(ex, st, sl)))
        st.mem[ref.cell] = ex.set_path(st.mem[ref.cell], ref.proj, nv)
        return ex.ret(st, s, UNIT)
    if callee in ('<Vec<u8> as Deref>::deref', '<Vec<u8> as AsRef<[u8]>>::as_ref', 'Vec::<u8>::as_slice'):
        return ex.ret(st, s, slice_of(ex, st, args[0]))
    if callee == '<Vec<u8> as Index<usize>>::index':
        sl = slice_of(ex, st, args[0])
        ex.prove(st, cmp_('Lt', args[1].v, sl.len, 64, False), 'panic', 'index within the vector')
        return ex.ret(st, s, ElemRef(sl.obj, add(sl.start, args[1].v)))
    if callee in ('Vec::<u8>::is_empty', 'String::is_empty', 'core::str::<impl str>::is_empty'):
        return ex.ret(st, s, veq(slice_of(ex, st, args[0]).len, 0))
    # ---- integers
    m = re.match(r'core::num::<impl (u8|u16|u32|u64|usize)>::(\w+)$', callee)
    if m:
        ty, k = m.group(1), m.group(2)
        w = WIDTH[ty]
        if k in ('is_ascii_digit', 'is_ascii_uppercase', 'is_ascii_hexdigit', 'is_ascii_alphabetic', 'is_ascii_lowercase', 'is_ascii_alphanumeric'):
            x = deref_byte(ex, st, args[0]).v
            import string
            S = {'is_ascii_digit': string.digits, 'is_ascii_uppercase': string.ascii_uppercase,
                 'is_ascii_lowercase': string.ascii_lowercase, 'is_ascii_hexdigit': string.hexdigits,
                 'is_ascii_alphabetic': string.ascii_letters, 'is_ascii_alphanumeric': string.ascii_letters + string.digits}[k]
            r = in_ranges(x, sorted(map(ord, S)), 8)
            return ex.ret(st, s, r if isinstance(r, bool) else mkbool(r))
        if k in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            x = deref_byte(ex, st, args[0]).v
            lo = k == 'to_ascii_lowercase'
            r = in_ranges(x, list(range(65, 91) if lo else range(97, 123)), 8)
            if isinstance(r, bool):
                return ex.ret(st, s, Int((x ^ 32) if r else x, 'u8'))
            return ex.ret(st, s, Int(norm(z3.If(r, x ^ 32, x)), 'u8'))
        if k in ('wrapping_add', 'wrapping_sub'):
            f = add if k.endswith('add') else sub
            return ex.ret(st, s, Int(f(args[0].v, args[1].v, w), ty))
        if k in ('checked_add', 'checked_sub', 'checked_mul'):
            t = ex.binop(st, {'add': 'AddWithOverflow', 'sub': 'SubWithOverflow', 'mul': 'MulWithOverflow'}[k[8:]], args[0], args[1])
            out = []
            for s2, v in ex.split(st, t.fields[1]):
                out += ex.ret(s2, s, NONE if v else some(t.fields[0]))
            return out
        if k == 'saturating_sub':
            out = []
            for s2, v in ex.split(st, vle(args[1].v, args[0].v, w)):
                out += ex.ret(s2, s, Int(sub(args[0].v, args[1].v, w) if v else 0, ty))
            return out
    m = re.match(r'<(u8|u16|u32|u64|usize) as Ord>::(min|max)$', callee) or re.match(r'(?:std|core)::cmp::(min|max)::<(u8|u16|u32|u64|usize)>$', callee)
    if m:
        ty, k = m.groups() if callee.startswith('<') else m.groups()[::-1]
        a, b = args
        out = []
        for s2, v in ex.split(st, vle(a.v, b.v, WIDTH[ty])):
            out += ex.ret(s2, s, a if v == (k == 'min') else b)
        return out
    m = re.match(r'<(u16|u32|u64|usize) as (?:std::convert::)?From<(u8|u16|u32|bool)>>::from$', callee) or re.match(r'<(u8|u16|u32) as (?:std::convert::)?Into<(u16|u32|u64|usize)>>::into$', callee)
    if m:
        ty = m.group(1) if 'From' in callee else m.group(2)
        v = args[0]
        return ex.ret(st, s, Int(zext(v.v, WIDTH[v.ty], WIDTH[ty]), ty))
    # ---- ranges
    if re.match(r'<(?:std::ops::|core::ops::)?Range<(usize|u8|u16|u32|i32)> as (?:IntoIterator>::into_iter)$', callee):
        return ex.ret(st, s, args[0])
    m = re.match(r'(?:core|std)::iter::range::<impl Iterator for (?:std::ops::|core::ops::)?Range<(usize|u8|u16|u32|i32)>>::next$', callee) or \
        re.match(r'<(?:std::ops::|core::ops::)?Range<(usize|u8|u16|u32|i32)> as Iterator>::next$', callee)
    if m:
        ref = args[0]
        r = ex.get_path(st, st.mem[ref.cell], ref.proj)
        a, b = r.fields
        w = WIDTH[a.ty]
        out = []
        for s2, v in ex.split(st, cmp_('Lt', a.v, b.v, w, a.ty[0] == 'i')):
            if v:
                s2.mem[ref.cell] = ex.set_path(s2.mem[ref.cell], ref.proj, Struct(r.name, [Int(add(a.v, 1, w), a.ty), b]))
            out += ex.ret(s2, s, some(a) if v else NONE)
        return out
    # ---- diverging
    if 'panicking::' in callee or 'panic_fmt' in callee or 'expect_failed' in callee or 'unwrap_failed' in callee:
        ex.prove(st, False, 'panic', 'explicit panic: ' + callee)
        raise Kill()
    m = re.match(r'Box::<.*>::new$', callee)
    if m:
        return ex.ret(st, s, Struct('Box', [args[0]]))
    m = re.match(r'<.* as (Clone)>::clone$', callee)
    if m:
        v = args[0]
        if isinstance(v, Ref):
            return ex.ret(st, s, ex.get_path(st, st.mem[v.cell], v.proj))
    return None


def slice_segs(ex, st, sl):
    """a slice's contents as vector segments"""
    if isinstance(sl.obj, AnyBytes):
        if is_c(sl.start) and sl.start == 0 and veq(sl.len, seg_len(sl.obj.segs)) is True:
            return list(sl.obj.segs)
        if is_c(sl.start) and is_c(sl.len):
            return [('b', ex.read_byte(st, sl.obj, sl.start + i)) for i in range(sl.len)]
        raise Unsupported('partial vector slice')
    if sl.obj[0] == 'const' and is_c(sl.start) and is_c(sl.len):
        return [('c', sl.obj[1][sl.start:sl.start + sl.len])] if sl.len else []
    if sl.obj[0] == 'cell':
        if is_c(sl.start) and is_c(sl.len):
            return [('b', ex.read_byte(st, sl.obj, sl.start + i)) for i in range(sl.len)]
        raise Unsupported('symbolic slice of local array')
    return [('s', sl.obj, sl.start, sl.len)]
