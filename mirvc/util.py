"""util::decode, util::QueryIterator, util::FieldIterator: roots, buffers as channels, UTF-8 evidence.

A growing buffer is not represented by its bytes but by the specification channel whose output it holds:
every byte appended is matched against the next byte the specification owes on that channel, so a buffer in
the state ('ch', c) holds exactly what the specification has output on c.  The bytes of such a buffer are an
uninterpreted function of the index, its length an unknown of at least one.
"""
import re
import z3
from mirparse import Unsupported, strip_generics
from sym import *
from engine import *
from h1 import H1, PARSER
from builtins_mir import slice_of, slice_segs, some, NONE
from specm import SymM
import spec_util

CB = ('CB',)
TYPE = {'query': 'QueryIterator', 'field': 'FieldIterator'}
STR = r"(?:std::string::|alloc::string::)?String"


def whole(v, ch, own):
    """the string is everything the specification has output on ch"""
    return isinstance(v, VecV) and (v.segs == (('ch', ch),) or not v.segs and ch not in own)


class U(H1):
    SPEC = spec_util

    # ------------------------------------------------------------ buffers
    def vec_view(self, st, v):
        if len(v.segs) != 1 or v.segs[0][0] != 'ch':
            raise Unsupported('contents of a stale buffer')
        ch = v.segs[0][1]
        return SliceRef(('CH', ch), 0, self.ch_len(st, ch))

    def ch_len(self, st, ch):
        k = ch + '#'
        if k not in st.regs:
            n = st.regs[k] = self.fresh('len_' + ch, 64)
            self.assume(st, z3.And(z3.ULE(bv(1, 64), n), z3.ULE(n, bv(MAXLEN, 64))))
        return st.regs[k]

    def of_slice(self, st, sl):
        """buffer contents equal to the slice"""
        o = sl.obj
        if isinstance(o, tuple) and o[0] == 'CH':
            ch = o[1]
            if is_c(sl.start) and sl.start == 0 and self.valid(st, veq(sl.len, self.ch_len(st, ch))):
                return VecV((('ch', ch),))
            raise Unsupported('part of a buffer')
        return VecV(slice_segs(self, st, sl))

    def vec(self, st, v):
        t = self.get_path(st, st.mem[v.cell], v.proj) if isinstance(v, Ref) else v
        if not isinstance(t, VecV):
            raise Unsupported('buffer %r' % (t,))
        return t

    def setvec(self, st, ref, v):
        st.mem[ref.cell] = self.set_path(st.mem[ref.cell], ref.proj, v)

    def front(self, st, k=0):
        """states in which the specification has said what it owes next (or that it owes nothing more)"""
        out = []
        for s in self.refill(st):
            if s.queue or s.q[0] in ('end', 'bad', 'ok'):
                out.append(s)
                continue
            for s2, av in self.split(s, cmp_('Lt', s.g, self.stream_len(s), 64, False)):
                if not av or k >= 4:
                    out.append(s2)
                else:
                    for s3 in self.consume_one(s2):
                        out += self.front(s3, k + 1)
        return out

    def bulk_more(self, s, idx, n):
        """the cursor jumps: a few bytes, or to anywhere once the specification looks at nothing more"""
        out, work = [], [(s, 0)]
        while work:
            t, k = work.pop()
            if t.q[0] in ('end', 'bad', 'ok'):
                t.g = idx
                out.append(t)
                continue
            if k > 6:
                raise Unsupported('symbolic cursor advance in specification state %s' % (t.q,))
            for t1, z in self.split(t, veq(t.g, idx)):
                if z:
                    t1.g = idx
                    out.append(t1)
                else:
                    for t2 in self.do_eps(t1, True):
                        work += [(t3, k + 1) for t3 in ([t2] if t2.q[0] in ('end', 'bad', 'ok') else self.consume_one(t2))]
        return out

    def refill(self, st):
        if st.queue:
            return [st]
        out = []
        for s2, av in self.split(st, cmp_('Lt', st.g, self.stream_len(st), 64, False)):
            out += self.do_eps(s2, av)
        return out

    def claim(self, st, cur, why):
        """the channel the bytes that are now put into an empty buffer belong to"""
        it = st.queue[0] if st.queue else None
        if not it or it[0] == 'ev':
            self.fail(st, 'event:' + (it[1] if it else 'data'), '%s, specification owes %s (state %s)' % (why, qs(st), st.q), st.model)
            raise Kill()
        ch = it[1]
        if ch in st.extra['own']:
            self.fail(st, 'event:' + ch, '%s although another buffer holds the %s so far' % (why, ch), st.model)
            raise Kill()
        st.extra['own'] = tuple(sorted(st.extra['own'] + (ch,)))
        return ch

    def grown(self, st, ch, ref):
        """channel ch got longer; copies of what it was are out of date"""
        st.regs.pop(ch + '#', None)
        st.extra['utf8'] = tuple(x for x in st.extra['utf8'] if x != ch)

        def old(v):
            if isinstance(v, VecV) and ('ch', ch) in v.segs:
                return VecV((('junk',),))
            if isinstance(v, Struct):
                return Struct(v.name, [old(x) for x in v.fields], v.variant)
            return v
        for c, v in st.mem.items():
            if not is_static(c):
                st.mem[c] = old(v)
        if ref is not None:
            self.setvec(st, ref, VecV((('ch', ch),)))

    def append(self, st, ref, sl):
        """states after the slice has been appended to the buffer"""
        out = []
        # bytes may be taken before the cursor has moved over them
        ahead = lambda s: self.sync(s, add(sl.start, sl.len)) if sl.obj == S else [s]
        for s in [y for x in self.sync(st) for y in ahead(x)]:
            for s1, z in self.split(s, veq(sl.len, 0)):
                if z:
                    out.append(s1)
                    continue
                v = self.vec(s1, ref)
                if any(x[0] not in ('ch',) for x in v.segs):
                    if any(x[0] == 'junk' for x in v.segs):
                        out.append(s1)
                        continue
                    raise Unsupported('append to a fixed string')
                if not v.segs and isinstance(sl.obj, tuple) and sl.obj[0] == 'CH':
                    self.setvec(s1, ref, self.of_slice(s1, sl))
                    out.append(s1)
                    continue
                for s2 in self.front(s1):
                    try:
                        ch = v.segs[0][1] if v.segs else self.claim(s2, None, 'bytes put into an empty buffer')
                        for s3 in self.deliver_data(s2, ch, sl):
                            self.grown(s3, ch, ref)
                            out.append(s3)
                    except Kill:
                        pass
        return out

    # ------------------------------------------------------------ UTF-8
    def utf8(self, st, sl):
        """std::str::from_utf8: [(state, slice or None, position of the first bad byte)]"""
        out = []
        for s, z in self.split(st, veq(sl.len, 0)):
            if z:
                out.append((s, SliceRef(('const', b''), 0, 0), None))
                continue
            for s1 in self.sync(s):
                if isinstance(sl.obj, tuple) and sl.obj[0] == 'CH':
                    ch = sl.obj[1]
                    self.of_slice(s1, sl)
                    todo = [(s1, ch)]
                elif isinstance(sl.obj, tuple) and sl.obj[0] == 'const' and is_c(sl.start) and is_c(sl.len):
                    sl.obj[1][sl.start:sl.start + sl.len].decode()
                    out.append((s1, sl, None))
                    continue
                else:
                    # the bytes themselves are the whole part
                    todo = []
                    for s2 in self.front(s1):
                        try:
                            ch = self.claim(s2, None, 'bytes made a string')
                            for s3 in self.deliver_data(s2, ch, sl):
                                self.grown(s3, ch, None)
                                todo.append((s3, ch))
                        except Kill:
                            pass
                virtual = not (isinstance(sl.obj, tuple) and sl.obj[0] == 'CH')
                for s2, c in todo:
                    n = self.ch_len(s2, c)
                    t = s2.fork()
                    s2.extra['utf8'] = tuple(sorted(set(s2.extra['utf8']) | {c}))
                    out.append((s2, SliceRef(('CH', c), 0, n), None))
                    k = self.fresh('valid_up_to', 64)
                    lim = sl.len if virtual else n
                    self.assume(t, z3.ULT(k, bv(lim, 64)))
                    b = self.read_byte(t, sl.obj, add(sl.start, k))
                    for t2 in self.front(t):
                        try:
                            self.bad_utf8(t2, c, zext(b, 8, 64))
                            out.append((t2, None, k))
                        except Kill:
                            pass
        return out

    def bad_utf8(self, st, ch, b):
        """the code found the bytes of ch not to be UTF-8: what the specification then does"""
        if self.typ == 'decode':
            if st.queue or st.q != ('ok',):
                self.fail(st, 'error', 'string rejected, specification owes %s (state %s)' % (qs(st), st.q), st.model)
                raise Kill()
        else:
            qq = [x for x in st.queue if ch != 'name' or x[0] == 'ev' or x[1] != 'value']
            if len(qq) != 1 or qq[0][:2] != ('ev', 'pair'):
                self.fail(st, 'error', 'string rejected, specification owes %s (state %s)' % (qs(st), st.q), st.model)
                raise Kill()
            if ch == 'value' and 'name' in st.extra['own'] and 'name' not in st.extra['utf8']:
                self.fail(st, 'error', 'value checked before the name', st.model)
                raise Kill()
            st.queue = ()
        self.spec.bad_utf8(SymM(self, st, []), ch, b)

    # ------------------------------------------------------------ calls
    def hook_call(self, st, s, callee, args):
        c = strip_generics(callee)
        m = re.match(r'Box::<.*>::new$', callee)
        if m:
            self.builtins_used.add('Box::new')
            st.mem[CB] = args[0]
            return self.ret(st, s, Struct('Box', [Ref(CB)]))
        m = re.match(r'(?:Vec::<u8>|%s)::(len|is_empty|capacity)$' % STR, callee)
        if m and (m.group(1) == 'capacity' or any(x[0] == 'junk' for x in self.vec(st, args[0]).segs)):
            # contents left over from the last item (or the capacity): any length
            n = self.fresh('old_len', 64)
            self.assume(st, z3.ULE(n, bv(MAXLEN, 64)))
            return self.ret(st, s, veq(n, 0) if m.group(1) == 'is_empty' else Int(n, 'usize'))
        m = re.match(r'<dyn FnMut\((\w+)\) as FnMut<\(\w+,\)>>::call_mut$', callee)
        if m:
            return self.call_error(st, s, args)
        if re.match(r'Vec::<u8>::(extend_from_slice|push)$|%s::(push_str)$' % STR, callee):
            self.builtins_used.add(c)
            sl = SliceRef(AnyBytes((('b', args[1].v),)), 0, 1) if callee.endswith('push') else slice_of(self, st, args[1])
            return [x for t in self.append(st, args[0], sl) for x in self.ret(t, s, UNIT)]
        if re.search(r'str::from_utf8$|^from_utf8$|<impl str>::from_utf8$', c) and not c.endswith('String::from_utf8'):
            self.builtins_used.add('core::str::from_utf8')
            out = []
            for t, sl, k in self.utf8(st, slice_of(self, st, args[0])):
                out += self.ret(t, s, Struct('Result', [sl], 'Ok') if k is None else
                                Struct('Result', [Struct('Utf8Error', [Int(k, 'usize')])], 'Err'))
            return out
        if re.match(r'%s::from_utf8$' % STR, c):
            self.builtins_used.add(c)
            v = self.vec(st, args[0])
            sl = SliceRef(('const', b''), 0, 0) if not v.segs else self.vec_view(st, v)
            out = []
            for t, r, k in self.utf8(st, sl):
                out += self.ret(t, s, Struct('Result', [v], 'Ok') if k is None else
                                Struct('Result', [Struct('FromUtf8Error', [v, Struct('Utf8Error', [Int(k, 'usize')])])], 'Err'))
            return out
        m = re.search(r'(FromUtf8Error::(utf8_error|into_bytes|as_bytes)|Utf8Error::valid_up_to)$', c)
        if m:
            self.builtins_used.add(c)
            e = args[0]
            if isinstance(e, Ref):
                e = self.get_path(st, st.mem[e.cell], e.proj)
            k = m.group(1)
            if k.endswith('valid_up_to'):
                return self.ret(st, s, e.fields[0])
            if k.endswith('utf8_error'):
                return self.ret(st, s, e.fields[1])
            if k.endswith('into_bytes'):
                return self.ret(st, s, e.fields[0])
            return self.ret(st, s, slice_of(self, st, Ref(args[0].cell, args[0].proj + (('field', 0),))))
        if re.search(r'str::from_utf8_unchecked$|^from_utf8_unchecked$', c):
            self.builtins_used.add(c)
            return self.ret(st, s, slice_of(self, st, args[0]))
        if re.match(r'%s::from_utf8_unchecked$|%s::(into_bytes)$' % (STR, STR), c) or re.match(r'<Vec<u8> as Into<Vec<u8>>>::into$', callee):
            self.builtins_used.add(c)
            return self.ret(st, s, args[0])
        if re.match(r'<str as (ToString|ToOwned|Into<String>)>::(to_string|to_owned|into)$|<&str as Into<String>>::into$|<%s as From<&(mut )?str>>::from$' % STR, callee) or \
                re.match(r'slice::<impl \[u8\]>::(to_vec|to_owned)$|.*<impl \[u8\]>::to_vec$|<\[u8\] as ToOwned>::to_owned$|<Vec<u8> as From<&\[u8\]>>::from$', callee):
            self.builtins_used.add(c)
            return self.make(st, s, slice_of(self, st, args[0]))
        m = re.match(r'(?:std::mem::|core::mem::)?(take|replace)::<(Vec<u8>|%s)>$' % STR, callee)
        if m:
            self.builtins_used.add(c)
            v = self.vec(st, args[0])
            self.setvec(st, args[0], VecV() if m.group(1) == 'take' else args[1])
            return self.ret(st, s, v)
        if re.match(r'<%s as (Deref|AsRef<str>|AsRef<\[u8\]>|Borrow<str>)>::\w+$|%s::(as_str|as_bytes)$|core::str::<impl str>::as_bytes$' % (STR, STR), callee):
            self.builtins_used.add(c)
            return self.ret(st, s, slice_of(self, st, args[0]))
        return super().hook_call(st, s, callee, args)

    def make(self, st, s, sl):
        """an owned buffer with the contents of the slice"""
        out = []
        if isinstance(sl.obj, tuple) and sl.obj[0] == 'CH':
            return self.ret(st, s, self.of_slice(st, sl))
        for t in self.sync(st):
            for t1, z in self.split(t, veq(sl.len, 0)):
                if z:
                    out += self.ret(t1, s, VecV())
                    continue
                for t2 in self.front(t1):
                    try:
                        ch = self.claim(t2, None, 'bytes copied')
                        for t3 in self.deliver_data(t2, ch, sl):
                            self.grown(t3, ch, None)
                            out += self.ret(t3, s, VecV((('ch', ch),)))
                    except Kill:
                        pass
        return out

    def call_error(self, st, s, args):
        e = args[1].fields[0]
        if e.variant not in spec_util.KIND or len(e.fields) != 1:
            raise Unsupported('error %r' % (e,))
        out = []
        for s1 in self.sync(st):
            for s2 in self.event_front(s1):
                for s3 in self.deliver_event(s2, 'error', [spec_util.KIND[e.variant], zext(e.fields[0].v, 8, 64)]):
                    out += self.callback(s3, s, args)
        return out

    def event_front(self, st):
        """a malformed part is dropped: what was decoded of it need not have been stored"""
        out = []
        for s in self.front(st):
            if s.queue and s.queue[0][0] != 'ev':
                s.queue = tuple(x for x in s.queue if x[0] == 'ev')
                out += self.front(s)
            else:
                out.append(s)
        return out

    def callback(self, st, s, args):
        cb = st.mem[args[0].cell]
        if isinstance(cb, Struct) and cb.name.startswith('{closure@'):
            fs = [f for f in self.P.fns.values() if cb.name in f.types.get(1, '')] if hasattr(self.P, 'fns') else []
            if len(fs) != 1:
                raise Unsupported('default callback')
            return self.enter(st, fs[0], [args[0]] + list(args[1].fields), s[1], s[4])
        return self.ret(st, s, UNIT)

    # ------------------------------------------------------------ entry points
    def fn(self, name):
        f = self.P.resolve(name)
        if f is None:
            raise Unsupported('cannot find ' + name)
        return f

    def begin(self, st):
        st.extra['own'] = st.extra['utf8'] = ()
        if self.typ == 'decode':
            self.exit_cb = self.decode_exit
            return self.enter(st, self.fn('decode'), [SliceRef(S, 0, st.extra['slen'])], None, None)
        self.exit_cb = self.next_exit
        return self.enter(st, self.fn('<%s as Iterator>::next' % TYPE[self.typ]), [Ref(PARSER)], None, None)

    def over(self, st):
        out = []
        for s in self.sync(st):
            out += self.front(s)
        return out

    def decode_exit(self, st, f, v):
        for s in self.over(st):
            try:
                if v.variant == 'Ok':
                    if s.q != ('ok',) or s.queue:
                        self.fail(s, 'error', 'string returned, specification owes %s (state %s)' % (qs(s), s.q), s.model)
                        continue
                    self.string(s, v.fields[0], 'out')
                else:
                    e = v.fields[0]
                    # what was decoded before the error is dropped
                    s.queue = tuple(x for x in s.queue if x[0] == 'ev')
                    self.prove(s, s.q == ('bad', e.variant), 'error', 'error %s (specification: %s)' % (e.variant, s.q))
                    self.prove(s, veq(zext(e.fields[0].v, 8, 64), s.regs['eb']), 'error', 'offending byte reported')
            except Kill:
                pass
        return []

    def string(self, s, v, ch):
        self.prove(s, whole(v, ch, s.extra['own']), 'event:' + ch, '%s is what the specification decodes' % ch)
        if isinstance(v, VecV) and v.segs:
            self.prove(s, ch in s.extra['utf8'], 'utf8', '%s is checked to be UTF-8' % ch)

    def next_exit(self, st, f, v):
        for s in self.over(st):
            try:
                if v.variant == 'None':
                    if s.q != ('end',) or s.queue:
                        self.fail(s, 'result', 'None returned, specification owes %s (state %s)' % (qs(s), s.q), s.model)
                        continue
                else:
                    n, o = v.fields[0].fields
                    if len(s.queue) != 1 or s.queue[0][:2] != ('ev', 'pair'):
                        self.fail(s, 'result', 'pair returned, specification owes %s (state %s)' % (qs(s), s.q), s.model)
                        continue
                    self.prove(s, s.queue[0][2] == int(o.variant == 'Some'), 'result', 'pair %s a value' % ('with' if s.queue[0][2] else 'without'))
                    s.queue = ()
                    self.string(s, n, 'name')
                    if o.variant == 'Some':
                        self.string(s, o.fields[0], 'value')
                self.settle_rest(s)
            except Kill:
                pass
        return []

    def settle_rest(self, st):
        """back to the resting point between two calls"""
        st.mem = {c: v for c, v in st.mem.items() if c in (PARSER, CB) or is_static(c)}

        def old(v):
            if isinstance(v, VecV) and v.segs:
                return VecV((('junk',),))
            if isinstance(v, Struct):
                return Struct(v.name, [old(x) for x in v.fields], v.variant)
            return v
        st.mem[PARSER] = old(st.mem[PARSER])
        st.frames = []
        st.regs = {k: v for k, v in st.regs.items() if not k.endswith('#')}
        st.extra = {'slen': st.extra['slen']}
        st.facts = ()
        self.arrive(st, True)

    # ------------------------------------------------------------ roots
    def roots(self):
        st = St()
        st.q = spec_util.START[self.typ]
        n = self.fresh('slen', 64)
        st.extra = {'slen': n}
        self.assume(st, z3.ULE(n, bv(MAXLEN, 64)))
        if self.typ == 'decode':
            return [st]
        args = [SliceRef(S, 0, n)]
        if self.typ == 'field':
            d, b = self.fresh('delim', 8), self.fresh_bool('norm')
            args += [Int(d, 'u8'), b]
            st.regs = {'dl': zext(d, 8, 64), 'norm': norm(z3.If(b, bv(1, 64), bv(0, 64)))}
        out = []
        for s, v in self.eval_fn(st, self.fn(TYPE[self.typ] + '::new'), args):
            s.mem = {c: x for c, x in s.mem.items() if is_static(c) or c == CB}
            s.mem[PARSER] = v
            t = s.fork()
            s.frames = []
            out.append(s)
            for t2, r in self.eval_fn(t, self.fn(TYPE[self.typ] + '::on_error'), [Ref(PARSER), Opaque('callback')]):
                self.prove(t2, isinstance(r, Ref) and r.cell == PARSER and not r.proj, 'result', 'on_error() returns the iterator')
                t2.mem = {c: x for c, x in t2.mem.items() if is_static(c) or c in (PARSER, CB)}
                t2.frames = []
                out.append(t2)
        return out
