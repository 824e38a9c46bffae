"""HTTP/1.x parser: entry points, result obligations, roots."""
import z3
from mirparse import Unsupported
from sym import *
from engine import *
import spec_h1

PARSER = ('P',)


class H1(Engine):
    MOD = 'http1'
    FIELDS = {32: ((0, 0xF), (0, 0xFFFFFFFF), (4, 0x3FFF), (18, 0x3FFF)), 16: ((0, 0xFFFF),), 8: ((0, 0xFF),)}
    SPEC = spec_h1

    def __init__(self, prog, solver, typ, log=None):
        super().__init__(prog, solver, self.SPEC, typ, 'resume', log)
        self.exit_cb = None

    def fn(self, name):
        f = self.P.resolve('%s::parser::Parser::%s' % (self.MOD, name))
        if f is None:
            raise Unsupported('cannot find Parser::%s' % name)
        return f

    def hook_call(self, st, s, callee, args):
        if re.match(r"ByteStream::<.*>::new$", callee):
            self.builtins_used.add('byte_slice::ByteStream::new')
            return self.ret(st, s, Struct('ByteStream', [Int(0, 'u8'), Int(0, 'usize'), args[0], Int(0, 'usize')]))
        return super().hook_call(st, s, callee, args)

    def at_exit(self, st, f, v):
        return self.exit_cb(st, f, v)

    # ------------------------------------------------------------ resume
    def begin(self, st):
        n = self.fresh('slen', 64)
        st.extra = {'slen': n, 'q0': st.q[0] if st.q[0] == 'err' or (st.q[0] == 'fin' and not st.queue) else 'open'}
        self.assume(st, z3.ULE(n, bv(MAXLEN, 64)))
        self.assume(st, z3.ULT(bv(st.regs['cnt'], 64), bv(MAXLEN, 64)))
        # the next byte of the message is the one that followed when the last call returned
        self.assume(st, mkbool(veq(self.read_byte(st, S, 0), st.regs.pop('pk'), 8)))
        self.exit_cb = self.resume_exit
        st.mem[('H',)] = Opaque('handler')
        return self.enter(st, self.fn('resume'), [Ref(PARSER), Ref(('H',)), SliceRef(S, 0, n)], None, None)

    def resume_exit(self, st, f, v):
        if not isinstance(v, Struct) or v.variant not in ('Ok', 'Err'):
            raise Unsupported('result %r' % (v,))
        r = v.fields[0]
        kind = r.variant
        idx = st.extra.get('end')
        q0 = st.extra['q0']
        if v.variant == 'Err':
            self.exit_err(st, r, q0)
            return []
        n = r.fields[0].v
        for s in self.sync_to(st, n):
            try:
                self.exit_ok(s, kind, n, q0)
            except Kill:
                pass
        return []

    def sync_to(self, st, n):
        return self.sync(st, n)

    def consumed_equals(self, st, n):
        self.prove(st, veq(n, st.g), 'account', 'reported byte count is the number of bytes consumed')

    def exit_ok(self, st, kind, n, q0):
        slen = st.extra['slen']
        self.prove(st, vle(n, slen), 'result', 'reported count within the stream')
        if q0 == 'err':
            self.fail(st, 'terminal', 'rejected message, but resume returned Ok(%s)' % kind, st.model)
            raise Kill()
        self.consumed_equals(st, n)
        if q0 == 'fin':
            self.prove(st, band(kind == 'Finished', veq(n, 0)), 'terminal', 'finished parser keeps answering Finished(0)')
        if st.paused and kind != 'Callback':
            self.fail(st, 'pause', 'callback returned false but resume returned %s' % kind, st.model)
            raise Kill()
        if kind == 'Callback':
            if not st.paused:
                self.fail(st, 'result', 'Callback returned although every callback returned true', st.model)
                raise Kill()
            if st.q[0] == 'err':
                self.fail(st, 'error', 'invalid byte accepted (specification rejects with %s)' % st.q[1], st.model)
                raise Kill()
        elif kind == 'Eos':
            self.prove(st, veq(n, slen), 'result', 'Eos only at the end of the stream')
            rs = []
            for s in (self.do_eps(st, False) if not st.queue else [st]):
                if s.q[0] == 'err':
                    self.fail(s, 'error', 'invalid byte accepted (specification rejects with %s)' % s.q[1], s.model)
                elif s.queue:
                    self.fail(s, 'event:' + s.queue[0][1], 'end of stream with %s undelivered' % qs(s), s.model)
                elif s.q[0] == 'fin':
                    self.fail(s, 'result', 'Eos returned for a finished message', s.model)
                elif s.q[0] == 'mdetect':
                    self.fail(s, 'event:content_length', 'content_length not asked', s.model)
                else:
                    rs.append(s)
            for s in rs:
                self.rest(s, n)
            return
        elif kind == 'Finished':
            rs = []
            for s in (self.do_eps(st, False) if not st.queue else [st]):
                if s.queue:
                    self.fail(s, 'event:' + s.queue[0][1], 'finished with %s undelivered' % qs(s), s.model)
                elif s.q[0] != 'fin':
                    self.fail(s, 'result', 'Finished returned in state %s' % (s.q,), s.model)
                else:
                    self.check_state(s, 'Finished')
                    rs.append(s)
            for s in rs:
                self.rest(s, n)
            return
        else:
            raise Unsupported('success ' + kind)
        self.rest(st, n)

    def exit_err(self, st, r, q0):
        if q0 == 'err':
            self.prove(st, r.variant == 'Dead', 'terminal', 'a dead parser keeps answering Dead')
            self.check_state(st, 'Dead')
            self.rest(st, 0)
            return
        if st.paused:
            self.fail(st, 'pause', 'callback returned false but resume returned an error', st.model)
            raise Kill()
        end = st.extra.get('errpos')
        # bytes consumed: by how much byte_count() grew
        bc = self.byte_count(st)
        n = sub(bc, st.regs['cnt'])
        if st.q[0] == 'mb' and self.resolve_mismatch(st):
            st.g = n
            sts = [st]
        else:
            sts = self.sync_to(st, n)
        for s in sts:
            try:
                if s.q[0] != 'err':
                    self.fail(s, 'error', 'error %s where the specification is in state %s' % (r.variant, s.q), s.model)
                    continue
                self.prove(s, r.variant == s.q[1], 'error', 'error kind %s' % s.q[1])
                eb = s.regs['eb']
                if not (is_c(eb) and eb == self.spec.ANY):
                    if r.fields:
                        self.prove(s, veq(zext(r.fields[0].v, 8, 64), eb), 'error', 'offending byte reported')
                self.prove(s, veq(n, s.g), 'account', 'bytes consumed up to and including the offending byte')
                if any(it[0] == 'ev' for it in s.queue):
                    it = next(it for it in s.queue if it[0] == 'ev')
                    self.fail(s, 'event:' + it[1], 'error with %s undelivered' % qs(s), s.model)
                    continue
                s.queue = ()
                self.check_state(s, 'Dead')
                self.rest(s, n)
            except Kill:
                pass

    def byte_count(self, st):
        rs = self.eval_fn(st, self.fn('byte_count'), [Ref(PARSER)])
        if len(rs) != 1 or not isinstance(rs[0][1], Int):
            raise Unsupported('byte_count()')
        return rs[0][1].v

    def check_state(self, st, name):
        rs = self.eval_fn(st, self.fn('state'), [Ref(PARSER)])
        if len(rs) != 1:
            raise Unsupported('state()')
        v = rs[0][1]
        self.prove(st, isinstance(v, Struct) and v.variant == name, 'terminal', 'state() is %s' % name)

    def rest(self, st, n):
        """back to the resting point"""
        st.regs['cnt'] = add(st.regs['cnt'], n)
        self.prove(st, veq(self.byte_count(st), st.regs['cnt']), 'account', 'byte_count() is the total consumed')
        st.mem = {c: v for c, v in st.mem.items() if c == PARSER or is_static(c)}
        st.frames = []
        st.regs['pk'] = 0 if st.q[0] in ('err', 'fin') else self.read_byte(st, S, st.g)
        st.g = 0
        st.extra = {}
        st.paused = False
        st.facts = ()
        self.arrive(st, True)

    # ------------------------------------------------------------ roots
    def old_parser(self, typ=None):
        """an arbitrary parser value: nothing is known about its fields"""
        f = self.fresh
        # shape taken from new()
        rs = self.eval_fn(St(), self.fn('new'), [])
        st, v = rs[0]
        out = []
        for bnd in (0, 1):
            s = st.fork()

            def havoc(x, path):
                if isinstance(x, Int):
                    return Int(f('old', WIDTH[x.ty]), x.ty)
                if isinstance(x, bool):
                    return self.fresh_bool('old')
                if isinstance(x, Struct):
                    if x.name == 'Option':
                        return Struct('Option', [SliceRef(('OLD',), 0, f('oldlen', 64))], 'Some') if bnd else Struct('Option', [], 'None')
                    if x.variant:
                        if x.name == 'ParserType' and typ:
                            return Struct(x.name, [], typ)
                        return Opaque('old')
                    return Struct(x.name, [havoc(y, path) for y in x.fields], x.variant)
                if isinstance(x, FnPtr):
                    return Opaque('old')
                return x
            s.mem[PARSER] = havoc(v, ())
            s.model = True
            out.append(s)
        return out

    TYPES = {'head': 'Head', 'chunked': 'Chunked', 'multipart': 'Multipart', 'url': 'UrlEncoded'}
    INIT = {'head': 'init_head', 'chunked': 'init_chunked', 'multipart': 'init_multipart', 'url': 'init_url_encoded'}

    def roots(self, which=('new', 'init', 'reset')):
        out = []
        if self.typ == 'head' and 'new' in which:
            for s, v in self.eval_fn(St(), self.fn('new'), []):
                s.mem = {c: x for c, x in s.mem.items() if is_static(c)}
                s.mem[PARSER] = v
                self.ready(s, ('det', 0), out)
        for w in ('init', 'reset'):
            if w not in which:
                continue
            for s in self.old_parser(self.TYPES[self.typ] if w == 'reset' else None):
                s.model = self.S.check(s.pc)
                fn = self.fn(self.INIT[self.typ] if w == 'init' else 'reset')
                old = self.byte_count(s)
                for s2, v in self.eval_fn(s, fn, [Ref(PARSER)]):
                    self.prove(s2, veq(self.byte_count(s2), old), 'init', 'byte_count() is kept by %s()' % fn.name.rsplit('::', 1)[-1])
                    self.ready(s2, self.SPEC.START[self.typ], out)
        return out

    def ready(self, s, q, out):
        s.frames = []
        s.q = q
        s.g = 0
        s.regs = {'cnt': self.byte_count(s), 'pk': self.fresh('pk', 8)}
        if s.model is None:
            s.model = self.S.check(s.pc) if s.pc else None
        if not is_c(s.regs['cnt']):
            self.assume(s, z3.ULT(s.regs['cnt'], bv(MAXLEN, 64)))
        outs = [s]
        if self.typ == 'multipart':
            n = self.fresh('blen', 64)
            s.regs['blen'] = n
            self.assume(s, z3.And(z3.ULE(bv(1, 64), n), z3.ULE(n, bv(16383, 64))))
            outs = [x for x, _ in self.eval_fn(s, self.fn('set_boundary'), [Ref(PARSER), SliceRef(BND, 0, n)])]
        if self.typ == 'url':
            n = self.fresh('rem', 64)
            s.regs['rem'] = n
            outs = [x for x, _ in self.eval_fn(s, self.fn('set_length'), [Ref(PARSER), Int(n, 'usize')])]
        for x in outs:
            x.frames = []
            x.mem = {c: v for c, v in x.mem.items() if c == PARSER or is_static(c)}
            out.append(x)

    def hint(self, f):
        """bytes of the verifier's counterexample around the point where the failing step starts"""
        m, st = f['model'], f['st']
        if m is None or m is True or st is None or 'slen' not in st.extra:
            return None
        try:
            ev = lambda t, w: t if is_c(t) else m.eval(bv(t, w), model_completion=True).as_long()
            n = ev(st.extra['slen'], 64)
            g = ev(f.get('g0', 0), 64)
            k = min(48, (n - g) % (1 << 64))
            return {'bytes': bytes(ev(byte_of(S, (g + i) % (1 << 64)), 8) for i in range(k)).hex(), 'left': n - g}
        except Exception:
            return None

    def prove_all(self):
        self.fails = []
        rs = self.roots()
        self.root_fails = list(self.fails)
        self.add_root(rs)
        self.explore_all()


