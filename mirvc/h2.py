"""HTTP/2 parser: roots, data callbacks with a finished flag."""
import re
import z3
from mirparse import Unsupported
from sym import *
from engine import *
from h1 import H1, PARSER
from builtins_mir import slice_of
from specm import SymM
import spec_h2


class H2(H1):
    MOD = 'http2'
    SPEC = spec_h2
    FIELDS = {32: ((0, 0xFF), (0, 0xFFFF), (0, 0xFFFFFF), (0, 0x7FFFFFFF), (0, 0xFFFFFFFF), (8, 0xFF), (8, 0xFFFFFF), (16, 0xFF), (16, 0xFFFF), (24, 0xFF), (31, 1)),
              16: ((0, 0xFF), (0, 0xFFFF), (8, 0xFF)), 8: ((0, 0xFF),)}
    OFFS = tuple(d for d in range(-16, 17) if d)

    def hook_call(self, st, s, callee, args):
        m = re.match(r'<(?:&mut )*T as (?:[\w:]+::)?HttpHandler>::(\w+)$', callee)
        if not m or m.group(1)[3:] not in self.spec.DATA:
            return super().hook_call(st, s, callee, args)
        ch = m.group(1)[3:]
        if st.paused:
            self.fail(st, 'pause', 'handler %s called after a callback returned false' % m.group(1), st.model)
            raise Kill()
        out = []
        for s1 in self.sync(st):
            try:
                sl = slice_of(self, s1, args[1])
                for s2 in self.deliver_data(s1, ch, sl):
                    fin = args[2]
                    for s3, f in [(y, f) for x, f in self.split(s2, fin) for y in (self.do_eps(x, False) if not f and not x.queue else [x])]:
                        if f:
                            rs = self.deliver_event(s3, ch + '_end', [])
                        elif s3.queue and s3.queue[0][:2] == ('ev', ch + '_end'):
                            self.fail(s3, 'event:' + ch, 'last bytes for %s given without the finished flag' % ch, s3.model)
                            continue
                        elif s3.q != ('body', ch) or s3.queue:
                            self.fail(s3, 'event:' + ch, 'callback %s made, specification owes %s (state %s)' % (ch, qs(s3), s3.q), s3.model)
                            continue
                        else:
                            rs = [s3]
                        for s4 in rs:
                            t = s4.fork()
                            t.paused = True
                            for s5, v in ((s4, True), (t, False)):
                                try:
                                    out += self.ret(s5, s, v)
                                except Kill:
                                    pass
            except Kill:
                pass
        return out

    def exit_err(self, st, r, q0):
        if q0 == 'err' or st.paused:
            return super().exit_err(st, r, q0)
        n = sub(self.byte_count(st), st.regs['cnt'])
        for s1 in self.sync_to(st, n):
            for s in (self.do_eps(s1, False) if not s1.queue else [s1]):
                try:
                    super().exit_err(s, r, q0)
                except Kill:
                    pass

    def bulk_more(self, s, idx, n):
        r = spec_h2.bulk_room(SymM(self, s, []))
        if r is None:
            return None
        room, ch = r
        out = []
        for s1, z in self.split(s, veq(n, 0)):
            if z:
                s1.g = idx
                out.append(s1)
                continue
            for s2, z in self.split(s1, veq(room, 0)):
                if z:
                    out += self.do_eps(s2, True)
                    continue
                for s3, ok in self.split(s2, vle(n, room)):
                    end = idx if ok else add(s3.g, room)
                    m = SymM(self, s3, [])
                    if ch:
                        m.emit_range(ch, s3.g, end)
                    s3.regs['len'] = sub(s3.regs['len'], n if ok else room)
                    s3.g = end
                    out += [s3] if ok else self.do_eps(s3, True)
        return out

    def settle(self, st):
        """take the decisions of the specification that the code has already taken"""
        while True:
            took = []

            def f(m):
                m.b = None
                took.append(self.spec.eps(m, self.typ, False))
            rs = self.spec_run(st.fork(), f)
            if len(rs) != 1 or not took[-1]:
                return st
            st = rs[0]

    def roots(self, which=('new', 'reset')):
        out = []
        rs = self.eval_fn(St(), self.fn('new'), [])
        for s, v in rs:
            s.mem = {c: x for c, x in s.mem.items() if is_static(c)}
            s.mem[PARSER] = v
            self.prove(s, veq(self.byte_count(s), 0), 'init', 'byte_count() of a new parser is 0')
            self.ready(s, spec_h2.START['h2'], out)
        for s in self.old_parser()[:1]:
            s.model = self.S.check(s.pc)
            for s2, v in self.eval_fn(s, self.fn('reset'), [Ref(PARSER)]):
                self.prove(s2, veq(self.byte_count(s2), 0), 'init', 'byte_count() is 0 after reset()')
                self.ready(s2, spec_h2.START['h2'], out)
        return out
