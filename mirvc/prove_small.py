"""Prove the loop-free public functions: byte classes, wire-code types, default callbacks.

usage: prove_small.py MIR ROOT OUT [--repo PATH]          ROOT: byte | codes | handler
Each function is run symbolically over its whole domain against its postcondition.
"""
import sys, time, json, os, resource, re
import z3
from mirparse import Program, Unsupported
from sym import *
import spec_h1
import spec_codes as SC


class Small(Exec):
    def __init__(self, prog, solver):
        super().__init__(prog, solver)
        self.contracts = []
        self.tool = []
        self.exit_cb = None

    def at_exit(self, st, f, v):
        return self.exit_cb(st, f, v)

    def at_head(self, st):
        raise Unsupported('loop in a function expected to be loop free')

    def find(self, name):
        f = self.P.resolve(name)
        if f is None:
            raise Unsupported('cannot find ' + name)
        return f

    def eval(self, name, args, pre=()):
        """all (state, value) outcomes of a call"""
        st = St()
        st.model = True
        for c in pre:
            st.pc += (c,)
        st.model = self.S.check(st.pc)
        assert st.model is not None or not st.pc, 'vacuous precondition'
        res = []

        def cb(s, f, v):
            res.append((s, v))
            return []
        self.exit_cb = cb
        n0 = len(self.fails)
        cells = []
        real = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 'ref':
                st.mem[('A', i)] = a[1]
                real.append(Ref(('A', i)))
            else:
                real.append(a)
        self.run(self.enter(st, self.find(name), real, None, None))
        for f in self.fails[n0:]:
            f['fn'] = name
        if not res and len(self.fails) == n0:
            raise Unsupported('%s has no outcome' % name)
        return res

    def contract(self, name, args, post, what, pre=(), var=None):
        """post(value) is the condition each outcome must meet"""
        n0 = len(self.fails)
        try:
            for s, v in self.eval(name, args, pre):
                try:
                    self.prove(s, post(v), what[0], '%s: %s' % (name, what[1]))
                except Kill:
                    pass
        except Unsupported as e:
            self.tool.append('%s: %s' % (name, e))
        for f in self.fails[n0:]:
            f['fn'] = name
            f['var'] = var
        self.contracts.append({'at': name, 'post': what[1]})


def inset(b, s):
    r = []
    lo = None
    for i in range(257):
        if i in s and lo is None:
            lo = i
        if i not in s and lo is not None:
            r.append(z3.And(z3.UGE(b, lo), z3.ULE(b, i - 1)) if lo != i - 1 else b == lo)
            lo = None
    return z3.Or(*r) if r else z3.BoolVal(False)


def iff(v, c):
    if isinstance(v, bool):
        return mkbool(c) if v else bnot(mkbool(c))
    return mkbool(v == c)


def byte(x):
    b = x.fresh('b', 8)
    for fn, s, what in (('is_header_field', spec_h1.FIELD, 'unquoted header value bytes'),
                        ('is_quoted_header_field', spec_h1.QFIELD, 'quoted header value bytes that need no escape'),
                        ('is_token', spec_h1.TOKEN, 'RFC 7230 tchar')):
        x.contract('byte::' + fn, [Int(b, 'u8')], lambda v: iff(v, inset(b, s)), ('byte', 'true exactly for ' + what), var=b)


def variant_is(v, name):
    return isinstance(v, Struct) and v.variant == name


def codes(x):
    b = x.fresh('b', 8)
    for mod, ty, table, other, preds in (('http2::frame_type', 'FrameType', SC.FRAME_TYPES, 'Unsupported', SC.FRAME_PREDS),
                                         ('http2::error_code', 'ErrorCode', SC.ERROR_CODES, 'Unsupported', SC.ERROR_PREDS)):
        path = '%s::%s::' % (mod, ty)

        def is_right(v):
            if not isinstance(v, Struct):
                return False
            if v.variant == other:
                return mkbool(z3.And(*[b != c for c in table.values()]))
            return mkbool(b == table[v.variant]) if v.variant in table else False
        x.contract(path + 'from_u8', [Int(b, 'u8')], is_right, ('codes', 'the code of RFC 7540 names the value, anything else is unsupported'), var=b)
        for name, code in list(table.items()) + [(other, 0xFF)]:
            me = Struct(ty, [], name)
            x.contract(path + 'as_byte', [('ref', me)], lambda v: mkbool(veq(v.v, code, 8)), ('codes', '%s is 0x%x on the wire' % (name, code)))
            for p, n in preds.items():
                x.contract(path + p, [('ref', me)], lambda v: v is (n == name), ('codes', '%s of %s' % (p, name)))
    fl = 'http2::flags::Flags::'
    try:
        outs = x.eval(fl + 'from_u8', [Int(b, 'u8')])
    except Unsupported as e:
        x.tool.append(str(e))
        outs = []
    for s, v in outs:
        for p, m in SC.FLAGS.items():
            x.contract(fl + p, [('ref', v)], lambda r: iff(r, (b & m) == m if m else b == 0), ('codes', '%s looks at bit 0x%x' % (p, m)), pre=s.pc, var=b)
        x.contract(fl + 'as_byte', [('ref', v)], lambda r: mkbool(veq(r.v, b, 8)), ('codes', 'round trip'), pre=s.pc, var=b)
    ln, ty, f8, sid = x.fresh('len', 32), x.fresh('ty', 8), x.fresh('fl', 8), x.fresh('sid', 32)
    ff = 'http2::frame_format::FrameFormat::'
    pre = (z3.ULT(ln, 1 << 24),)
    try:
        outs = x.eval(ff + 'new', [Int(ln, 'u32'), Int(ty, 'u8'), Int(f8, 'u8'), Int(sid, 'u32')], pre)
    except Unsupported as e:
        x.tool.append(str(e))
        outs = []
    for s, v in outs:
        x.contract(ff + 'payload_length', [('ref', v)], lambda r: mkbool(veq(r.v, ln, 32)), ('codes', 'the length given'), pre=s.pc)
        x.contract(ff + 'stream_id', [('ref', v)], lambda r: mkbool(veq(r.v, sid, 32)), ('codes', 'the stream given'), pre=s.pc)
        try:
            for s2, g in x.eval(ff + 'flags', [('ref', v)], s.pc):
                x.contract(fl + 'as_byte', [('ref', g)], lambda r: mkbool(veq(r.v, f8, 8)), ('codes', 'the flags given to FrameFormat::new'), pre=s2.pc)
        except Unsupported as e:
            x.tool.append(str(e))

        def ft(v):
            if v.variant == 'Unsupported':
                return mkbool(z3.And(*[ty != c for c in SC.FRAME_TYPES.values()]))
            return mkbool(ty == SC.FRAME_TYPES[v.variant])
        x.contract(ff + 'frame_type', [('ref', v)], ft, ('codes', 'the type given'), pre=s.pc)
    sid16, val = x.fresh('id', 16), x.fresh('val', 32)
    se = 'http2::setting::Setting::'
    try:
        outs = x.eval(se + 'new', [Int(sid16, 'u16'), Int(val, 'u32')])
    except Unsupported as e:
        x.tool.append(str(e))
        outs = []
    for s, v in outs:
        if v.variant == 'Unsupported':
            c = mkbool(z3.And(*[sid16 != k for k in SC.SETTINGS.values()]))
        else:
            c = mkbool(sid16 == SC.SETTINGS[v.variant]) if v.variant in SC.SETTINGS else False
        try:
            x.prove(s, c, 'codes', se + 'new: the identifier of RFC 7540 names the setting')
        except Kill:
            continue
        x.contracts.append({'at': se + 'new', 'post': v.variant})
        x.contract(se + 'value', [('ref', v)], lambda r: mkbool(veq(r.v, val, 32)), ('codes', 'the value given'), pre=s.pc)
        for p, n in SC.SETTING_PREDS.items():
            x.contract(se + p, [('ref', v)], lambda r: r is (n == v.variant), ('codes', '%s of %s' % (p, v.variant)), pre=s.pc)


def handler(x):
    for mod in ('http1', 'http2'):
        names = sorted({re.search(r'HttpHandler::(\w+)$', n).group(1) for n in x.P.fns if re.search(r'^%s::http_handler::HttpHandler::\w+$' % mod, n)})
        if not names:
            raise Unsupported('no default callbacks found in ' + mod)
        for n in names:
            fn = x.find('%s::http_handler::HttpHandler::%s' % (mod, n))
            args = [Opaque('a%d' % i) for i in range(fn.nargs)]
            if n == 'content_length':
                x.contract('%s::http_handler::HttpHandler::%s' % (mod, n), args, lambda v: variant_is(v, 'None'), ('handler', 'default: length unknown'))
            else:
                x.contract('%s::http_handler::HttpHandler::%s' % (mod, n), args, lambda v: v is True, ('handler', 'default: keep parsing'))


def main():
    mir, root, out = sys.argv[1:4]
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    t0 = time.time()
    r = {'root': root, 'mode': 'postconditions given', 'fails': [], 'tool': []}
    x = None
    try:
        p = Program()
        p.load(mir, repo)
        x = Small(p, Solver())
        {'byte': byte, 'codes': codes, 'handler': handler}[root](x)
    except Exception as e:
        r['tool'].append('%s: %s' % (type(e).__name__, str(e)[:300]))
    if x is not None:
        r['tool'] += x.tool
        for f in x.fails:
            if f['cat'] == 'tool':
                r['tool'].append('%s @ %s' % (f['msg'], f.get('fn')))
                continue
            e = {'cat': f['cat'], 'msg': f['msg'], 'where': f.get('fn') or '', 'q': '', 'hint': None}
            m, v = f.get('model'), f.get('var')
            if v is not None and m is not None and m is not True:
                e['hint'] = {'byte': m.eval(v, model_completion=True).as_long()}
            r['fails'].append(e)
        r.update(contracts=len(x.contracts), predicates=0, obligations=x.oblig, folded=x.folded, queries=x.S.n, hard=x.S.hard, solver_s=round(x.S.t, 2),
                 functions=sorted(x.fns_used), builtins=sorted(x.builtins_used), by_cat=x.by_cat, sample=x.contracts[:3], contract_checks=0, cooled=0, moves=0, states=[])
        if not x.contracts:
            r['tool'].append('no obligation was generated')
    r['status'] = 'refuted' if r['fails'] else 'undecided' if r['tool'] else 'proved'
    r['wall_s'] = round(time.time() - t0, 2)
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(20000)
    main()
