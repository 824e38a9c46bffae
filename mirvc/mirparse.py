"""Parser for the textual MIR rustc prints with -Zunpretty=mir (mir-opt-level 0).

Produces, for every function, its locals with types, its basic blocks as parsed statements and a
terminator.  Anything not recognised becomes a ('unsupported', text) node: the executor only fails
if it is reached, so unrelated code never blocks a proof.
"""
import re, os, sys, hashlib

sys.setrecursionlimit(10000)

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


class Unsupported(Exception):
    pass


def split_top(s, sep=','):
    """split at top-level separators, aware of brackets, '->' and string literals"""
    out, depth, i, last = [], 0, 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.index("'", i + (3 if s[i + 1] == '\\' else 2))
            i = j
        elif c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and not (i > 0 and s[i - 1] in '-='):
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[last:i])
            i += len(sep)
            last = i
            continue
        i += 1
    out.append(s[last:])
    return [x.strip() for x in out]


def find_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth = 0
    n = len(s)
    j = i
    while j < n:
        c = s[j]
        if c == '"':
            j += 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
        elif c == "'" and j + 2 < n and (s[j + 2] == "'" or s[j + 1] == '\\'):
            j = s.index("'", j + (3 if s[j + 1] == '\\' else 2))
        elif c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return j
        j += 1
    raise Unsupported('unbalanced: ' + s[:120])


# ---------------------------------------------------------------------------- places

def parse_place(s):
    """-> (local, proj) with proj a tuple of ('deref',), ('field', n, ty), ('variant', name),
    ('index', local), ('cindex', k, from_end), ('subslice', a, b, from_end)"""
    s = s.strip()
    loc, proj, rest = _place(s)
    if rest.strip():
        raise Unsupported('place: ' + s)
    return (loc, tuple(proj))


def _place(s):
    if s.startswith('_'):
        m = re.match(r'_(\d+)', s)
        loc, proj, rest = int(m.group(1)), [], s[m.end():]
    elif s.startswith('(*'):
        j = find_close(s, 0)
        loc, proj, r = _place(s[2:j])
        if r.strip():
            raise Unsupported('place: ' + s)
        proj = proj + [('deref',)]
        rest = s[j + 1:]
    elif s.startswith('('):
        j = find_close(s, 0)
        inner = s[1:j]
        loc, proj, r = _place(inner)
        r0 = r
        if r.startswith(' as subtype '):
            pass
        elif r.startswith(' as '):
            proj = proj + [('variant', r[4:].strip())]
        elif r.startswith('.'):
            m = re.match(r'\.(\d+): ', r)
            if not m:
                raise Unsupported('place: ' + s)
            proj = proj + [('field', int(m.group(1)), r[m.end():].strip())]
        elif r.strip():
            raise Unsupported('place: ' + s)
        rest = s[j + 1:]
    else:
        raise Unsupported('place: ' + s)
    while rest.startswith('['):
        j = find_close(rest, 0)
        inner = rest[1:j]
        m = re.match(r'_(\d+)$', inner)
        if m:
            proj = proj + [('index', int(m.group(1)))]
        else:
            m = re.match(r'(-?)(\d+) of (\d+)$', inner)
            if m:
                proj = proj + [('cindex', int(m.group(2)), bool(m.group(1)))]
            else:
                m = re.match(r'(\d+):(-?)(\d*)$', inner)
                if m:
                    proj = proj + [('subslice', int(m.group(1)), int(m.group(3) or 0), bool(m.group(2)) or not m.group(3))]
                else:
                    raise Unsupported('place: ' + s)
        rest = rest[j + 1:]
    return loc, proj, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'[A-Za-z_<][\w:<>, \'&()\[\];]*$', s):
        return ('fnitem', s)
    raise Unsupported('operand: ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt',
          'Le', 'Gt', 'Ge', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'Offset', 'Cmp'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    m = re.match(r'&(mut |raw const \(fake\) |raw const |raw mut |fake shallow |fake )?(?=[_(])', s)
    if m:
        return ('ref', (m.group(1) or '').strip(), parse_place(s[m.end():]))
    m = re.match(r'(\w+)\(', s)
    if m and s.endswith(')') and find_close(s, m.end() - 1) == len(s) - 1:
        name = m.group(1)
        inner = s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ('bin', name, parse_operand(a), parse_operand(b))
        if name in UNOPS:
            return ('un', name, parse_operand(inner))
        if name == 'discriminant':
            return ('discr', parse_place(inner))
        if name == 'Len':
            return ('len', parse_place(inner))
    # cast
    m = re.search(r' \((IntToInt|Transmute|BoxDerefTransmute|PtrToPtr|PointerCoercion\(.*\)|FnPtrToPtr|PointerExposeProvenance|Subtype)\)$', s)
    if m:
        body = s[:m.start()]
        parts = split_top(body, ' as ')
        if len(parts) >= 2:
            src = ' as '.join(parts[:-1])
            ty = parts[-1]
            kind = m.group(1)
            if src.startswith(('copy ', 'move ', 'const ', 'no_retag ')):
                return ('cast', kind, parse_operand(src), ty)
            return ('cast', kind, ('fnitem', src), ty)
    if s.startswith(('copy ', 'move ', 'const ')):
        return ('use', parse_operand(s))
    if s.startswith('['):
        inner = s[1:find_close(s, 0)]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner) if x])
    if s.startswith('('):
        inner = s[1:find_close(s, 0)]
        return ('tuple', [parse_operand(x) for x in split_top(inner) if x])
    if s.startswith('{closure@'):
        j = find_close(s, 0)
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        ops = []
        if rest.startswith('{'):
            for x in split_top(rest[1:find_close(rest, 0)]):
                if x:
                    ops.append(parse_operand(x.split(':', 1)[1]))
        return ('closure', name, ops)
    # aggregate with named fields
    if s.endswith('}'):
        i = s.index(' {')
        name = s[:i]
        inner = s[i + 2:-1].strip()
        names, ops = [], []
        for x in split_top(inner):
            if x:
                k, v = x.split(':', 1)
                names.append(k.strip())
                ops.append(parse_operand(v))
        return ('agg', name, ops, names)
    if s.endswith(')'):
        # Path(ops)
        depth = 0
        i = s.index('(')
        # find the '(' whose close is the last char
        for mm in re.finditer(r'\(', s):
            if find_close(s, mm.start()) == len(s) - 1:
                i = mm.start()
                break
        return ('agg', s[:i], [parse_operand(x) for x in split_top(s[i + 1:-1]) if x], None)
    if re.match(r'[\w:<>\', &\[\]()]+$', s):
        return ('agg', s, [], None)
    raise Unsupported('rvalue: ' + s)


def parse_targets(s):
    """'[return: bb2, unwind continue]' or 'unwind continue' -> dict"""
    s = s.strip()
    d = {}
    if s.startswith('['):
        s = s[1:-1]
    for part in split_top(s):
        m = re.match(r'(return|success|otherwise|unwind|\d+|real): (bb\d+)', part)
        if m:
            d[m.group(1)] = m.group(2)
    return d


def parse_line(line):
    """one MIR statement or terminator line (without trailing ';')"""
    s = line
    if s.startswith('StorageDead('):
        return ('dead', int(re.match(r'StorageDead\(_(\d+)\)', s).group(1)))
    if s.startswith(('StorageLive(', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Retag', 'ConstEvalCounter', 'Coverage', 'BackwardIncompatible')):
        return ('nop',)
    if s.startswith('goto -> '):
        return ('goto', s[8:].strip())
    if s == 'return':
        return ('return',)
    if s in ('unreachable', 'resume') or s.startswith('terminate'):
        return (s.split('(')[0],)
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        return ('goto', parse_targets(s.split('-> ', 1)[1])['real'])
    if s.startswith('switchInt('):
        j = find_close(s, 9)
        op = parse_operand(s[10:j])
        t = s[s.index('->', j) + 2:].strip()[1:-1]
        cases, other = [], None
        for part in split_top(t):
            k, v = part.split(':')
            if k.strip() == 'otherwise':
                other = v.strip()
            else:
                cases.append((int(k), v.strip()))
        return ('switch', op, cases, other)
    if s.startswith('assert('):
        j = find_close(s, 6)
        args = split_top(s[7:j])
        neg = args[0].startswith('!')
        op = parse_operand(args[0][1:] if neg else args[0])
        return ('assert', neg, op, args[1], parse_targets(s[j + 1:].replace('->', '', 1))['success'])
    if s.startswith('drop('):
        j = find_close(s, 4)
        return ('drop', parse_place(s[5:j]), parse_targets(s[j + 1:].replace('->', '', 1)).get('return'))
    m = re.match(r'discriminant\((.*)\) = (-?\d+)$', s)
    if m:
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    # assignment / call
    parts = split_top(s, ' = ')
    if len(parts) >= 2:
        lhs = parse_place(parts[0])
        rhs = ' = '.join(parts[1:])
        # call?
        m = re.search(r' -> (\[return: bb\d+.*\]|unwind .*)$', rhs)
        if m and ')' in rhs[:m.start() + 1]:
            call = rhs[:m.start()].strip()
            i = call_open(call)
            callee = call[:i]
            args = [parse_operand(x) for x in split_top(call[i + 1:-1]) if x]
            return ('call', lhs, callee, args, parse_targets(m.group(1)).get('return'))
        return ('assign', lhs, parse_rvalue(rhs))
    m = re.search(r' -> (unwind .*|\[return.*\])$', s)
    if m:
        call = s[:m.start()].strip()
        i = call_open(call)
        return ('call', None, call[:i], [parse_operand(x) for x in split_top(call[i + 1:-1]) if x],
                parse_targets(m.group(1)).get('return'))
    raise Unsupported('stmt: ' + s)


def call_open(call):
    """index of the '(' that opens the argument list (its close is the last character)"""
    assert call.endswith(')'), call
    for mm in re.finditer(r'\(', call):
        try:
            if find_close(call, mm.start()) == len(call) - 1:
                return mm.start()
        except Unsupported:
            pass
    raise Unsupported('call: ' + call)


class Fn:
    __slots__ = ('name', 'nargs', 'ret', 'types', 'blocks', 'raw', 'order', 'heads', 'live', '_done', 'argtys', 'dbg', 'file', '_sigs', '_tests', '_counted')

    def __init__(self, name):
        self.name = name
        self.types = {}
        self.raw = {}
        self.blocks = {}
        self._done = False
        self._sigs = None
        self._tests = {}
        self._counted = {}
        self.dbg = {}

    def loop_body(self, h):
        succ = {b: [t for t in successors(st[-1]) if t in self.blocks] for b, st in self.blocks.items() if st}
        o = self.order[h]
        fwd, work = {h}, [h]
        while work:
            for t in succ.get(work.pop(), ()):
                if self.order.get(t, -1) >= o and t not in fwd:
                    fwd.add(t)
                    work.append(t)
        pred = {}
        for b in fwd:
            for t in succ.get(b, ()):
                pred.setdefault(t, []).append(b)
        body, work = {h}, [h]
        while work:
            for t in pred.get(work.pop(), ()):
                if t in fwd and t not in body:
                    body.add(t)
                    work.append(t)
        return body

    def tests_first(self, head):
        """does the loop look at the byte read last before it reads the next one?"""
        if head not in self._tests:
            seen, work, r = {head}, [head], False
            body = self.loop_body(head)
            while work and not r:
                b = work.pop()
                for x in self.raw[b]:
                    if re.match(r'\(\S.*\.0: u8\) = ', x):
                        break
                    if re.search(r'copy \(\S.*\.0: u8\)', x):
                        r = True
                        break
                else:
                    for t in successors(self.blocks[b][-1]):
                        if t in body and t not in seen:
                            seen.add(t)
                            work.append(t)
            self._tests[head] = r
        return self._tests[head]

    def counted(self, head):
        """locals that may count the iterations of a loop that does not read the stream, or None"""
        if head not in self._counted:
            body = self.loop_body(head)
            ctr = set()
            for b in body:
                for x in self.raw[b]:
                    if re.match(r'\(\S.*\.\d+: (?:usize|u8)\) = ', x):
                        ctr = None
                        break
                    m = re.match(r'(?:\S+ = )?(.*?)\(.*\) -> ', x)
                    if m and not re.match(r'switchInt|assert|drop|goto', x) and not re.search(r'Range|ops::Index|\[u8\]|Vec|slice::Iter|array::IntoIter|Some|None', m.group(1)):
                        ctr = None
                        break
                    m = re.match(r'_(\d+) = ', x)
                    if m and re.match(r'(?:usize|u8|u16|u32|u64|i32)$', self.types.get(int(m.group(1)), '')):
                        ctr.add(int(m.group(1)))
                    m = re.search(r'&mut _(\d+)', x)
                    if m and re.search('Range<|RangeInclusive<|slice::Iter<|array::IntoIter<', self.types.get(int(m.group(1)), '')):
                        ctr.add(int(m.group(1)))
                if ctr is None:
                    break
            self._counted[head] = sorted(n for n in ctr if n in self.live[head]) if ctr else None
        return self._counted[head]

    def loop_signature(self, head):
        """what a loop does, up to the numbering of locals, blocks and allocations; its rank among the loops
        of the function with the same signature"""
        if self._sigs is None:
            sig = {}
            for h in self.heads:
                body = self.loop_body(h)
                text = '\n'.join(x for b in sorted(body, key=lambda b: self.order[b]) for x in self.raw[b])
                sig[h] = hashlib.sha1(re.sub(r'_\d+\b|\bbb\d+|\b\d+:\d+: \d+:\d+|alloc\d+', '', text).encode()).hexdigest()[:12]
            self._sigs = {}
            for h in sorted(self.heads, key=lambda b: self.order[b]):
                self._sigs[h] = (sig[h], sum(1 for k, v in self._sigs.values() if k == sig[h]))
        return self._sigs.get(head, ('', 0))


def safe_parse(line):
    try:
        return parse_line(line)
    except Unsupported as e:
        return ('unsupported', str(e))
    except Exception as e:
        return ('unsupported', '%s: %s' % (e.__class__.__name__, line[:200]))


class Program:
    """All functions / consts / statics / allocations of one or more crates, plus the enum and
    struct layouts read from the sources."""

    def __init__(self):
        self.fns = {}
        self.consts = {}      # name -> literal text or Fn
        self.allocs = {}      # allocN -> ('static', name) | ('bytes', bytes)
        self.enums = {}       # simple name -> list of (file, {variant: discr})
        self.impls = {}       # "file:line:col" -> (trait or None, type simple name, file)
        self.srcroots = []
        self._resolve_cache = {}

    # -- loading
    def load(self, mirfile, srcroot, prefix=''):
        self.srcroots.append(srcroot)
        text = open(mirfile, encoding='utf-8').read()
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('fn ') and l.endswith('{'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._fn(l, lines[i + 1:j], srcroot, prefix)
                i = j
            elif re.match(r'(const|static|static mut) ', l):
                if l.endswith('= {'):
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    self._const(l, lines[i + 1:j], srcroot)
                    i = j
                else:
                    m = re.match(r'(?:const|static|static mut) (.*?): (.*?) = (.*);$', l)
                    if m:
                        k = split_top(l.split(' ', 1)[1], ': ')[0]
                        self.consts[k] = ('lit', m.group(3))
            elif re.match(r'alloc\d+ \(', l):
                m = re.match(r'(alloc\d+) \((?:static: (\S+), )?', l)
                if m.group(2):
                    self.allocs[prefix + m.group(1)] = ('static', m.group(2))
                else:
                    by = bytearray()
                    j = i + 1
                    ok = l.endswith('{')
                    while ok and lines[j] != '}':
                        body = lines[j].split('│')
                        seg = body[1] if len(body) == 3 else body[0]
                        for t in seg.split():
                            if re.match(r'^[0-9a-f]{2}$', t):
                                by.append(int(t, 16))
                        j += 1
                    self.allocs[prefix + m.group(1)] = ('bytes', bytes(by))
            i += 1
        self._scan_sources(srcroot)

    def _fn(self, header, body, srcroot, prefix):
        h = header[3:-2]
        # name(args) -> ret
        k = h.index('(_1') if '(_1' in h else h.index('()')
        name = h[:k]
        j = find_close(h, k)
        args = h[k + 1:j]
        fn = Fn(name)
        fn.file = srcroot
        fn.nargs = 0
        for a in split_top(args):
            if a:
                m = re.match(r'_(\d+): (.*)$', a)
                fn.types[int(m.group(1))] = m.group(2)
                fn.nargs += 1
        fn.ret = h[j + 1:].replace('->', '', 1).strip()
        fn.types[0] = fn.ret
        self._body(fn, body)
        self.fns[name] = fn

    def _body(self, fn, body):
        cur = None
        for l in body:
            t = l.strip()
            if not t or t.startswith('//'):
                continue
            m = re.match(r'(bb\d+)( \(cleanup\))?: \{$', t)
            if m:
                cur = [] if not m.group(2) else None
                if cur is not None:
                    fn.raw[m.group(1)] = cur
                continue
            if l.startswith('        ') and cur is not None and not t.startswith(('let ', 'debug ', 'scope ')):
                if t == '}':
                    continue
                cur.append(t[:-1] if t.endswith(';') else t)
            elif t.startswith('let '):
                m = re.match(r'let (?:mut )?_(\d+): (.*);$', t)
                if m:
                    fn.types[int(m.group(1))] = m.group(2)
            elif t.startswith('debug '):
                m = re.match(r'debug (\S+) => _(\d+);', t)
                if m:
                    fn.dbg[int(m.group(2))] = m.group(1)

    def _const(self, header, body, srcroot):
        h = re.sub(r'^(const|static mut|static) ', '', header)
        name = split_top(h, ': ')[0]
        fn = Fn(name)
        fn.file = srcroot
        fn.nargs = 0
        fn.ret = ''
        self._body(fn, body)
        self.consts[name] = ('fn', fn)

    def prepare(self, fn):
        """parse the blocks of fn on demand, compute RPO, loop heads, liveness"""
        if fn._done:
            return fn
        for b, ls in fn.raw.items():
            fn.blocks[b] = [safe_parse(x) for x in ls]
        succ = {b: [t for t in successors(st[-1]) if t in fn.blocks] for b, st in fn.blocks.items() if st}
        order, seen, heads, onstack = [], set(), set(), set()
        stack = [('bb0', iter(succ.get('bb0', [])))]
        seen.add('bb0')
        onstack.add('bb0')
        while stack:
            b, it = stack[-1]
            for t in it:
                if t in onstack:
                    heads.add(t)
                elif t not in seen:
                    seen.add(t)
                    onstack.add(t)
                    stack.append((t, iter(succ.get(t, []))))
                    break
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        order.reverse()
        fn.order = {b: i for i, b in enumerate(order)}
        fn.heads = heads
        fn.live = liveness(fn, succ, order)
        fn._done = True
        return fn

    # -- sources
    def _scan_sources(self, root):
        self.all_src = ''
        for d, _, files in sorted(os.walk(os.path.join(root, 'src'))):
            for f in sorted(files):
                if f.endswith('.rs'):
                    self.all_src += strip_comments(open(os.path.join(d, f), encoding='utf-8').read()) + '\n'
        for d, _, files in os.walk(os.path.join(root, 'src')):
            for f in files:
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    self._scan_file(root, p)

    def _const_of(self, e, src, depth=0):
        m = re.match(r'(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*?)(?:_?[ui](?:8|16|32|64|128|size))?$', e)
        if m:
            return int(m.group(1).replace('_', ''), 0)
        if depth > 4 or not re.match(r'[\w:]+$', e):
            return None
        name = e.split('::')[-1]
        m = re.search(r'\bconst\s+%s\s*:[^=;]*=\s*([^;]+?)\s*;' % name, src) or re.search(r'\bconst\s+%s\s*:[^=;]*=\s*([^;]+?)\s*;' % name, self.all_src)
        return self._const_of(m.group(1), src, depth + 1) if m else None

    def _scan_file(self, root, p):
        src = open(p, encoding='utf-8').read()
        rel = os.path.relpath(p, root)
        clean = strip_comments(src)
        for m in re.finditer(r'\benum\s+(\w+)[^{;]*\{', clean):
            j = match_brace(clean, m.end() - 1)
            body = clean[m.end():j]
            vs, d = {}, 0
            for part in split_top(re.sub(r'#\[[^\]]*\]', '', body)):
                mm = re.match(r'(\w+)', part)
                if not mm:
                    continue
                k = re.search(r'=\s*(.*?)\s*$', part, re.S)
                if k:
                    d = self._const_of(k.group(1), clean)
                if d is not None:        # a value that cannot be read leaves the variant unknown (unsupported when used)
                    vs[mm.group(1)] = d
                    d += 1
            self.enums.setdefault(m.group(1), []).append((rel, vs))
        lines = clean.split('\n')
        self.impls[(root, rel)] = lines

    def enum_variants(self, path):
        """path: '...::Enum' (generics stripped) -> {variant: discr} or None"""
        segs = path.split('::')
        name = segs[-1]
        if name == 'Option':
            return {'None': 0, 'Some': 1}
        if name == 'Result':
            return {'Ok': 0, 'Err': 1}
        if name == 'ControlFlow':
            return {'Continue': 0, 'Break': 1}
        if name == 'Ordering':
            return {'Less': -1, 'Equal': 0, 'Greater': 1}
        c = self.enums.get(name)
        if not c:
            return None
        if len(c) == 1:
            return c[0][1]
        for rel, vs in c:
            mod = rel[4:-3].replace('/', '::')
            for k in range(len(segs) - 1, 0, -1):
                if mod.endswith('::'.join(segs[:k][-2:])) or mod == '::'.join(segs[:-1]):
                    return vs
        # ambiguous: try by partial module overlap
        for rel, vs in c:
            mods = set(rel[4:-3].split('/'))
            if mods & set(segs[:-1]):
                return vs
        return c[0][1]

    def impl_info(self, fn):
        """(trait, type) for a function name containing '<impl at file:l:c: l:c>'"""
        m = re.search(r'<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>', fn.name)
        if not m:
            return None
        key = (fn.file, m.group(1))
        lines = self.impls.get(key)
        if not lines:
            return None
        l1 = int(m.group(2)) - 1
        txt = '\n'.join(lines[l1:l1 + 40])[int(m.group(3)) - 1:]
        if txt.startswith('impl') or txt.startswith('unsafe impl'):
            hd = txt[:txt.index('{')].strip()
            hd = re.sub(r'^(unsafe )?impl\s*', '', hd)
            if hd.startswith('<'):
                hd = hd[find_close(hd, 0) + 1:].strip()
            hd = hd.split(' where ')[0]
            parts = split_top(hd, ' for ')
            ty = strip_generics(parts[-1]).split('::')[-1].strip()
            tr = strip_generics(parts[0]).split('::')[-1].strip() if len(parts) == 2 else None
            return tr, ty
        # derive
        tr = re.match(r'\w+', txt)
        mm = re.search(r'\b(?:enum|struct)\s+(\w+)', txt)
        if tr and mm:
            return tr.group(0), mm.group(1)
        return None

    def resolve(self, callee, ctxname=''):
        """callee text -> Fn of this program, or None"""
        key = (callee, ctxname.rsplit('::', 1)[0])
        if key in self._resolve_cache:
            return self._resolve_cache[key]
        r = self._resolve(callee, ctxname)
        self._resolve_cache[key] = r
        return r

    def _resolve(self, callee, ctxname):
        if callee in self.fns:
            return self.fns[callee]
        m = trait_path(callee)
        trait = None
        if m:
            ty = strip_generics(m.group(1)).split('::')[-1].strip('& ')
            trait = strip_generics(m.group(2)).split('::')[-1]
            name = m.group(3)
            path = strip_generics(m.group(1)).split('::')[:-1]
        else:
            s = strip_generics(callee)
            segs = [x for x in s.split('::') if x]
            name = segs[-1]
            ty = segs[-2] if len(segs) > 1 else None
            path = segs[:-2]
        cands = []
        for fname, fn in self.fns.items():
            if fname.rsplit('::', 1)[-1] != name:
                continue
            info = self.impl_info(fn)
            if info:
                tr, t = info
                if ty != t:
                    continue
                if (trait or None) != tr:
                    continue
                cands.append(fn)
            elif trait is None:
                fs = fname.split('::')
                if ty is None or (len(fs) > 1 and fs[-2] == ty) or len(fs) == 1:
                    cands.append(fn)
        if len(cands) > 1 and path:
            c2 = [f for f in cands if path_match(f, path)]
            if c2:
                cands = c2
        if len(cands) > 1 and ctxname:
            mod = re.match(r'[\w:]*', ctxname).group(0).split('::')
            best = [f for f in cands if f.name.split('::')[:1] == mod[:1]]
            if best:
                cands = best
        return cands[0] if len(cands) == 1 else None


class TraitPath:
    def __init__(self, *g):
        self.g = g

    def group(self, i):
        return self.g[i - 1]


def trait_path(callee):
    """<type as trait>::method, with the brackets matched"""
    if not callee.startswith('<'):
        return None
    j = find_close(callee, 0)
    inner, rest = callee[1:j], callee[j + 1:]
    m = re.match(r'::(\w+)(::<.*>)?$', rest)
    depth, at = 0, None
    for i, c in enumerate(inner):
        if c in '([{<':
            depth += 1
        elif c in ')]}' or c == '>' and inner[i - 1] not in '-=':
            depth -= 1
        elif depth == 0 and inner.startswith(' as ', i):
            at = i
    if not m or at is None:
        return None
    return TraitPath(inner[:at], inner[at + 4:], m.group(1), m.group(2))


def path_match(fn, path):
    m = re.search(r'<impl at (?:src/)?([^:]+)\.rs', fn.name)
    mods = m.group(1).split('/') if m else fn.name.split('::')
    return all(p in mods for p in path if p not in ('crate',))


def strip_generics(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith('::<', i):
            i = find_close(s, i + 2) + 1
        elif s[i] == '<' and i > 0 and (s[i - 1].isalnum() or s[i - 1] == '_'):
            i = find_close(s, i) + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def strip_comments(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            while i < n and src[i] != '\n':
                i += 1
        elif src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', src[i:j]))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(re.sub(r'[^\n"]', '_', src[i:j + 1]))
            i = j + 1
        elif c == "'" and i + 2 < n and (src[i + 2] == "'" or (src[i + 1] == '\\')):
            j = src.find("'", i + (3 if src[i + 1] == '\\' else 2))
            out.append("'" + '_' * (j - i - 1) + "'")
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def match_brace(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                return j
    return len(s)


def successors(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] else [])
    if k == 'assert':
        return [t[4]]
    if k == 'drop':
        return [t[2]] if t[2] else []
    if k == 'call':
        return [t[4]] if t[4] else []
    return []


def liveness(fn, succ, order):
    """live-in locals per block; locals whose address is taken stay live until StorageDead"""
    use, kill, addr = {}, {}, set()
    for b in order:
        u, k = set(), set()

        def use_place(p, write=False):
            loc, proj = p
            if not write or proj:
                if loc not in k:
                    u.add(loc)
            for e in proj:
                if e[0] == 'index' and e[1] not in k:
                    u.add(e[1])

        def use_op(o):
            if o[0] in ('copy', 'move'):
                use_place(o[1])

        for st in fn.blocks[b]:
            t = st[0]
            if t == 'assign':
                rv = st[2]
                if rv[0] == 'ref':
                    loc, proj = rv[2]
                    if not any(e[0] == 'deref' for e in proj):
                        addr.add(loc)
                    use_place(rv[2])
                elif rv[0] in ('discr', 'len'):
                    use_place(rv[1])
                elif rv[0] == 'bin':
                    use_op(rv[2])
                    use_op(rv[3])
                elif rv[0] == 'un':
                    use_op(rv[2])
                elif rv[0] == 'use':
                    use_op(rv[1])
                elif rv[0] == 'cast':
                    use_op(rv[2])
                elif rv[0] == 'repeat':
                    use_op(rv[1])
                elif rv[0] in ('array', 'tuple'):
                    for o in rv[1]:
                        use_op(o)
                elif rv[0] in ('agg', 'closure'):
                    for o in rv[2]:
                        use_op(o)
                use_place(st[1], True)
                if not st[1][1]:
                    k.add(st[1][0])
            elif t == 'call':
                for o in st[3]:
                    use_op(o)
                m = re.match(r'(move|copy) (.*)$', st[2])
                if m:
                    use_place(parse_place(m.group(2)))
                if st[1]:
                    use_place(st[1], True)
                    if not st[1][1]:
                        k.add(st[1][0])
            elif t == 'switch':
                use_op(st[1])
            elif t == 'assert':
                use_op(st[2])
            elif t == 'drop':
                use_place(st[1])
            elif t == 'setdiscr':
                use_place(st[1])
            elif t == 'dead':
                k.add(st[1])
            elif t == 'return':
                if 0 not in k:
                    u.add(0)
        use[b], kill[b] = u, k
    live = {b: set() for b in order}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            o = set()
            for s in succ.get(b, []):
                o |= live.get(s, set())
            nl = use[b] | (o - kill[b])
            if nl != live[b]:
                live[b] = nl
                changed = True
    return {b: live[b] | addr for b in order}
