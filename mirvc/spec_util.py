"""Executable specification of util::decode, util::QueryIterator and util::FieldIterator.

Written from their documentation; byte-at-a-time transducers over the whole input.  Decoded bytes are
output on a channel ('out', 'name', 'value'); one part is ended by the event pair(has_value), a malformed
part by the event error(kind, byte) after which nothing follows.  A channel whose bytes are not UTF-8 turns
the end of the part into an error that names the first such byte (bad_utf8).
"""
from specm import mulc, shlc, or_, add, sub, veq, vle, DIGIT, UPPER
from spec_h1 import HEX, LWS, VIS, TOKEN, FIELD, QFIELD

CLASSES = [HEX, LWS, VIS, TOKEN, FIELD, QFIELD, DIGIT, UPPER] + [frozenset([c]) for c in b'%+&;=/"\\']
DATA = {'out', 'name', 'value'}
COUNTED = {}
ANY = (1 << 64) - 1
START = {'decode': ('run',), 'query': ('start', 1), 'field': ('start',)}
NAME, VALUE = 0, 1
KIND = {'Name': NAME, 'Value': VALUE}
CHKIND = {'name': NAME, 'value': VALUE}


def early(m, room, differs):
    return False


def bad(m, kind, b):
    """malformed: nothing follows"""
    for k in ('hb', 'hi', 'lb'):
        m.r.pop(k, None)
    if isinstance(kind, str):
        m.q = ('bad', kind)
        m.r['eb'] = b
    else:
        m.event('error', kind, b)
        m.q = ('end',)


def part(m, hv):
    m.event('pair', hv)
    m.r.pop('lb', None)
    m.q = ('start', 0) if m.typ == 'query' else ('start',)


def bad_utf8(m, ch, b):
    """the bytes of channel ch, now complete, are not UTF-8 from byte b on"""
    if ch == 'out':
        bad(m, 'Byte', b)
    else:
        bad(m, CHKIND[ch], b)


def step(m, typ):
    m.typ = typ
    if m.q[0] == 'start':
        eps(m, typ, True)
    {'decode': decode, 'query': query, 'field': field}[typ](m, m.b, m.q[0])


def eps(m, typ, avail):
    """transitions that consume nothing; avail: another byte is there, otherwise the input has ended"""
    m.typ = typ
    q = m.q[0]
    if q == 'start':
        m.q = ('end',) if not avail else ('name', m.q[1]) if typ == 'query' else ('lead',)
        return True
    if avail:
        return False
    r = m.r
    if q == 'run':
        m.q = ('ok',)
    elif q == 'hex1':
        bad(m, m.q[2], 0x25)
    elif q == 'hex2':
        bad(m, m.q[2], r['hb'])
    elif q == 'name':
        part(m, 0)
    elif q == 'value':
        part(m, 1)
    elif q == 'lead':
        m.q = ('end',)
    elif q == 'eq':
        part(m, 0)
    elif q == 'qend':
        part(m, 1)
    elif q in ('quoted', 'esc'):
        bad(m, VALUE, r['lb'])
    else:
        return False
    return True


def _step(m, typ):
    return False


def hexes(m, b, s):
    """%XX on channel q[1], error kind q[2], then back to q[3]"""
    _, ch, kind, back = m.q
    if not m.isin(b, HEX):
        bad(m, kind, m.w64(b))
    elif s == 'hex1':
        m.r['hi'] = m.hexval(b)
        m.r['hb'] = m.w64(b)
        m.q = ('hex2', ch, kind, back)
    else:
        m.out(ch, m.w8(or_(shlc(m.r['hi'], 4), m.hexval(b))))
        m.r.pop('hi')
        m.r.pop('hb')
        m.q = back


def decode(m, b, s):
    if s == 'run':
        if m.eq(b, 0x2B):
            m.out('out', 32)
        elif m.eq(b, 0x25):
            m.q = ('hex1', 'out', 'HexSequence', ('run',))
        elif m.isin(b, VIS):
            m.emit('out')
        else:
            bad(m, 'Byte', m.w64(b))
    elif s in ('hex1', 'hex2'):
        hexes(m, b, s)


def query(m, b, s):
    if s == 'name':
        first = m.q[1]
        m.q = ('name', 0)
        if m.eq(b, 0x2B):
            m.out('name', 32)
        elif m.eq(b, 0x25):
            m.q = ('hex1', 'name', NAME, ('name', 0))
        elif m.eq(b, 0x3D):
            if first:
                bad(m, NAME, m.w64(b))
            else:
                m.q = ('value',)
        elif m.isin(b, frozenset(b'&;')):
            if first:
                bad(m, NAME, m.w64(b))
            else:
                part(m, 0)
        elif m.isin(b, VIS):
            m.emit('name')
        else:
            bad(m, NAME, m.w64(b))
    elif s == 'value':
        if m.eq(b, 0x2B):
            m.out('value', 32)
        elif m.eq(b, 0x25):
            m.q = ('hex1', 'value', VALUE, ('value',))
        elif m.isin(b, frozenset(b'&;')):
            part(m, 1)
        elif m.isin(b, VIS):
            m.emit('value')
        else:
            bad(m, VALUE, m.w64(b))
    elif s in ('hex1', 'hex2'):
        hexes(m, b, s)


def field(m, b, s):
    delim = lambda: m.eq(m.w64(b), m.r['dl'], 64)
    if s == 'lead' and not m.isin(b, LWS):
        m.q = ('name',)
        s = 'name'
    if s == 'eq' and not m.isin(b, LWS):
        if m.eq(b, 0x22):
            m.q = ('quoted',)
            m.r['lb'] = m.w64(b)
            return
        m.q = ('value',)
        s = 'value'
    if s == 'name':
        if m.eq(b, 0x3D):
            m.q = ('eq',)
        elif m.eq(b, 0x2F):
            m.emit('name')
        elif delim():
            part(m, 0)
        elif m.isin(b, UPPER) and m.eq(m.r['norm'], 1, 64):
            m.out('name', add(b, 32, 8))
        elif m.isin(b, TOKEN):
            m.emit('name')
        else:
            bad(m, NAME, m.w64(b))
    elif s == 'value':
        if delim():
            part(m, 1)
        elif m.isin(b, FIELD):
            m.emit('value')
        else:
            bad(m, VALUE, m.w64(b))
    elif s == 'quoted':
        m.r['lb'] = m.w64(b)
        if m.eq(b, 0x22):
            m.r.pop('lb')
            m.q = ('qend',)
        elif m.eq(b, 0x5C):
            m.q = ('esc',)
        elif m.isin(b, QFIELD):
            m.emit('value')
        else:
            bad(m, VALUE, m.w64(b))
    elif s == 'esc':
        m.emit('value')
        m.r['lb'] = m.w64(b)
        m.q = ('quoted',)
    elif s == 'qend':
        if not m.isin(b, LWS):
            if delim():
                part(m, 1)
            else:
                bad(m, VALUE, m.w64(b))
