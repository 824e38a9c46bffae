"""Executable specification of the HTTP/2 parser: what byte sequence means which callbacks.

Written from the documentation of http2::HttpHandler and RFC 7540 section 4.1 and 6 (frame layouts),
independent of parser.rs.  A byte-at-a-time transducer.  A data callback on_x(slice, finished) is the bytes
of the slice on channel x, followed by the event x_end when finished is true.

Where the crate knowingly departs from RFC 7540 (see FINDING below and known_findings.txt) the machine
follows the crate, so that every other departure is still an alarm.
"""
from specm import shlc, shr, or_, and_, add, sub, veq, vle

CLASSES = []
START = {'h2': ('f', 0)}
ERRKINDS = ['Dead']
DATA = {'data', 'headers_fragment', 'ping', 'go_away_debug_data', 'unsupported'}
COUNTED = {}
ANY = (1 << 64) - 1      # the crate reports no offending byte

T_DATA, T_HEADERS, T_PRIORITY, T_RST, T_SETTINGS, T_PUSH, T_PING, T_GO_AWAY, T_WINDOW, T_CONT = range(10)
PADDED, PRIORITY = 0x8, 0x20
SID = 0x7FFFFFFF


def err(m):
    for k in ('len', 'pad', 'type', 'flags', 'w', 'ec', 'id'):
        m.r.pop(k, None)
    m.q = ('err', 'Dead')
    m.r['eb'] = ANY


def next_frame(m):
    for k in ('len', 'pad', 'type', 'flags', 'w', 'ec', 'id'):
        m.r.pop(k, None)
    m.q = ('f', 0)


def body(m, ch):
    """the rest of the payload but for the padding is data of ch"""
    m.q = ('body', ch)


def body_end(m):
    m.event(m.q[1] + '_end')
    m.r['len'] = m.r.pop('pad')
    m.q = ('padding',)


def has(m, flag):
    return m.eq(and_(m.r['flags'], flag), flag, 64)


def need(m, n):
    """is the payload at least n bytes long?"""
    return m.le(n, m.r['len'])


def field(m, q):
    """a field of the payload starts"""
    m.r['w'] = 0
    m.q = q


def frame_format(m):
    """the nine bytes of the frame header have been read"""
    r = m.r
    t = lambda k: m.eq(r['type'], k, 64)
    ev = ('frame_format', r['len'], r['type'], r['flags'], and_(r['w'], SID))

    def start(ok, f):
        if not ok:
            err(m)
            return
        m.event(*ev)
        for k in ('type', 'flags', 'w'):
            r.pop(k)
        f()
    plain = {T_CONT: 'headers_fragment', T_PING: 'ping'}
    for k in plain:
        if t(k):
            r['pad'] = 0
            return start(True, lambda: body(m, plain[k]))
    if t(T_PRIORITY):
        # FINDING: a longer payload is not refused, its rest is taken for the next frame
        ok = need(m, 5)
        r.pop('len')
        return start(ok, lambda: field(m, ('sid', 'priority', 0)))
    if t(T_RST):
        # FINDING: as above
        ok = need(m, 4)
        r.pop('len')
        return start(ok, lambda: field(m, ('word', 'rst_stream', 0)))
    if t(T_WINDOW):
        ok = m.eq(r['len'], 4, 64)
        r.pop('len')
        return start(ok, lambda: field(m, ('word', 'window_update', 0)))
    if t(T_SETTINGS):
        if m.eq(r['len'], 0, 64):
            return start(True, lambda: next_frame(m))
        # FINDING: only the first setting is read, the others are taken for the next frame
        ok = need(m, 6)
        r.pop('len')
        if ok:
            r['id'] = 0
        return start(ok, lambda: field(m, ('id', 0)))
    if t(T_GO_AWAY):
        return start(need(m, 8), lambda: field(m, ('word', 'go_away', 0)))
    kind = 'data' if t(T_DATA) else 'headers' if t(T_HEADERS) else 'push_promise' if t(T_PUSH) else 'unsupported'
    padded = has(m, PADDED)
    prio = kind == 'headers' and has(m, PRIORITY)
    fixed = 4 if kind == 'push_promise' else 5 if prio else 0
    ok = need(m, fixed + (1 if padded else 0))

    def go():
        if padded:
            m.q = ('padlen', kind, prio)
        else:
            r['pad'] = 0
            after_padlen(m, kind, prio, False)
    start(ok, go)


def after_padlen(m, kind, prio, padded):
    if kind == 'push_promise':
        field(m, ('word', 'push_promise', 0))
    elif prio:
        field(m, ('sid', 'headers', 0))
    elif kind == 'headers':
        if padded:
            # the crate reports the absent priority of a padded headers frame as zeros
            m.event('headers', 0, 0, 0)
        body(m, 'headers_fragment')
    else:
        body(m, kind)


def step(m, typ):
    r, b, s = m.r, m.w64(m.b), m.q[0]
    if s == 'f':
        k = m.q[1]
        if k < 3:
            r['len'] = or_(r['len'], shlc(b, 16 - 8 * k)) if k else shlc(b, 16)
        elif k == 3:
            r['type'] = b
        elif k == 4:
            r['flags'] = b
        else:
            r['w'] = or_(r['w'], shlc(b, 64 - 8 * k)) if k > 5 else shlc(b, 24)
        if k < 8:
            m.q = ('f', k + 1)
        else:
            m.q = ('format',)
    elif s == 'padlen':
        _, kind, prio = m.q
        r['len'] = sub(r['len'], 1)
        r['pad'] = b
        m.q = ('padded', kind, prio)
    elif s in ('word', 'sid'):
        # a 32-bit field, most significant byte first
        _, ch, k = m.q
        r['w'] = or_(r['w'], shlc(b, 24 - 8 * k))
        if k < 3:
            m.q = (s, ch, k + 1)
        elif s == 'sid':
            m.q = ('weight', ch)
        elif ch == 'rst_stream':
            m.event(ch, r['w'])
            next_frame(m)
        elif ch == 'window_update':
            m.event(ch, and_(r['w'], SID))
            next_frame(m)
        elif ch == 'push_promise':
            m.event(ch, and_(r.pop('w'), SID))
            r['len'] = sub(r['len'], 4)
            body(m, 'headers_fragment')
        else:
            r['ec'] = 0
            m.q = ('ec', 0)
    elif s == 'weight':
        ch = m.q[1]
        w = r.pop('w')
        m.event(ch, shr(w, 31), and_(w, SID), b)
        if ch == 'priority':
            next_frame(m)
        else:
            r['len'] = sub(r['len'], 5)
            body(m, 'headers_fragment')
    elif s == 'ec':
        k = m.q[1]
        r['ec'] = or_(r['ec'], shlc(b, 24 - 8 * k))
        if k < 3:
            m.q = ('ec', k + 1)
        else:
            m.event('go_away', and_(r.pop('w'), SID), r.pop('ec'))
            r['len'] = sub(r['len'], 8)
            if m.eq(r['len'], 0, 64):
                next_frame(m)
            else:
                r['pad'] = 0
                body(m, 'go_away_debug_data')
    elif s == 'id':
        k = m.q[1]
        r['id'] = or_(r['id'], shlc(b, 8 - 8 * k))
        m.q = ('id', 1) if k == 0 else ('sval', 0)
    elif s == 'sval':
        k = m.q[1]
        r['w'] = or_(r['w'], shlc(b, 24 - 8 * k))
        if k < 3:
            m.q = ('sval', k + 1)
        else:
            m.event('settings', r['id'], r['w'])
            next_frame(m)
    elif s == 'body':
        m.emit(m.q[1])
        r['len'] = sub(r['len'], 1)
    elif s == 'padding':
        r['len'] = sub(r['len'], 1)
    else:
        raise AssertionError(m.q)


def bulk_room(m):
    """how many of the next bytes are all taken the same way (and on which channel), or None"""
    if m.q[0] == 'body':
        return sub(m.r['len'], m.r['pad']), m.q[1]
    if m.q[0] == 'padding':
        return m.r['len'], None
    return None


def eps(m, typ, avail):
    """decisions due once the bytes they depend on have been read"""
    if m.q[0] == 'format':
        frame_format(m)
        return True
    if m.q[0] == 'padded':
        _, kind, prio = m.q
        fixed = 4 if kind == 'push_promise' else 5 if prio else 0
        if m.le(add(m.r['pad'], fixed), m.r['len']):
            after_padlen(m, kind, prio, True)
        else:
            err(m)
        return True
    if m.q[0] == 'body' and m.eq(m.r['len'], m.r['pad'], 64):
        body_end(m)
        return True
    if m.q[0] == 'padding' and m.eq(m.r['len'], 0, 64):
        next_frame(m)
        return True
    return False


def _step(m, typ):
    return False


def early(m, room, differs):
    return False
