"""Executable specification of the HTTP/1.x parser: what byte sequence means which callbacks.

Written from the documentation of the crate (HttpHandler, ParserState, README) and RFC 7230 grammar,
independent of parser.rs.  A byte-at-a-time transducer: fragmentation, pausing and fast paths are
invisible to it, so agreement with it *is* fragmentation/pause transparency.
"""
from specm import mulc, shlc, or_, add, sub, veq, vle, DIGIT, UPPER

HEX = frozenset(b'0123456789abcdefABCDEF')
LWS = frozenset(b' \t')
WS = frozenset(b' \t\r\n')
VIS = frozenset(range(0x21, 0x7F))
TOKEN = frozenset(b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
FIELD = frozenset([9] + list(range(0x20, 0x7F)) + list(range(0x80, 0x100))) - frozenset(b'"')
QFIELD = FIELD - frozenset(b'\\')
STATUS = frozenset(range(0x20, 0x7F)) | frozenset(range(0x80, 0x100))
ESC = frozenset(range(0x20, 0x7B))

HTTP = b'HTTP/'
# byte classes the machine distinguishes: the verifier may remember which of them a peeked byte is in
CLASSES = [HEX, LWS, WS, VIS, TOKEN, FIELD, QFIELD, STATUS, ESC, DIGIT, UPPER] + [frozenset([c]) for c in b'HTP/ \r\n\t.:;=,"\\-&%+0']
START = {'head': ('strip',), 'chunked': ('cl1',), 'multipart': ('mh1', 'first'), 'url': ('ufirst',)}
ERRKINDS = ['Method', 'Url', 'Version', 'StatusCode', 'Status', 'CrlfSequence', 'HeaderName', 'HeaderValue',
            'ChunkLength', 'ChunkExtensionName', 'ChunkExtensionValue', 'MultipartBoundary', 'UrlEncodedName',
            'UrlEncodedValue']
COUNTED = {'cdata': ('chunk_data', ('cdcr',)), 'mlen': ('multipart_data', ('mlcr',))}

DATA = {'method', 'url', 'status', 'header_name', 'header_value', 'chunk_extension_name', 'chunk_extension_value',
        'chunk_data', 'multipart_data', 'url_encoded_name', 'url_encoded_value'}


def err(m, kind):
    m.q = ('err', kind)
    m.r['eb'] = m.w64(m.b)


def finished(m):
    m.q = ('fin',)


def step(m, typ):
    """process the byte m.b (position m.pos)"""
    if typ == 'url':
        m.r['rem'] = sub(m.r['rem'], 1)
    while True:
        q0 = m.q
        if not _step(m, typ):
            break
        assert m.q != q0
    eps(m, typ, False)


def eps(m, typ, avail):
    """transitions that consume nothing; avail: at least one more byte is there. True if one was taken"""
    q = m.q[0]
    if typ == 'url' and q not in ('fin', 'err') and m.eq(m.r['rem'], 0, 64):
        m.event('body_finished')
        finished(m)
        return True
    if avail and q == 'ufirst':
        m.event('url_encoded_begin')
        m.q = ('uname',)
        return True
    return False


def version_done(m, side):
    m.event('version', m.r['maj'], m.r['min'])
    m.r.pop('maj')
    m.r.pop('min')
    if side == 'req':
        m.event('initial_finished')
        m.q = ('initlf',)
    else:
        m.q = ('sc', 1)


def _step(m, typ):
    """one transition; returns True when the same byte has to be looked at again"""
    q, b, r = m.q, m.b, m.r
    s = q[0]
    # ---------------------------------------------------------------- initial line
    if s == 'strip':
        if not m.isin(b, WS):
            m.q = ('det', 0)
            return True
    elif s == 'det':
        k = q[1]
        if m.eq(b, HTTP[k]):
            m.q = ('det', k + 1) if k < 4 else ('v', 'maj1', 'resp')
        else:
            m.out_const('method', HTTP[:k])
            if k == 0 and not m.isin(b, UPPER):
                err(m, 'Method')
                return False
            m.q = ('method',)
            return True
    elif s == 'method':
        if m.isin(b, UPPER):
            m.emit('method')
        elif m.eq(b, 32):
            m.q = ('url1',)
        else:
            err(m, 'Method')
    elif s in ('url1', 'url'):
        if m.isin(b, VIS):
            m.emit('url')
            m.q = ('url',)
        elif s == 'url' and m.eq(b, 32):
            m.q = ('http', 0)
        else:
            err(m, 'Url')
    elif s == 'http':
        k = q[1]
        if m.eq(b, HTTP[k]):
            m.q = ('http', k + 1) if k < 4 else ('v', 'maj1', 'req')
        else:
            err(m, 'Version')
    elif s == 'v':
        sub_, side = q[1], q[2]
        end = 13 if side == 'req' else 32
        if sub_ == 'maj1':
            if m.isin(b, DIGIT):
                r['maj'] = m.dig(b)
                m.q = ('v', 'maj2', side)
                return False
        elif sub_ in ('maj2', 'maj3', 'per'):
            if m.eq(b, 46):
                m.q = ('v', 'min1', side)
                return False
            if sub_ != 'per' and m.isin(b, DIGIT):
                r['maj'] = add(mulc(r['maj'], 10), m.dig(b))
                m.q = ('v', 'maj3' if sub_ == 'maj2' else 'per', side)
                return False
        elif sub_ == 'min1':
            if m.isin(b, DIGIT):
                r['min'] = m.dig(b)
                m.q = ('v', 'min2', side)
                return False
        else:
            if m.eq(b, end):
                version_done(m, side)
                return False
            if sub_ != 'end' and m.isin(b, DIGIT):
                r['min'] = add(mulc(r['min'], 10), m.dig(b))
                m.q = ('v', 'min3' if sub_ == 'min2' else 'end', side)
                return False
        for k in ('maj', 'min'):
            r.pop(k, None)
        err(m, 'Version')
    elif s == 'sc':
        k = q[1]
        if k < 4:
            if m.isin(b, DIGIT):
                r['code'] = m.dig(b) if k == 1 else add(mulc(r['code'], 10), m.dig(b))
                m.q = ('sc', k + 1)
                return False
        elif m.eq(b, 32):
            m.event('status_code', r.pop('code'))
            m.q = ('status1',)
            return False
        r.pop('code', None)
        err(m, 'StatusCode')
    elif s in ('status1', 'status'):
        if m.isin(b, STATUS):
            m.emit('status')
            m.q = ('status',)
        elif s == 'status' and m.eq(b, 13):
            m.event('initial_finished')
            m.q = ('initlf',)
        else:
            err(m, 'Status')
    # ---------------------------------------------------------------- headers / trailers
    elif s == 'initlf' or s == 'hlf1':
        if m.eq(b, 10):
            m.q = ('hline',)
        else:
            err(m, 'CrlfSequence')
    elif s == 'hline':
        if m.eq(b, 13):
            m.q = ('hlf2',)
        elif m.isin(b, LWS):
            m.q = ('hval',)
        elif m.isin(b, TOKEN):
            m.q = ('hname',)
            return True
        else:
            err(m, 'HeaderName')
    elif s == 'hname':
        if m.eq(b, 58):
            m.q = ('hstrip',)
        elif m.isin(b, UPPER):
            m.out('header_name', add(b, 32, 8))
        elif m.isin(b, TOKEN):
            m.emit('header_name')
        else:
            err(m, 'HeaderName')
    elif s == 'hstrip':
        if m.isin(b, LWS):
            pass
        elif m.isin(b, VIS):
            m.q = ('hval',)
            return True
        else:
            err(m, 'HeaderValue')
    elif s == 'hval':
        if m.eq(b, 13):
            m.q = ('hlf1',)
        elif m.eq(b, 34):
            m.emit('header_value')
            m.q = ('hq',)
        elif m.isin(b, FIELD):
            m.emit('header_value')
        else:
            err(m, 'HeaderValue')
    elif s == 'hq':
        if m.eq(b, 34):
            m.emit('header_value')
            m.q = ('hval',)
        elif m.eq(b, 92):
            m.emit('header_value')
            m.q = ('hesc',)
        elif m.isin(b, QFIELD):
            m.emit('header_value')
        else:
            err(m, 'HeaderValue')
    elif s == 'hesc':
        if m.isin(b, ESC):
            m.emit('header_value')
            m.q = ('hq',)
        else:
            err(m, 'HeaderValue')
    elif s == 'hlf2':
        if m.eq(b, 10):
            m.event('headers_finished')
            if typ == 'chunked':
                m.event('body_finished')
                finished(m)
            elif typ == 'multipart':
                m.q = ('mdetect',)
            else:
                finished(m)
        else:
            err(m, 'CrlfSequence')
    # ---------------------------------------------------------------- chunked
    elif s == 'cl1':
        if m.eq(b, 48):
            m.event('chunk_begin')
            r['len'] = 0
            m.q = ('clend',)
        elif m.isin(b, HEX):
            m.event('chunk_begin')
            r['len'] = m.hexval(b)
            m.q = ('cl', 1)
        else:
            err(m, 'ChunkLength')
    elif s == 'cl':
        if m.isin(b, HEX):
            r['len'] = or_(shlc(r['len'], 4), m.hexval(b))
            m.q = ('cl', q[1] + 1) if q[1] < 7 else ('clend',)
        else:
            m.q = ('clend',)
            return True
    elif s == 'clend':
        if m.eq(b, 13):
            m.event('chunk_length', r['len'])
            if m.eq(r['len'], 0, 64):
                r.pop('len')
                m.q = ('hlf1',)
            else:
                m.event('chunk_extensions_finished')
                m.q = ('clf',)
        elif m.eq(b, 59):
            m.event('chunk_length', r['len'])
            m.q = ('exts',)
        else:
            r.pop('len')
            err(m, 'ChunkLength')
    elif s == 'clf':
        if m.eq(b, 10):
            if m.eq(r['len'], 0, 64):
                r.pop('len')
                m.q = ('hline',)
            else:
                m.q = ('cdata',)
        else:
            r.pop('len')
            err(m, 'CrlfSequence')
    elif s in ('exts', 'extvs'):
        if m.isin(b, LWS):
            pass
        elif m.isin(b, VIS):
            m.q = ('extn',) if s == 'exts' else ('extv',)
            return True
        else:
            r.pop('len')
            err(m, 'ChunkExtensionName' if s == 'exts' else 'ChunkExtensionValue')
    elif s == 'extn' or s == 'extv':
        if m.eq(b, 13):
            m.event('chunk_extension_finished')
            m.event('chunk_extensions_finished')
            m.q = ('clf',)
        elif m.eq(b, 59):
            m.event('chunk_extension_finished')
            m.q = ('exts',)
        elif s == 'extn':
            if m.eq(b, 61):
                m.q = ('extvs',)
            elif m.isin(b, UPPER):
                m.out('chunk_extension_name', add(b, 32, 8))
            elif m.isin(b, TOKEN):
                m.emit('chunk_extension_name')
            else:
                r.pop('len')
                err(m, 'ChunkExtensionName')
        elif m.eq(b, 34):
            m.q = ('extq',)
        elif m.isin(b, FIELD):
            m.emit('chunk_extension_value')
        else:
            r.pop('len')
            err(m, 'ChunkExtensionValue')
    elif s == 'extq':
        if m.eq(b, 34):
            m.q = ('extv',)
        elif m.eq(b, 92):
            m.q = ('extesc',)
        elif m.isin(b, QFIELD):
            m.emit('chunk_extension_value')
        else:
            r.pop('len')
            err(m, 'ChunkExtensionValue')
    elif s == 'extesc':
        if m.isin(b, ESC):
            m.emit('chunk_extension_value')
            m.q = ('extq',)
        else:
            r.pop('len')
            err(m, 'ChunkExtensionValue')
    elif s == 'cdata' or s == 'mlen':
        m.emit(COUNTED[s][0])
        r['len'] = sub(r['len'], 1)
        if m.eq(r['len'], 0, 64):
            r.pop('len')
            m.q = COUNTED[s][1]
    elif s == 'cdcr':
        if m.eq(b, 13):
            m.q = ('cdlf',)
        else:
            err(m, 'CrlfSequence')
    elif s == 'cdlf':
        if m.eq(b, 10):
            m.q = ('cl1',)
        else:
            err(m, 'CrlfSequence')
    # ---------------------------------------------------------------- multipart
    elif s == 'mh1' or s == 'mh2':
        mode = q[1]
        if m.eq(b, 45):
            if s == 'mh1':
                m.q = ('mh2', mode)
            else:
                m.q = ('mb', mode)
                r['k'] = 0
        elif mode == 'data':
            m.out_const('multipart_data', b'\r\n' if s == 'mh1' else b'\r\n-')
            m.q = ('mdata',)
            return True
        else:
            err(m, 'MultipartBoundary')
    elif s == 'mb':
        mode = q[1]
        if m.cond(veq(b, m.bnd(r['k']), 8)):
            r['k'] = add(r['k'], 1)
            if m.cond(veq(r['k'], r['blen'])):
                r.pop('k')
                m.q = ('mbcr',)
        else:
            mb_mismatch(m, mode)
            return m.q == ('mdata',)
    elif s == 'mbcr':
        if m.eq(b, 13):
            m.event('multipart_begin')
            m.q = ('initlf',)
        elif m.eq(b, 45):
            m.q = ('mend',)
        else:
            err(m, 'MultipartBoundary')
    elif s == 'mend':
        if m.eq(b, 45):
            m.event('body_finished')
            finished(m)
        else:
            err(m, 'MultipartBoundary')
    elif s == 'mdata':
        if m.eq(b, 13):
            m.q = ('mlf',)
        else:
            m.emit('multipart_data')
    elif s == 'mlf':
        if m.eq(b, 10):
            m.q = ('mh1', 'data')
        else:
            m.out_const('multipart_data', b'\r')
            m.q = ('mdata',)
            return True
    elif s == 'mlcr':
        if m.eq(b, 13):
            m.q = ('mllf',)
        else:
            err(m, 'MultipartBoundary')
    elif s == 'mllf':
        if m.eq(b, 10):
            m.q = ('mh1', 'len')
        else:
            err(m, 'MultipartBoundary')
    # ---------------------------------------------------------------- url encoded
    elif s == 'uname' or s == 'uval':
        ch = 'url_encoded_name' if s == 'uname' else 'url_encoded_value'
        if m.eq(b, 37):
            m.q = ('uh1', s)
        elif m.eq(b, 43):
            m.out(ch, 32)
        elif m.isin(b, frozenset(b'&;')):
            m.q = ('ufirst',)
        elif s == 'uname' and m.eq(b, 61):
            m.q = ('uval',)
        elif m.isin(b, VIS):
            m.emit(ch)
        else:
            err(m, 'UrlEncodedName' if s == 'uname' else 'UrlEncodedValue')
    elif s == 'uh1' or s == 'uh2':
        if not m.isin(b, HEX):
            r.pop('hx', None)
            err(m, 'UrlEncodedName' if q[1] == 'uname' else 'UrlEncodedValue')
        elif s == 'uh1':
            r['hx'] = m.hexval(b)
            m.q = ('uh2', q[1])
        else:
            m.out('url_encoded_name' if q[1] == 'uname' else 'url_encoded_value', m.w8(or_(shlc(r.pop('hx'), 4), m.hexval(b))))
            m.q = (q[1],)
    else:
        raise AssertionError(q)
    return False


def early(m, room, differs):
    """commitments the specification may make before reading the bytes they depend on.  room(n): n more bytes
    are there; differs(bs): the next len(bs) bytes are not bs.  True if one was made.
    ('det', k): when the bytes ahead cannot complete "HTTP/", this is a method; its first k letters are owed
    now, and the method state emits the letters of HTTP[k:] it still meets (all upper case) one by one."""
    q = m.q
    if q[0] == 'det' and q[1] >= 1:
        rest = HTTP[q[1]:]
        if room(len(rest)) and differs(rest):
            m.out_back('method', HTTP[:q[1]])
            m.q = ('method',)
            return True
    return False


def mb_mismatch(m, mode):
    """the byte after a boundary prefix of length k does not continue the boundary"""
    k = m.r.pop('k')
    if mode == 'data':
        m.out_const('multipart_data', b'\r\n--')
        m.out_boundary('multipart_data', k)
        m.q = ('mdata',)
    else:
        m.q = ('err', 'MultipartBoundary')
        m.r['eb'] = ANY


ANY = (1 << 64) - 1      # error byte left unspecified


def feed_content_length(m, n):
    """the handler's answer to content_length() (None or a number)"""
    if n is None:
        m.q = ('mdata',)
    else:
        m.q = ('mlen',)
        m.r['len'] = n
        if m.eq(n, 0, 64):
            m.r.pop('len')
            m.q = ('mlcr',)
