"""Which property a failed obligation (or a concrete disagreement) belongs to."""

FRAG, PAUSE, REINIT = {'C02'}, {'C03'}, {'C12'}
EVENT = {
    'method': 'C06', 'url': 'C06', 'version': 'C06', 'status_code': 'C06', 'status': 'C06', 'initial_finished': 'C06',
    'header_name': 'C07', 'header_value': 'C07', 'headers_finished': 'C07',
    'chunk_begin': 'C08', 'chunk_length': 'C08', 'chunk_data': 'C08',
    'chunk_extension_name': 'C09', 'chunk_extension_value': 'C09', 'chunk_extension_finished': 'C09', 'chunk_extensions_finished': 'C09',
    'multipart_begin': 'C10', 'multipart_data': 'C10', 'content_length': 'C10',
    'url_encoded_begin': 'C11', 'url_encoded_name': 'C11', 'url_encoded_value': 'C11',
}
BODY = {'chunked': 'C08', 'multipart': 'C10', 'url': 'C11'}
ERR = {'Method': 'C06', 'Url': 'C06', 'Version': 'C06', 'StatusCode': 'C06', 'Status': 'C06', 'HeaderName': 'C07', 'HeaderValue': 'C07',
       'ChunkLength': 'C08', 'ChunkExtensionName': 'C09', 'ChunkExtensionValue': 'C09', 'MultipartBoundary': 'C10',
       'UrlEncodedName': 'C11', 'UrlEncodedValue': 'C11'}
STATE = {'strip': 'C06', 'det': 'C06', 'method': 'C06', 'url1': 'C06', 'url': 'C06', 'http': 'C06', 'v': 'C06', 'sc': 'C06', 'status1': 'C06', 'status': 'C06',
         'initlf': 'C06', 'hline': 'C07', 'hname': 'C07', 'hstrip': 'C07', 'hval': 'C07', 'hq': 'C07', 'hesc': 'C07', 'hlf1': 'C07', 'hlf2': 'C07',
         'cl1': 'C08', 'cl': 'C08', 'clend': 'C08', 'clf': 'C08', 'cdata': 'C08', 'cdcr': 'C08', 'cdlf': 'C08',
         'exts': 'C09', 'extn': 'C09', 'extvs': 'C09', 'extv': 'C09', 'extq': 'C09', 'extesc': 'C09'}
FIXED = {'panic': ['C01'], 'progress': ['C13'], 'init': ['C12'], 'terminal': ['C05'], 'pause': ['C03'], 'account': ['C04'], 'result': ['C04']}


def by_state(q, typ):
    out = set()
    if typ in ('multipart', 'url'):
        out.add(BODY[typ])
    s = STATE.get(q)
    if s == 'C06' and typ != 'head':
        s = 'C07'
    if s:
        out.add(s)
        if s == 'C07' and typ in BODY:
            out.add(BODY[typ])
    return out


def props(cat, typ, q=None):
    """the properties a failed HTTP/1 obligation of this category is about; q: specification state (tuple or its repr)"""
    if isinstance(q, str):
        q = q.strip('()').split(',')[0].strip("'")
    elif q:
        q = q[0]
    kind, _, ch = cat.partition(':')
    if kind in FIXED:
        return set(FIXED[kind]) | (by_state(q, typ) if kind == 'result' else set())
    out = set()
    if kind == 'event':
        p = EVENT.get(ch)
        if ch == 'body_finished':
            p = BODY.get(typ)
        if p:
            out.add(p)
            if p == 'C07' and typ in BODY:
                out.add(BODY[typ])
            if ch == 'chunk_extensions_finished':
                out.add('C08')
    elif kind == 'error':
        if ch in ERR:
            out.add(ERR[ch])
            if ERR[ch] == 'C07' and typ in BODY:
                out.add(BODY[typ])
        elif ch == 'CrlfSequence':
            out |= by_state(q, typ) or ({'C06', 'C07'} if typ == 'head' else {'C07', BODY[typ]})
        else:
            out |= by_state(q, typ)
    return out
