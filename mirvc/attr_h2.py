"""Which property a failed HTTP/2 obligation (or a concrete disagreement) belongs to."""

FRAG, PAUSE, REINIT = {'C16'}, {'C16'}, {'C27'}
FIELDS = ('headers', 'priority', 'rst_stream', 'settings', 'push_promise', 'go_away', 'window_update')
FIXED = {'panic': {'C15'}, 'progress': {'C28'}, 'init': {'C27'}, 'terminal': {'C20'}, 'pause': {'C16', 'C20'}, 'account': {'C20'}, 'result': {'C20'}}


def props(cat, typ, q=None):
    if isinstance(q, str):
        q = q.strip('()').split(',')[0].strip("'")
    elif q:
        q = q[0]
    kind, _, ch = cat.partition(':')
    if kind in FIXED:
        return set(FIXED[kind])
    if kind == 'event':
        if ch == 'frame_format':
            return {'C17'}
        if ch in FIELDS:
            return {'C18'}
        return {'C19'}
    if kind == 'error':
        if q in ('padlen', 'padded'):
            return {'C19'}
        if q in ('f', 'format'):
            return {'C17', 'C19'}
        return {'C17', 'C18', 'C19'}
    return set()
