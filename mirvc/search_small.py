"""Runs the loop-free public functions of the compiled crate over their domain (all bytes; sampled wider arguments).

usage: search_small.py BINARY ROOT SECONDS SEED REPO OUT [...]
"""
import sys, json
import conc
import spec_h1
import spec_codes as SC


def byte(t):
    bad = []
    n = 0
    for b, s in enumerate(t):
        want = ''.join(str(int(b in x)) for x in (spec_h1.FIELD, spec_h1.QFIELD, spec_h1.TOKEN))
        n += 3
        if s != want:
            bad.append('byte 0x%02x: is_header_field/is_quoted_header_field/is_token are %s, specified %s' % (b, s, want))
    return n, bad


def codes(t):
    bad, n, i = [], 0, 0
    rev = {'T': {v: k for k, v in SC.FRAME_TYPES.items()}, 'C': {v: k for k, v in SC.ERROR_CODES.items()}, 'S': {v: k for k, v in SC.SETTINGS.items()}}
    preds = {'T': SC.FRAME_PREDS, 'C': SC.ERROR_PREDS, 'S': SC.SETTING_PREDS}
    while i < len(t):
        if t[i] == 'FORMAT':
            bad.append('FrameFormat::new(%s) does not give its arguments back' % ', '.join(t[i + 1:i + 5]))
            i += 5
            continue
        k, b, x = t[i], int(t[i + 1]), int(t[i + 2])
        j = i + 3
        while j < len(t) and t[j].startswith('is_'):
            j += 1
        got = set(t[i + 3:j])
        i = j
        n += 1
        if k == 'G':
            want = {p for p, m in SC.FLAGS.items() if (b & m if m else b == 0)}
            wx = b
        else:
            name = rev[k].get(b, 'Unsupported')
            want = {p for p, m in preds[k].items() if m == name}
            wx = 1 if k == 'S' else b if b in rev[k] else 0xFF
        if got != want or x != wx:
            bad.append('%s code %d: as_byte/value %d, %s; specified %d, %s' % ({'T': 'frame type', 'C': 'error', 'G': 'flags', 'S': 'setting'}[k], b, x, sorted(got), wx, sorted(want)))
    return n, bad


def handler(t):
    return 36, ['default %s does not continue' % x for x in t]


def main():
    binary, root, secs, seed, repo, out = sys.argv[1:7]
    job = {'byte': 'byte', 'codes': 'codes', 'handler': 'defaults'}[root]
    pid = {'byte': 'C14', 'codes': 'C21', 'handler': 'C26'}[root]
    log = conc.run_jobs(binary, [job])[0]
    t = log.split(' ')[1:]
    if t and t[-1].startswith('PANIC'):
        n, bad = 1, [t[-1]]
    else:
        n, bad = {'byte': byte, 'codes': codes, 'handler': handler}[root](t)
    found = {pid: [{'type': root, 'kind': 'x', 'input': job, 'log': log[:2000], 'why': bad[:5]}]} if bad else {}
    with open(out, 'w') as f:
        json.dump({'type': root, 'evaluations': n, 'distinct': n, 'states_reached': 0, 'found': found, 'sample': [job]}, f)


if __name__ == '__main__':
    main()
