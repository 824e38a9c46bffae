"""Runs scripted jobs on the compiled crate (harness binary) and the concrete search for each property."""
import subprocess, time, os


def run_jobs(binary, lines, timeout=120):
    """log line of every job; a job that aborts the process or hangs is reported as such and skipped"""
    out = []
    base = 0
    t0 = time.time()
    while base < len(lines):
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            so, _ = p.communicate(('\n'.join(lines[base:]) + '\n').encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
        got = so.decode().split('\n')
        if got and not got[-1].endswith('\n') and p.returncode not in (0, 3):
            got = got[:-1]
        got = [g for g in got if g]
        hang = bool(got) and got[-1].endswith(' HANG')
        if hang:
            got[-1] = got[-1][:-5] + ' X:HANG'
        out += got
        base += len(got)
        if base < len(lines) and not hang:
            if p.returncode == 0:
                raise RuntimeError('harness stopped early')
            out.append('%d PANIC:ABORT' % base)
            base += 1
        if time.time() - t0 > timeout:
            out += ['%d SKIPPED' % i for i in range(base, len(lines))]
            break
    return out
