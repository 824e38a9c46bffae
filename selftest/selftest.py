#!/opt/veriftools/pyvenv/bin/python
"""Runs the verifier's interpreter and the compiler on the same functions (src/lib.rs): every outcome of the
symbolic execution is evaluated on sample inputs and compared with what the compiled function returns
(or with its panic).  Exit 1 and a list on any difference."""
import os, random, subprocess, sys, tempfile, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'mirvc'))
sys.dont_write_bytecode = True
import z3
from sym import *
from mirparse import Program, Unsupported
from prove_small import Small


def main():
    tmp = tempfile.mkdtemp(prefix='vp_self_')
    try:
        src = os.path.join(tmp, 's')
        shutil.copytree(HERE, src, ignore=shutil.ignore_patterns('target'))
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(tmp, 't'))
        mir = os.path.join(tmp, 'lib.mir')
        with open(mir, 'w') as f:
            subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=mir', '-Zmir-opt-level=0'], cwd=src, env=env, stdout=f, stderr=subprocess.DEVNULL, check=True)
        subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=src, env=env, stderr=subprocess.DEVNULL, check=True)
        return compare(mir, src, os.path.join(tmp, 't', 'debug', 'run'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compare(mir, src, binary):
    import re
    names = re.findall(r'pub fn (t_\w+)', open(os.path.join(src, 'src', 'lib.rs')).read())
    rnd = random.Random(5)
    edge = [0, 1, 2, 3, 5, 9, 10, 32, 33, 45, 47, 48, 57, 58, 64, 65, 70, 71, 90, 91, 96, 97, 98, 99, 102, 103, 122, 126, 127, 128, 129, 200, 254, 255]
    big = [0, 1, 6, 7, 8, 76, 77, 127, 128, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0x0FFFFFFF, 0x10000000, 0xFFFFFFFA, 0xFFFFFFFB, 0xFFFFFFFF]
    samples = [(x, y, rnd.choice(big)) for x in edge for y in rnd.sample(edge, 4)] + [(rnd.randrange(256), rnd.randrange(256), rnd.randrange(1 << 32)) for _ in range(120)]
    p = Program()
    p.load(mir, src)
    bad, skipped, used, runs = [], [], set(), 0
    jobs = '\n'.join('%s %d %d %d' % ((n,) + s) for n in names for s in samples) + '\n'
    native = iter(subprocess.run([binary], input=jobs, stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n'))
    for n in names:
        want = [next(native) for _ in samples]
        x = Small(p, Solver())
        a, b, c = x.fresh('a', 8), x.fresh('b', 8), x.fresh('c', 32)
        try:
            res = x.eval(n, [Int(a, 'u8'), Int(b, 'u8'), Int(c, 'u32')])
        except (Unsupported, KeyError) as e:
            skipped.append('%s: %s' % (n, e))
            continue
        used |= x.builtins_used
        for s, w in zip(samples, want):
            sub = [(a, z3.BitVecVal(s[0], 8)), (b, z3.BitVecVal(s[1], 8)), (c, z3.BitVecVal(s[2], 32))]
            got = set()
            for st, v in res:
                if all(z3.is_true(z3.simplify(z3.substitute(q, *sub))) if not isinstance(q, bool) else q for q in st.pc):
                    got.add(str(v.v if is_c(v.v) else z3.simplify(z3.substitute(v.v, *sub))))
            runs += 1
            if got != ({w} if w != 'panic' else set()):
                tool = [f["msg"] for f in x.fails if f["cat"] == "tool"]
                if tool:
                    skipped.append("%s: %s" % (n, tool[0]))
                    break
                bad.append('%s%r: compiled code gives %s, interpreter %s' % (n, s, w, sorted(got) or 'a panic'))
                break
    for l in bad + ['not supported: ' + l for l in skipped]:
        print(l)
    print('%d functions, %d runs, %d disagree, %d not supported; %d assumed contracts exercised' % (len(names), runs, len(bad), len(skipped), len(used)))
    if '--list' in sys.argv:
        print('\n'.join(sorted(used)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
