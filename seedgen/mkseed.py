#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the list in seeds.py: mkseed.py [ids]; works in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
from cmp import norm
WT = "/tmp/seedwt"
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def conv(script):
    """s"..." / t"..." pieces are written as text in scripts"""
    def h(m):
        b = m.group(2).encode().decode("unicode_escape").encode("latin-1")
        return m.group(1) + b.hex()
    return re.sub(r'(\b[stwb]:|\bdec |\bqry |\bfld \d+ \d )"((?:[^"\\]|\\.)*)"', h, script)


def edit(repo, f, fn, old, new):
    p = os.path.join(repo, f)
    s = open(p).read()
    at = s.index(fn) if fn else 0
    m = re.compile(r"\n    (?:pub )?fn |\n}\n").search(s, at + len(fn) if fn else 0)
    end = m.start() if m and fn else len(s)
    body = s[at:end]
    assert old in body, (f, fn, old)
    s = s[:at] + body.replace(old, new, 1) + s[end:]
    open(p, "w").write(s)


def run(repo, d):
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)


def stable(repo):
    # the tests of README examples need /repo itself; vcheck runs them
    o = sh("timeout 100 cargo test --offline --lib --test http1_chunk_encoded --test http1_head --test http1_multipart --test http1_url_encoded --no-fail-fast 2>&1", cwd=repo).stdout
    if "test result" not in o:
        return {}, ["(hang)"], o
    res = {m.group(1): m.group(2) for m in re.finditer(r"^test (\S+)(?: - \S+)* \.\.\. (\w+)", o, re.M)}
    fails = [k for k, v in res.items() if v == "FAILED"]
    return res, fails, o


def main():
    want = sys.argv[1:]
    shutil.rmtree(WT, ignore_errors=True)
    sh(["cp", "-a", "/repo", WT])
    for sd in SEEDS:
        if want and sd["id"] not in want:
            continue
        sh("git checkout -q -- . && git clean -fdq src", cwd=WT)
        d = os.path.join(OUT, sd["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("demo.sh", "cmp.py"):
            shutil.copy(os.path.join(HERE, f), d)
        shutil.copy(os.path.join(os.path.dirname(HERE), "harness/src/main.rs"), d)
        cases = [conv(s) for s in sd["cases"]]
        open(d + "/cases.txt", "w").write("".join(c + " => \n" for c in cases))
        # what the unchanged tree answers
        o = run_raw(WT, d)
        open(d + "/cases.txt", "w").write("".join("%s => %s\n" % (c, norm(l)) for c, l in zip(cases, o)))
        r0 = run(WT, d)
        try:
            for e in sd["edits"]:
                edit(WT, *e)
        except (AssertionError, ValueError) as x:
            print(sd['id'], 'NO MATCH', x)
            os.system('rm -rf %s' % d)
            continue
        diff = sh("git diff", cwd=WT).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        res, fails, out = stable(WT)
        names = set(BASE["stable"] if isinstance(BASE, dict) and "stable" in BASE else BASE)
        if "could not compile" in out:
            print(sd["id"], "DOES NOT BUILD", out[-1500:]); continue
        r1 = run(WT, d)
        ok = r0.returncode == 0 and r1.returncode != 0 and not fails
        print(sd["id"], sd["property"], "OK" if ok else "BAD", "base", r0.returncode, "patched", r1.returncode, "failing tests", fails[:5])
        print("    " + "\n    ".join((r1.stdout if r0.returncode == 0 else r0.stdout).splitlines()[:6]))
        if not ok:
            os.system("rm -rf /tmp/badseed; mv %s /tmp/badseed" % d)
    shutil.rmtree(WT, ignore_errors=True)


def run_raw(repo, d):
    tmp = "/tmp/seedrun"
    os.makedirs(tmp + "/src", exist_ok=True)
    shutil.copy(d + "/main.rs", tmp + "/src/main.rs")
    open(tmp + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nhttp-box = { path = "%s" }\n[workspace]\n' % repo)
    sh("cargo build --offline -q", cwd=tmp)
    src = "".join(l.split(" => ")[0] + "\n" for l in open(d + "/cases.txt"))
    return subprocess.run([tmp + "/target/debug/demo"], input=src, stdout=subprocess.PIPE, text=True).stdout.splitlines()


main()
