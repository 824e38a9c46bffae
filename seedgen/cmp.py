import sys


def norm(line):
    """join neighbouring pieces of the same data, keep only kind and count of results"""
    out = []
    for t in line.split():
        if t.startswith("D:"):
            _, ch, data = t.split(":")
            if out and out[-1][0] == "D" and out[-1][1] == ch:
                out[-1][2] += data
            else:
                out.append(["D", ch, data])
        elif t.startswith("F:"):
            _, ch, data, fin = t.split(":")
            if out and out[-1][0] == "F" and out[-1][1] == ch and out[-1][3] == "0":
                out[-1][2] += data
                out[-1][3] = fin
            else:
                out.append(["F", ch, data, fin])
        elif t.startswith("R|"):
            f = t.split("|")
            # an end-of-stream in the middle of data does not separate it
            if f[1] == "Eos" and f[2] == f[5]:
                continue
            out.append(["R"] + f[1:4])
        else:
            out.append([t])
    return " ".join(":".join(x) for x in out)


if __name__ == "__main__":
    want = [l.rstrip("\n").split(" => ") for l in open(sys.argv[1])]
    got = open(sys.argv[2]).read().splitlines()
    bad = 0
    for i, (src, exp) in enumerate(want):
        g = norm(got[i]) if i < len(got) else "(nothing: hang or crash)"
        if g != exp:
            bad = 1
            print("input   ", src)
            print("expected", exp)
            print("got     ", g)
    sys.exit(bad)
