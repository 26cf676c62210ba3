"""Numbers a source tree mentions: the replays try the ones the verified tree did not mention."""
import glob, os, re
LIT = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?(?:u|i|f)\d+|usize|isize)?")
WIDTH = {"u8": 256, "i8": 128, "u16": 65536, "i16": 32768, "f32": 16777216}


def of(repo):
    out = {}
    for p in sorted(glob.glob(repo + "/visqol*/src/**/*.rs", recursive=True)):
        c = {}
        t = re.sub(r"//[^\n]*", "", open(p, errors="replace").read())
        for m in LIT.finditer(t):
            x = m[1].replace("_", "")
            v = float(int(x, 16)) if x.startswith("0x") else float(x)
            c[repr(v)] = c.get(repr(v), 0) + 1
        for w, v in WIDTH.items():
            n = len(re.findall(r"(?:\bas |\b)%s\b" % w, t))
            if n:
                c[w] = n
        out[os.path.relpath(p, repo)] = c
    return out


def new(repo, base):
    """values that occur more often than in the verified tree"""
    v = set()
    for f, c in of(repo).items():
        b = base.get(f, {})
        for k, n in c.items():
            if n > b.get(k, 0):
                v.add(float(WIDTH[k]) if k in WIDTH else float(k))
    return sorted(v - {0.0, 1.0})[:40]
