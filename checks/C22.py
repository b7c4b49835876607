"""Lists of codecs: order, longest match, errors."""
from vt import *
import tabgen, random, subprocess
S = range(1, 9); DEEP = range(1, 31)
def tables(seed):
    """two tables for each kind of phase, keys overlap on purpose"""
    r = random.Random(seed); T = {}
    for kind, al, mx in (("from", "abcd", 4), ("inter", "abcd", 3), ("to", "abcde", 3)):
        for x in "ab":
            d = {}
            stem = [r.choice(al) for _ in range(mx)]
            for _ in range(r.randint(4, 8)):
                n = r.randint(1, mx); k = stem[:r.randint(0, n)]
                while len(k) < n: k.append(r.choice(al))
                d.setdefault("".join(k), "".join(r.choice("abcde") for _ in range(r.choice((1, 1, 2)))))
            T[kind, x] = d
    return T
def key(kind, k): return k.encode().hex() if kind == "from" else ",".join("01%02x" % ord(c) for c in k)
def val(kind, v): return ",".join("01%02x" % ord(c) for c in v) if kind != "to" else v.encode().hex()
def tk(kind, k):
    if kind == "from": return tuple(k.encode())
    o = []
    for i, c in enumerate(k): o += ([256] if i else []) + [1, ord(c)]
    return tuple(o)
def convs(s):
    a, b = "tst%da" % s, "tst%db" % s
    return [("from", ["%s,%s" % (a, b)], "%s,%s:tstid" % (a, b)), ("swap", [], "%s,%s:tstid" % (b, a)), ("to", [], "tstid:%s,%s" % (a, b)), ("inter", [], "tstid:%s,%s:tstid" % (a, b)), ("all", [], "%s,%s:%s,%s:%s:%s,%s" % (a, b, b, a, b, b, a)), ("chain", [], "%s,%s:tstid|%s:%s:%s,%s" % (a, b, b, a, a, b))]
def pre(b):
    tool = b.root + "/bin/bsdconv-mktable"
    ident = {c: c for c in "abcdefgh"}
    for s in DEEP if TIER != "quick" else S:
        T = tables(s)
        src = {(kd, "tst%d%s" % (s, x)): d for (kd, x), d in T.items()}
        src["from", "tstid"] = src["to", "tstid"] = ident
        tr = {}
        for (kd, n), d in src.items():
            f = "%s/%s_%s.txt" % (b.dir, kd, n)
            ks = list(d); random.Random(s).shuffle(ks)
            open(f, "w").write("".join("%s\t%s\n" % (key(kd, k), val(kd, d[k])) for k in ks))
            subprocess.run([tool, f, "%s/share/bsdconv/%s/%s" % (b.root, kd, n.upper())], check=True, stdout=subprocess.DEVNULL)
            t = tabgen.Trie()
            for k in ks: t.add(tk(kd, k), [ord(c) for c in d[k]])
            tr[kd, n] = t
        for nm, _, conv in convs(s):
            out = []; used = {}; phs = []
            for part in conv.split("|"):
                ph = part.split(":")
                for i, p in enumerate(ph):
                    kd = "from" if i == 0 else "to" if i == len(ph) - 1 else "inter"
                    l = []
                    for n in p.split(","):
                        if (kd, n) not in used: used[kd, n] = "t%d" % len(used); out.append(tr[kd, n].c(used[kd, n]))
                        l.append("&" + used[kd, n])
                    out.append("static const trie_t*const p%d[]={%s};\n" % (len(phs), ",".join(l))); phs.append("{p%d,%d,%d}" % (len(phs), len(l), {"from": 0, "inter": 1, "to": 2}[kd]))
            out.append("static const struct{const trie_t*const*t;int n,type;}phs[]={%s};\n#define NPH %d\n" % (",".join(phs), len(phs)))
            open(b.dir + "/c22_%d_%s.h" % (s, nm), "w").write("".join(out))
def check():
    C = []; deep = TIER != "quick"
    for s in DEEP if deep else S:
        for nm, _, conv in convs(s):
            for k in (1, 2):
                C.append(Cfg("%s-%d-%d" % (nm, s, k), "fall.c", dict(n=(5 if k == 1 else 4) + deep, pieces=k, conv=conv, hi=0x65), ('TABLE="c22_%d_%s.h"' % (s, nm),), weight=10, time=3000 if deep else 300, covers=()))
    return Check("C22", C, prebuild=pre, bounds="every text of 5 characters over 5 letters in one call and of 4 in two calls cut anywhere, through 6 conversions (lists of 2 codecs, up to 5 phases) with each of %d sets of 6 random tables whose keys overlap (up to 4 bytes or 3 characters long)" % len(DEEP if deep else S), assumptions=["the table sets are generated by checks/C22.py and compiled by the current bsdconv-mktable", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
