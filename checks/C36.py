"""Bonus tables: the text passes, the score grows by what the table says."""
from vt import *
import tabgen
N = ("ZH-BONUS", "ZH-BONUS-PHRASE")
def table(root, n):
    d, s = tabgen.read_table("%s/modules/inter/%s.txt" % (root, n)); assert not d
    r = {}
    for k, v in s:
        e = [bytes.fromhex(x) for x in k.split(",")]; v = v.split(","); key = ()
        for x in e: key += ((tabgen.SEP,) if key else ()) + tuple(x)
        r.setdefault(key, [int(v[0][1:], 16)] + tabgen.cps([bytes.fromhex(x) for x in v[1:]]))
    return r
def pre(b):
    for n in N:
        t = tabgen.Trie(); c = []; o = [0]; d = table(b.src, n)
        for k, v in d.items(): t.add(k, v); c += v[1:]; o.append(len(c))
        f = b.dir + "/c36_%s.h" % n.replace("-", "_"); tabgen.header(f, [t])
        tries = globals().setdefault("T", {}); tries[n] = t
        if n == N[1]:
            g = b.dir + "/c36_both.h"; tabgen.header(g, [tries[N[1]], tries[N[0]]])
            open(g, "a").write("#define BONUS\nstatic const unsigned ent_cp[]={%s}; static const int ent_off[]={%s};\n#define NENT %d\n" % (",".join(map(str, c)), ",".join(map(str, o)), len(d)))
        open(f, "a").write("#define BONUS\nstatic const unsigned ent_cp[]={%s}; static const int ent_off[]={%s};\n#define NENT %d\n" % (",".join(map(str, c)), ",".join(map(str, o)), len(d)))
def check():
    C = []; d = TIER != "quick"
    for n in N:
        D = ('TABLE="c36_%s.h"' % n.replace("-", "_"),); conv = "utf-32be:%s:utf-32be" % n
        def c(nm, covers=("mapped",), w=10, **k): C.append(Cfg(nm + "-" + n, "tabto.c", dict(inter=1, nul=1, conv=conv, **k), D, weight=w, covers=covers, time=3000 if d else 300))
        c("any", covers=("mapped",) if n == N[0] else (), k=1 + d)
        c("entry", k=0, ent=1, again=1, w=30); s = 1 if d else 3 if n == N[0] else 8; c("entry-any", k=1, ent=1, w=60, step=s); c("any-entry", k=1, ent=2, w=60, step=s)
    C.append(Cfg("both", "tabto.c", dict(inter=1, nul=1, conv="utf-32be:ZH-BONUS-PHRASE,ZH-BONUS:utf-32be", k=1, ent=1, step=1 if d else 8), ('TABLE="c36_both.h"',), weight=60, covers=("mapped",), time=3000 if d else 300))
    return Check("C36", C, prebuild=pre,
        bounds="every entry of the two tables, every text of %d characters; every beginning of %s followed by any character and any character followed by such an entry; alone and as a list" % (1 + d, "an entry" if d else "every third (ZH-BONUS) and eighth (ZH-BONUS-PHRASE) entry"),
        assumptions=["the output values in the tables are their keys (they are)", "malloc does not fail"])
