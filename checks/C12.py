"""Compiled tables against the table sources, read by an independent parser."""
from vt import *
import tabgen, glob, os
REPO = vtbuild.REPO
def plain(d, n):
    t, s = tabgen.read_table("%s/modules/%s/%s.txt" % (REPO, d, n))
    return t if t and not s else None
MK = set(open(REPO + "/Makefile").read().replace("+=", " ").split())
def names(d): return [n for n in sorted(os.path.basename(p)[:-4] for p in glob.glob("%s/modules/%s/*.txt" % (REPO, d))) if d + "/" + n in MK]
def h(d, l): return "c12_%s_%s.h" % (d, "_".join(l).replace("-", "_"))
LISTS = [("ASCII", "ASCII-NAMED-HTML-ENTITY"), ("ASCII-NAMED-HTML-ENTITY", "ASCII"), ("ASCII", "BIG5-5C", "_CP950"), ("_CP949", "_CP936"), ("_UAO250", "_CP1252", "FALLBACK-UNICODE"), ("ASCII", "CCCII"), ("_HKSCS2004", "_CP950", "ASCII")]
TLISTS = [("ASCII", "_CP949", "_CP936"), ("ASCII-NAMED-HTML-ENTITY", "ASCII"), ("_CP1252", "_CP1251", "_SHIFT-JIS")]
def unicode_only(t): return all(e[:1] == b"\x01" and len(e) > 1 for v in t.values() for e in v)
def fromn(): return [n for n in names("from") if (lambda t: t and unicode_only(t))(plain("from", n))]
def ton(): return [n for n in names("to") if (lambda t: t and any(k[:1] == (1,) for k in t))(plain("to", n))]
def intern(): return [n for n in names("inter") if (lambda t: t and unicode_only(t))(plain("inter", n))]
def pool(t):
    """characters that occur in multi-character keys plus neighbours"""
    s = set()
    for k in t:
        if tabgen.SEP in k:
            e = [[]]
            for x in k:
                if x == tabgen.SEP: e.append([])
                else: e[-1].append(x)
            s |= {int.from_bytes(bytes(x[1:]), "big") for x in e}
    if not s: return []
    return sorted(s | {0x41, 0xa})[:250]
def pre(b):
    import sys
    def rd(d, n): return tabgen.src(b, d + "/" + n)
    for n in fromn(): tabgen.header(b.dir + "/" + h("from", [n]), [tabgen.from_trie(rd("from", n))])
    for l in LISTS: tabgen.header(b.dir + "/" + h("from", l), [tabgen.from_trie(rd("from", n)) for n in l])
    for n in ton(): tabgen.header(b.dir + "/" + h("to", [n]), [tabgen.to_trie(rd("to", n))])
    for l in TLISTS: tabgen.header(b.dir + "/" + h("to", l), [tabgen.to_trie(rd("to", n)) for n in l])
    for n in intern():
        t = rd("inter", n); tabgen.header(b.dir + "/" + h("inter", [n]), [tabgen.inter_trie(t)], pool=pool(t))
def check():
    C = []
    for l in [[n] for n in fromn()] + LISTS:
        mx = max(max(len(k) for k in plain("from", n)) for n in l)
        for k in (2, 3):
            if mx > 1 or k == 2: C.append(Cfg("from%d-%s" % (k, ",".join(l)), "tabfrom.c", dict(n=k, conv=",".join(l) + ":utf-32be"), ('TABLE="%s"' % h("from", l),), jobs=2 if k == 3 and mx > 1 else 1, weight=mx * k, time=300))
        if "ASCII-NAMED-HTML-ENTITY" in l: C.append(Cfg("entity-%s" % ",".join(l), "tabfrom.c", dict(n=7 if len(l) == 1 else 6, lo=0x26, hi=0x26, conv=",".join(l) + ":utf-32be"), ('TABLE="%s"' % h("from", l),), jobs=4, weight=90, time=300))
    for l in [[n] for n in ton()] + TLISTS:
        C.append(Cfg("to-%s" % ",".join(l), "tabto.c", dict(k=1, nul=1, conv="utf-32be:" + ",".join(l)), ('TABLE="%s"' % h("to", l),), weight=10, covers=("mapped",), time=300))
    for n in intern():
        D = ('TABLE="%s"' % h("inter", [n]),); t = plain("inter", n); p = pool(t)
        C.append(Cfg("inter-" + n, "tabto.c", dict(k=1, inter=1, nul=1, conv="utf-32be:%s:utf-32be" % n), D, weight=10, time=300))
        if p: C.append(Cfg("inter2-" + n, "tabto.c", dict(k=2, inter=1, pool=1, conv="utf-32be:%s:utf-32be" % n), D, weight=20, time=300, covers=("mapped",)))
    return Check("C12", C, prebuild=pre, bounds="input tables and lists of them: every string of 2 and (multi-byte keys) 3 bytes, for entity names every 7-byte (in lists 6-byte) string starting with &; output and intermediate tables: every scalar value alone, for tables with multi-character keys also every scalar value followed by any key character; tables with call-back rows are decided by the other properties", assumptions=["the table sources are the specification; they are read by lib/tabgen.py, independent of bsdconv-mktable", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
