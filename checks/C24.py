"""ISO-2022-JP designations and the CP950 user-defined areas."""
from vt import *
import tabgen
def pre(b):
    T = []
    for p in (b"", b"\x8f"):
        t = tabgen.Trie()
        for a in range(0x21, 0x7f):
            for z in range(0x21, 0x7f):
                try: u = (p + bytes([a | 0x80, z | 0x80])).decode("euc_jp")
                except UnicodeDecodeError: u = None
                t.add((a, z), [ord(u) if u and (a, z) != (0x21, 0x40) else tabgen.SKIP])
        T.append(t)
    tabgen.header(b.dir + "/jis_tab.h", T, skip=tabgen.SKIP)
def check():
    C = []; deep = TIER != "quick"
    T = 3000 if deep else 300
    def jis(pat, cov=(), jobs=1, w=15, **k): C.append(Cfg("jis-%s%s" % (pat, "".join("-%s%s" % x for x in k.items())), "jis.c", dict(pat=pat, **k), weight=w, time=T, jobs=jobs, covers=cov))
    for p in ("bb", "xbb", "xdbb", "xpbb", "bxbb", "kxdb"): jis(p)
    for e in range(6): jis("%dbbb" % e, ("designation",), 2); jis("%dekk" % e, ("designation",)); jis("%dkkek" % e, ("designation",)); jis("%dbxbb" % e, ("designation",))
    for e in range(6): jis("%dbb" % e, cut=1); jis("%dkek" % e, cut=1)
    for e in (1, 2, 4, 5): jis("%dbxdb" % e, cut=1)
    for p in ("bb", "xbb", "xdbb"):
        for a in (1, 2): jis(p, again=a)
    if deep:
        for e in range(6): jis("%dbbbb" % e, (), 4, 60); jis("%dbebeb" % e, (), 4, 60); jis("%dkkekkek" % e, (), 4, 60)
    def uda(nm, n, cov=("user", "error"), **k): C.append(Cfg("uda-%s-%d" % (nm, n), "uda.c", dict(n=n, **k), weight=15, time=T, jobs=2, covers=cov))
    for n in (1, 2, 3): uda("alone", n, conv="cp950-uda:utf-32be", cov=("user", "error") if n > 1 else ("error",)); uda("ascii", n, conv="ascii,cp950-uda:utf-32be", ascii=1, cov=("ascii", "user", "error") if n > 1 else ("error",))
    uda("cut", 3, conv="cp950-uda:utf-32be", cut=1)
    for a in (1, 2): uda("again%d" % a, 2, conv="cp950-uda:utf-32be", again=a)
    if deep: uda("alone", 4, conv="cp950-uda:utf-32be"); uda("ascii", 4, conv="ascii,cp950-uda:utf-32be", ascii=1)
    return Check("C24", C, prebuild=pre, bounds="ISO-2022-JP: up to 3 arbitrary bytes behind each designation, a symbolic designation among up to 4 graphic bytes, broken escape sequences, input cut in two anywhere, reuse after bsdconv_init(); CP950-UDA: every string of 1-3 bytes, cut anywhere", assumptions=["JIS X 0208 and 0212 are taken from Python's euc_jp codec, unassigned cells and 2140 are not judged", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
