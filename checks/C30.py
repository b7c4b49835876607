"""bsdconv-mktable compiles any table source to what it says."""
from vt import *
def pre(b):
    # places the library looks at before it opens the table
    for d in ("from", "inter", "to"): open("%s/share/bsdconv/%s/VTTAB" % (b.root, d), "wb").write(b"x")
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=("key",), w=10, **k): C.append(Cfg(nm, "mktab.c", k, defs=("SYM_NOFAULT",), weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    for ph in ("from", "inter", "to"):
        P = {} if ph == "from" else {ph: 1}
        c(ph + "-2", lines=2, k=3, n=3 + d, alpha="ab", datas=2 + d, **P)
        c(ph + "-3", w=20, lines=3, k=3 if d else 2, n=3 + d, alpha="ab", **P)
        c(ph + "-4", w=30, lines=4, k=2, n=2 + d, alpha="ab", **P)
        c(ph + "-calls", ("key", "call"), w=20, lines=3, k=2, n=3, alpha="ab", calls=1, **P)
        c(ph + "-calls-data", ("key", "call"), lines=3 if d else 2, k=2, n=3, alpha="ab", calls=1, datas=2, **P)
        c(ph + "-data", lines=3 if d else 2, k=1, n=2 + d, alpha="ab", datas=8, **P)
    for n, cl in (("any", 0), ("any-calls", 1)): c("from-" + n, ("key", "call")[:1 + cl], lines=2, k=2, n=3, alpha="ab*", few=1, calls=cl)
    c("from-any-3", lines=3, k=2, n=2, alpha="a*", few=1)
    c("from-bang", w=20, lines=3, k=2, n=2, alpha="aB", bang=1)
    c("from-bang-2", w=20, lines=2, k=2 + d, n=3, alpha="aAB", bang=1)
    c("from-bang-edge", lines=1, k=1, n=1, alpha="azAZ[{@`]", bang=1)
    c("from-data-3", lines=3, k=1, n=3, alpha="ab", datas=8 if d else 6)
    c("from-more", ("key", "call"), lines=3, k=2, n=3, alpha="ab", calls=1, more=1)
    c("form", lines=2, k=1, n=1, alpha="a", form=1)
    c("blank", lines=2, k=1, n=1, alpha="a", blank=1, noeol=1)
    return Check("C30", C, prebuild=pre,
        bounds="table sources of 2 to 4 lines (every one of them: keys of 1 to 3 bytes or characters over two letters, 8 kinds of data, ? and ! and * where the configuration says so), every text of 2-3 " + ("and 4 " if d else "") + "bytes or characters through them in every phase; line forms: separators, line ends, remarks, blank lines, no line end at the end",
        assumptions=["the source is well-formed: every line that is not blank and no remark has a key and a data field; ! and ? are not used together; at most one * in a key (except from-any)",
            "where lines give the same key twice the first is used, a plain line before a ? line; a ? line is used as soon as its key is read (the callback takes over there)",
            "the callback of ? lines is a stand-in attached to the codec, as if VTTAB.so were there", "the tool's file operations go to memory and do not fail; its file-backed allocator is replaced by calloc",
            "keys of up to 3, tables of up to 4 lines: larger tables are covered by C12, C05, C14 for the shipped sources only"])
