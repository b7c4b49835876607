"""Modules are found by their names; lists, checks, aliases and loading agree."""
from vt import *
ALIAS = [None, b"# nothing\n", b"AA\tX,Y\n", b"# remark\nBZ\t\tX\nAC\tY\n", b"Z\tX", b"A\tX\nZZ\tX\n0\tX\n"]
def pre(b):
    for i, t in enumerate(ALIAS):
        if t is not None: open("%s/alias%d" % (b.root, i), "wb").write(t)
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): C.append(Cfg(nm, "modlist.c", k, weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    for n in range(1, 5 + d): c("check-%d" % n, ("found", "not found") if n < 4 else ("not found",), fn="check", n=n, cc=1)
    c("check-empty", ("not found",), fn="check", n=1, empty=1)
    c("list", ("list",), fn="list", n=3, fault=1, envs=0)
    c("list-env", ("list",), fn="list", n=2)
    c("list-many", ("list",), fn="list", many=19, envs=0)
    def a(nm, covers=(), w=10, **k): C.append(Cfg(nm, "modalias.c", k, weight=w, time=3000 if d else 300, covers=covers, steps=40000000))
    for k, t in enumerate(("from", "inter", "to", "filter")):
        a("listed-" + t, ("alias", "module"), fn="list", type=k)
        a("alias-" + t, ("created",), fn="same", type=k, arg="")
        a("resolve-" + t, ("none",), fn="none", type=k, n=2 + d)
        if k < 3:
            a("alias-arg-" + t, fn="same", type=k, arg="for=1&x=0141", w=20)
    a("long", ("refused",), fn="long"); a("long-slash", ("refused",), fn="long", dot=1)
    return Check("C31", C, prebuild=pre,
        bounds="directories of up to 3 entries out of 16 kinds and of 0 to 19 entries, 6 alias files, 4 ways to name the place, the directory unreadable or not; names of up to " + str(4 + d) + " arbitrary bytes for every type (and invalid ones); every shipped alias in three spellings, alone and with arguments; every listed name; names of 2 to 3 characters that are no alias; names of up to 9000 characters",
        assumptions=["the module directory is a stand-in (C31 list and check): opendir, readdir, fopen, stat, access", "names in alias files are in upper case and the lines well-formed and shorter than 256 characters, as shipped", "malloc does not fail", "the directory does not change while it is read"])
