"""bsdconv-man and bsdconv-completion."""
from vt import *
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): C.append(Cfg(nm, "helptools.c", k, weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    A = ("usage", "page", "redirected", "alias", "no page", "no module")
    for n in range(4 + d): c("page-%d" % n, A, fn="man", page=n)
    for p in (8190, 8191, 8192): c("page-long-%d" % p, A, fn="man", page=1, pad=p, bases=0)
    for n in (1, 2, 3)[:2 + d]: c("name-%d" % n, A[:3] if n == 1 else A[:2] + A[3:], fn="man", sym=n, page=1)
    for n in range(5): c("complete-%d" % n, ("suggested",), fn="comp", n=n, bases=0)
    c("complete-none", ("suggested",), fn="comp", n=-1, bases=0)
    return Check("C33", C, 
        bounds="pages of 0 to " + str(3 + d) + " arbitrary bytes, also behind 8190 to 8192 fixed ones, an empty one, one redirected; 6 phase names in three spellings, 12 names and every name of up to " + str(2 + d) + " bytes without /; five numbers and shapes of arguments; an absolute and a relative path to the modules; beginnings of up to 4 characters out of 10, the quotes at the ends only",
        assumptions=["pages, module lists, aliases and the working directory are stand-ins; C31 judges the real lists and aliases", "a page that begins with .redirect names a page that exists", "malloc does not fail"])
