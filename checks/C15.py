"""Hangul syllable arithmetic."""
from vt import *
def check():
    C = []; deep = TIER != "quick"
    def c(conv, mode, pat, w=5, **k): C.append(Cfg("%s-%s" % (conv, pat), "hangul.c", dict(conv="pass:%s:pass" % conv, mode=mode, pat=pat, **k), weight=w, time=3000 if deep else 250, covers=("syllable",) if mode and "jj" in pat else ()))
    for p in ("s", "ss", "sx", "xs", "hh") + (("sss",) if deep else ()): c("_nf-hangul-decomposition", 0, p)
    for p in ("s", "ss", "sss", "jjj", "jjx", "jxj", "xjj", "jjjj", "jjjx", "jjs", "hj", "jhj") + (("ssss", "jjjjj", "jjjjjj") if deep else ("jjjjj",)): c("_nf-hangul-composition", 1, p, len(p) * 5)
    for p in ("j", "h", "jj", "hh", "jh", "hj"): c("nfd", 0, p, 10)
    for p in ("j", "h", "jj", "hj", "jjj", "hjj", "jjx"): c("nfc", 2, p, 20)
    for p in ("h", "hj", "jjj"): c("nfkc", 2, p, 20)
    for p in ("h", "jj"): c("nfkd", 0, p, 10)
    return Check("C15", C, bounds="decomposition: every sequence of 2 scalar values; composition: every sequence of 3 scalar values and of 5 characters U+1100..U+11FF, also with items of other types between; through NFC/NFD: every sequence of up to 3 jamo or syllables", assumptions=["malloc does not fail"])
