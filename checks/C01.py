from vt import *
O = dict(overlong=1, super=2, nul=4, cesu=8, loose=16)
def conf(opts, n, first=None, ascii="pre", sub=True, **kw):
    o = sum(O[x] for x in opts); a = "#" + "&".join(opts) if opts else ""
    l = ["_utf-8" + a]
    if ascii == "pre": l.insert(0, "ascii")
    elif ascii == "post": l.append("ascii")
    if sub: l.append("3f")
    p = dict(conv=",".join(l) + ":utf-32be", opt=o, n=n, sub=int(sub), ascii=int(ascii is not None))
    nm = "+".join(opts or ["strict"]) + "-%s-n%d" % (ascii, n)
    if first: p.update(pre=1, lo=first[0], hi=first[1]); nm += "-%02x" % first[0]
    return Cfg(nm + ("" if sub else "-drop"), "utf8dec.c", p, **kw)
def check():
    C = []
    for n in (1, 2, 3, 4): C.append(conf([], n, covers=("error", "clean") + (("bmp",) if n > 1 else ()) + (("astral",) if n > 3 else ()), jobs=1))
    C.append(conf([], 5, jobs=2, weight=5))
    C.append(conf([], 4, sub=False)); C.append(conf([], 4, ascii=None, sub=False))
    for o in (["cesu"], ["loose"], ["overlong"], ["super"], ["nul", "overlong"], ["cesu", "loose"], ["super", "overlong", "nul"], ["super", "nul", "overlong", "cesu", "loose"]):
        C.append(conf(o, 4, ascii="post")); C.append(conf(o, 3, ascii="pre"))
    for o in (["cesu"], ["loose"], ["cesu", "loose"], []): C.append(conf(o, 6, first=(0xed, 0xed), jobs=4 if o else 2, weight=20, covers=(("astral",) if "cesu" in o else ())))
    C.append(conf(["super"], 6, first=(0xf8, 0xff), ascii="post", jobs=4, weight=20))
    C.append(conf(["super", "overlong", "nul"], 6, first=(0xf8, 0xff), jobs=4, weight=20))
    C.append(conf([], 6, first=(0xf0, 0xf5), jobs=4, weight=20))
    if TIER == "thorough":
        C += [conf([], 6, jobs=8, weight=50, time=1500), conf(["cesu", "loose"], 7, first=(0xed, 0xed), jobs=8, weight=60, time=1500), conf(["cesu"], 7, first=(0xed, 0xed), jobs=8, weight=60, time=1500), conf(["super"], 7, first=(0xf8, 0xff), jobs=8, weight=60, time=1500)]
    return Check("C01", C, bounds="every byte string of length 1..5 (strict mode) and 3..4 in every option mode listed; length 6 for first byte in the stated ranges (ED: surrogates; F0-F5: 4-byte; F8-FF: 5/6-byte forms); one flush at end of input", assumptions=["libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
