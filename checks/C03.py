from vt import *
def check():
    C = []
    for e, c in (("1b", "utf-16be"), ("1l", "utf-16le"), ("2b", "ucs-2be"), ("2l", "ucs-2le")):
        for k in (1, 2, 3): C.append(Cfg("enc-%s-k%d" % (c, k), "utfenc.c", dict(conv="utf-32be:" + c, enc=e, k=k), covers=("bmp",) + (("astral",) if e[0] == "1" else ())))
    for e, c in (("1b", "utf-16be"), ("1l", "utf-16le")):
        for n in (1, 2, 3, 4, 5, 6, 7, 8): C.append(Cfg("dec-%s-n%d" % (c, n), "utfdec.c", dict(conv=c + ":utf-32be", enc=e, n=n), covers=("pair",) if n > 3 else ()))
        C.append(Cfg("dec-%s-alias-n6" % c, "utfdec.c", dict(conv=c.replace("utf-16", "ucs-2") + ":utf-32be", enc=e, n=6)))
        if TIER == "thorough":
            for n in (9, 10, 11, 12): C.append(Cfg("dec-%s-n%d" % (c, n), "utfdec.c", dict(conv=c + ":utf-32be", enc=e, n=n), time=1000))
    return Check("C03", C, bounds="encode: every sequence of 1..3 Unicode scalar values; decode: every byte string of length 1..8 that contains no lone trail surrogate", assumptions=["malloc does not fail"])
