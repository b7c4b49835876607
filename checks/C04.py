from vt import *
def check():
    C = []
    for e, c in (("3b", "utf-32be"), ("3l", "utf-32le")):
        for k in (1, 2, 3): C.append(Cfg("enc-%s-k%d" % (c, k), "utfenc.c", dict(conv="utf-32be:" + c, enc=e, k=k), covers=("bmp", "astral")))
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12): C.append(Cfg("dec-%s-n%d" % (c, n), "utfdec.c", dict(conv=c + ":utf-32be", enc=e, n=n), covers=("trunc",) if n % 4 else ("whole",)))
    return Check("C04", C, bounds="encode: every sequence of 1..3 Unicode scalar values; decode: every byte string of length 1..9 and 12 whose complete units are scalar values", assumptions=["malloc does not fail"])
