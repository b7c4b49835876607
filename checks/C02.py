from vt import *
def check():
    C = [Cfg("u8enc-k%d" % k, "utfenc.c", dict(conv="utf-32be:utf-8", enc="8", k=k), covers=("astral", "bmp")) for k in (1, 2, 3)]
    C += [Cfg("roundtrip-n%d" % n, "utf8rt.c", dict(conv="utf-8:utf-8", n=n), covers=("clean",), jobs=2 if n > 4 else 1) for n in (1, 2, 3, 4, 5)]
    if TIER == "thorough": C += [Cfg("u8enc-k4", "utfenc.c", dict(conv="utf-32be:utf-8", enc="8", k=4), jobs=4), Cfg("roundtrip-n6", "utf8rt.c", dict(conv="utf-8:utf-8", n=6), jobs=8, time=1500)]
    return Check("C02", C, bounds="every sequence of 1..3 Unicode scalar values fed as UTF-32BE; every byte string of length 1..5 fed as UTF-8", assumptions=["malloc does not fail"])
