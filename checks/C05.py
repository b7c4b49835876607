from vt import *
import tabgen
def pre(b):
    t = tabgen.Trie(); a = tabgen.Trie()
    for c in range(1, 128): a.add((c,), [c])
    ref = [0] * 0x10000
    for c in range(0x80, 0x10000):
        if 0xd800 <= c < 0xe000: continue
        e = chr(c).encode("gb18030"); t.add(tuple(e), [c]); ref[c] = int.from_bytes(e, "big")
    tabgen.header(b.dir + "/gb18030_tab.h", [a, t])
    open(b.dir + "/gb18030_tab.h", "a").write("static const unsigned gbref[]={%s};\n" % ",".join(map(str, ref)))
def check():
    C = []
    D = ('TABLE="gb18030_tab.h"',)
    def dec(nm, n, lo=0, hi=255, lo2=0, hi2=255, hi4=255, jobs=2, w=5, covers=("clean",)):
        C.append(Cfg("dec-" + nm, "gbdec.c", dict(n=n, lo=lo, hi=hi, lo2=lo2, hi2=hi2, hi4=hi4, conv="gb18030:utf-32be"), D, jobs=jobs, weight=w, covers=covers, time=500))
    dec("n1", 1); dec("n2", 2)
    for a, z in ((0x81, 0x84), (0x85, 0x8f), (0x90, 0xb0), (0xb1, 0xe3), (0xe4, 0xff)): dec("n4-%02x" % a, 4, a, z, 0x30, 0x39, jobs=4, w=30, covers=("error",) if a in (0x85, 0xe4) else ("clean", "error"))
    for a in (0x81, 0x84, 0xfe): dec("n3-%02x" % a, 3, a, a, w=10, covers=("error",))
    dec("n5", 5, 0x90, 0xe3, 0x30, 0x39, hi4=0x7f, w=20, covers=("error",))
    for k in (1, 2): C.append(Cfg("enc-%d" % k, "gbenc.c", dict(k=k, conv="utf-32be:gb18030"), D, jobs=4, weight=30, covers=("bmp", "astral"), time=500))
    return Check("C05", C, prebuild=pre, bounds="decoding: every string of 1-2 bytes; every 4-byte string with a digit as second byte; every 3-byte string with lead 81, 84 or FE; 5-byte strings 90..E3 digit * 00..7F *; encoding: every scalar value except NUL, alone and before a second one", assumptions=["the BMP reference is Python's gb18030 codec, the supplementary planes follow the linear formula of the standard", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
