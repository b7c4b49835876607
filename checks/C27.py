"""Legacy code pages against the published mappings (Python's codecs as the independent source)."""
from vt import *
import tabgen
S = tabgen.SKIP
def dec1(cod):
    d = {}
    for c in range(1, 256):
        try: d[(c,)] = [ord(bytes([c]).decode(cod))]
        except (UnicodeDecodeError, TypeError): pass
    return d
def dec2(cod, hi=0, pre=b"", lo=(0x80, 255)):
    """two-byte keys; hi: or-ed into both bytes before asking Python"""
    d = {}
    for a in range(lo[0], lo[1] + 1):
        for z in range(0x21, 256):
            if hi and (z & 0x80 or a & 0x80): continue
            try: u = (pre + bytes([a | hi, z | hi])).decode(cod)
            except UnicodeDecodeError: continue
            if len(u) == 1 or cod == "big5hkscs": d[(a, z)] = [ord(x) for x in u]
    return d
ASC = {(c,): [c] for c in range(1, 128)}
def fallback(d): return {**{(c,): [c] for c in range(128, 256)}, **d}
def single(cod, fb=True, skip=()):
    d = dec1(cod)
    if fb: d = fallback(d)
    for k in skip: d[k] = [S]
    return d
def double(cod, skip=lambda a, z: False, single_skip=(), extra=None):
    """defined pairs are judged, undefined or listed ones are left to the implementation"""
    one = dec1(cod); two = dec2(cod); d = dict(one)
    for a in range(0x80, 256):
        if (a,) in one: continue
        for z in range(0, 256):
            k = (a, z)
            if k not in two or skip(a, z): d[k] = [S]
            else: d[k] = two[k]
    for k in single_skip: d[k] = [S]
    d.update(extra or {}); return d
def only(d, ranges=None):
    """seven-bit or partial tables: undefined pairs are not judged"""
    d = dict(d)
    for a in range(256):
        for z in range(256):
            if not any(k == (a,) for k in ((a,),) if k in d) and (a, z) not in d: d[(a, z)] = [S]
    return d
def c6(a, z): return a in (0xc6, 0xc7) and not (a == 0xc6 and z < 0xa1)
DEC = {
 "cp1251": lambda: single("cp1251"), "cp1252": lambda: single("cp1252"), "cp1253": lambda: single("cp1253"), "cp1254": lambda: single("cp1254"),
 "cp1255": lambda: single("cp1255"), "cp1256": lambda: single("cp1256"), "cp1257": lambda: single("cp1257"), "cp1258": lambda: single("cp1258"),
 "cp874": lambda: single("cp874"), "iso-8859-1": lambda: single("latin1", False, [(c,) for c in range(0x80, 0xa0)]),
 "ibm-37": lambda: single("cp037", False, [(0xac,), (0xbc,)]),
 "cp936": lambda: double("cp936", extra={(0x80,): [0x20ac]}), "cp949": lambda: double("cp949"), "gbk": lambda: double("gbk"),
 "cp950": lambda: double("cp950", c6, [(c,) for c in range(0x80, 256)]),
 "cp932": lambda: double("cp932", lambda a, z: a >= 0xf0 and a < 0xfa, [(0x80,), (0xa0,), (0xfd,), (0xfe,), (0xff,)]),
 "shift-jis": lambda: double("shift_jis", lambda a, z: (a, z) == (0x81, 0x5f)),
 "_gb2312": lambda: only(dec2("gb2312", 0x80, lo=(0x21, 0x7e))), "_jis0208": lambda: only({k: ([S] if k == (0x21, 0x40) else v) for k, v in dec2("euc_jp", 0x80, lo=(0x21, 0x7e)).items()}),
 "_jis0212": lambda: only(dec2("euc_jp", 0x80, b"\x8f", lo=(0x21, 0x7e))), "_cp950": lambda: only({k: v for k, v in dec2("cp950").items() if not c6(*k)}),
 "_cp932": lambda: only({**{(c,): [0xff61 + c - 0xa1] for c in range(0xa1, 0xe0)}, **{k: v for k, v in dec2("cp932").items() if not 0xf0 <= k[0] < 0xfa}}),
}
def enc(cod, rng=range(1, 0x10000)):
    d = {}
    for c in rng:
        if 0xd800 <= c < 0xe000: continue
        try: d[c] = list(chr(c).encode(cod))
        except UnicodeEncodeError: pass
    return d
def etrie(cod, skips=(), add=None, undefined=False):
    d = enc(cod); d.update(add or {})
    if undefined:
        for c in range(1, 0x10000):
            if c not in d: d[c] = [S]
    for c in skips: d[c] = [S]
    return {tabgen.elem(c): v for c, v in d.items()}
TIL = [0x2dc]
def cp950skips():
    s = set()
    for a in (0xc6, 0xc7):
        for z in range(0x40, 256):
            if c6(a, z):
                try: s.update(map(ord, bytes([a, z]).decode("cp950")))
                except UnicodeDecodeError: pass
    return s
ENC = {"cp1251": lambda: etrie("cp1251", TIL), "cp1252": lambda: etrie("cp1252", TIL), "cp1253": lambda: etrie("cp1253", TIL), "cp874": lambda: etrie("cp874", TIL),
       "cp936": lambda: etrie("cp936", TIL + [0x20ac]), "cp949": lambda: etrie("cp949", TIL), "gbk": lambda: etrie("gbk", TIL, undefined=True),
       "cp950": lambda: etrie("cp950", list(TIL) + list(cp950skips()) + [0x203e, 0x223c, 0x2550, 0x255e, 0x2561, 0x256a], undefined=True),
       "shift-jis": lambda: etrie("shift_jis", TIL + [0x5c, 0xa5, 0x203e, 0xff3c, 0x7e], undefined=True), "iso-8859-1": lambda: etrie("latin1", TIL + list(range(0x80, 0xa0)))}
NEEDP = {}
def h(n): return "c27_" + n.replace("-", "_") + ".h"
def pre(b):
    for n, f in DEC.items():
        t = tabgen.Trie()
        for k, v in f().items(): t.add(k, v)
        tabgen.header(b.dir + "/d" + h(n), [t], skip=S)
    for n, f in ENC.items():
        t = tabgen.Trie()
        for k, v in f().items(): t.add(k, v)
        tabgen.header(b.dir + "/e" + h(n), [t], skip=S)
def check():
    C = []
    for n in DEC:
        for k in (2, 3, 4): C.append(Cfg("dec%d-%s" % (k, n), "tabfrom.c", dict(n=k, nonul=1, conv=n + ":utf-32be"), ('TABLE="d%s"' % h(n),), jobs=1 if k < 3 else 2, weight=10 * k, covers=() if n[0] == "_" and k == 3 else ("clean",), time=400))
    for n in ENC:
        C.append(Cfg("enc-%s" % n, "tabto.c", dict(k=1, conv="utf-32be:" + n), ('TABLE="e%s"' % h(n),), jobs=2, weight=10, covers=("mapped",), time=300))
    return Check("C27", C, prebuild=pre, bounds="decoding: every string of 2, 3 and 4 non-NUL bytes; encoding: every single scalar value except NUL and U+02DC; pairs, bytes and characters that the published table leaves undefined or that are listed in checks/C27.py (vendor or user-defined areas) are not judged", assumptions=["the published mappings are those of Python 3.12's codecs", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
