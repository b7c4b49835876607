"""Character data from Python's unicodedata (Unicode 15), limited to what the Unicode 13 based sources can know."""
import unicodedata as U
import tabgen
# code points whose properties were added after Unicode 13
_P = "61d;870-88e;890-891;898-89f;8b5;8c8-8d2;c3c;c5d;cdd;cf3;ece;170d;1715;171f;180f;1ac1-1ace;1b4c;1b7d-1b7e;1dfa;20c0;2c2f;2c5f;2e53-2e5d;a7c0-a7c1;a7d0-a7d1;a7d3;a7d5-a7d9;a7f2-a7f4;fbc2;fd40-fd4f;fdcf;fdfe-fdff;10570-1057a;1057c-1058a;1058c-10592;10594-10595;10597-105a1;105a3-105b1;105b3-105b9;105bb-105bc;10780-10785;10787-107b0;107b2-107ba;10efd-10eff;10f70-10f89;11070-11075;110c2;1123f-11241;116b9;11740-11746;11ab0-11abf;11b00-11b09;11f00-11f10;11f12-11f3a;11f3e-11f59;12f90-12ff2;1342f;13439-13455;16a70-16abe;16ac0-16ac9;1aff0-1aff3;1aff5-1affb;1affd-1affe;1b11f-1b122;1b132;1b155;1cf00-1cf2d;1cf30-1cf46;1cf50-1cfc3;1d1e9-1d1ea;1d2c0-1d2d3;1df00-1df1e;1df25-1df2a;1e030-1e06d;1e08f;1e290-1e2ae;1e4d0-1e4f9;1e7e0-1e7e6;1e7e8-1e7eb;1e7ed-1e7ee;1e7f0-1e7fe;1f6dc-1f6df;1f774-1f776;1f77b-1f77f;1f7d9;1f7f0;1f979;1f9cc;1fa75-1fa77;1fa7b-1fa7c;1fa87-1fa88;1faa9-1faaf;1fab7-1fabd;1fabf;1fac3-1fac5;1face-1facf;1fad7-1fadb;1fae0-1fae8;1faf0-1faf8"
POST13 = set(x for r in _P.split(";") for x in range(int(r.split("-")[0], 16), int(r.split("-")[-1], 16) + 1))
def scalars(): return (c for c in range(0x110000) if not 0xd800 <= c < 0xe000 and c not in POST13)
def hangul(c): return 0xac00 <= c <= 0xd7a3
def decomp(compat):
    t = tabgen.Trie(); f = "NFKD" if compat else "NFD"
    for c in scalars():
        if hangul(c): continue
        d = U.normalize(f, chr(c))
        if d != chr(c): t.add(tabgen.elem(c), [ord(x) for x in d])
    return t
def ccc():
    t = tabgen.Trie()
    for c in scalars():
        if U.combining(chr(c)): t.add(tabgen.elem(c), [U.combining(chr(c))])
    return t
def comps():
    t = tabgen.Trie()
    for c in scalars():
        if hangul(c): continue
        d = U.decomposition(chr(c))
        if not d or d[0] == "<": continue
        d = [int(x, 16) for x in d.split()]
        if len(d) == 2 and U.normalize("NFC", chr(c)) == chr(c): t.add(tabgen.elem(d[0]) + (tabgen.SEP,) + tabgen.elem(d[1]), [c])
    return t
def skips():
    t = tabgen.Trie()
    for c in sorted(POST13): t.add(tabgen.elem(c), [1])
    return t
def width():
    """0 no width assigned, 1 half, 2 full, 3 ambiguous, 9 not judged"""
    M = dict(Na=1, H=1, W=2, F=2, A=3, N=1); r = [0] * 0x110000
    for c in range(0x110000):
        k = U.east_asian_width(chr(c)) if not 0xd800 <= c < 0xe000 else "N"
        if c in POST13: r[c] = 9
        elif k == "N" and U.category(chr(c)) in ("Cn", "Cc", "Cs"): r[c] = 0
        else: r[c] = M[k]
    return r
def pages(name, arr, typ="unsigned char"):
    """three-level table: name(cp) by the three bytes of the code point"""
    blocks, bix, l2, lix, top = [], {}, [], {}, []
    for p in range(17):
        row = []
        for h in range(256):
            b = tuple(arr[p << 16 | h << 8:(p << 16 | h << 8) + 256])
            if b not in bix: bix[b] = len(blocks); blocks.append(b)
            row.append(bix[b])
        row = tuple(row)
        if row not in lix: lix[row] = len(l2); l2.append(row)
        top.append(lix[row])
    s = "static const %s %s_b[][256]={%s};\n" % (typ, name, ",".join("{%s}" % ",".join(map(str, b)) for b in blocks))
    s += "static const unsigned short %s_r[][256]={%s};\n" % (name, ",".join("{%s}" % ",".join(map(str, b)) for b in l2))
    s += "static const unsigned char %s_t[]={%s};\n" % (name, ",".join(map(str, top)))
    s += "static int %s(unsigned c){ return %s_b[%s_r[%s_t[c>>16]][c>>8&255]][c&255]; }\n" % (name, name, name, name)
    return s
