"""No memory error, no leak, no hang, whatever the input: every module."""
from vt import *
FROM = "00 ansi-control any ascii ascii-named-html-entity ascii-numeric-html-entity big5-5c bsdconv bsdconv-keyword byte cccii cp950-uda escape fallback-unicode hex ibm-37 ibm-930 ibm-933 ibm-935 ibm-937 ibm-939 pass utf-16be utf-16le utf-32be utf-32le _big5-2003 _big5-eten _big5e _cp1251 _cp1252 _cp1253 _cp1254 _cp1255 _cp1256 _cp1257 _cp1258 _cp874 _cp932 _cp936 _cp949 _cp950 _gb18030 _gb2312 _gbk _hkscs1999 _hkscs2001 _hkscs2004 _iso-8859-1 _jis _jis0201 _jis0208 _jis0212 _shift-jis _uao241 _uao250 _utf-8".split()
INTER = "ambiguous-pad ambiguous-unpad asciifold big5-defrag bmp-trans-cn bmp-trans-tw casefold count full half hanja insert kana-phonetic kanji lower mac nl2br null pass replace score strings sub super trim-width unix upper upsidedown whitespace-derail whitespace-rerail width win zh-bonus zh-bonus-phrase zh-fuzzy-cn zh-fuzzy-tw zhcn zhtw zhtw-words _nf-hangul-composition _nf-hangul-decomposition _nf-order _nfc _nfc-map _nfd _nfkd".split()
TO = "00 any ascii ascii-html-info ascii-html-unicode-img ascii-named-html-entity big5-5c bsdconv bsdconv-keyword byte cccii cp936-trans cp950-trans escape hex ibm-37 ibm-930 ibm-933 ibm-935 ibm-937 ibm-939 null pass raw ucs-2be ucs-2le utf-16be utf-16le utf-32be utf-32le _cp1251 _cp1252 _cp1253 _cp874 _cp936 _cp949 _cp950 _gb18030 _gb2312 _gbk _iso-8859-1 _jis0212 _shift-jis _uao241 _uao250 _utf-8".split()
BIG = "cccii _big5-2003 _uao241 _uao250 _big5e _hkscs1999 _hkscs2001 _hkscs2004 _gb18030 _gbk _cp936 ibm-933 _cp949".split()
ARGS = {"replace": "#0161.0162=0163", "score": "#with=cjk", "trim-width": "#3"}
def check():
    C = []; d = TIER != "quick"; T = 3000 if d else 250
    def c(nm, conv, pat="", covers=(), **k): C.append(Cfg(nm, "mem.c", dict(conv=conv, pat=pat, **k), weight=5, time=T, covers=covers))
    for m in FROM:
        c("from-" + m, m + ":pass", n=3, cut=1)
        if m not in BIG or d: c("from1-" + m, m + ":pass", n=4)
    for m, P in dict([("ansi-control", "1b5b 1b5b30 1b5b303b 1b"), ("ascii-named-html-entity", "26 2661 266c6f"), ("ascii-numeric-html-entity", "26 2623 262378 2623313233343536"), ("escape", "5c 5c75 5c75444344 25 2575 5c78"), ("_jis", "1b 1b24 1b2428 1b2442 1b244230 1b2449"), ("_gb18030", "8130 813081"), ("ibm-939", "0e 0e42 0f"), ("utf-16le", "00d8 01d8"), ("utf-16be", "d800 dbff"), ("_utf-8", "f0 f48f eda0 edafbf"), ("bsdconv-keyword", "2c30 2c"), ("hex", "41"), ("byte", "00")]).items():
        for x in P.split(): c("from-%s-%s" % (m, x), m + ":pass", n=3, prefix=x, cut=1, ab=1)
    for m in TO:
        c("to-x-" + m, "pass:" + m, "x", max=5); c("to-u-" + m, "pass:" + m, "u", max=7); c("to-long-" + m, "pass:" + m, "u", min=45, max=45); c("to-uu-" + m, "pass:" + m, "uu", max=2); c("to-xu-" + m, "pass:" + m, "xu", max=2)
    for m in ("escape#mode=dec", "escape#mode=dec&suffix=613b", "escape#prefix=2623&suffix=3b", "escape#for=byte", "escape#for=byte&mode=dec&suffix=3b", "escape#for=byte&mode=8&prefix=26", "any#", "any#3f.0121", "any#0101.0203&drop", "any#error,any#3f", "pass#mark", "pass#mark&for=unicode", "pass#for=byte,any#013f"):
        for p, k in (("x", dict(max=5)), ("u", dict(max=7)), ("u", dict(min=45, max=45)), ("xu", dict(max=2))): c("to-%s-%s%d" % (m, p, k["max"]), "pass:" + m, p, **k)
    for m in ("_utf-8#cesu&super&nul", "_utf-8#overlong&loose", "any#", "any#0141.0142", "any#01&drop", "pass#unmark", "pass#unmark&for=unicode", "big5-5c,any#", "ascii-named-html-entity,ascii-numeric-html-entity,escape,any#3f"):
        for p, k in (("n3", dict(n=3, cut=1)),): c("from-%s-%s" % (m, p), m + ":pass", **k)
    for m in INTER:
        m += ARGS.get(m, "")
        c("inter-x-" + m, "pass:" + m + ":pass", "x", max=5); c("inter-u-" + m, "pass:" + m + ":pass", "u", max=7); c("inter-uu-" + m, "pass:" + m + ":pass", "uu", max=2, ab=1); c("inter-xu-" + m, "pass:" + m + ":pass", "xu", max=2, ab=1); c("inter-xx-" + m, "pass:" + m + ":pass", "xx", max=2, ab=1)
    return Check("C07", C, bounds="every FROM module (54): every 3 bytes in two pieces cut anywhere, every 4 bytes in one piece (41 of the modules; all in the thorough tier); every INTER (44) and TO (44) module: every item of 1 to 5 bytes that is not a character, every character item with 1 to 6 payload bytes, every two character items of up to 2 bytes, another item followed by a character or another, the conversion finished or abandoned; TO modules also a character item of 45 bytes (2 arbitrary bytes, then one arbitrary byte repeated); every codec of the chosen module alone with PASS before or behind it", assumptions=["libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
