"""bsdconv_create: accepts or rejects, never misuses or loses memory."""
from vt import *
HEX = "09aFg."
# options with a hexadecimal list / single hexadecimal value: rejected exactly when malformed
HEXOPT = [("insert-before", "utf-8:insert#before=", ":utf-8", "h"), ("insert-both", "utf-8:insert#before=0141&after=", ":utf-8", "h"), ("strings-after", "utf-8:strings#after=", ":utf-8", "h"), ("strings-before", "utf-8:strings#after=0141&before=", ":utf-8", "h"), ("from-any", "ascii,any#", ":utf-8", "h"), ("to-any", "utf-8:ascii,any#", "", "h"), ("replace-from", "utf-8:replace#", "=0131:utf-8", "h1"), ("replace-to", "utf-8:replace#0131=", ":utf-8", "h"), ("replace-2", "utf-8:replace#0131=0132&", ":utf-8", "h1"), ("escape-prefix", "utf-8:escape#prefix=", "", "x"), ("escape-suffix", "utf-8:escape#prefix=25&suffix=", "", "x"), ("insert-after", "utf-8:insert#after=0141&before=", ":utf-8", "h"), ("strings-both", "utf-8:strings#for=latin&before=0141&after=", ":utf-8", "h"), ("escape-both", "utf-8:escape#suffix=25&prefix=", "", "x"), ("from-any-2", "ascii,any#error&0131&", ":utf-8", "h"), ("to-any-2", "utf-8:ascii,any#error&31&", "", "h")]
# anything after the '#': options, missing values, unknown names
OPT = [("insert", "utf-8:insert", ":utf-8"), ("strings", "utf-8:strings", ":utf-8"), ("replace", "utf-8:replace", ":utf-8"), ("trim-width", "utf-8:trim-width", ":utf-8"), ("pass", "utf-8:pass", ":utf-8"), ("count", "utf-8:count", ":utf-8"), ("from-pass", "pass", ":utf-8"), ("to-pass", "utf-8:pass", ""), ("escape", "utf-8:ascii,escape", ""), ("from-any", "ascii,any", ":utf-8"), ("to-any", "utf-8:ascii,any", ""), ("utf-8", "utf-8", ":utf-8"), ("score", "utf-8:score", ":utf-8"), ("from-escape", "escape", ":utf-8"), ("nfc", "utf-8:nfc", ":utf-8")]
KEYS = {"insert": "before after", "strings": "for min-len before after", "pass": "for limit", "count": "for err", "from-pass": "for unmark", "to-pass": "for mark", "escape": "prefix suffix mode for", "from-any": "error drop", "to-any": "error drop", "utf-8": "cesu loose", "score": "with as", "trim-width": "ambi-as-wide 3"}
# modules with state: created and dropped, and dropped because a later module refuses
STATE = "utf-8 utf-16le utf-16be utf-32le utf-32be gb18030 cp950 jis shift-jis escape htmlentity ncr bsdconv ansi-control ibm-930 pass".split()
INTER = "nfc nfd nfkc nfkd width count ambiguous-pad ambiguous-unpad big5-defrag whitespace-derail whitespace-rerail insert strings trim-width#3 replace#0131=0132 pass nfkd-casefold casefold split nobom zh-strings score zh-bonus zhtw zhcn upper lower unix null".split()
TOS = "utf-8 utf-16le escape any pass bsdconv bsdconv-stdout ibm-930 gb18030 big5 ascii-html-info html-img htmlentity ascii-html-unicode-img ascii-named-html-entity null raw".split()
def check():
    C = []; deep = TIER != "quick"
    def add(name, pre, suf="", n=0, al="", valid="", w=10, cov=("accepted", "rejected"), **k): C.append(Cfg(name, "create.c", dict(pre=pre, suf=suf, n=n, al=al, valid=valid, **k), weight=w, time=3000 if deep else 250, covers=cov))
    for nm, a, b, v in HEXOPT:
        for n in (range(0, 5) if not deep else range(0, 7)): add("hex-%s-%d" % (nm, n), a, b, n, HEX if n > 2 else "", v, cov=(), err="s")
    for nm, a, b in OPT:
        add("opt-" + nm + "-bare", a + "#", b, 0, cov=())
        add("opt-" + nm + "-2", a + "#", b, 2 if not deep else 3, cov=())
        for k in KEYS.get(nm, "").split():
            for x, n in (("", 0), ("&", 0), ("=", 1), ("=&", 0), ("&" + k + "=", 1)) + ((("=", 2),) if deep else ()): add("opt-%s-%s%s-%d" % (nm, k, x, n), a + "#" + k + x, b, n, "" if "for" not in k and "with" not in k else "013aByteZ/.#", cov=())
    for m in STATE:
        add("from-" + m, m, ":utf-8", cov=("accepted",)); add("from-%s-dropped" % m, m, ":insert#bad:utf-8", valid="n", cov=("rejected",))
    for m in INTER:
        add("inter-" + m, "utf-8:" + m, ":utf-8", cov=("accepted",)); add("inter-%s-dropped" % m, "utf-8:" + m, ":utf-8,escape#bad", valid="n", cov=("rejected",)); add("inter-%s-list" % m, "utf-8:upper,%s,insert#bad" % m, ":utf-8", valid="n", cov=("rejected",))
    for m in TOS:
        add("to-" + m, "utf-8:" + m, cov=("accepted",)); add("to-%s-dropped" % m, "utf-8:" + m, ",escape#bad", valid="n", cov=("rejected",))
    # syntax: spaces are ignored, any character where nothing is expected, unknown modules
    for nm, a, b, v in (("space", "utf-8:", "utf-8", "y"), ("space-in", "ut", "f-8:utf-8", "y"), ("space-end", "utf-8:utf-8", "", "y")): add("syntax-" + nm, a, b, 2, " \t\n\r\f", v, cov=("accepted",))
    for nm, a, b in (("begin", "", "utf-8:utf-8"), ("middle", "utf-8", "utf-8"), ("end", "utf-8:utf-8", ""), ("inter", "utf-8:", "upper:utf-8"), ("arg", "utf-8#", ":utf-8")): add("syntax-" + nm, a, b, 2 if not deep else 3, ":|,# &", cov=())
    add("syntax-only", "", "", 4, ":|,# &", cov=())
    for m in ("zz", "utf", "utf-88", "_utf", "-", "0", "zz#a", "zz#"): add("unknown-" + m, m, ":utf-8", valid="n", cov=("rejected", "told"), err="m"); add("unknown-to-" + m, "utf-8:", m, valid="n", cov=("rejected", "told"), err="m"); add("unknown-inter-" + m, "utf-8:" + m, ":utf-8", valid="n", cov=("rejected", "told"), err="m")
    for m in ("count#for=zz", "strings#for=zz", "pass#for=latin&for=zz", "score#with=zz"): add("unknown-filter-" + m, "utf-8:" + m, ":utf-8", valid="n", cov=("rejected", "told"), err="m")
    for nm, m in (("escape-mode", "utf-8:escape#prefix=25&suffix=26&mode=zz"), ("escape-for", "utf-8:escape#prefix=25&suffix=26&for=zz"), ("escape-key", "utf-8:escape#prefix=25&suffix=26&zz"), ("insert-key", "utf-8:insert#after=0141&before=0142&zz:utf-8"), ("strings-key", "utf-8:strings#after=0141&before=0142&for=latin&zz:utf-8"), ("strings-for", "utf-8:strings#after=0141&before=0142&for=zz:utf-8"), ("pass-key", "utf-8:pass#for=latin&zz:utf-8"), ("to-pass-key", "utf-8:pass#mark&for=latin&zz"), ("from-pass-key", "pass#unmark&for=latin&zz:utf-8"), ("score-key", "utf-8:score#with=cjk&as=x&zz:utf-8"), ("score-with", "utf-8:score#with=cjk&as=x&with=zz:utf-8")): add("args-" + nm, m, valid="n", cov=("rejected",))
    for m in ("utf-8,:utf-8", ":utf-8", "utf-8::utf-8", "utf-8:utf-8|", "|utf-8:utf-8", ",utf-8:utf-8"): add("malformed-" + m, m, valid="n", cov=("rejected", "told"), err="s")
    # the modules cannot be found, opened or mapped
    for m in ("utf-8:utf-8", "big5:nfc:trim-width#3:utf-8", "jis:strings:utf-16le", "utf-8:count#for=cjk:escape"):
        add("fault-missing-" + m, m, cov=("rejected", "told"), fault="env", err="m")
        for f in ("open", "mmap"): add("fault-%s-%s" % (f, m), m, cov=("accepted", "rejected"), fault=f, kmax=70)
    return Check("C26", C, bounds="options of every module that takes arguments followed by up to 2 arbitrary characters, hexadecimal data of up to 4 characters, 2-4 characters of separators around names; creation of about 60 modules and its abandonment after them; the first 71 attempts to open or map a module file fail one at a time", assumptions=["malloc does not fail", "SCORE-TRAIN, SCORE#WITH=TRAINED and the LOG modules (files named by the environment) are left out"])
