"""Reference tables for the harnesses: an independent reader of the conversion table sources, and a generator of C tries."""
import re
SEP = 256
def read_table(path):
    """conversion table source -> {key: [element, ...]}; key = tuple of byte values with SEP between elements"""
    d = {}; lev = {}; special = []
    for line in open(path, encoding="latin1"):
        if line.startswith("#"): continue
        f = re.split(r"[\t ]+", line.split("\n")[0].rstrip("\r"))
        if len(f) < 2 or not f[0]: continue
        k, v = f[0], re.split("[#\r]", f[1])[0]
        if not re.fullmatch(r"!?[0-9A-Fa-f,*]+", k) or not re.fullmatch(r"\??[0-9A-Fa-f,]*", v): continue  # stray header lines
        if "*" in k or v.startswith("?"): special.append((k, v)); continue
        ci = k.startswith("!")
        if ci: k = k[1:]
        keys = [((), 0)]
        for n, e in enumerate(k.split(",")):
            if n: keys = [(x + (SEP,), l + 1) for x, l in keys]
            for c in bytes.fromhex(e):
                alt = [(c, 1)]
                if ci and chr(c).isalpha() and c < 128: alt.append((c ^ 32, 0))  # a letter stands for both cases
                keys = [(x + (a,), l + m) for x, l in keys for a, m in alt]
        val = [bytes.fromhex(x) for x in v.split(",")]
        for x, l in keys:  # the spelling with more exact characters wins, then the first line
            if x not in d or l > lev[x]: d[x] = val; lev[x] = l
    return d, special
def cps(val):
    """list of Unicode elements -> code points, None when another element type occurs"""
    r = []
    for e in val:
        if e[:1] != b"\x01" or len(e) < 2: return None
        r.append(int.from_bytes(e[1:], "big"))
    return r
class Trie:
    def __init__(self): self.nodes = [{}]; self.val = [-1]; self.vals = []; self.vix = {}
    def add(self, key, val):
        n = 0
        for c in key:
            m = self.nodes[n].get(c)
            if m is None:
                m = len(self.nodes); self.nodes.append({}); self.val.append(-1); self.nodes[n][c] = m
            n = m
        v = tuple(val)
        if v not in self.vix: self.vix[v] = len(self.vals); self.vals.append(v)
        if self.val[n] < 0: self.val[n] = self.vix[v]
    def c(self, name, width=257):
        """child rows only for inner nodes; leaves share row 0"""
        o = []; row = {0: 0}; rows = [None]
        for i, n in enumerate(self.nodes):
            if n: row[i] = len(rows); rows.append(n)
        o.append("static const int %s_nx[][%d]={{0},%s};" % (name, width, ",".join("{" + ",".join(("[%d]=%d" % (k, v)) for k, v in sorted(r.items())) + "}" for r in rows[1:])))
        o.append("static const int %s_row[]={%s};" % (name, ",".join(str(row.get(i, 0)) for i in range(len(self.nodes)))))
        o.append("static const int %s_val[]={%s};" % (name, ",".join(map(str, self.val))))
        off = [0]; flat = []
        for v in self.vals: flat += v; off.append(len(flat))
        o.append("static const unsigned %s_vd[]={%s};" % (name, ",".join(map(str, flat)) or "0"))
        o.append("static const int %s_vo[]={%s};" % (name, ",".join(map(str, off))))
        o.append("static const trie_t %s={%s_nx,%s_row,%s_val,%s_vd,%s_vo};" % (name, name, name, name, name, name))
        return "\n".join(o) + "\n"
def from_trie(d):
    """byte sequence -> code points"""
    t = Trie()
    for k, v in d.items():
        r = cps(v)
        if r is None or SEP in k: raise ValueError("not a plain Unicode input table")
        t.add(k, r)
    return t
def elem(cp): return (1,) + tuple((cp.to_bytes(4, "big").lstrip(b"\0") or b"\0"))
def header(path, tries, skip=None, pool=None):
    """C header with the tries in look-up order"""
    s = "".join(t.c("t%d" % i) for i, t in enumerate(tries))
    s += "#define NTAB %d\nstatic const trie_t *tabs[]={%s};\n" % (len(tries), ",".join("&t%d" % i for i in range(len(tries))))
    if skip is not None: s += "#define SKIPVAL %du\n" % skip
    if pool: s += "static const unsigned pool_cp[]={%s};\n#define POOL pool_cp\n#define NPOOL %d\n" % (",".join(map(str, pool)), len(pool))
    open(path, "w").write(s)
SKIP = 0xfffffff
def src(b, n): return read_table(b.src + "/modules/" + n + ".txt")[0]
def to_trie(d):
    """Unicode elements -> bytes; entries for other element types are dropped"""
    t = Trie()
    for k, v in d.items():
        if k[:1] == (1,): t.add(k, [x for e in v for x in e])
    return t
def inter_trie(d):
    t = Trie()
    for k, v in d.items():
        r = cps(v)
        if r is None: raise ValueError("not a plain Unicode table")
        t.add(k, r)
    return t
