"""Builds /repo's working tree in a scratch directory and derives LLVM IR from the same command lines."""
import os, subprocess, shutil, tempfile, glob, atexit, hashlib, json, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
PASSES = "function(sroa,early-cse,simplifycfg)"
_tmp = []
def cleanup():
    while _tmp:
        d = _tmp.pop()
        if d.startswith("/tmp/bsdsym.") : shutil.rmtree(d, ignore_errors=True)
atexit.register(cleanup)
def mktemp():
    d = tempfile.mkdtemp(prefix="bsdsym.", dir="/tmp"); _tmp.append(d); return d
def ensure_engine():
    src = sorted(glob.glob(VERIF + "/engine/*"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    st = VERIF + "/build/symx.stamp"
    if os.path.exists(SYMX) and os.path.exists(st) and open(st).read() == h: return
    subprocess.run(["bash", VERIF + "/engine/build.sh"], check=True, stdout=sys.stderr)
    open(st, "w").write(h)
class BuildError(Exception): pass
def copy_tree(dst):
    def ign(d, names):
        return [n for n in names if (d == REPO and n in ("build", ".git"))]
    shutil.copytree(REPO, dst, symlinks=True, ignore=ign)
def make(src, cc, env=None, targets=("all",)):
    e = dict(os.environ); e.update(env or {}); e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"; e["LC_ALL"] = "C.UTF-8"
    for k in ("CFLAGS", "MAKEFLAGS", "BSDCONV_PATH"): e.pop(k, None)
    r = subprocess.run(["make", "-j8", "SHELL=/bin/bash", ".SHELLFLAGS=-ec", "CC=" + cc, *targets], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError(r.stdout.decode("utf8", "replace")[-3000:])
KEEP1 = ("-D", "-I", "-U", "-std")
def emit(cwd, args):
    srcs = [a for a in args if a.endswith(".c")]
    if not srcs or "-o" not in args: return None
    out = args[args.index("-o") + 1]
    flags = []; i = 0
    while i < len(args):
        a = args[i]
        if a in ("-D", "-I", "-U", "-include"): flags += [a, args[i + 1]]; i += 2; continue
        if a.startswith(KEEP1): flags.append(a)
        i += 1
    lls = []
    for n, s in enumerate(srcs):
        ll = os.path.join(cwd, out) + (".ll" if n == 0 else ".%d.ll" % n)
        emit_ll(os.path.join(cwd, s), ll, flags, cwd); lls.append(ll)
    return lls
def emit_ll(src, ll, flags, cwd=None, extra=()):
    tmp = ll + ".tmp"
    r = subprocess.run(["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-builtin", "-w", "-emit-llvm", "-c", "-o", tmp, *flags, *extra, src], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError("clang: " + r.stdout.decode("utf8", "replace")[-3000:])
    r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-passes=" + PASSES, tmp, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError("opt: " + r.stdout.decode("utf8", "replace")[-3000:])
    os.unlink(tmp)
class Build:
    def __init__(self, ir=True, cc="gcc", keep=None):
        self.dir = keep or mktemp(); self.src = self.dir + "/src"
        copy_tree(self.src)
        log = self.dir + "/cclog"
        make(self.src, VERIF + "/lib/ccwrap", {"SYMX_LOG": log, "SYMX_REALCC": cc})
        self.root = self.src + "/build"
        self.units = []
        if ir:
            jobs = []
            for f in glob.glob(log + ".*"):
                a = open(f, "rb").read().decode().split("\0")[:-1]
                jobs.append((a[0], a[1:]))
            with ThreadPoolExecutor(8) as ex:
                for (cwd, a), lls in zip(jobs, ex.map(lambda j: emit(*j), jobs)):
                    if lls: self.units.append((cwd, a, lls))
            self.alias_ll()
        self.lib = None
        for cwd, a, lls in self.units:
            if any(os.path.basename(x) == "libbsdconv.c" for x in a): self.lib = lls
        if ir and not self.lib: raise BuildError("libbsdconv IR not found")
    def alias_ll(self):
        # shared objects that are symlinks/copies of another file still need their IR next to the real path
        for p in glob.glob(self.root + "/share/bsdconv/*/*.so"):
            rp = os.path.realpath(p)
            if not os.path.exists(rp + ".ll"):
                for q in glob.glob(os.path.dirname(rp) + "/*.ll"): pass
    def harness(self, c, defs=()):
        """compile a harness both ways: IR (with the C runtime bodies) and native"""
        name = os.path.splitext(os.path.basename(c))[0]
        tag = hashlib.md5(repr((c, defs)).encode()).hexdigest()[:8]
        ll = "%s/%s.%s.ll" % (self.dir, name, tag); exe = "%s/%s.%s.exe" % (self.dir, name, tag)
        if os.path.exists(ll): return ll, exe
        inc = ["-I" + VERIF + "/harness", "-I" + self.src + "/src", "-I" + self.dir, *["-D" + d for d in defs]]
        comb = "%s/%s.%s.comb.c" % (self.dir, name, tag)
        open(comb, "w").write('#include "%s"\n' % c)
        emit_ll(comb, ll + ".h", inc + ["-DSYMX"]); emit_ll(VERIF + "/harness/rt.c", ll + ".rt", [])
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-link", ll + ".h", ll + ".rt", "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError(r.stdout.decode())
        self.native(comb, exe, inc)
        return ll, exe
    def native(self, comb, exe, inc, cc="gcc", flags=("-O1",), src=None):
        root = (src or self.src) + "/build"
        r = subprocess.run([cc, *flags, "-g", "-w", *inc, comb, VERIF + "/harness/native.c", "-rdynamic", "-o", exe, "-L" + root + "/lib", "-lbsdconv", "-ldl", "-Wl,-rpath," + root + "/lib"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("native: " + r.stdout.decode("utf8", "replace")[-3000:])

def dev(d):
    """development aid: reuse an existing build directory"""
    b = Build.__new__(Build); b.dir = d; b.src = d + "/src"; b.root = b.src + "/build"; b.units = []
    b.lib = [p for p in glob.glob(b.root + "/lib/libbsdconv.so*.ll") if os.path.exists(p)]
    for f in glob.glob(d + "/*.ll") + glob.glob(d + "/*.exe*"): os.unlink(f)
    return b
