"""Check driver: runs symbolic configurations, replays every reported counterexample (and a large share of the
explored paths) against the natively built code, writes evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, re, glob, threading, hashlib, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtbuild
from vtbuild import VERIF, Build, SYMX, BuildError
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = 8
class Cfg:
    """one symbolic run: harness file, #defines, runtime parameters"""
    def __init__(self, name, harness, params=None, defs=(), jobs=1, time=200, weight=1, covers=(), replay=1500, steps=None, repeat=1, bound="", maxmem=None):
        self.name, self.harness, self.params, self.defs = name, harness, dict(params or {}), tuple(defs)
        self.jobs, self.time, self.covers, self.replay, self.steps, self.repeat, self.bound = jobs, time, covers, replay, steps, repeat, bound
        self.weight = weight
        self.maxmem = maxmem
def env_for(b, cfg, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("SYM")}
    e["BSDCONV_PATH"] = b.root; e["LD_LIBRARY_PATH"] = b.root + "/lib"
    for k, v in cfg.params.items(): e["SYMP_" + k] = str(v)
    e.update(extra or {}); return e
def native(b, cfg, exe, hexes, extra=None, timeout=300, pre=(), cwd=None):
    r = subprocess.run([*pre, exe], input="".join(h + "\n" for h in hexes), env=env_for(b, cfg, extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", cwd=cwd or b.dir)
    return r
LINE = re.compile(r"^(OK|FAIL|SKIP|CRASH|EXIT)")
def lines_of(out): return [l for l in out.split("\n") if LINE.match(l)]
class Sem:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def get(self, k):
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
    def put(self, k):
        with self.c: self.n += k; self.c.notify_all()
class Check:
    def __init__(self, pid, cfgs, bounds, assumptions=(), extra_cov=None, note=None, prebuild=None, budget=None):
        self.pid, self.cfgs, self.bounds, self.assumptions = pid, cfgs, bounds, list(assumptions)
        self.prebuild = prebuild; self.extra_cov = extra_cov; self.note = note
        self.budget = budget
        self.vio, self.log = [], []
        self.asan = None; self.lock = threading.Lock()
        self.found = None; self.flock = threading.Lock(); self.t0 = time.time()  # when the first violation was confirmed: from then on the check only finishes
    def say(self, *a): print(*a, flush=True)
    # -- one configuration
    def over(self): return TIER == "quick" and self.found and time.time() > self.found + 40
    def run_cfg(self, b, cfg, deadline):
        if self.over(): return dict(cfg=cfg.name, stats={}, functions=set(), covers={x: 1 for x in cfg.covers}, unsup={}, complete=False, rc=0, out="not run: a violation was found", paths=0, vio=[], wall=0, validated=0, mismatch=[])
        ll, exe = b.harness(os.path.join(VERIF, "harness", cfg.harness), cfg.defs)
        self.sem.get(cfg.jobs)
        out = tempfile.mkdtemp(dir=b.dir)
        try:
            t1 = time.time()
            lim = max(5, min(cfg.time, deadline - t1))
            cmd = [SYMX, "--harness", ll, "--root", b.root, "--out", out, "--time", "%.0f" % lim, "--jobs", str(cfg.jobs)]
            for l in b.lib: cmd += ["--lib", l]
            if cfg.steps: cmd += ["--steps", str(cfg.steps)]
            for k, v in cfg.params.items(): cmd += ["--param", "%s=%s" % (k, v)]
            with tempfile.TemporaryFile(dir=b.dir) as tf:
                r = subprocess.Popen(cmd, stdout=tf, stderr=subprocess.STDOUT, cwd=b.dir, start_new_session=True)
                while True:
                    try: rc = r.wait(1); break
                    except subprocess.TimeoutExpired: pass
                    if self.over() or time.time() > t1 + lim + 120: os.killpg(r.pid, 9); r.wait(); rc = -1; break
                tf.seek(0); txt = tf.read().decode("utf8", "replace") if rc != -1 else "engine timeout"
        finally:
            self.sem.put(cfg.jobs)
        st = {}; fn = set(); cov = {}; uns = {}; complete = rc == 0
        for f in glob.glob(out + "/s*.json"):
            try: d = json.load(open(f))
            except Exception: complete = False; continue
            for k, v in d.items():
                if isinstance(v, bool): complete &= v
                elif isinstance(v, (int, float)): st[k] = st.get(k, 0) + v
            fn |= set(d["functions"])
            for k, v in d["covers"].items(): cov[k] = cov.get(k, 0) + v
            for k, v in d["unsup"].items(): uns[k] = uns.get(k, 0) + v
        if not glob.glob(out + "/s*.json"): complete = False
        vio, wit, nw = [], [], 0
        rnd = random.Random(SEED)
        for f in glob.glob(out + "/r*.jsonl"):
            for line in open(f, errors="replace"):
                if line.startswith('{"type":"violation"'):
                    try: vio.append(json.loads(line))
                    except ValueError: pass
                else:
                    nw += 1
                    if len(wit) < cfg.replay: wit.append(line)
                    else:
                        j = rnd.randrange(nw)
                        if j < cfg.replay: wit[j] = line
        shutil.rmtree(out, ignore_errors=True)
        res = dict(cfg=cfg.name, stats=st, functions=fn, covers=cov, unsup=uns, complete=complete and not st.get("dropped") and not uns and not st.get("asserts_unknown"), rc=rc, out=txt[-500:], paths=nw, vio=vio, wall=time.time() - t1)
        if vio and not self.found and TIER == "quick":
            kn = self.known()
            for v in vio[:2]:
                if any(c == cfg.name and m == v["msg"] and re.fullmatch(i, v["in"]) for c, m, i in kn): continue
                with self.flock:
                    if self.found: break
                    try:
                        if self.confirm(b, cfg, v): self.found = time.time()
                    except Exception: pass
        res["validated"], res["mismatch"] = self.validate(b, cfg, exe, wit) if not self.over() else (0, [])
        return res
    # -- replay explored paths on the real build and compare every observed byte
    def validate(self, b, cfg, exe, wit):
        recs = []
        for l in wit:
            try: recs.append(json.loads(l))
            except ValueError: pass
        if not recs: return 0, []
        ok, mism, i = 0, [], 0
        while i < len(recs) and not self.over():
            part = recs[i:i + 400]
            try: lines = lines_of(native(b, cfg, exe, [r["in"] for r in part], timeout=120).stdout)
            except subprocess.TimeoutExpired: lines = []
            if len(lines) != len(part):  # crash or hang in the batch: isolate
                try: lines = lines_of(native(b, cfg, exe, [r["in"] for r in part], {"SYM_FORK": "1", "SYM_REPEAT": "2", "SYM_ALARM": "5"}, timeout=240).stdout)
                except subprocess.TimeoutExpired: lines = []
            for r, l in zip(part, lines):
                exp = "OK" + "".join(" %s=%s" % (t, v) for t, v in r["obs"])
                if r["type"] == "unsup":
                    if l.startswith(("FAIL", "CRASH", "EXIT")): mism.append((r["in"], "path left the modelled subset", l))
                    continue
                if l == exp: ok += 1
                elif "?" in exp and re.fullmatch(re.escape(exp).replace(r"\?\?", ".."), l): ok += 1
                else: mism.append((r["in"], exp, l))
            i += len(part)
        return ok, mism
    # -- confirmation of a counterexample on the real code
    def confirm(self, b, cfg, v):
        ll, exe = b.harness(os.path.join(VERIF, "harness", cfg.harness), cfg.defs)
        h = v["in"]
        rep = str(max(3, cfg.repeat)) if "released" in v["msg"] else "1"
        try: l = lines_of(native(b, cfg, exe, [h], {"SYM_FORK": "1", "SYM_REPEAT": rep}, timeout=90).stdout)
        except subprocess.TimeoutExpired: return "native run does not terminate"
        if l and l[0].startswith(("FAIL", "CRASH", "EXIT")): return "native: " + l[0][:300]
        if v["kind"] == "assert": return None
        # memory errors: memcheck on the ordinary build, then an AddressSanitizer build
        ex2 = exe + ".na"
        with self.lock:
            if not os.path.exists(ex2):
                comb = exe[:-4] + ".comb.c"
                inc = ["-I" + VERIF + "/harness", "-I" + b.src + "/src", "-I" + b.dir, "-DSYM_NOALLOC", *["-D" + d for d in cfg.defs]]
                b.native(comb, ex2, inc)
        try:
            r = native(b, cfg, ex2, [h], {}, timeout=120, pre=("valgrind", "-q", "--error-exitcode=97"))
            if r.returncode == 97: return "valgrind: " + " / ".join(x.split("== ", 1)[-1] for x in r.stderr.split("\n")[:4])[:300]
        except subprocess.TimeoutExpired: return "native run does not terminate"
        if v["kind"] in ("uninit",): return None
        try:
            with self.lock:
                if self.asan is None:
                    self.asan = False  # tried once
                    d = vtbuild.mktemp(); src = d + "/src"; vtbuild.copy_tree(src)
                    vtbuild.make(src, VERIF + "/lib/ccasan", {"ASAN_OPTIONS": "detect_leaks=0"})
                    self.asan = (d, src)
            if not self.asan: return None
            d, src = self.asan
            ex3 = d + "/" + os.path.basename(exe) + ".asan"
            comb = exe[:-4] + ".comb.c"
            if not os.path.exists(ex3):
                b.native(comb, ex3, ["-I" + VERIF + "/harness", "-I" + src + "/src", "-I" + b.dir, "-DSYM_NOALLOC", *["-D" + x for x in cfg.defs]], cc="gcc", flags=("-O1", "-fsanitize=address"), src=src)
            e = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:abort_on_error=0", "BSDCONV_PATH": src + "/build", "LD_LIBRARY_PATH": src + "/build/lib"}
            r = native(b, cfg, ex3, [h], e, timeout=120)
            if r.returncode == 98 or "AddressSanitizer" in r.stderr:
                return "asan: " + next((x for x in r.stderr.split("\n") if "ERROR" in x), "error")[:300]
        except (BuildError, subprocess.TimeoutExpired) as ex: self.log.append("asan confirmation unavailable: %s" % str(ex)[:200])
        return None
    def known(self):
        out = []
        p = VERIF + "/known_findings.txt"
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) config=(\S+) msg=(.*?) input=(\S+)\s*$", l)
                if m and m.group(1) == self.pid: out.append(m.groups()[1:])
        return out
    def main(self):
        t0 = time.time(); budget = self.budget or (620 if TIER == "quick" else 14000)
        self.sem = Sem(NCPU)
        vtbuild.ensure_engine()
        b = vtbuild.dev(os.environ['VT_DEV']) if os.environ.get('VT_DEV') else Build()
        if self.prebuild: self.prebuild(b)
        tb = time.time() - t0
        deadline = t0 + budget
        hs = sorted({(c.harness, c.defs) for c in self.cfgs})
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda h: b.harness(os.path.join(VERIF, "harness", h[0]), h[1]), hs))
        cfgs = sorted(self.cfgs, key=lambda c: -c.weight)
        with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(lambda c: self.run_cfg(b, c, deadline), cfgs))
        cmap = {c.name: c for c in self.cfgs}
        os.makedirs(VERIF + "/out", exist_ok=True)
        known = self.known(); nviol = 0; seen = set(); unconf = []; kseen = set()
        def emit(cfg, v, how):
            nonlocal nviol
            for c, m, i in known:
                if c == cfg.name and m == v["msg"] and re.fullmatch(i, v["in"]):
                    if (c, m, i) not in kseen:
                        kseen.add((c, m, i)); self.say("KNOWN-FINDING: property=%s %s input=%s (%s)" % (self.pid, m, v["in"], c))
                    return
            nviol += 1
            p = "%s/out/%s-%d.replay" % (VERIF, self.pid, nviol)
            json.dump(dict(property=self.pid, config=cfg.name, harness=cfg.harness, defs=cfg.defs, params=cfg.params, input=v["in"], kind=v["kind"], msg=v["msg"], where=v.get("where"), observed=v.get("obs"), confirmed=how), open(p, "w"), indent=1)
            self.say("  config %s: %s: %s at %s input=%s" % (cfg.name, v["kind"], v["msg"], v.get("where"), v["in"]))
            self.say("  confirmed on the real build: %s" % how)
            self.say("VIOLATION property=%s replay=%s" % (self.pid, p))
        tried = {}
        for r in results:
            cfg = cmap[r["cfg"]]
            for v in r["vio"]:
                key = (cfg.name, v["kind"], v["msg"], v["where"].split(" < ")[0])
                if key in seen or nviol >= 6 or (nviol and time.time() > self.t0 + 600): continue
                tried[key[:3]] = tried.get(key[:3], 0) + 1
                if tried[key[:3]] > 8 or (sum(tried.values()) > 60 and tried[key[:3]] > 1): unconf.append(dict(cfg=cfg.name, kind=v["kind"], msg=v["msg"], where=v["where"], input=v["in"])); continue
                try: how = self.confirm(b, cfg, v)
                except Exception as ex: how = None; self.log.append("confirm: %r" % ex)
                if how: seen.add(key); emit(cfg, v, how)
                else: unconf.append(dict(cfg=cfg.name, kind=v["kind"], msg=v["msg"], where=v["where"], input=v["in"]))
            for h, exp, got in r["mismatch"][:5]:
                v = {"in": h, "kind": "replay", "msg": "", "where": "replay", "obs": None}
                if got.startswith(("FAIL", "CRASH", "EXIT")):
                    v["msg"] = got.split(" |")[0]
                    if "released" in v["msg"]:
                        v["msg"] = "memory released"
                        if not self.confirm(b, cfg, dict(v, kind="assert", msg="released")): continue
                    if ("m", cfg.name, v["msg"]) in seen or nviol >= 6: continue
                    seen.add(("m", cfg.name, v["msg"])); emit(cfg, v, "native: " + got[:300])
                else: unconf.append(dict(cfg=cfg.name, kind="divergence", input=h, engine=exp[:300], native=got[:300]))
        tot = {}
        for r in results:
            for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
        fns = sorted(set().union(*[r["functions"] for r in results])) if results else []
        missing = [(c.name, x) for c in self.cfgs for x in c.covers if not next(r for r in results if r["cfg"] == c.name)["covers"].get(x)]
        incomplete = [dict(cfg=r["cfg"], rc=r["rc"], left=r["stats"].get("left"), unsup=r["unsup"], dropped=r["stats"].get("dropped"), out=r["out"]) for r in results if not r["complete"]]
        samples = []
        for r in results[:400]:
            samples.append(dict(config=r["cfg"], paths=r["paths"], params=cmap[r["cfg"]].params, wall_s=round(r["wall"], 1), complete=r["complete"], covers=r["covers"]))
        nval = sum(r["validated"] for r in results)
        cov = dict(states=int(tot.get("forks", 0)) + len(results), transitions=int(tot.get("insts", 0)), traces_validated_against_impl=nval, samples=samples,
                   paths_explored=int(tot.get("ended", 0)), exhaustive=not incomplete,
                   functions_encoded=[f for f in fns if not f.startswith("harness:")], bounds=self.bounds,
                   solver=dict(queries=int(tot.get("queries", 0)), sat=int(tot.get("sat", 0)), unsat=int(tot.get("unsat", 0)), unknown=int(tot.get("unknown", 0)), time_s=round(tot.get("qtime", 0), 2), single_byte_domain_decisions=int(tot.get("domain_decisions", 0))),
                   assertions=dict(evaluated=int(tot.get("asserts", 0)), decided_by_solver=int(tot.get("asserts_solver", 0)), folded_to_constant=int(tot.get("asserts_folded", 0))),
                   configurations=len(results), incomplete=incomplete, vacuity_missing=missing, unconfirmed=unconf[:20], notes=self.log[:10])
        if self.extra_cov: cov.update(self.extra_cov)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - t0, 1), violations=nviol)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.pid, "w"), indent=1)
        self.say("%s: %d configurations, %d paths, %d instructions, %d solver queries (%.1fs), %d assertions (%d by solver), %d native replays matched, build %.1fs, total %.1fs" % (self.pid, len(results), tot.get("ended", 0), tot.get("insts", 0), tot.get("queries", 0), tot.get("qtime", 0), tot.get("asserts", 0), tot.get("asserts_solver", 0), nval, tb, time.time() - t0))
        for x in missing: self.say("VACUITY: %s never reached %s" % x)
        for x in incomplete: self.say("INCOMPLETE: %s" % json.dumps(x)[:400])
        for x in unconf[:10]: self.say("UNCONFIRMED: %s" % json.dumps(x)[:500])
        vtbuild.cleanup()
        return 1 if nviol else 0
