#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--seed N]      decide one property
   check.py --replay <file>                                       re-run one recorded violation
   check.py --selftest-build                                      build everything once (setup)

Builds the code of /repo's current working tree with sanitizers in a private
scratch directory, runs the property's workload drivers under their monitors in
parallel, confirms what they report, and writes evidence/<id>.json.
Exit 0: held on everything observed.  1: VIOLATION line printed.  2: no verdict."""
import base64, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
REPO = os.environ.get("CEE_REPO", "/repo")
CORES = max(1, len(os.sched_getaffinity(0)))

CORE = ("musl-hsearch musl-insque musl-lsearch musl-tsearch cee-common boxed str dict map set stack tuple "
        "triple quadruple list tagged singleton closure block n_tuple env state").split()
JSON = "parser snprint tokenizer value cee_json_merge".split()
H = {"core": "d_str d_seq d_map d_misc d_search main_core".split(),
     "json": "ref jgen d_world d_jparse d_jprint d_jmodel main_json".split(),
     "thr": "ref jgen d_world d_jparse d_jprint d_jmodel d_str d_seq d_map d_misc d_sql d_threads main_thr".split(),
     "sql": "ref jgen d_sql main_sql".split(),
     "sv": "d_sv main_sv".split()}
HWARN = "-w"
def sources(sub, known, skip=()):
    """the modules of a directory: the known ones and any the tree has gained (not generated, not a program)"""
    out = list(known)
    for f in sorted(glob.glob(os.path.join(REPO, sub, "*.c"))):
        n = os.path.basename(f)[:-2]
        if n in known or n in skip or n in ("tmp", "strview", "cee_dbm") or n.endswith("-one"): continue
        try: t = open(f, errors="replace").read()
        except OSError: continue
        if not re.search(r"\bmain\s*\(", t): out.append(n)
    return [n for n in out if os.path.exists(os.path.join(REPO, sub, n + ".c"))]
# what gcc, the compiler the project builds with, only warns about
CLENIENT = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]
SAN = {"asan": ("gcc", "-O1 -g -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all".split()),
       "fort": ("gcc", "-O2 -g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3 -fstack-protector-all".split()),
       "tsan": ("gcc", "-O1 -g -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fsanitize=thread".split()),
       # coverage-guided search (thorough tier): the code under test is instrumented, the harness is not.
       # gcc's sanitizers judge what the search finds; clang's extra rules (function types, null + 0) are off.
       "fuzz": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function,pointer-overflow -fno-sanitize-recover=all".split() + CLENIENT),
       "msan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1 -fno-sanitize-recover=all".split() + CLENIENT)}
ENVSAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=55:hard_rss_limit_mb=4000:max_allocation_size_mb=2000:"
                          "quarantine_size_mb=64:handle_abort=1:handle_sigill=1:detect_stack_use_after_return=0:allocator_may_return_null=0",
          "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=77:halt_on_error=1",
          "TSAN_OPTIONS": "exitcode=77:halt_on_error=0:report_thread_leaks=0:second_deadlock_stack=0",
          "MSAN_OPTIONS": "exitcode=77:halt_on_error=1"}

class NoVerdict(Exception): pass

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

class Builder:
    def __init__(self, root): self.root, self.done, self.lock = root, {}, threading.Lock()
    def plan(self, binary, variant, san):
        """-> (compile jobs [(out, argv)], link argv, exe)"""
        cc, fl = SAN[san]
        fl = fl + [HWARN, "-pthread"]
        d = os.path.join(self.root, "%s-%s-%s" % (binary, variant, san)); os.makedirs(d, exist_ok=True)
        jobs, objs = [], []
        lib = ["-fsanitize=fuzzer-no-link"] if san == "fuzz" else []
        own = ["-fno-sanitize=undefined", "-DHX_FUZZ"] if san == "fuzz" else []
        def cob(src, name, extra):
            o = os.path.join(d, name + ".o"); objs.append(o)
            jobs.append((o, [cc] + fl + (own if name.startswith("h_") else lib) + extra + ["-c", "-o", o, src]))
        rel = variant == "rel"
        hinc = ["-I" + REPO + "/release", "-I" + REPO + "/cee-json/release"] if rel else ["-I" + REPO, "-I" + REPO + "/cee-json"]
        # sqlite3/*.h are found next to their sources; hx and the references are ours
        hinc += ["-I" + REPO + "/sqlite3", "-I" + REPO, "-I" + REPO + "/cee-json"]
        for h in ["hx"] + H[binary]:
            cob(os.path.join(HERE, "h", h + ".c"), "h_" + h, ["-std=gnu11", "-I" + os.path.join(HERE, "h")] + hinc)
        libs = ["-lm", "-lpthread"]
        if binary == "sv":
            cob(REPO + "/strview.c", "strview", ["-std=gnu99", "-DSV_IMPLEMENTATION", "-I" + REPO])
        else:
            if rel: cob(REPO + "/release/cee.c", "cee", ["-std=c99", "-I" + REPO + "/release", "-I" + REPO])
            else:
                for f in sources("", CORE): cob("%s/%s.c" % (REPO, f), "m_" + f, ["-std=c99", "-I" + REPO])
            if binary != "core":
                if rel: cob(REPO + "/cee-json/release/cee-json.c", "ceejson", ["-I" + REPO + "/cee-json/release", "-I" + REPO + "/release", "-I" + REPO + "/cee-json", "-I" + REPO])
                else:
                    for f in sources("cee-json", JSON): cob("%s/cee-json/%s.c" % (REPO, f), "j_" + f, ["-I" + REPO + "/cee-json", "-I" + REPO])
            if binary in ("sql", "thr"):
                for f in sources("sqlite3", ["cee-sqlite3", "join"]):
                    cob("%s/sqlite3/%s.c" % (REPO, f), "s_" + f, ["-std=gnu99", "-I" + REPO, "-I" + REPO + "/cee-json", "-I" + REPO + "/sqlite3"])
                libs = ["-lsqlite3"] + libs
        exe = os.path.join(d, "run")
        return jobs, [cc] + fl + (["-fsanitize=fuzzer"] if san == "fuzz" else []) + ["-o", exe] + objs + libs + (["-Wl,--wrap=malloc,--wrap=calloc"] if binary == "core" else ["-Wl,--wrap=read"] if binary == "json" else []), exe
    def build(self, wanted):
        plans = {w: self.plan(*w) for w in wanted}
        q = queue.Queue(); err = []
        for w, (jobs, _, _) in plans.items():
            for j in jobs: q.put(j)
        def work():
            while not err:
                try: o, argv = q.get_nowait()
                except queue.Empty: return
                r = sh(argv)
                if r.returncode: err.append("%s\n%s" % (" ".join(argv), r.stdout.decode("utf-8", "replace")[-3000:]))
        ts = [threading.Thread(target=work) for _ in range(CORES)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if err: raise NoVerdict("build failed: " + err[0])
        for w, (_, link, exe) in plans.items():
            r = sh(link)
            if r.returncode: raise NoVerdict("link failed: " + r.stdout.decode("utf-8", "replace")[-3000:])
            self.done[w] = exe

class Run:
    """one shard: a process over cases from, from+step, ..."""
    n = 0
    def __init__(self, ctx, job, frm, to, step, tag=""):
        self.ctx, self.job, self.frm, self.to, self.step = ctx, job, frm, to, step
        with ctx.lock:
            ctx.nruns += 1; k = ctx.nruns
        self.d = os.path.join(ctx.scratch, "run%d" % k); os.makedirs(self.d)
    def argv(self, transcript=False):
        j = self.job
        a = [self.ctx.b.done[(j["bin"], j["var"], j["san"])], "--drv", j["drv"], "--seed", str(j["seed"]),
             "--from", str(self.frm), "--to", str(self.to), "--step", str(self.step),
             "--thorough", "1" if self.ctx.tier == "thorough" else "0",
             "--stats", self.d + "/stats", "--hashes", self.d + "/hashes", "--prog", self.d + "/prog",
             "--watchdog", str(j.get("watchdog", 30)), "--memonly", "1" if j.get("memonly") else "0"]
        if transcript: a += ["--transcript", self.d + "/tr"]
        if j.get("bytes"):
            open(self.d + "/bytes", "wb").write(base64.b64decode(j["bytes"])); a += ["--bytes", self.d + "/bytes"]
        return a
    def go(self, transcript=False):
        env = dict(os.environ); env.update(ENVSAN); env["HX_TMP"] = self.d; env["HX_CORPUS"] = os.path.join(HERE, "corpus", "seeds.bin")
        if self.job.get("trace"): env["UBSAN_OPTIONS"] += ":print_stacktrace=1"
        env["LC_ALL"] = "C.UTF-8"
        env.pop("LD_PRELOAD", None)
        with open(self.d + "/out", "wb") as o, open(self.d + "/err", "wb") as e:
            p = subprocess.Popen(self.argv(transcript), stdin=subprocess.DEVNULL, stdout=o, stderr=e, env=env, cwd=self.d, start_new_session=True)
            with self.ctx.lock: self.ctx.procs.add(p)
            self.killed = False
            try: p.wait(timeout=self.job.get("timeout", self.ctx.left()))
            except subprocess.TimeoutExpired:
                self.killed = "timeout"
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            with self.ctx.lock: self.ctx.procs.discard(p)
        self.rc = p.returncode
        self.out = open(self.d + "/out", errors="replace").read()
        self.err = open(self.d + "/err", errors="replace").read()[:200000]
        return self
    def prog(self):
        try:
            b = open(self.d + "/prog", "rb").read()
            nr, done, ln = struct.unpack("<QQQ", b[:24])
            return nr, done, b[24:24 + ln].decode("utf-8", "replace")
        except Exception: return None, 0, ""
    def stats(self):
        try: return json.load(open(self.d + "/stats"))
        except Exception: return None
    def hashes(self):
        try: b = open(self.d + "/hashes", "rb").read()
        except OSError: return set()
        return set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    def verdict(self):
        """-> (kind, message) : ok / fail / hang / san / crash / killed / error"""
        if self.ctx.stop and self.rc == -9: return "cancelled", ""
        if self.killed: return "timeout", "shard exceeded its time"
        if self.rc == 0:
            if "WARNING: ThreadSanitizer" in self.err: return "san", first_report(self.err)
            return ("ok", "") if "DONE" in self.out else ("error", "no DONE line")
        if self.rc == 10: return "fail", next((l for l in self.out.splitlines() if l.startswith("FAIL")), "FAIL")
        if self.rc == 11: return "hang", "no progress: the case did not finish within its CPU time"
        if self.rc == 12: return "error", (self.out + self.err)[-500:]
        if self.rc == 77 or "ERROR: AddressSanitizer" in self.err or "runtime error:" in self.err or "WARNING: MemorySanitizer" in self.err:
            return "san", first_report(self.err)
        if self.rc == -9: return "killed", "the process was ended (memory?)"
        if self.rc < 0: return "crash", "the program died by signal %d" % -self.rc
        return "crash", "the program ended itself with status %d" % self.rc

def first_report(err):
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "WARNING: MemorySanitizer" in l:
            fr = [x.strip() for x in ls[i + 1:i + 40] if x.strip().startswith("#")]
            fr = [x for x in fr if "interceptor" not in x and "libasan" not in x and "libtsan" not in x][:3]
            return (l.strip() + " | " + " | ".join(fr))[:900]
    return (ls[0] if ls else "sanitizer exit without a report")[:400]

class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.lock = threading.Lock(); self.procs = set(); self.nruns = 0; self.stop = False
        self.b = Builder(scratch); self.t0 = time.time()
        self.budget = 760 if tier == "quick" else 6 * 3600
    def left(self): return max(30, self.budget - (time.time() - self.t0))

def jobs_of(pid, tier, seed):
    out = []
    for j in PROPS[pid]["jobs"]:
        for var in j["vars"]:
            n = j["n"] if tier == "quick" else j.get("n_thorough", j["n"] * 40)
            out.append(dict(bin=j["bin"], drv=j["drv"], san=j.get("san", "asan"), var=var, n=n,
                            seed=seed * 1000 + (1 if var == "rel" else 0) + (500 if j.get("san", "asan") != "asan" else 0),
                            par=j.get("par", 1), watchdog=j.get("watchdog", 30), memonly=j.get("memonly", 0)))
    return out

def pool(ctx, tasks, width):
    q = queue.Queue(); [q.put(t) for t in tasks]
    def work():
        while not ctx.stop:
            try: t = q.get_nowait()
            except queue.Empty: return
            t()
    ts = [threading.Thread(target=work) for _ in range(width)]
    [t.start() for t in ts]; [t.join() for t in ts]

def run_jobs(ctx, jobs):
    fails, done = [], []
    tasks = []
    width = max(1, CORES // max(j["par"] for j in jobs))
    for j in jobs:
        k = max(1, min(CORES // j["par"], j["n"]))
        for s in range(k):
            def t(j=j, s=s, k=k):
                r = Run(ctx, j, s, j["n"], k).go()
                v, m = r.verdict()
                with ctx.lock:
                    if v == "cancelled": return
                    done.append((r, v, m))
                    if v in ("fail", "hang", "san", "crash", "killed"):
                        fails.append((r, v, m))
                        ctx.stop = True
                        for p in list(ctx.procs):
                            try: os.killpg(p.pid, signal.SIGKILL)
                            except OSError: pass
                    elif v in ("error", "timeout"): ctx.stop = True
            tasks.append(t)
    pool(ctx, tasks, width)
    ctx.stop = False
    return fails, done

def confirm(ctx, r, v, m):
    """-> violation record or None"""
    nr, _, log = r.prog()
    j = r.job
    rec = dict(property=ctx.pid, tier=ctx.tier, bin=j["bin"], var=j["var"], san=j["san"], drv=j["drv"], seed=j["seed"], memonly=j.get("memonly", 0),
               case=nr, kind=v, message=m, oplog=log[-20000:], report=r.err[:12000])
    def again(frm, to, step):
        q = Run(ctx, j, frm, to, step).go()
        qv, qm = q.verdict()
        return qv in ("fail", "hang", "san", "crash"), qv, qm, q
    if nr is not None:
        hit, qv, qm, q = again(nr, nr + 1, 1)
        if hit:
            rec.update({"from": nr, "to": nr + 1, "step": 1, "reproduced": "single case", "kind": qv, "message": qm})
            if q.err: rec["report"] = q.err[:12000]
            return rec
        for _ in range(2):
            hit, qv, qm, q = again(r.frm, nr + 1, r.step)
            if hit:
                rec.update({"from": r.frm, "to": nr + 1, "step": r.step, "reproduced": "shard prefix", "kind": qv, "message": qm})
                return rec
    rec.update({"from": r.frm, "to": (nr if nr is not None else r.to) + 1, "step": r.step, "reproduced": "no"})
    if v in ("hang", "killed"): return None          # load of the machine, not of the code
    return rec

RAW = ("c16r", "c17r", "c18r")      # the bytes are the text itself
# ---- thorough tier: coverage-guided search over the draws of a case (libFuzzer), same monitors
def search(ctx, jobs, seconds):
    """-> (violation records, summary). What is found is repeated on the ordinary build."""
    legs = []
    for j in jobs:
        if j["san"] == "asan" and j["bin"] != "thr": legs.append(j)
    if not legs: return [], None
    extra = [dict(j, drv=j["drv"] + "r") for j in legs if j["drv"] in ("c16", "c17", "c18")]
    legs = (legs + extra)
    ctx.b.build(sorted({(j["bin"], j["var"], "fuzz") for j in legs}))
    out, runs, lock = [], [], threading.Lock()
    per = max(1, CORES // len(legs)) if len(legs) < CORES else 1
    budget = seconds * min(1.0, CORES / float(len(legs) * per))
    dic = os.path.join(HERE, "corpus", "json.dict")
    def one(j, k):
        exe = ctx.b.done[(j["bin"], j["var"], "fuzz")]
        tag = "%s-%s-%s" % (j["bin"], j["var"], j["drv"])
        corp = os.path.join(ctx.scratch, "corp-" + tag); os.makedirs(corp, exist_ok=True)
        d = os.path.join(ctx.scratch, "fz-%s-%d" % (tag, k)); os.makedirs(d)
        if j["drv"] in RAW and k == 0:
            b = open(os.path.join(HERE, "corpus", "seeds.bin"), "rb").read(); i = c = 0
            while i < len(b):
                n, = struct.unpack("<I", b[i:i + 4]); t = b[i + 4:i + 4 + n]; i += 4 + n; c += 1
                if n < 2000: open(os.path.join(corp, "s%d" % c), "wb").write(b"\x07" + t)
        env = dict(os.environ); env.update(ENVSAN); env.update(HX_DRV=j["drv"], HX_STATS=d + "/stats", HX_TMP=d, HX_MEMONLY="1" if j.get("memonly") else "0",
            HX_CORPUS=os.path.join(HERE, "corpus", "seeds.bin"), LC_ALL="C.UTF-8"); env.pop("LD_PRELOAD", None)
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("hard_rss_limit_mb=4000", "hard_rss_limit_mb=0")
        a = [exe, "-max_len=4096", "-len_control=0", "-max_total_time=%d" % budget, "-timeout=100", "-rss_limit_mb=3500", "-detect_leaks=0", "-reload=1",
             "-seed=%d" % (ctx.seed * 64 + k + 1), "-artifact_prefix=" + d + "/found-"] + (["-dict=" + dic] if j["drv"] in RAW else []) + [corp]
        with open(d + "/err", "wb") as e:
            p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=env, cwd=d, start_new_session=True)
            with ctx.lock: ctx.procs.add(p)
            try: p.wait(timeout=budget + 400)
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            with ctx.lock: ctx.procs.discard(p)
        err = open(d + "/err", errors="replace").read()
        ft = 0; ex = 0
        for l in err.splitlines():
            if l.startswith("#"):
                f = l.split()
                try: ex = max(ex, int(f[0][1:])); ft = max(ft, int(f[f.index("ft:") + 1]))
                except (ValueError, IndexError): pass
        try: cnt = dict(json.load(open(d + "/stats"))["counters"].get("list", []))
        except Exception: cnt = {}
        with lock: runs.append(dict(leg=tag, executions=ex, features=ft, cnt=cnt, rc=p.returncode))
        for f in sorted(glob.glob(d + "/found-crash-*") + glob.glob(d + "/found-timeout-*")):
            by = base64.b64encode(open(f, "rb").read()).decode()
            for var in (["mod", "rel"] if ctx.pid == "C30" else [j["var"]]):
                jj = dict(j, var=var, san="asan", seed=1, bytes=by)
                if (jj["bin"], jj["var"], "asan") not in ctx.b.done: continue
                r = Run(ctx, jj, 21, 22, 1).go(); v, m = r.verdict()
                if v in ("fail", "hang", "san", "crash"):
                    with lock: out.append(dict(property=ctx.pid, tier=ctx.tier, bin=j["bin"], var=var, san="asan", drv=j["drv"], seed=1, memonly=j.get("memonly", 0), case=21,
                        kind=v, message=m, oplog=r.prog()[2][-20000:], report=r.err[:12000], bytes=by, reproduced="bytes", **{"from": 21, "to": 22, "step": 1}))
                else:
                    with lock: runs.append(dict(leg=tag, executions=0, features=0, cnt={}, rc=p.returncode, unconfirmed=err[-1500:]))
    tasks = [lambda j=j, k=k: one(j, k) for k in range(per) for j in legs]
    pool(ctx, tasks, CORES)
    summ = {}
    for r in runs:
        e = summ.setdefault(r["leg"], dict(executions=0, features=0))
        e["executions"] += r["executions"]; e["features"] = max(e["features"], r["features"])
        if r.get("unconfirmed"): e.setdefault("not repeated on the ordinary build", []).append(r["unconfirmed"])
    known = {}
    for r in runs:
        for k, n in r["cnt"].items():
            if k.startswith("known:") and n: known[k] = known.get(k, 0) + n
    return out, dict(legs=summ, seconds=budget, known=known)

def write_replay(rec):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s-%s.json" % (rec["property"], rec["var"], rec["drv"], rec["case"]))
    json.dump(rec, open(p, "w"), indent=1)
    return p

def known_findings():
    out = {}
    for l in open(os.path.join(HERE, "known_findings.txt")):
        l = l.strip()
        if not l or l.startswith("#") or l.startswith("fixed:"): continue
        # known: property=<id> key=<key> <what fails>
        f = l.split(None, 3)
        out[(f[1].split("=")[1], f[2].split("=")[1])] = f[3]
    return out

# ---- C30: same cases, both builds, transcripts compared
def run_transcripts(ctx, jobs):
    """jobs: bin/drv/n ; -> (disagreements, done)"""
    res, lock, errs = {}, threading.Lock(), []
    runs = []
    def one(j, var, s, k):
        jj = dict(j, var=var)
        frm, got, restarts = s, {}, 0
        while frm < j["n"] and not ctx.stop:
            r = Run(ctx, jj, frm, j["n"], k).go(transcript=True)
            v, m = r.verdict()
            with lock: runs.append((r, v, m))
            try:
                for l in open(r.d + "/tr"):
                    a = l.split()
                    if len(a) == 3: got[int(a[0])] = (a[1], a[2])
            except OSError: pass
            if v == "ok": break
            if v in ("error", "timeout", "cancelled"): errs.append(m); break
            nr = r.prog()[0]
            if nr is None or nr < frm: errs.append("no progress record"); break
            got[nr] = ("died", v)
            frm = nr + k
            restarts += 1
            if restarts > 12: break
        with lock: res.setdefault((j["bin"], j["drv"], s), {})[var] = (got, jj)
    tasks = []
    for j in jobs:
        k = max(1, min(CORES, j["n"]))
        for s in range(k):
            for var in ("mod", "rel"): tasks.append(lambda j=j, var=var, s=s, k=k: one(j, var, s, k))
    pool(ctx, tasks, CORES)
    if errs: raise NoVerdict(errs[0])
    dis, compared, sigs = [], 0, set()
    for (b, drv, s), d in sorted(res.items()):
        if "mod" not in d or "rel" not in d: continue
        a, r = d["mod"][0], d["rel"][0]
        for nr in sorted(set(a) & set(r)):
            compared += 1
            sigs.add((drv, a[nr][1]))
            x, y = a[nr][0], r[nr][0]
            if x != y: dis.append((b, drv, nr, a[nr], r[nr], d["mod"][1]))
    return dis, compared, sigs, runs

def check_c30(ctx):
    jobs = jobs_of("C30", ctx.tier, ctx.seed)
    seen = {}
    for j in jobs: seen.setdefault((j["bin"], j["drv"]), dict(j, seed=ctx.seed * 1000 + 7))
    jobs = list(seen.values())
    ctx.b.build(sorted({(j["bin"], v, "asan") for j in jobs for v in ("mod", "rel")}))
    dis, compared, sigs, runs = run_transcripts(ctx, jobs)
    viol = []
    for b, drv, nr, x, y, j in dis[:5]:
        outs, logs = [], []
        for var in ("mod", "rel"):
            r = Run(ctx, dict(j, var=var), nr, nr + 1, 1).go(transcript=True)
            v, m = r.verdict(); logs.append(r.prog()[2])
            try: outs.append(open(r.d + "/tr").read().split()[1] if v == "ok" else "died")
            except (OSError, IndexError): outs.append("died")
        if outs[0] != outs[1]:
            viol.append(dict(property="C30", tier=ctx.tier, bin=b, var="both", san="asan", drv=drv, seed=j["seed"], case=nr, kind="differs",
                             message="modules and single-file release differ: %s vs %s" % tuple(outs), oplog=logs[0][-20000:], oplog_release=logs[1][-20000:],
                             report="", **{"from": nr, "to": nr + 1, "step": 1}))
            break
    cov = dict(evaluations=compared, distinct_nontrivial=len(sigs))
    return viol, cov, runs

def merge_stats(runs):
    cases = nontriv = ops = 0; cnt = {}; samples = []; sigs = set(); track = None
    for r, v, m in runs:
        s = r.stats()
        if not s: continue
        cases += s["cases"]; ops += s["ops"]; nontriv += s["nontrivial"]
        sigs |= r.hashes()
        track = s["track"] if track is None else min(track, s["track"])
        for nm, val in s["counters"].get("list", []):
            if nm.startswith("known:") and (r.job.get("memonly") or r.ctx.pid in ("C05", "C30")): continue     # judged by its own property's check
            if nm.startswith("max:"): cnt[nm] = max(cnt.get(nm, 0), val)
            else: cnt[nm] = cnt.get(nm, 0) + val
        for x in s["samples"]:
            if len(samples) < 3: samples.append(dict(x, driver=r.job["drv"], variant=r.job["var"]))
    return cases, nontriv, ops, cnt, samples, sigs, track

def evidence(ctx, cov, nviol):
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    p = PROPS[ctx.pid]
    e = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov,
             assumptions=p.get("assumptions", []), wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    tmp = os.path.join(d, ".%s.tmp" % ctx.pid)
    json.dump(e, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(d, ctx.pid + ".json"))

def check(pid, tier, seed):
    p = PROPS[pid]
    scratch = tempfile.mkdtemp(prefix="ceechk-")
    ctx = Ctx(pid, tier, seed, scratch)
    try:
        viol, unconfirmed = [], []
        if pid == "C30":
            viol, base, runs = check_c30(ctx)
        else:
            jobs = jobs_of(pid, tier, seed)
            ctx.b.build(sorted({(j["bin"], j["var"], j["san"]) for j in jobs}))
            fails, runs = run_jobs(ctx, jobs)
            for r, v, m in fails[:4]:
                rec = confirm(ctx, r, v, m)
                if rec: viol.append(rec); break
                unconfirmed.append("%s %s case %s: %s" % (r.job["drv"], r.job["var"], r.prog()[0], m))
            if not viol:
                for r, v, m in runs:
                    if v in ("error", "timeout"): raise NoVerdict("%s %s: %s" % (r.job["drv"], r.job["var"], m))
                if unconfirmed: raise NoVerdict("not reproducible: " + unconfirmed[0])
            base = None
        found = None
        if tier == "thorough" and not viol and pid != "C30":
            v2, found = search(ctx, jobs, float(os.environ.get("VERIF_SEARCH_SECONDS", "900")))
            viol += v2[:3]
        cases, nontriv, ops, cnt, samples, sigs, track = merge_stats(runs)
        kf = known_findings()
        known = {k[6:]: v for k, v in cnt.items() if k.startswith("known:")}
        for k, n in known.items():
            if n and (pid, k) not in kf:
                viol.append(dict(property=pid, tier=tier, bin="", var="", san="", drv=k, seed=seed, case=0, kind="unlisted finding", message=k, oplog="", report=""))
        if found and pid not in ("C01", "C05"):
            for k, n in found.pop("known").items():
                if (pid, k[6:]) not in kf: viol.append(dict(property=pid, tier=tier, bin="", var="", san="", drv=k, seed=seed, case=0, kind="unlisted finding", message=k, oplog="", report=""))
        events = {k: v for k, v in sorted(cnt.items()) if not k.startswith("known:")}
        cov = dict(evaluations=cases, distinct_nontrivial=len(sigs), rule=p["rule"], samples=samples)
        if base: cov.update(base)
        cov.update(operations=ops, events=events, builds=sorted({"%s/%s/%s" % (r.job["bin"], r.job["var"], r.job["san"]) for r, _, _ in runs}),
                   allocation_monitor="on" if track else "off", known_findings_seen=sorted(k for k, n in known.items() if n))
        if found: cov["coverage_guided_search"] = found
        if viol:
            cov["violation"] = {k: viol[0][k] for k in ("kind", "message", "var", "drv", "case")}
        evidence(ctx, cov, len(viol))
        for (q, k), what in kf.items():
            if q == pid and known.get(k): print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if viol:
            for rec in viol[:3]:
                path = write_replay(rec)
                print("%s: %s [%s %s %s case %s]" % (rec["kind"], rec["message"], rec["bin"], rec["var"], rec["drv"], rec["case"]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        missing = [k for k in p.get("need", []) if not cnt.get(k)]
        if not cases or not cov["distinct_nontrivial"] or missing: raise NoVerdict("nothing observed: " + ", ".join(missing))
        print("%s: held on %d cases (%d distinct), %d operations, %.1fs" % (pid, cov["evaluations"], cov["distinct_nontrivial"], ops, time.time() - ctx.t0))
        return 0
    except NoVerdict as e:
        print("NO VERDICT %s: %s" % (pid, e))
        try: evidence(ctx, dict(evaluations=0, distinct_nontrivial=0, rule=p["rule"], samples=[], explanation="no verdict: " + str(e)[:1500]), 0)
        except OSError: pass
        return 2
    finally:
        for pr in list(ctx.procs):
            try: os.killpg(pr.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(scratch, ignore_errors=True)

def replay(path):
    rec = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="ceechk-")
    ctx = Ctx(rec["property"], rec["tier"], 0, scratch)
    try:
        vs = ["mod", "rel"] if rec["var"] == "both" else [rec["var"]]
        ctx.b.build([(rec["bin"], v, rec["san"]) for v in vs])
        outs = []
        for v in vs:
            r = Run(ctx, dict(rec, var=v, trace=1), rec["from"], rec["to"], rec["step"]).go(transcript=len(vs) > 1)
            outs.append((r.verdict(), open(r.d + "/tr").read() if len(vs) > 1 and os.path.exists(r.d + "/tr") else ""))
            print(v, outs[-1]); print(r.prog()[2]); print(r.err[:6000])
        bad = outs[0] != outs[1] if len(vs) > 1 else outs[0][0][0] != "ok"
        if bad: print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1 if bad else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]: return replay(a[1])
    if a[:1] == ["--selftest-build"]:
        scratch = tempfile.mkdtemp(prefix="ceechk-")
        try:
            ctx = Ctx("", "quick", 1, scratch)
            w = sorted({(j["bin"], v, j.get("san", "asan")) for p in PROPS.values() for j in p["jobs"] for v in j["vars"]})
            ctx.b.build(w); print("built", len(w), "monitored programs"); return 0
        finally: shutil.rmtree(scratch, ignore_errors=True)
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--seed": seed = int(a[i + 1])
    def term(s, f): raise SystemExit(2)
    signal.signal(signal.SIGTERM, term)
    return check(pid, tier, seed)
if __name__ == "__main__": sys.exit(main())
