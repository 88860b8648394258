"""Building the harness, running TLC, running scenarios and checking their recordings, evidence."""
import json, os, re, resource, subprocess, sys, threading, time, random, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
MBT = os.path.join(HARNESS, "target", "debug", "mbt")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = os.cpu_count() or 4
T_START = time.time()
SERVER = False      # is the server itself built?


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T_START), *a, flush=True)


class Work:
    """scratch directory of one check; removed at the end unless a violation refers to it"""
    def __init__(self, pid):
        self.dir = os.path.join(ROOT, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------------
def build():
    """the harness with the code under test, hooks on; falls back to the locks of std where the tree mixes the two"""
    global SERVER
    t = time.time()
    out = ""
    hooks, std = "--cfg monolith_verif", "--cfg monolith_verif --cfg monolith_verif_std"
    for flags, what in ((hooks, []), (std, []), (hooks, ["--bin", "mbt"]), (std, ["--bin", "mbt"])):
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS=flags, PWD=HARNESS)
        env.pop("CARGO_TARGET_DIR", None)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + what, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=800)
        if p.returncode == 0:
            SERVER = not what
            log("built harness (%s%s) in %.1fs" % (flags, "" if SERVER else ", without the server", time.time() - t))
            return "std" not in flags
        out = p.stdout.decode(errors="replace")
    raise ToolError("the harness does not build:\n" + "\n".join(
        l for l in out.splitlines() if "error" in l)[:4000] + out[-3000:])


# ---------------------------------------------------------------------------------------------------------------------
def tlc(module, cfg, metadir, workers=1, env=None, timeout=600, args=(), mem="2g", gc=None):
    gc = gc or ("-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC")
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", gc, "-Xmx" + mem, "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace"), -1
    shutil.rmtree(metadir, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model(work, module, cfg, workers=2, timeout=600, mem="4g"):
    """exhaustive check of a design; (states, transitions) or ToolError: a design that fails is a broken check"""
    t = time.time()
    rc, out = tlc(module + ".tla", cfg, work.path("md-" + cfg.replace("/", "_"), "x"), workers, timeout=timeout, mem=mem)
    gen, dist = tlc_counts(out)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("TLC on %s/%s: rc %s\n%s" % (module, cfg, rc, out[-3000:]))
    log("model %s/%s: %d distinct states, %d transitions, %.1fs" % (module, cfg, dist, gen, time.time() - t))
    return {"model": module, "cfg": cfg, "states": dist, "transitions": gen}


def control(work, module, cfg):
    """a design with a mistake, which the model checker has to find"""
    rc, out = tlc(module + ".tla", cfg, work.path("md-" + cfg, "x"), 2, timeout=600, mem="4g")
    gen, dist = tlc_counts(out)
    m = re.search(r"Error: (Invariant \w+ is violated|Deadlock reached|Temporal properties were violated|Action property \w+ is violated)", out)
    if not m:
        raise ToolError("TLC does not find the mistake in %s/%s: rc %s\n%s" % (module, cfg, rc, out[-3000:]))
    log("control %s/%s: %s" % (module, cfg, m.group(1)))
    return {"model": module, "cfg": cfg, "states": dist, "transitions": gen, "found": m.group(1)}


def generate(work, module, cfg, num, depth, seed, name, subst=None, steps=None):
    """behaviours of a model, written by TLC's simulator as JSON, one per line"""
    f = work.path("gen-%s.ndjson" % name)
    c = work.path("gen-%s.cfg" % name)
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in dict(subst or {}, GenFile='"%s"' % f, GenDepth=depth).items():
        text = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, lambda m: m.group(1) + " " + str(v), text)
    text = re.sub(r"(?m)^(INVARIANTS?|PROPERTY|PROPERTIES|VIEW).*$", "", text) + "\nINVARIANT Emit\n"
    open(c, "w").write(text)
    rc, out = tlc(module + ".tla", c, work.path("mdg-" + name, "x"), 1, timeout=300,
                  args=["-simulate", "num=%d" % num, "-depth", str(steps or depth + 1), "-seed", str(seed)])
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('"'):
                l = json.loads(l)
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    if not res:
        raise ToolError("TLC generated nothing from %s: %s" % (module, out[-2000:]))
    return res


# ---------------------------------------------------------------------------------------------------------------------
WRONG = re.compile(r'<<\s*"WRONG",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def check_trace(work, module, cfg, trace, env=None, timeout=600, mem="2g", linear=True):
    """TLC over a recording; list of (event number, kinds). Raises ToolError when TLC did not read it to the end."""
    e = dict(env or {}, TRACE=trace)
    rc, out = tlc(module + ".tla", cfg, work.path("mdt-" + os.path.basename(trace), "x"), 1, e, timeout=timeout, mem=mem)
    wrong = [(int(n), set(re.findall(r'"([^"]+)"', k))) for n, k in WRONG.findall(out)]
    n = sum(1 for _ in open(trace))
    if not linear:
        if "No error has been found" not in out:
            raise ToolError("TLC did not finish %s\n%s" % (trace, out[-3000:]))
        return wrong
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if not m or int(m.group(1)) != n + 1:
        raise ToolError("TLC did not read %s to the end (%s of %d events)\n%s" % (trace, m and m.group(1), n, out[-3000:]))
    return wrong


def run_mbt(mode, script, out, scratch, timeout, extra=()):
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, TMPDIR=scratch)
    try:
        lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))) if mode in ("pack", "wal") else None
        p = subprocess.run([MBT, mode, script, out, scratch] + list(extra), env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        rc, err = p.returncode, p.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = -999, "time limit"
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, err


class Finding:
    def __init__(self, kinds, scenario, events, at, part):
        self.kinds, self.scenario, self.events, self.at, self.part = kinds, scenario, events, at, part


def record_and_check(work, name, mode, scenarios, module, cfg, kinds, shards=None, timeout=400, env=None, extra=(), post=None,
                     start="scenario", linear=True):
    """runs scenarios against the real code and checks what was recorded; (findings, coverage)"""
    if not scenarios:
        return [], {"scenarios": 0, "events": 0}
    shards = min(shards or CORES, len(scenarios))
    parts = [scenarios[i::shards] for i in range(shards)]

    def one(k):
        script, out = work.path("%s-%d.script" % (name, k)), work.path("%s-%d.trace" % (name, k))
        with open(script, "w") as f:
            for s in parts[k]:
                f.write(json.dumps(s) + "\n")
        open(out, "w").close()
        rc, err = run_mbt(mode, script, out, work.path("s-%s-%d" % (name, k), "x"), timeout, extra)
        lines = [l for l in open(out, errors="replace").read().split("\n") if l.strip()]
        evs = []
        for l in lines:
            try:
                evs.append(json.loads(l))
            except ValueError:
                pass
        if rc == -999:
            raise ToolError("harness mode %s exceeded its time limit on %s" % (mode, name))
        if rc != 0 and not (evs and evs[-1]["e"] in ("hang", "died")):
            if not evs or rc == 101:
                raise ToolError("harness mode %s failed with %s: %s" % (mode, rc, err))
            evs.append({"e": "died"})
        if post:
            evs = post(evs)
        with open(out, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        wrong = check_trace(work, module, cfg, out, env, linear=linear) if evs else []
        return evs, wrong, parts[k]

    t = time.time()
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    findings, nev, nq, samples = [], 0, 0, []
    byid = {s["id"]: s for s in scenarios}
    for evs, wrong, _ in res:
        nev += len(evs)
        starts = [i for i, e in enumerate(evs) if e["e"] == start]
        if evs and len(samples) < 2:
            samples.append(evs[1:4])
        for n, ks in wrong:
            hit = ks & kinds if kinds is not None else ks
            if hit:
                s = max([i for i in starts if i <= n - 1], default=0)
                findings.append(Finding(hit, byid.get(evs[s].get("id")), evs[s:n], n - s, name))
    log("%s: %d scenarios, %d events, %d findings, %.1fs" % (name, len(scenarios), nev, len(findings), time.time() - t))
    hs = sum(1 for evs, _, _ in res for e in evs if e["e"] == start)
    # scenarios in which something went wrong or the database was stopped: a failing access, a kill, a refused open, a restart
    odd, crashes, faults, opens = set(), 0, 0, 0
    for evs, _, _ in res:
        cur = None
        for e in evs:
            if e["e"] == start:
                cur, opens = e.get("id"), 0
            kill = e["e"] == "stop" and e.get("how") == "kill"
            fault = bool(e.get("f"))
            crashes += kill
            faults += fault
            opens += e["e"] in ("open", "start")
            if kill or fault or opens > 1:
                odd.add(cur)
    return findings, {"part": name, "scenarios": hs, "with_faults_or_restarts": len(odd), "crashes": crashes, "calls_with_faults": faults, "scripts": len(scenarios), "events": nev, "samples": samples}


# ---------------------------------------------------------------------------------------------------------------------
def write_evidence(pid, level, coverage, assumptions, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - T_START, 1), "violations": violations}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def parallel(*fns):
    """runs the functions in threads, returns their results, raises the first error"""
    with ThreadPoolExecutor(len(fns)) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]
