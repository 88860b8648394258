#!/usr/bin/env python3
"""check.py <property>: decides one property on the tree in /repo. See DESIGN.md."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, gen, gen_pack, gen_parts, gen_server, gen_wal
from lib import THOROUGH, SEED, log

ALWAYS = {"panic", "hang", "died"}
ALL = {"missing", "extra", "outside", "dup", "rows", "rowdup", "emptyrow", "labels", "order", "qerr", "wack", "wrefuse",
       "range", "dirs", "open", "unchanged", "prefix"} | ALWAYS
KINDS = {
    "C01": {"missing", "qerr"},
    "C02": {"extra", "outside", "dup", "rowdup", "labels", "rows"},
    "C03": {"rows", "emptyrow", "qerr", "missing", "labels", "extra", "rowdup"},
    "C04": {"labels", "extra", "rows", "rowdup", "missing", "dup"},
    "C05": {"order", "dup", "rowdup", "emptyrow"},
    "C06": {"outside", "missing", "qerr", "extra", "rows"},
    "C07": {"wack", "wrefuse", "missing", "extra"},
    "C10": ALL, "C11": ALL, "C12": ALL,
    "C13": ALL, "C14": ALL,
    "C15": {"rows", "missing", "extra", "outside", "dup", "order", "labels", "rowdup", "emptyrow", "refused", "readerr", "results",
            "matcher", "asequal"},
    "C16": {"gone", "silent", "accepted", "extra", "missing", "rows", "refused", "readerr", "results"},
    "C20": ALL | {"gone", "silent", "refused", "readerr", "results", "accepted", "backend", "exit"},
    "C17": {"layout", "lossy", "unreadable", "error"},
    "C18": {"header", "frames", "late", "checksum", "error"},
    "C19": {"range", "dirs", "missing", "extra", "wack", "qerr", "dup", "rows"},
}
TRACE_ASSUME = ["the stand-in for the TiKV client behaves like a linearizable key-value store",
                "sled and the standard library are trusted", "abstract times map one to one to 64-bit timestamps"]


def scenarios(pid, plan, seed):
    """plan: list of (generator, count, keyword arguments)"""
    res = []
    for n, (fn, count, kw) in enumerate(plan):
        for k in range(count * (8 if THOROUGH else 1)):
            r = random.Random("%s/%s/%d/%d" % (seed, fn.__name__, n, k))
            kw2 = dict(kw)
            be = kw2.pop("backends", gen.BACKENDS)
            sc = fn(r, "%s-%s%d-%d" % (pid, fn.__name__, n, k), be[k % len(be)], **kw2)
            if "dbs" not in sc:
                sc.setdefault("dirname", r.choice(gen.DIRNAMES))
            res.append(sc)
    random.Random(seed).shuffle(res)
    return res


def tlc_scenarios(work, pid, num, seed, restarts=False):
    """behaviours of MonolithImpl generated by TLC, as scripts"""
    res = []
    for kind in ("sled", "tikv"):
        n = num * (8 if THOROUGH else 1)
        scripts = lib.generate(work, "MonolithImpl", "Gen_Monolith.cfg", n, 16, seed, kind,
                               {"Kind": '"%s"' % kind, "MaxRestarts": 2 if restarts else 0})
        for k, s in enumerate(scripts):
            r = random.Random("%s/%s/%d" % (seed, kind, k))
            other = r.choice(["sled", "tikv"])
            sc = {"id": "%s-tlc-%s%d" % (pid, kind, k), "store": kind, "index": other, "size": 3, "t0": r.choice(gen.T0S),
                  "ops": gen.from_tlc(s, "", None, 0)}
            for p in ("a", "b"):
                for v in ("x", "y"):
                    sc["ops"].append({"op": "query", "m": [[p, v]], "s": gen.ZERO, "t": gen.UMAX})
            res.append(sc)
    return res


SEQ = {
    "C01": [(gen.mixed, 40, {}), (gen.mixed, 12, {"nops": 60}), (gen.longseries, 8, {}), (gen.rotations, 16, {}), (gen.windows, 8, {}),
            (gen.manyseries, 4, {}), (gen.restarts, 16, {"resize": True}), (gen.manychunks, 8, {}), (gen.overlap, 4, {}), (gen.far, 4, {})],
    "C02": [(gen.mixed, 40, {}), (gen.mixed, 20, {"tricky": True}), (gen.longseries, 8, {}), (gen.rotations, 12, {}),
            (gen.windows, 8, {}), (gen.hugeindex, 4, {}), (gen.overlap, 12, {})],
    "C03": [(gen.hugeindex, 2, {"n": 1150, "backends": [("sled", "sled"), ("tikv", "tikv")]}), (gen.hugeindex, 4, {}), (gen.matchers, 24, {}), (gen.manyseries, 14, {}), (gen.mixed, 24, {"nseries": 9}), (gen.windows, 8, {})],
    "C04": [(gen.mixed, 64, {"tricky": True}), (gen.mixed, 16, {"nseries": 12, "tricky": True}), (gen.matchers, 8, {}),
            (gen.rotations, 8, {}), (gen.restarts, 4, {}), (gen.hugeindex, 4, {})],
    "C05": [(gen.overlap, 10, {}), (gen.manychunks, 4, {}), (gen.mixed, 32, {}), (gen.longseries, 12, {}), (gen.rotations, 24, {}), (gen.restarts, 4, {}),
            (gen.far, 4, {})],
    "C06": [(gen.windows, 48, {}), (gen.longseries, 12, {}), (gen.mixed, 16, {}), (gen.far, 8, {})],
    "C07": [(gen.mixed, 48, {"rotate": 0.08}), (gen.rotations, 28, {}), (gen.longseries, 6, {}), (gen.windows, 4, {}), (gen.far, 12, {})],
    "C19": [(gen.manychunks, 8, {}), (gen.rotations, 60, {}), (gen.mixed, 24, {"rotate": 0.4}), (gen.restarts, 6, {}), (gen.far, 12, {})],
}

# no guarantee stops at a restart, a rotation, a crash or a backend that fails: every property sees some of each
for _p in SEQ:
    SEQ[_p] = SEQ[_p] + [(gen.restarts, 4, {}), (gen.rotations, 4, {}), (gen.overlap, 4, {}), (gen.manychunks, 4, {}), (gen.far, 4, {}),
                         (gen.faults, 28, {}), (gen.crashes, 8, {}), (gen.matchers, 4, {})]


PARTS = {
    "C01": [(gen_parts.storages, 24), (gen_parts.chunks, 24)],
    "C02": [(gen_parts.storages, 24), (gen_parts.chunks, 24)],
    "C03": [(gen_parts.lists, 24), (gen_parts.indexes, 40)],
    "C04": [(gen_parts.indexes, 64)],
    "C05": [(gen_parts.storages, 32), (gen_parts.chunks, 16)],
    "C06": [(gen_parts.storages, 40), (gen_parts.chunks, 24)],
    "C07": [(gen_parts.storages, 24), (gen_parts.chunks, 40)],
    "C14": [(gen_parts.storages_shared, 24), (gen_parts.indexes_shared, 24), (gen_parts.chunks_shared, 24)],
    "C19": [(gen_parts.dirs, 12), (gen_parts.chunks, 40)],
}
PARTS_KINDS = {"C03": {"common"}, "C04": {"identity"}, "C14": {"attach", "make", "identity", "frozen"}, "C19": {"dirname", "frozen"}}


DESIGNS = {
    "C08": [("ConcImpl", [], ["early", "nolock", "order", "late"])], "C09": [("ConcImpl", [], ["nolock"])],
    "C11": [("ChunkImpl", ["q1", "q2", "q3"], [1, 2, 4]), ("OpenImpl", ["q1", "q2"], [1, 2, 3, 4])],
    "C13": [("ChunkImpl", ["q1", "q2", "q3"], [1, 2, 3, 4]), ("OpenImpl", ["q2"], [5])],
}
DESIGNS.update({"C14": [("Shared", [], [1, 2, 3, 4])], "C17": [("GorillaModel", [], [1, 2, 3])],
                "C16": [("PoolModel", ["q1", "q2"], [1, 2, 3])], "C18": [("WalModel", [], [1, 2, 3, 4, 5, 6, 7])], "C20": [("ServerModel", [], [1, 2, 3, 4])]})
DESIGNS.update({p: [("MonolithImpl", [], [1, 2, 3, 4, 5, 6])] for p in ("C01", "C02", "C05", "C10")})


def designs(work, pid):
    """further models of a property; in the thorough tier also the ones with mistakes, which TLC has to find"""
    res = []
    for module, good, bad in DESIGNS.get(pid, []):
        name = module.replace("Impl", "").replace("Model", "")
        res += [lambda c="MC_%s_%s.cfg" % (name, c), m=module: lib.model(work, m, c, 2)
                for c in good + (["t1"] if THOROUGH and good else [])]
        if THOROUGH:
            res += [lambda c="MC_%s_f%s.cfg" % (name, c), m=module: lib.control(work, m, c) for c in bad]
    return res


def parts_scenarios(work, pid):
    res = []
    for n, (fn, count) in enumerate(PARTS[pid]):
        for k in range(count * (8 if THOROUGH else 1)):
            r = random.Random("%s/%s/%s/%d/%d" % (SEED, pid, fn.__name__, n, k))
            res.append(fn(r, "%s-%s%d" % (pid, fn.__name__, k)))
    if pid == "C14":
        hs = lib.generate(work, "Shared", "Gen_Shared.cfg", 60 * (8 if THOROUGH else 1), 40, SEED, "shared")
        res += [gen_parts.from_tlc(random.Random("%s/%d" % (SEED, k)), "C14-tlc%d" % k, h) for k, h in enumerate(hs)]
    random.Random(SEED).shuffle(res)
    return res


SERVED = {
    "C10": [(gen_server.restarts, 16, {})],
    "C12": [(gen_server.others, 16, {})],
    "C15": [(gen_server.requests, 24, {})],
    "C19": [(gen_server.rotations, 24, {})],
    "C20": [(gen_server.options, 48, {}), (gen_server.requests, 24, {}), (gen_server.restarts, 8, {}), (gen_server.others, 8, {}),
            (gen_server.rotations, 8, {})],
}


def access_scenarios(work, pid):
    """behaviours of ChunkImpl and OpenImpl generated by TLC: failing accesses and deaths at any step"""
    res = []
    mul = 8 if THOROUGH else 1
    for fn, module, num, depth, steps, subst in ACCESS.get(pid, []):
        for be in gen.BACKENDS:
            hs = lib.generate(work, module, "Gen_%s.cfg" % module.replace("Impl", ""), num * mul, depth, SEED, "%s-%s-%s" % ((module,) + be),
                              subst(*be), steps=steps)
            res += [fn(random.Random("%s/%s/%s/%d" % (SEED, pid, be, k)), "%s-%s-%s-%s%d" % ((pid, fn.__name__) + be + (k,)), be, h)
                    for k, h in enumerate(hs)]
    random.Random(SEED).shuffle(res)
    return res


def chunk_subst(store, index):
    return {"Store": '"%s"' % store, "Index": '"%s"' % index}


def open_subst(store, index):
    return {"Shared": "TRUE" if "tikv" in (store, index) else "FALSE"}


ACCESS = {
    "C11": [(gen.from_chunk, "ChunkImpl", 14, 6, 200, chunk_subst), (gen.from_open, "OpenImpl", 12, 8, 300, open_subst)],
    "C13": [(gen.from_chunk, "ChunkImpl", 24, 6, 200, chunk_subst), (gen.from_open, "OpenImpl", 8, 8, 300, open_subst)],
}
for _p in ("C01", "C02", "C03", "C04", "C05", "C07"):
    ACCESS[_p] = [(gen.from_chunk, "ChunkImpl", 8, 6, 200, chunk_subst)]


def served(work, pid):
    """scenarios with the server as a process of its own"""
    if pid not in SERVED or not lib.SERVER:
        return [], {"part": "server", "scenarios": 0, "events": 0}
    kinds = KINDS[pid] | ALWAYS | {"gone", "silent"}
    return lib.record_and_check(work, "server", "server", scenarios(pid, SERVED[pid], SEED), "TraceServer", "TraceServer.cfg", kinds,
                                shards=SHARDS.get("server"), timeout=700)


def over_http(work, pid):
    """scenarios of other properties that go through the server"""
    if pid not in HTTP:
        return [], {"part": "http", "scenarios": 0, "events": 0}
    return lib.record_and_check(work, "http", "http", scenarios(pid, HTTP[pid], SEED), "TraceServer", "TraceServer.cfg",
                                KINDS[pid] | ALWAYS | {"gone", "silent", "refused", "readerr", "results"}, shards=SHARDS.get(pid), timeout=700)


def server_check(pid):
    def run(work):
        t = lib.parallel(lib.build, lambda: lib.generate(work, "ServerModel", "Gen_Server.cfg", 140 * (8 if THOROUGH else 1), 16, SEED, "server"),
                         lambda: lib.model(work, "ServerModel", "MC_Server_%s.cfg" % ("t1" if THOROUGH else "q1"), 2), *designs(work, pid))
        if not lib.SERVER:
            raise lib.ToolError("the server does not build")
        f, c = served(work, pid)
        scs = [gen_server.from_tlc(random.Random("%s/%d" % (SEED, k)), "%s-tlc%d" % (pid, k), h) for k, h in enumerate(t[1])]
        f2, c2 = lib.record_and_check(work, "tlc", "server", scs, "TraceServer", "TraceServer.cfg", KINDS[pid] | ALWAYS,
                                      shards=SHARDS.get("server"), timeout=700)
        return f + f2, coverage(t[2:], [c, c2])
    return run


def seq_check(pid, models, plan, tlc_num=25, restarts=False):
    def run(work):
        kinds = KINDS[pid] | ALWAYS
        parts = (lambda: parts_scenarios(work, pid)) if pid in PARTS else (lambda: [])
        extra = [lambda: lib.model(work, "Shared", "MC_Shared_%s.cfg" % ("t1" if THOROUGH else "q1"), 2)] if pid == "C14" else []
        t = lib.parallel(lib.build, lambda: (tlc_scenarios(work, pid, tlc_num, SEED, restarts) if tlc_num else []) + access_scenarios(work, pid),
                         parts, *[lambda c=c: lib.model(work, "MonolithImpl", c, 2) for c in models], *extra, *designs(work, pid))
        scs = scenarios(pid, plan, SEED)
        f0, c0 = lib.record_and_check(work, "parts", "parts", t[2], "TraceParts", "TraceParts.cfg", kinds | PARTS_KINDS.get(pid, set()))
        f1, c1 = lib.record_and_check(work, "tlc", "seq", t[1], "TraceMonolith", "TraceMonolith.cfg", kinds)
        f2, c2 = lib.record_and_check(work, "random", "seq", scs, "TraceMonolith", "TraceMonolith.cfg", kinds, shards=SHARDS.get(pid))
        f3, c3 = served(work, pid)
        f4, c4 = over_http(work, pid)
        return f0 + f1 + f2 + f3 + f4, coverage(t[3:], [c0, c1, c2, c3, c4])
    return run


def conc_scenarios(work, pid, ticks, num, runs, per_db):
    """programs and schedules generated by TLC from ConcImpl"""
    num *= 8 if THOROUGH else 1
    by = {}
    for b in lib.generate(work, "ConcImpl", "Gen_Conc.cfg", num, 200, SEED, "conc", {"Ticks": ticks}):
        by.setdefault(json.dumps(b["prog"]), []).append([e for e in b["guide"]])
    res = []
    for k, p in enumerate(sorted(by)):
        for be in gen.BACKENDS:
            r = random.Random("%s/%s/%s" % (SEED, p, be))
            sc = gen.conc_tlc(r, "%s-tlc%d-%s-%s" % (pid, k, be[0], be[1]), be, json.loads(p), by[p], ticks, runs, per_db)
            res.append(sc)
    random.Random(SEED).shuffle(res)
    return res


def conc_check(pid, models, plan, tlc):
    """histories of threads whose steps are controlled, against linearizability with respect to Monolith.tla"""
    def run(work):
        kinds = {"history"} | ALWAYS
        t = lib.parallel(lib.build, lambda: conc_scenarios(work, pid, *tlc), *[lambda c=c: lib.model(work, "ConcImpl", c, 2) for c in models],
                         *designs(work, pid))
        scs = t[1] + scenarios(pid, plan, SEED)
        f, c = lib.record_and_check(work, "threads", "conc", scs, "TraceConc", "TraceConc.cfg", kinds, start="history", linear=False,
                                    timeout=700)
        return f, coverage(t[2:], [c])
    return run


def http_check(pid, models, plan):
    """requests to the real server over real connections"""
    def run(work):
        kinds = KINDS[pid] | ALWAYS
        t = lib.parallel(lib.build, *[lambda c=c: lib.model(work, "MonolithImpl", c, 2) for c in models], *designs(work, pid))
        f, c = lib.record_and_check(work, "http", "http", scenarios(pid, plan, SEED), "TraceServer", "TraceServer.cfg", kinds,
                                    shards=SHARDS.get(pid), timeout=700)
        f3, c3 = served(work, pid)
        return f + f3, coverage(t[1:], [c, c3])
    return run


def pack_check():
    def run(work):
        kinds = KINDS["C17"] | ALWAYS
        mul = 10 if THOROUGH else 1
        rnd = lambda *a: random.Random("%s/%s" % (SEED, a))
        series = [gen_pack.scenario(rnd("s", k), "C17-s%d" % k) for k in range(1200 * mul)]
        series += [gen_pack.scenario(rnd("l", k), "C17-l%d" % k, "gorilla", 120 + k) for k in range(16 * mul)]
        longs = [dict(gen_pack.scenario(rnd("x", k), "C17-x%d" % k, ["gorilla", "gorilla", "none"][k % 3], n), long=True)
                 for k, n in enumerate([260, 700, 1030, 2060, 4100, 8200, 9001, 16400, 33000, 66000, 66001, 66002] * (4 if THOROUGH else 1))]
        known = [gen_pack.scenario(rnd("d", k), "C17-d%d" % k, "gorilla", 1 + k % 24) for k in range(400 * mul)]

        def streams():
            parts = [known[k::4] for k in range(4)]
            def one(k):
                a, b = work.path("series-%d" % k), work.path("streams-%d" % k)
                with open(a, "w") as f:
                    f.writelines(json.dumps(s) + "\n" for s in parts[k])
                rc, out = lib.tlc("GenGorilla.tla", "GenGorilla.cfg", work.path("mdg-%d" % k, "x"), 1, {"SERIES": a, "STREAMS": b},
                                  timeout=800, args=["-seed", str(SEED)])
                if not os.path.exists(b):
                    raise lib.ToolError("no streams: " + out[-2000:])
                return [dict(json.loads(l), kind="gorilla") for l in open(b)]
            return [s for p in lib.parallel(*[lambda k=k: one(k) for k in range(4)]) for s in p]
        t = lib.parallel(lib.build, streams, lambda: lib.model(work, "GorillaModel", "MC_Gorilla_%s.cfg" % ("t1" if THOROUGH else "q1"), 3, timeout=800),
                         *designs(work, "C17"))
        if len(t[1]) != len(known):
            raise lib.ToolError("streams are missing")
        f1, c1 = lib.record_and_check(work, "series", "pack", series, "TraceGorilla", "TraceGorilla.cfg", kinds, start="series", linear=False)
        f2, c2 = lib.record_and_check(work, "streams", "pack", t[1], "TraceGorilla", "TraceGorilla.cfg", kinds, start="decode", linear=False)
        f3, c3 = lib.record_and_check(work, "long", "pack", longs, "TraceGorilla", "TraceGorilla.cfg", kinds, start="long", linear=False)
        return f1 + f2 + f3, coverage(t[2:], [c1, c2, c3])
    return run


def wal_check():
    def run(work):
        kinds = KINDS["C18"] | ALWAYS
        mul = 10 if THOROUGH else 1
        rnd = lambda *a: random.Random("%s/%s" % (SEED, a))
        t = lib.parallel(lib.build,
                         lambda: lib.generate(work, "WalModel", "Gen_Wal.cfg", 300 * mul, 16, SEED, "wal", steps=400),
                         lambda: lib.model(work, "WalModel", "MC_Wal_%s.cfg" % ("t1" if THOROUGH else "q1"), 4, timeout=800),
                         *designs(work, "C18"))
        scs = [gen_wal.from_tlc(rnd("t", k), "C18-tlc%d" % k, s) for k, s in enumerate(t[1])]
        scs += [gen_wal.scenario(rnd("r", k), "C18-r%d" % k) for k in range(900 * mul)]
        scs += [gen_wal.scenario(rnd("b", k), "C18-b%d" % k, True) for k in range(24 * mul)]
        scs += [gen_wal.many(rnd("m", k), "C18-m%d" % k) for k in range(24 * mul)]
        random.Random(SEED).shuffle(scs)
        f, c = lib.record_and_check(work, "segments", "wal", scs, "TraceWal", "TraceWal.cfg", kinds, start="segment")
        return f, coverage(t[2:], [c])
    return run


def coverage(models, parts):
    return {"states": sum(m["states"] for m in models), "transitions": sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(p["scenarios"] for p in parts),
            "events_checked": sum(p["events"] for p in parts),
            "models": models, "parts": [{k: v for k, v in p.items() if k != "samples"} for p in parts],
            "samples": [s for p in parts for s in p.get("samples", [])][:4]}


SEQ["C10"] = [(gen.overlap, 12, {}), (gen.restarts, 36, {}), (gen.restarts, 8, {"lives": 5}), (gen.restarts, 24, {"resize": True}), (gen.far, 8, {}), (gen.restarts, 4, {"lives": 9})]
SEQ["C11"] = [(gen.crashes, 112, {})]
SEQ["C12"] = [(gen.backends, 64, {})]
SEQ["C13"] = [(gen.faults, 160, {}), (gen.reopens, 20, {}), (gen.everyaccess, 16, {})]
SEQ["C14"] = [(gen.shared, 64, {"backends": [("tikv", "tikv"), ("tikv", "tikv"), ("tikv", "sled"), ("sled", "tikv")]}),
              (gen.rotations, 8, {"backends": [("tikv", "tikv")]}), (gen.restarts, 12, {"backends": [("tikv", "tikv")]})]
HTTP = {"C13": [(gen.httpfaults, 48, {})]}
SHARDS = {"server": 16, "C10": 16, "C11": 16, "C12": 16, "C13": 16, "C14": 16}

LEVELS = {p: "fault_enumeration" for p in ("C10", "C11", "C12", "C13", "C14")}
MODELS = ["MC_Monolith_q%d.cfg" % k for k in (1, 2, 3, 4)]
CHECKS = {pid: seq_check(pid, MODELS, plan, 25, False) for pid, plan in SEQ.items()}
CHECKS["C10"] = seq_check("C10", MODELS, SEQ["C10"], 12, True)
for _p in ("C11", "C12", "C13", "C14"):
    CHECKS[_p] = seq_check(_p, MODELS, SEQ[_p], 0, True)

CM = ["MC_Conc_q1.cfg", "MC_Conc_q2.cfg", "MC_Conc_q3.cfg"] + (["MC_Conc_t1.cfg"] if THOROUGH else [])
CHECKS["C08"] = conc_check("C08", CM, [(gen.conc, 32, {"ticks": 1, "runs": 40}), (gen.conc, 8, {"ticks": 2, "runs": 30})], (1, 250, 25, 25))
CHECKS["C09"] = conc_check("C09", CM, [(gen.conc, 72, {"runs": 150, "per_db": 1000})], (0, 300, 60, 1000))
CHECKS["C15"] = http_check("C15", MODELS, [(gen.httpdata, 80, {}), (gen.httpmany, 12, {}), (gen.httpmany, 2, {"n": 1150}), (gen.httplong, 1, {"backends": [("tikv", "tikv")]}), (gen.httptypes, 6, {}), (gen.httpfaults, 12, {}), (gen.httppar, 24, {})])
CHECKS["C16"] = http_check("C16", MODELS, [(gen.httpbad, 96, {}), (gen.httppar, 16, {})])


CHECKS["C20"] = server_check("C20")
CHECKS["C17"] = pack_check()
CHECKS["C18"] = wal_check()


def known(pid):
    """kind -> text, for the findings that are recorded and not repaired"""
    res = {}
    with open(os.path.join(lib.ROOT, "known-findings.txt")) as f:
        for l in f:
            w = l.split(" ", 3)
            if w[:2] == ["known:", "property=" + pid]:
                res[w[2].split("=")[1]] = w[3].strip()
    return res


def main():
    pid = sys.argv[1]
    work = lib.Work(pid)
    try:
        findings, cov = CHECKS[pid](work)
    except lib.ToolError as e:
        log("ERROR", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    listed = known(pid)
    for kind in sorted({k for f in findings for k in f.kinds} & set(listed)):
        n = sum(1 for f in findings if f.kinds == {kind})
        cov.setdefault("known_findings", {})[kind] = n
        print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, listed[kind], n))
    findings = [f for f in findings if not f.kinds <= set(listed)]
    level = LEVELS.get(pid, "model_checking")
    if level == "fault_enumeration":
        cov["evaluations"] = cov["traces_validated_against_impl"]
        cov["distinct_nontrivial"] = sum(p.get("with_faults_or_restarts", 0) for p in cov["parts"])
        cov["rule"] = ("scenarios generated by tools/gen.py (seeded); non-trivial: in the recording an access failed, the process "
                       "was killed, or the database was opened more than once")
    lib.write_evidence(pid, level, cov, TRACE_ASSUME, len(findings))
    if not findings:
        work.clean()
        log("%s holds on everything explored" % pid)
        sys.exit(0)
    os.makedirs(os.path.join(lib.ROOT, "work", "replay"), exist_ok=True)
    for n, f in enumerate(findings[:5]):
        p = os.path.join(lib.ROOT, "work", "replay", "%s-%d.json" % (pid, n))
        with open(p, "w") as o:
            json.dump({"property": pid, "part": f.part, "kinds": sorted(f.kinds), "scenario": f.scenario,
                       "failing_event": f.events[-1] if f.events else None, "events": f.events}, o, indent=1)
        print("  %s in %s: %s" % (sorted(f.kinds), (f.scenario or {}).get("id"), json.dumps(f.events[-1])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, lib.ROOT)), flush=True)
    work.clean()
    sys.exit(1)


main()
