"""Scenarios for the server as it is shipped: command line, restarts, rotations by the real clock.
Operations: start (store, index, secs, read, write, workers), rw, rr, rotate, stop (how).  Times of samples and queries are
relative to the start of the open chunk."""
from gen import ZERO, IMAX, DIRNAMES, label_sets, collisions, shuffled, BAD, SPECIAL

PATHS = [(None, None), (None, None), ("/prom/read", "/prom/write"), ("/write", "/read"), ("/a", "/b"), ("/read/", "/write/"),
         ("/api/v1/read", None), (None, "/push")]


class B:
    def __init__(self, r, id, backend, secs, **kw):
        self.r, self.n = r, 0
        read, write = r.choice(PATHS)
        if (read or "/read") == (write or "/write"):
            read, write = None, None
        self.sc = {"id": id, "store": backend[0], "index": backend[1], "secs": str(secs), "ops": [], "read": read, "write": write,
                   "workers": r.choice([None, "0", "1", "2", "8"]),
                   "yaml": kw.pop("yaml", "cluster" if "tikv" in backend or r.random() < 0.2 else "none")}
        self.sc["dirname"] = r.choice(DIRNAMES)
        self.ops = self.sc["ops"]
        self.last = {}
        self.series = collisions(r) if r.random() < 0.3 else label_sets(r, r.randint(2, 6), r.random() < 0.5)
        self.op("start", **kw)

    def op(self, op, **kw):
        if op == "start":
            kw.setdefault("seed", self.r.randrange(1 << 30))
            kw.setdefault("short", self.r.random() < 0.4)
            kw.setdefault("omit", self.r.random() < 0.4)
            kw.setdefault("rel", self.r.choice([0, 0, 1, 2]))
        self.ops.append(dict({"op": op}, **kw))

    def value(self):
        self.n += 1
        return self.r.choice(SPECIAL) if self.r.random() < 0.2 else "%016x" % (0x3ff0000000000000 + self.n)

    def rw(self, lo, hi):
        r, ss = self.r, []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(len(self.series))
            pts = []
            for t in sorted(set(r.choice([lo, hi, r.randint(lo, hi)]) for _ in range(r.choice([1, 2, 5])))):
                if t > self.last.get(k, -1):
                    pts.append([t, self.value()])
                    self.last[k] = t
            # out of the range of the open chunk
            if r.random() < 0.3:
                pts.insert(r.randint(0, len(pts)), [-r.choice([1, 2, 5000]), self.value()])
            if pts:
                ss.append({"ls": shuffled(r, self.series[k]), "pts": pts})
        if ss:
            self.op("rw", series=ss, way=r.choice(["plain", "plain", "chunked", "close"]), seed=r.randrange(1 << 30))

    def rr(self, lo, hi):
        r, qs = self.r, []
        for _ in range(r.choice([1, 1, 2])):
            ls = r.choice(self.series)
            m = r.sample(ls, r.randint(1, len(ls)))
            s, t = r.choice([(ZERO, IMAX), (lo, hi), tuple(sorted((r.randint(lo, hi), r.randint(lo, hi))))])
            qs.append({"s": s, "t": t, "m": m, "types": [0] * len(m)})
        self.op("rr", queries=qs, seed=r.randrange(1 << 30))

    def all(self):
        for ls in self.series:
            self.op("rr", queries=[{"s": ZERO, "t": IMAX, "m": ls, "types": [0] * len(ls)}])

    def new(self):
        self.last = {}


def restarts(r, id, backend, lives=None, **kw):
    """processes one after the other on one directory; with an end that was not announced when the backend keeps everything"""
    size = r.choice([60, 3600, 12000, 100000])
    b = B(r, id, backend, size, **kw)
    for k in range(lives or r.choice([2, 3])):
        if k:
            durable = backend == ("tikv", "tikv")
            b.op("stop", how=r.choice(["kill", "flush"]) if durable else "flush")
            b.new()
            size = r.choice([size, 60, 7200, 12000])
            b.op("start", secs=str(size))
            if r.random() < 0.7:
                b.all()
        for _ in range(r.randint(2, 6)):
            b.rw(0, r.choice([3, 50, size * 1000]))
        b.rr(0, size * 1000)
    b.all()
    return b.sc


def rotations(r, id, backend, **kw):
    """chunks by the clock"""
    b = B(r, id, backend, 3, yaml=r.choice(["none", "dry", "cluster"]), **kw)
    for k in range(r.choice([1, 2])):
        for _ in range(4):
            b.rw(0, 3000)
            b.rr(-3000 * k, 3000)
        b.op("rotate")
        b.new()
    b.rw(0, 3000)
    b.all()
    return b.sc


def others(r, id, backend, **kw):
    """the same directory with other backends"""
    b = B(r, id, backend, 600, **kw)
    for _ in range(3):
        b.rw(0, 60000)
    wrong = [x for x in [("sled", "sled"), ("tikv", "tikv"), ("sled", "tikv"), ("tikv", "sled")] if x != tuple(backend)]
    for w in r.sample(wrong, 2):
        b.op("stop", how="flush")
        b.op("start", store=w[0], index=w[1])
        b.new()
        b.op("start")
        b.all()
        b.rw(0, 60000)
    b.all()
    return b.sc


def requests(r, id, backend, **kw):
    """paths and workers as given on the command line"""
    b = B(r, id, backend, 3600, yaml=r.choice(["none", "dry", "cluster"]), **kw)
    for _ in range(14):
        x = r.random()
        if x < 0.4:
            b.rw(0, 3600000)
        elif x < 0.8:
            b.rr(0, 3600000)
        else:
            ls = r.choice(b.series)
            to = r.choice(["read", "write"])
            q = {"queries": [{"s": 0, "t": 1, "m": ls, "types": [0] * len(ls)}]}
            w = {"series": [{"ls": ls, "pts": [[1, b.value()]]}]}
            b.op("bad", to=to, how=r.choice(BAD), seed=r.randrange(1 << 30), **(w if to == "write" else q))
    b.all()
    return b.sc


def options(r, id, backend, **kw):
    """options that are served and options that are not"""
    b = B(r, id, backend, r.choice([600, 7200, 12000]), yaml=r.choice(["none", "dry", "cluster", "cluster"]), **kw)
    b.ops.clear()
    tikv = "tikv" in backend
    wrong = [{"store": x} for x in ("rocks", "Sled", "", "sled ", "tikvx")] + [{"index": x} for x in ("rocks", "TiKV", "", "sled,tikv")]
    wrong += [{"port": x} for x in ("80", "1023", "0", "65536", "70000", "x", "", "10.5", "99999999999")]
    wrong += [{"secs": x} for x in ("x", "", "1.5", "10s")]
    wrong += [{"workers": x} for x in ("x", "", "1.5", "two")]
    wrong += [{"yaml": x} for x in ("broken", "missing")] * (6 if tikv else 1)
    for _ in range(r.choice([1, 2, 3])):
        w = r.choice(wrong)
        if "yaml" in w and not tikv:
            continue
        b.op("start", **w)
    b.op("start")
    for _ in range(4):
        b.rw(0, 600000)
    n = int(b.sc["workers"] or 8)
    for _ in range(max(0, n - 1) if r.random() < 0.6 else 0):
        b.op("hold")
    b.rw(0, 600000)
    b.all()
    if not tikv or b.sc["yaml"] == "cluster":
        b.op("stop", how="flush")
        b.new()
        b.op("start", **r.choice(wrong[:-2]))
        b.op("start")
        b.all()
    return b.sc


def from_tlc(r, id, hist):
    """a behaviour of ServerModel"""
    b = B(r, id, ("sled", "sled"), 3600)
    b.ops.clear()
    b.sc["yaml"] = "none"
    kinds = lambda k: k if k != "other" else r.choice(["rocks", "Sled", "", "tikv,sled"])
    text = lambda x, good, words: r.choice(words) if not x["num"] else good if x["n"] == 2000 else str(x["n"])
    for e in hist:
        if e["op"] == "start":
            c = e["c"]
            kw = {"store": kinds(c["storage"]), "index": kinds(c["indexer"]), "yaml": c["yaml"],
                  "secs": text(c["secs"], r.choice(["600", "3600", "12000"]), ["x", "", "1.5", "1h"]),
                  "workers": text(c["workers"], r.choice(["1", "2", "8"]), ["x", "", "2.5"])}
            port = text(c["port"], None, ["x", "", "http"])
            if port is not None:
                kw["port"] = port
            b.op("start", **kw)
            b.new()
        elif e["op"] == "write":
            b.rw(0, 600000)
            if r.random() < 0.5:
                b.rr(0, 600000)
        elif e["op"] == "stop":
            b.all()
            b.op("stop", how="flush")
    b.all()
    for o in b.ops:
        if o["op"] in ("rw", "rr"):
            o["opt"] = True
    return b.sc
