"""Inputs for the sequential scenarios: scripts of database calls for `mbt seq`.

Nothing here says what the outcome should be; that is decided by the specification (spec/TraceMonolith.tla)."""
import random, json

ZERO, ONE, TWO = -2000000000, -1999999999, -1999999998      # real timestamps 0, 1, 2
UMAX, UMAX1, IMAX = 2000000000, 1999999999, 1999999998      # u64::MAX, u64::MAX - 1, i64::MAX
BACKENDS = [("sled", "sled"), ("tikv", "tikv"), ("sled", "tikv"), ("tikv", "sled")]
T0S = [1600000000000, 1600000000000, 1000, 255 - 4, 65530, 2**31 - 5, 2**32 - 20, 2**40 - 3, 2**53 - 7, 2**62]
SPECIAL = ["0000000000000000", "8000000000000000", "7ff0000000000000", "fff0000000000000", "7ff8000000000000",
           "7ff8000000000001", "fff8000000000000", "7ff0000000000001", "0000000000000001", "3ff0000000000000",
           "4000000000000000", "000000000000ffff", "7fefffffffffffff", "ffffffffffffffff"]


class Values:
    """Values are distinct within a scenario unless asked otherwise, so that a value names the write it came from."""
    def __init__(self, r):
        self.r, self.n = r, 0

    def __call__(self, distinct=True):
        self.n += 1
        if not distinct:
            return self.r.choice(SPECIAL)
        if self.n <= len(SPECIAL) and self.r.random() < 0.5:
            return SPECIAL[self.n - 1]
        return "%04x%012x" % (0x4000 + self.r.randrange(256), self.n * 0x100000001 + self.r.randrange(1 << 20))


NAMES = ["a", "b", "c", "__name__", "job", "R", "Re", "L", "LR", "I", "id", "instance", "_", "A1", "z9", "ab", "le"]
PLAIN = ["x", "y", "z", "1", "10", "2", "node"]
TRICKY = ["x", ",", "=", "%", "%2C", "%2c", "%25", "a=b", "a,b", "x,b=y", "x,b", "b=y", "L", "R", "I", "é", "日本", "\u0000", "\n",
          " ", "x ", " x", "x,", ",x", "=x", "x=", "0", "00", "+", "/", "\\", "\"", "'", "{", "}", ";", "😀", "%2", "%%", "x%2Cy",
          "x,y", "A", "X", ",,,,,,", "a,b,c,d,e,f,g", "%%%%%", "%2C%2C%2C,,,", "=====", "x" * 300]


# directories a database may be kept in
DIRNAMES = ["db", "db", "my data", "données/数", "a.b/c.d", "0000017487d2380000000174888b6b80", "x=1,y", "metadata.json", "storage/indexer"]


def wide(r):
    """characters of several bytes, at any offset"""
    return "a" * r.randrange(4) + "".join(r.choice(["é", "長", "🙂"]) for _ in range(r.choice([3, 20, 90])))


def label_sets(r, n, tricky=False, names=None, maxlen=4):
    names = names or r.sample(NAMES, r.randint(2, 5))
    vals = r.sample(TRICKY, min(len(TRICKY), r.randint(3, 8))) if tricky else r.sample(PLAIN, r.randint(2, 4))
    if tricky and r.random() < 0.3:
        vals += [wide(r) for _ in range(2)]
    res = []
    for _ in range(n * 6):
        k = r.randint(1, min(maxlen, len(names)))
        ls = [[x, r.choice(vals)] for x in r.sample(names, k)]
        if sorted(ls) not in [sorted(x) for x in res]:
            res.append(ls)
        if len(res) == n:
            break
    return res


def collisions(r):
    """Pairs of label sets whose naive textual encodings coincide."""
    n1, n2, n3 = r.sample(["a", "b", "c", "job", "R", "L"], 3)
    v, w = r.choice(["x", "y", "1"]), r.choice(["x", "z", "2"])
    fams = [
        [[[n1, v], [n2, w]], [[n1, "%s,%s=%s" % (v, n2, w)]]],
        [[[n1, v], [n2, w]], [[n1, "%s,%s" % (v, n2)], [n2, w]], [[n1, "%s%%2C%s=%s" % (v, n2, w)]]],
        [[[n1, v + ","]], [[n1, v]], [[n1, v + ",,"]], [[n1, "," + v]]],
        [[[n1, "%s=%s" % (n2, w)]], [[n1, n2], [n2, w]], [[n1, n2 + "="]]],
        [[[n1, v + "%2C" + w]], [[n1, v + "," + w]], [[n1, v + "%252C" + w]], [[n1, v + "%2c" + w]]],
        [[[n1, v]], [[n1, v], [n2, w]], [[n1, v], [n2, w], [n3, v]], [[n2, w]]],
        [[["a", "bc"]], [["ab", "c"]], [["a", "b"], ["c", "d"]], [["ab", "cd"]]],
        [[["R", "x"]], [["Ra", "x"]], [["a", "x"]], [["La", "x"]], [["Ia", "x"]]],
        [[[n1, v], [n2, w]], [[n1, w], [n2, v]], [[n2, v], [n1, v]], [[n1, w], [n2, w]]],
        [[[n1, "%s,R%s=%s" % (v, n2, w)]], [[n1, v], ["R" + n2, w]]],
    ]
    f = r.choice(fams)
    r.shuffle(f)
    return [list(x) for x in f]


def shuffled(r, ls):
    ls = [list(p) for p in ls]
    r.shuffle(ls)
    return ls


class Builder:
    """Keeps track of what a scenario knows: clock, range of the open chunk, series, timestamps used."""
    def __init__(self, r, id, backend, size, t0=None, **kw):
        self.r, self.size, self.clock, self.start = r, size, 0, 0
        self.deadline = size
        self.v = Values(r)
        self.sc = {"id": id, "store": backend[0], "index": backend[1], "size": size,
                   "t0": t0 if t0 is not None else r.choice(T0S), "ops": []}
        self.sc.update(kw)
        self.ops = self.sc["ops"]
        self.series, self.used = [], []
        self.last = {}
        self.starts = []
        self.edges = []

    def open(self, **kw):
        self.size = kw.get("size", self.size)
        self.ops.append(dict(op="open", **kw))
        self.start, self.deadline = self.clock, self.clock + self.size
        self.starts.append(self.start)
        self.edges += [self.start, self.end()]

    def tick(self, d):
        self.clock += d
        self.ops.append({"op": "tick", "d": d})
        if self.clock >= self.deadline:
            self.start, self.deadline = self.clock + 1, self.clock + self.size
            self.starts.append(self.start)
            self.edges += [self.start, self.end()]
            self.last = {}

    def end(self):
        return self.start + self.size

    def time(self):
        r = self.r
        x = r.random()
        if x < 0.15:
            return r.choice([self.start, self.end()])
        if x < 0.25:
            return r.choice([self.start - 1, self.end() + 1, self.start - 2, ZERO, ONE, UMAX, UMAX1, IMAX])
        if x < 0.35 and self.used:
            return r.choice(self.used)
        return r.randint(self.start, self.end())

    def inrange(self):
        return self.r.randint(self.start, self.end())

    def rising(self, ls):
        """a timestamp later than the last one of the series, if there is room"""
        k = json.dumps(sorted(ls))
        lo = max(self.start, self.last.get(k, self.start - 1) + 1)
        if lo > self.end():
            return None
        t = min(self.end(), lo + (self.r.randint(0, 3) if self.r.random() < 0.8 else self.r.randint(0, self.size)))
        self.last[k] = t
        return t

    def point(self, ls, ordered):
        t = self.rising(ls) if ordered and self.r.random() < 0.85 else None
        if t is None:
            t = self.time()
        self.used.append(t)
        return [t, self.v(self.r.random() < 0.9)]

    def write(self, ls, n=1, ordered=False):
        pts = [self.point(ls, ordered) for _ in range(n)]
        if n == 1 and self.r.random() < 0.5:
            self.ops.append({"op": "single", "ls": shuffled(self.r, ls), "t": pts[0][0], "v": pts[0][1]})
        else:
            self.ops.append({"op": "write", "ls": shuffled(self.r, ls), "pts": pts})

    def put(self, ls, pts):
        self.ops.append({"op": "write", "ls": ls, "pts": pts})

    def bound(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            return r.choice([ZERO, UMAX, UMAX, ZERO, ONE, IMAX])
        if x < 0.6 and self.used:
            return r.choice(self.used)
        s = r.choice(self.starts or [0])
        return r.choice([s, s - 1, s + 1, s + self.size, s + self.size + 1, s + self.size - 1, r.randint(0, self.end() + 2)])

    def query(self, m=None, s=None, t=None):
        r = self.r
        if m is None:
            m = self.matcher()
        a, b = self.bound(), self.bound()
        if a > b and r.random() < 0.8:
            a, b = b, a
        self.ops.append({"op": "query", "m": shuffled(r, m), "s": a if s is None else s, "t": b if t is None else t})

    def matcher(self):
        r = self.r
        ls = r.choice(self.series)
        m = [list(p) for p in r.sample(ls, r.randint(1, len(ls)))]
        x = r.random()
        if x < 0.12:
            m[r.randrange(len(m))][1] = r.choice(PLAIN + TRICKY)
        elif x < 0.2:
            p = r.choice(r.choice(self.series))
            if p[0] not in [q[0] for q in m]:
                m.append(list(p))
        elif x < 0.25:
            m.append(["nosuch", "x"])
        elif x < 0.28:
            m.append(list(m[0]))
        return m

    def sweep(self, everything=True):
        """ask for every series and every single pair over all of time"""
        for ls in self.series:
            self.query(ls, ZERO, UMAX)
        if everything:
            for p in sorted({tuple(p) for ls in self.series for p in ls}):
                self.query([list(p)], ZERO, UMAX)

    def narrow(self, n=4):
        """windows that hold a written timestamp, but not much more, and windows from one edge of a chunk to another"""
        r = self.r
        pts = sorted({t for t in self.used if 0 <= t < 2**31 - 2})
        edges = sorted({t for t in self.edges if 0 < t < 2**31 - 2} | set(r.sample(pts, min(len(pts), 5))))
        for i in range(n):
            if pts and i % 3 < 2:
                t = r.choice(pts)
                d, e = r.choice([0, 0, 1, 2, 3, 10]), r.choice([0, 0, 1, 2, 3, 10])
                a, b = max(0, t - d), min(t + e, 2**31 - 2)
            elif len(edges) > 1:
                a, b = sorted(r.sample(edges, 2))
                a, b = min(a + r.choice([0, 0, 1]), b), b - r.choice([0, 0, 1])
            else:
                continue
            ls = r.choice(self.series)
            self.query(ls if r.random() < 0.5 else [list(r.choice(ls))], a, b)

    def windows(self, m, n=12):
        pts = sorted({self.bound() for _ in range(n)})
        for a in pts:
            for b in self.r.sample(pts, min(3, len(pts))):
                self.query(m, a, b)


def mixed(r, id, backend, nops=25, tricky=None, nseries=None, restarts=0, rotate=0.18, t0=None, **kw):
    """writes, queries, clock ticks in any order"""
    size = r.choice([3, 5, 10, 20, 100, 1000, 60000])
    b = Builder(r, id, backend, size, t0, **kw)
    tricky = r.random() < 0.4 if tricky is None else tricky
    b.series = collisions(r) if tricky and r.random() < 0.5 else \
        label_sets(r, nseries or r.randint(1, 7), tricky)
    ordered = backend[0] == "tikv"
    b.open()
    for i in range(nops):
        x = r.random()
        if x < 0.5:
            b.write(r.choice(b.series), r.choice([1, 1, 2, 3, 5]), ordered)
        elif x < 1 - rotate:
            b.query()
        else:
            b.tick(r.choice([0, 1, 2, size // 2, size, size, size + 1, size - 1, 2 * size, 3 * size + 1]))
    b.sweep()
    for _ in range(4):
        b.query()
    b.narrow(5)
    return b.sc


def manyseries(r, id, backend, n=None, **kw):
    """many series in one chunk, so that ids need more than one digit"""
    n = n or r.choice([12, 25, 40])
    b = Builder(r, id, backend, 50, **kw)
    mods = r.sample([2, 3, 4, 5, 7], 3)
    for i in range(n):
        ls = [["all", "1"], ["n", str(i)]] + [["m%d" % m, str(i % m)] for m in mods]
        b.series.append(ls)
    b.open()
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        b.put(shuffled(r, b.series[i]), [[b.start + 1 + r.randint(0, 40), b.v()]])
        b.used.append(b.start + 5)
    if r.random() < 0.5:
        b.tick(50)
        for i in r.sample(order, n // 2):
            b.put(shuffled(r, b.series[i]), [[b.start + 1 + r.randint(0, 40), b.v()]])
    b.query([["all", "1"]], ZERO, UMAX)
    for m in mods:
        for k in range(m + 1):
            b.query([["m%d" % m, str(k)]], ZERO, UMAX)
            b.query([["m%d" % m, str(k)], ["all", "1"]], ZERO, UMAX)
    for _ in range(12):
        ms = r.sample(mods, r.randint(2, 3))
        q = [["m%d" % m, str(r.randrange(m))] for m in ms] + ([["all", "1"]] if r.random() < 0.5 else [])
        if r.random() < 0.3:
            q.append(["n", str(r.randrange(n))])
        b.query(q, ZERO, UMAX)
    return b.sc


def hugeindex(r, id, backend, n=None, **kw):
    """hundreds of series in one chunk, so that ids need more than one byte"""
    n = n or r.choice([260, 280, 300])
    b = Builder(r, id, backend, 50, **kw)
    b.series = [[["all", "1"], ["n", str(i)], ["m", str(i % 17)]] for i in range(n)]
    b.open()
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        b.put(shuffled(r, b.series[i]), [[b.start + 1 + i % 40, b.v()]])
    for i in r.sample(order, 12) + order[-2:]:
        b.put(shuffled(r, b.series[i]), [[b.start + 45, b.v()]])
    b.query([["all", "1"]], ZERO, UMAX)
    for k in r.sample(range(17), 3):
        b.query([["m", str(k)], ["all", "1"]], ZERO, UMAX)
    for i in r.sample(order, 10) + order[:3] + order[-3:]:
        b.query([["n", str(i)]], ZERO, UMAX)
    return b.sc


def matchers(r, id, backend, **kw):
    """queries with up to nine matchers over series with up to nine labels"""
    names = ["k%d" % i for i in range(9)]
    b = Builder(r, id, backend, 20, **kw)
    for i in range(r.randint(3, 9)):
        k = r.choice([1, 3, 5, 7, 8, 9])
        ls = [[n, r.choice(["x", "x", "x", "y"])] for n in r.sample(names, k)]
        if sorted(ls) not in [sorted(x) for x in b.series]:
            b.series.append(ls)
    b.series.append([[n, "x"] for n in names])
    r.shuffle(b.series)
    b.open()
    for ls in b.series:
        b.put(shuffled(r, ls), [[b.inrange(), b.v()]])
    if r.random() < 0.4:
        b.tick(20)
        for ls in r.sample(b.series, len(b.series) // 2):
            b.put(shuffled(r, ls), [[b.inrange(), b.v()]])
    for k in range(1, 10):
        for _ in range(2):
            b.query([[n, "x"] for n in r.sample(names, k)], ZERO, UMAX)
    for ls in b.series:
        b.query(ls, ZERO, UMAX)
        m = [list(p) for p in ls]
        m[r.randrange(len(m))][1] = r.choice(["y", "nosuch"])
        b.query(m, ZERO, UMAX)
    return b.sc


def windows(r, id, backend, **kw):
    """sparse data in several chunks, windows on all edges"""
    size = r.choice([6, 10, 40])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, r.randint(2, 4), False)
    common = ["w", "1"]
    b.series = [ls + [common] for ls in b.series]
    b.open()
    for c in range(r.randint(1, 4)):
        for ls in r.sample(b.series, r.randint(1, len(b.series))):
            ts = sorted(r.sample(range(b.start, b.end() + 1), r.randint(1, 4)))
            if backend[0] == "sled" and r.random() < 0.5:
                r.shuffle(ts)
            b.put(ls, [[t, b.v()] for t in ts])
            b.used += ts
        if r.random() < 0.8:
            b.tick(r.choice([size, size + 1, size + 7, 2 * size]))
    edges = sorted({x + d for x in b.used for d in (-1, 0, 1)} | {x + d for s in b.starts for x in (s, s + size) for d in (-1, 0, 1)})
    edges = [ZERO, ONE] + edges + [IMAX, UMAX1, UMAX]
    for _ in range(40):
        a, c = r.choice(edges), r.choice(edges)
        if a > c and r.random() < 0.9:
            a, c = c, a
        b.query([common], a, c)
    for t in r.sample(b.used, min(6, len(b.used))):
        b.query([common], t, t)
        b.query([common], t + 1, t - 1)
    return b.sc


def longseries(r, id, backend, n=None, **kw):
    """one series with many samples in random (sled) or rising order, overwrites, and windows cut everywhere"""
    n = n or r.choice([40, 70, 130])
    b = Builder(r, id, backend, n * 2, **kw)
    b.series = [[["a", "x"], ["s", "1"]], [["a", "x"], ["s", "2"]]]
    b.open()
    for ls in b.series:
        ts = sorted(r.sample(range(b.start, b.end() + 1), n))
        if backend[0] == "sled":
            if r.random() < 0.7:
                r.shuffle(ts)
            if r.random() < 0.5:
                ts += r.sample(ts, n // 4)
        b.used += ts
        i = 0
        while i < len(ts):
            k = r.choice([1, 1, 2, 7, 20])
            b.put(ls, [[t, b.v()] for t in ts[i:i + k]])
            i += k
    b.query([["a", "x"]], ZERO, UMAX)
    for _ in range(25):
        a, c = sorted((r.choice(b.used), r.choice(b.used)))
        b.query(r.choice([[["a", "x"]], b.series[0], b.series[1]]), a + r.randint(-1, 1), c + r.randint(-1, 1))
    return b.sc


def rotations(r, id, backend, **kw):
    """many rotations; every chunk gets samples on and around its edges"""
    size = r.choice([2, 4, 10, 1000])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, r.randint(1, 3), r.random() < 0.3)
    b.open()
    for c in range(r.randint(4, 9)):
        for ls in r.sample(b.series, r.randint(0, len(b.series))):
            ts = sorted({b.start - 1, b.start, b.end(), b.end() + 1, b.inrange(), b.start + size // 2})
            ts = r.sample(ts, r.randint(1, len(ts)))
            if backend[0] == "tikv":
                ts.sort()
            elif r.random() < 0.5:
                r.shuffle(ts)
            b.put(shuffled(r, ls), [[t, b.v()] for t in ts])
            b.used += ts
            if r.random() < 0.3:
                t = r.choice([b.start - 1, b.end() + 1, b.start, b.end(), b.start - size])
                b.ops.append({"op": "single", "ls": shuffled(r, ls), "t": t, "v": b.v()})
                b.used.append(t)
        if r.random() < 0.3:
            b.tick(r.randint(0, max(0, size - 1)))
        b.tick(r.choice([size, size, size + 1, 2 * size, size * 5]))
        if r.random() < 0.5:
            b.query()
    b.sweep(False)
    for _ in range(6):
        b.query()
    b.narrow(6)
    return b.sc


STEP = 300_000_000      # stands for sc["far"] milliseconds


def far(r, id, backend, **kw):
    """chunks that are open for weeks to millennia"""
    years = r.choice([2**31 + 7, 2**32 - 1, 2**32 + 12345, 2**33, 2**40 + 3, 5_000_000_000_000, 2**53 + 1, 2**55 + 1])
    size = STEP + r.choice([0, 0, 1, 7])
    b = Builder(r, id, backend, size, t0=r.choice([1_600_000_000_000, 1_600_000_000_000, 5, 2**32 - 3]), far=years, **kw)
    b.series = label_sets(r, r.randint(1, 3), r.random() < 0.3)
    b.open()
    for c in range(r.randint(2, 4)):
        for ls in r.sample(b.series, r.randint(1, len(b.series))):
            ts = sorted({b.start - 1, b.start, b.start + 1, b.end(), b.end() - 1, b.end() + 1, b.start + STEP // 2 - 9,
                         b.start + STEP // 2 + 9, b.end() - 1000, b.start + r.randint(0, STEP // 2)} - {-1, -2})
            ts = r.sample(ts, r.randint(2, len(ts)))
            if backend[0] == "tikv":
                ts.sort()
            elif r.random() < 0.5:
                r.shuffle(ts)
            b.put(shuffled(r, ls), [[t, b.v()] for t in ts])
            b.used += ts
        if r.random() < 0.5:
            b.tick(r.choice([1, 1000]))
        if r.random() < 0.5:
            b.query()
        if r.random() < 0.3:
            b.ops.append({"op": "stop", "how": "flush"})
            b.tick_down(r.choice([2, 1000]))
            b.open()
        else:
            b.tick(r.choice([STEP - 5000, STEP, STEP, STEP + 1, STEP + 9]))
    b.sweep(False)
    for _ in range(8):
        b.query()
    b.narrow(6)
    return b.sc


def manychunks(r, id, backend, n=None, **kw):
    """dozens of rotations, with samples in few of the chunks"""
    n = n or r.choice([20, 40, 70])
    size = r.choice([1, 3, 10])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, 3, False)
    b.open()
    for c in range(n):
        if c < 2 or r.random() < 0.15:
            ls = r.choice(b.series)
            t = b.inrange()
            b.put(shuffled(r, ls), [[t, b.v()]])
            b.used.append(t)
        if r.random() < 0.05:
            b.query()
        b.tick(r.choice([size, size + 1, 2 * size]))
    b.put(b.series[0], [[b.start, b.v()]])
    b.sweep(True)
    for t in r.sample(b.used, min(4, len(b.used))):
        b.query(r.choice(b.series), t, t)
    b.query(b.series[0], b.start, UMAX)
    return b.sc


def restarts(r, id, backend, lives=None, how="flush", resize=None, **kw):
    resize = r.random() < 0.5 if resize is None else resize
    size = r.choice([5, 20, 100, 60000])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, r.randint(1, 5), r.random() < 0.4) if r.random() < 0.8 else collisions(r)
    lives = lives or r.choice([2, 3, 3, 4])
    ordered = backend[0] == "tikv"
    b.open()
    for life in range(lives):
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if x < 0.7:
                b.write(r.choice(b.series), r.choice([1, 2, 4]), ordered)
            elif x < 0.85:
                b.tick(r.choice([1, size // 2, size, size + 1, 2 * size]))
            else:
                b.query()
        if r.random() < 0.6:    # dated after the restart
            ls = r.choice(b.series)
            t = r.choice([b.end(), b.end(), b.inrange()])
            b.put(ls, [[t, b.v()]])
            b.used.append(t)
        b.sweep(False)
        if life + 1 < lives:
            b.ops.append({"op": "stop", "how": how})
            b.tick_down(r.choice([2, 3, size // 2 + 2, size + 2, 3 * size]))
            if resize and r.random() < 0.7:     # ranges of chunks that contain each other
                b.open(size=r.choice([2, 3, 5, 20, 100, size // 2 + 1, size * 7, 60000]))
            else:
                b.open()
            b.sweep(False)
            b.narrow(2)
    for _ in range(4):
        b.query()
    b.narrow(9)
    return b.sc


def _tick_down(self, d):
    """time passes while the database is closed; it is always later than the start of the newest chunk afterwards"""
    d = max(d, self.start - self.clock + 1)
    self.clock += d
    self.ops.append({"op": "tick", "d": d})
    self.last = {}


Builder.tick_down = _tick_down


def overlap(r, id, backend, **kw):
    """Long series in chunks whose ranges overlap, because the database was restarted: the same timestamps again and again."""
    n = r.choice([8, 25, 40, 70])
    size = r.choice([n * 2, n * 4, 60000])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, r.choice([1, 1, 2]), False)
    lives = r.choice([2, 3, 4])
    b.open()
    for life in range(lives):
        for ls in b.series:
            if r.random() < 0.15:
                continue
            room = range(b.start, min(b.end(), n * 3) + 1)
            if len(room) == 0:
                continue
            ts = sorted(r.sample(room, min(len(room), r.choice([n, n // 2, 3]))))
            if backend[0] == "sled" and r.random() < 0.5:
                r.shuffle(ts)
            i = 0
            while i < len(ts):
                k = r.choice([1, 7, 20, 100])
                b.put(shuffled(r, ls), [[t, b.v()] for t in ts[i:i + k]])
                i += k
            b.used += ts
        if r.random() < 0.2:
            b.tick(r.choice([1, size]))
        b.sweep(False)
        if life + 1 < lives:
            b.ops.append({"op": "stop", "how": "flush"})
            b.tick_down(r.choice([2, 3, 5]))
            b.open()
            b.sweep(False)
    for _ in range(10):
        b.query()
    b.narrow(8)
    return b.sc


def from_tlc(script, id, backend, t0):
    """a behaviour generated by TLC from MonolithImpl"""
    ops = [{"op": "open"}]
    for e in script:
        if e["op"] == "write":
            pts = [[t, "%016x" % (0x3ff0000000000000 + v)] for t, v in e["pts"]]
            if len(pts) == 1 and (pts[0][0] + len(ops)) % 2:
                ops.append({"op": "single", "ls": e["ls"], "t": pts[0][0], "v": pts[0][1]})
            else:
                ops.append({"op": "write", "ls": e["ls"], "pts": pts})
        elif e["op"] == "end":
            pass
        elif e["op"] == "tick":
            ops.append({"op": "tick", "d": e["d"]})
        elif e["op"] == "restart":
            ops += [{"op": "stop", "how": "flush"}, {"op": "tick", "d": e["d"]}, {"op": "open"}]
        else:
            ops.append({"op": "query", "m": e["m"], "s": ZERO if e["s"] == 0 else e["s"], "t": e["t"]})
    return ops


def conc(r, id, backend, ticks=0, runs=60, per_db=30, budget_ms=12000, guides=None, shape=None):
    """Threads for `mbt conc`: a few calls each, on label sets that share pairs, with or without rotations."""
    size = r.choice([10, 10, 4])
    v = Values(r)
    sets = r.choice([
        [[["a", "x"]], [["a", "x"], ["b", "y"]], [["b", "y"]]],
        [[["a", "x"], ["b", "y"]], [["a", "x"], ["b", "z"]], [["a", "x"], ["c", "y"]]],
        [[["a", "x"]], [["a", "y"]], [["a", "x"], ["b", "x"]]],
    ])
    shape = shape or r.choice(["firsts", "different", "overwrite", "mixed", "mixed", "batches"])
    pairs = sorted({tuple(p) for s in sets for p in s})
    ends = [0, size]
    for k in range(ticks):
        ends.append(size * (k + 1) + k + 1 + size)
    times = [1, 2, 3, size - 1, size] + ([size, size + 1, size + 2, size + 3, size + 1 + size] if ticks else [])

    def w(op=None, ls=None, ts=None):
        ls = ls or r.choice(sets)
        op = op or r.choice(["single", "write"])
        if ts is None:
            ts = r.sample(times, min(len(set(times)), 1 if op == "single" else r.choice([1, 2, 2, 3])))
            if r.random() < 0.7:
                ts = sorted(ts)
        return {"op": op, "ls": shuffled(r, ls), "pts": [[t, v()] for t in ts]}

    def q(m=None):
        m = m or [list(p) for p in r.sample(pairs, 1 if r.random() < 0.8 else 2)]
        s, t = r.choice([(0, 40), (0, 40), (0, size), (1, size + 2), (2, 40)])
        return {"op": "query", "m": m, "s": s, "t": t}

    init, threads = [], []
    n = r.choice([2, 2, 3]) if not ticks else r.choice([1, 2, 2])
    if shape == "firsts":
        ls = r.choice(sets)
        threads = [[w("single", ls)] + ([q([ls[0]])] if r.random() < 0.5 else []) for _ in range(n)]
    elif shape == "different":
        o = sets[:]
        r.shuffle(o)
        threads = [[w(None, o[k % 3])] + ([q()] if r.random() < 0.5 else [w(None, o[k % 3])]) for k in range(n)]
    elif shape == "overwrite":
        init = [w("write", sets[0], [1, 2])]
        threads = [[w("single", sets[0], [r.choice([1, 2, 3])]), q([sets[0][0]])] for _ in range(n)]
    elif shape == "batches":
        ls = r.choice(sets)
        threads = [[w("write", ls)] for _ in range(n - 1)] + [[q([ls[0]]), q([ls[0]])]]
    else:
        init = [w() for _ in range(r.choice([0, 1, 2]))]
        threads = [[r.choice([w, w, q])() for _ in range(r.choice([1, 2, 2, 3]))] for _ in range(n)]
    if ticks:
        init = init or [w("write", sets[0], [1, 2])]
        if not any(o["op"] == "query" for t in threads for o in t):
            threads[-1].append(q())
        to = 0
        tk = []
        for k in range(ticks):
            to += size + k
            tk.append({"op": "tick", "to": to})
        threads = [tk] + threads
    final = [{"op": "query", "m": [list(p)], "s": 0, "t": 60} for p in pairs]
    return {"id": id, "store": backend[0], "index": backend[1], "size": size, "runs": runs, "per_db": per_db,
            "seed": r.randrange(1 << 30), "budget_ms": budget_ms, "init": init, "threads": threads, "final": final,
            "guides": guides or []}


def conc_tlc(r, id, backend, program, guides, ticks, runs=60, per_db=30, budget_ms=12000):
    """A program of ConcImpl.tla with the schedules TLC found for it."""
    v = {"A": [["a", "x"]], "B": [["a", "x"], ["b", "y"]]}
    threads = [[{"op": "query", "m": [["a", "x"]], "s": 0, "t": 40} if o["op"] == "q" else
                {"op": "write", "ls": shuffled(r, v[o["ls"]]), "pts": [[t, "%016x" % x] for t, x in o["pts"]]} for o in c] for c in program]
    def entry(e):
        c, kind = e
        if ticks:
            return 2 * (0 if c == -1 else len(program) + 1 if c == 0 else c) + kind
        return 2 * (c - 1) + kind
    if ticks:
        threads = [[{"op": "tick", "to": 4 + 5 * k} for k in range(ticks)]] + threads
    return {"id": id, "store": backend[0], "index": backend[1], "size": 4, "runs": runs, "per_db": per_db,
            "seed": r.randrange(1 << 30), "budget_ms": budget_ms, "init": [], "threads": threads,
            "final": [{"op": "query", "m": [p], "s": 0, "t": 60} for p in ([["a", "x"]], [["b", "y"]]) for p in p],
            "guides": [[entry(e) for e in g] for g in guides]}


def crashes(r, id, backend, where=None, on=None, n=None, torn=None, **kw):
    """The process is killed at the n-th change to a file or the n-th access to a store, while the database is created,
    reopened, rotated, or while a series is created or written; then it is opened again and asked about everything."""
    size = r.choice([20, 100, 60000])
    b = Builder(r, id, backend, size, crashes=True, **kw)
    b.series = label_sets(r, r.randint(2, 5), r.random() < 0.2)
    ordered = backend[0] == "tikv"
    where = where or r.choice(["create", "rotate", "series", "write", "reopen", "reopen"])
    on = on or r.choice(["fs", "store"])
    n = n or r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30])
    crash = {"op": "crash", "on": on, "n": n, "torn": r.random() < 0.5 if torn is None else torn}

    def fill(k):
        for _ in range(k):
            b.write(r.choice(b.series), r.choice([1, 2, 3]), ordered)

    def again():
        b.ops.append({"op": "stop", "how": "kill"})
        b.tick_down(r.choice([2, 3, size // 2 + 2, size + 2, 3 * size]))

    if where == "create":
        b.ops.append(crash)
        b.open()
        fill(1)
        again()
    else:
        b.open()
        fill(r.randint(1, 4))
        if r.random() < 0.3:
            b.tick(size + r.choice([0, 1]))
            fill(1)
        if where == "reopen" or r.random() < 0.5:
            b.ops.append({"op": "flush"})
        if where == "rotate":
            b.ops.append(crash)
            b.tick(size)
            fill(2)
        elif where == "series":
            b.ops.append(crash)
            new = [[r.choice(["a", "n"]), "new%d" % k] for k in range(2)]
            b.series += [[new[0], ["shared", "s"]], [new[1], ["shared", "s"], ["more", "m"]]]
            for ls in b.series[-2:]:
                b.write(ls, 2, ordered)
            fill(1)
        elif where == "write":
            b.ops.append(crash)
            fill(3)
        again()
        if where == "reopen":
            b.ops.append(crash)
            b.open()
            fill(1)
            again()
    if r.random() < 0.3:
        b.ops.append({"op": "crash", "on": on, "n": r.choice([1, 2, 3, 5, 8]), "torn": False})
        b.open()
        again()
    b.open()
    b.sweep(False)
    for ls in r.sample(b.series, min(3, len(b.series))):
        b.write(ls, 1, ordered)
    b.sweep(False)
    b.ops.append({"op": "flush"})
    again()
    b.open()
    b.sweep(False)
    for _ in range(3):
        b.query()
    return b.sc


def backends(r, id, backend, **kw):
    """Attempts to open a directory with the right and with wrong pairs of backends."""
    size = r.choice([20, 60000])
    b = Builder(r, id, backend, size, **kw)
    b.series = label_sets(r, r.randint(1, 3))
    ordered = backend[0] == "tikv"
    b.open()
    for life in range(r.choice([2, 3])):
        for _ in range(r.randint(1, 3)):
            b.write(r.choice(b.series), r.choice([1, 2]), ordered)
        if r.random() < 0.3:
            b.tick(size)
        b.ops.append({"op": "stop", "how": "flush"})
        b.tick_down(r.choice([2, size // 2 + 2, size + 2]))
        for _ in range(r.choice([1, 2, 3, 4])):
            wrong = r.choice([x for x in BACKENDS if x != backend])
            b.ops.append({"op": "open", "store": wrong[0], "index": wrong[1]})
            if r.random() < 0.3:
                b.ops[-1]["garbled"] = True  # the metadata cannot be read
            if r.random() < 0.4:
                b.tick_down(1)
        b.open()
        b.sweep()
    return b.sc


def faults(r, id, backend, **kw):
    """Accesses to the stores fail, before or after taking effect; afterwards the call is repeated."""
    size = r.choice([20, 100])
    b = Builder(r, id, backend, size, own=True, **kw)
    b.series = label_sets(r, r.randint(2, 5))
    ordered = backend[0] == "tikv"
    b.open()
    for _ in range(r.randint(0, 3)):
        b.write(r.choice(b.series), r.choice([1, 2]), ordered)

    def plan(top=10):
        n = r.choice([1, 1, 1, 2])
        return {"op": "faults", "plan": [[k, r.choice(["before", "after", "before"])] for k in sorted(r.sample(range(top), n))]}
    off = {"op": "faults", "plan": []}
    new = 0
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if x < 0.55:
            if r.random() < 0.6:
                new += 1
                b.series.append([["n", "new%d" % new]] + ([["shared", "s"]] if r.random() < 0.7 else []) + ([["z", "z"]] if r.random() < 0.4 else []))
                ls = b.series[-1]
            else:
                ls = r.choice(b.series)
            if r.random() < 0.3:    # the accesses to the storage, after a new series was put into the index
                b.ops.append({"op": "faults", "plan": [[2 * len(ls) + r.choice([2, 3, 4, 5]), r.choice(["before", "before", "after"])]]})
            else:
                b.ops.append(plan(r.choice([4, 10])))
            b.write(ls, r.choice([1, 1, 2, 3]), ordered)
            op = json.loads(json.dumps(b.ops[-1]))
            b.ops.append(off)
            if r.random() < 0.4:
                b.query(ls, ZERO, UMAX)
            if r.random() < 0.3:
                b.write(r.choice(b.series), 1, ordered)
            if r.random() < 0.6:
                b.ops.append(op)
                b.query(ls, ZERO, UMAX)
        elif x < 0.85:
            b.ops.append(plan(r.choice([3, 8, 16])))
            b.query()
            b.ops.append(off)
            if r.random() < 0.5:
                b.ops.append(dict(b.ops[-2]))
        else:
            b.ops.append(plan(12))
            # whether the rotation takes place is up to the database; times are chosen for both cases
            b.clock += size
            b.ops.append({"op": "tick", "d": size})
            b.ops.append(off)
            b.sweep(False)
            b.clock += size
            b.ops.append({"op": "tick", "d": size})
            b.start, b.deadline = b.clock + 1, b.clock + size
            b.starts.append(b.start)
            b.last = {}
    b.sweep()
    if r.random() < 0.35:
        b.ops.append({"op": "stop", "how": "flush"})
        b.tick_down(r.choice([2, size + 2]))
        if r.random() < 0.6:
            b.ops.append(plan(14))
            b.ops.append({"op": "open"})
            b.ops.append(off)
            b.ops.append({"op": "stop", "how": "kill"})
            b.tick_down(size + 2)
        b.open()
        b.sweep()
    return b.sc


def everyaccess(r, id, backend, **kw):
    """Every access of a query fails, with every kind of error."""
    size = 100
    b = Builder(r, id, backend, size, **kw)
    b.series = [[["a", "x"], ["n", str(k)]] for k in range(3)]
    off = {"op": "faults", "plan": []}
    b.open()
    for chunk in range(r.choice([1, 2, 2])):
        if chunk:
            b.tick(size)
        for ls in b.series:
            b.write(ls, r.choice([1, 2]), True)
    m = r.choice([[["a", "x"]], [["a", "x"], ["n", "1"]]])
    for at in range(18):
        for kind in r.sample(range(10), 3) + [r.choice([2, 3])]:
            b.ops.append({"op": "faults", "plan": [[at, "before", kind]]})
            b.query(m, ZERO, UMAX)
    b.ops.append(off)
    for k, ls in enumerate(b.series):
        for at in range(7):
            kind = r.choice([0, 1, 2, 2, 3, 3, 4, 9])
            b.ops.append({"op": "faults", "plan": [[at, r.choice(["before", "after"]), kind]]})
            b.write(ls if r.random() < 0.6 else [["a", "x"], ["m", "%d-%d" % (k, at)]], 1, True)
            b.ops.append(off)
            b.query([["a", "x"]], ZERO, UMAX)
    b.sweep()
    return b.sc


def from_chunk(r, id, backend, h):
    """a behaviour generated by TLC from ChunkImpl: writes of which single accesses fail, and a death at one"""
    size = r.choice([20, 100])
    b = Builder(r, id, backend, size, own=True, crashes=True)
    pair = {"a": ["a", r.choice(PLAIN + TRICKY)], "b": [r.choice(["b", "aa", "z"]), r.choice(PLAIN + TRICKY)]}
    b.series = [[pair["a"]], [pair["a"], pair["b"]]]
    times = r.choice([[1, 2, 3], [0, 7, size], [size - 2, size - 1, size]])
    off = {"op": "faults", "plan": []}
    b.open()

    def call(e):
        ls = shuffled(r, [pair[p[0]] for p in e["ls"]])
        t = times[e["t"] - 1]
        b.used.append(t)
        if r.random() < 0.5:
            b.ops.append({"op": "single", "ls": ls, "t": t, "v": b.v()})
        else:
            b.ops.append({"op": "write", "ls": ls, "pts": [[t, b.v()]]})

    def where(n):
        # the embedded index looks twice for the label set
        return n + 1 if backend[1] == "sled" and n >= 1 and r.random() < 0.8 else n
    for e in h:
        if e["op"] == "flush":
            if r.random() < 0.3:
                b.ops.append({"op": "flush"})
        elif e["op"] == "write":
            if e["plan"]:
                b.ops.append({"op": "faults", "plan": [[where(n), how] for n, how in e["plan"]]})
                call(e)
                b.ops.append(off)
            else:
                call(e)
            b.query([r.choice(list(pair.values()))], ZERO, UMAX)
        else:
            b.sweep()
            if e["ls"]:
                b.ops.append({"op": "crash", "on": "store", "n": where(e["plan"][-1][0]) + 1, "torn": False})
                call(e)
            b.ops.append({"op": "stop", "how": "kill"})
            b.tick_down(r.choice([2, size + 2]))
    b.open()
    b.sweep()
    return b.sc


def from_open(r, id, backend, h):
    """a behaviour generated by TLC from OpenImpl: a directory that is opened, rotated and left at any step"""
    size = r.choice([20, 100])
    b = Builder(r, id, backend, size, own=True, crashes=True)
    b.series = label_sets(r, r.randint(2, 3))
    ordered = backend[0] == "tikv"
    off = {"op": "faults", "plan": []}

    def crash(at):
        on = r.choice(["fs", "store"])
        n = r.randint(1 + 2 * at, 4 + 5 * at) if on == "fs" else r.randint(1, 2 + at)
        b.ops.append({"op": "crash", "on": on, "n": n, "torn": r.random() < 0.5})

    def again(d=None):
        b.ops.append({"op": "stop", "how": "kill"})
        b.tick_down(d or r.choice([2, 3, size // 2 + 2, size + 2]))

    def opt(k):
        for o in b.ops[k:]:
            o["opt"] = True
    for e in h:
        k = len(b.ops)
        if e["op"] == "write":
            b.write(r.choice(b.series), r.choice([1, 2]), ordered)
            if r.random() < 0.2:
                b.ops.append({"op": "flush"})
        elif e["op"] == "kill":
            again()
        elif e["op"] == "open" and e["end"] == "ok":
            b.open()
            b.sweep(False)
        elif e["op"] == "open" and e["end"] == "die":
            crash(e["at"])
            b.open()
            b.write(r.choice(b.series), 1, ordered)
            opt(k + 2)
            again()
        elif e["op"] == "open":
            b.ops.append({"op": "faults", "plan": [[r.randint(0, 1 + 2 * e["at"]), r.choice(["before", "after"])]]})
            b.ops.append({"op": "open"})
            b.start = b.clock
            b.ops.append(off)
            k = len(b.ops)
            b.sweep(False)
            opt(k)
            again()
        elif e["op"] == "rotate" and e["end"] == "ok":
            b.tick(b.deadline - b.clock)
        elif e["op"] == "rotate" and e["end"] == "die":
            crash(e["at"] + 1)
            b.tick(b.deadline - b.clock)
            b.write(r.choice(b.series), 1, ordered)
            again()
        elif e["op"] == "rotate":
            b.ops.append({"op": "faults", "plan": [[r.randint(0, 5), r.choice(["before", "after"])]]})
            b.tick(b.deadline - b.clock)
            b.ops.append(off)
            b.sweep(False)
            # whether there is a new chunk is up to the database: the next rotation, whatever happened
            b.tick(size)
            b.last = {}
    b.sweep()
    return b.sc


def reopens(r, id, backend, **kw):
    """Accesses to the stores fail while a database with several chunks is opened."""
    size = r.choice([20, 100])
    b = Builder(r, id, backend, size, own=True, **kw)
    b.series = label_sets(r, r.randint(2, 4))
    ordered = backend[0] == "tikv"
    b.open()
    for _ in range(r.randint(1, 4)):
        for ls in b.series:
            if r.random() < 0.7:
                b.write(ls, r.choice([1, 2]), ordered)
        b.tick(size)
    b.write(r.choice(b.series), 1, ordered)
    at = r.sample(range(22), 3)
    for k in at:
        b.ops.append({"op": "stop", "how": "flush"})
        b.tick_down(r.choice([2, size + 2]))
        b.ops.append({"op": "faults", "plan": [[k, r.choice(["before", "after"])]]})
        b.ops.append({"op": "open"})
        b.start = b.clock
        b.ops.append({"op": "faults", "plan": []})
        n = len(b.ops)
        b.sweep(False)
        b.query()
        for o in b.ops[n:]:
            o["opt"] = True
        if r.random() < 0.5:
            b.ops.append({"op": "stop", "how": "flush"})
            b.tick_down(2)
            b.open()
            b.sweep(False)
            b.write(r.choice(b.series), 1, ordered)
    b.ops.append({"op": "stop", "how": "flush"})
    b.tick_down(size + 2)
    b.open()
    b.sweep()
    return b.sc


def shared(r, id, backend, **kw):
    """Several databases with many chunks on one shared store."""
    n = r.choice([2, 2, 3])
    pairs = [backend] + [r.choice(BACKENDS[1:]) for _ in range(n - 1)]
    size = r.choice([20, 100])
    bs = [Builder(r, id, p, size if r.random() < 0.7 else size * 2, t0=1600000000000) for p in pairs]
    series = label_sets(r, r.randint(1, 4))
    for b in bs:
        b.series = series
    ops = []
    sc = {"id": id, "t0": 1600000000000, "ops": ops,
          "dbs": [{"store": p[0], "index": p[1], "size": b.size, "dirname": "db%d" % k} for k, (p, b) in enumerate(zip(pairs, bs))]}

    def move(k):
        ops.extend(dict(o, db=k) for o in bs[k].ops)
        bs[k].ops.clear()

    def each(f):
        order = list(range(n))
        r.shuffle(order)
        for k in order:
            f(bs[k])
            move(k)

    def tick(d, down=False):
        for b in bs:
            (Builder.tick_down if down else Builder.tick)(b, d)
            b.ops.clear()
        ops.append({"op": "tick", "d": d})

    each(lambda b: b.open())
    lives = r.choice([1, 2, 2, 3])
    for life in range(lives):
        for _ in range(r.randint(4, 10)):
            k = r.randrange(n)
            b = bs[k]
            x = r.random()
            if x < 0.6:
                b.write(r.choice(series), r.choice([1, 2, 3]), b.sc["store"] == "tikv")
            elif x < 0.75:
                b.query()
            else:
                tick(r.choice([1, size, size + 1]))
            move(k)
        each(lambda b: b.sweep(False))
        if life + 1 < lives:
            ops.append({"op": "stop", "how": "flush"})
            tick(max([b.start - b.clock + 1 for b in bs] + [r.choice([2, size // 2 + 2, 2 * size + 3])]), True)
            each(lambda b: b.open())
            each(lambda b: b.sweep(False))
    each(lambda b: b.sweep())
    return sc


# ---------------------------------------------------------------------------------------------------------------------
# HTTP
NEG, NEGMIN = -2000000010, -2000000011      # signed: -1, i64::MIN
WAYS = ["plain", "plain", "plain", "split", "chunked", "expect", "close", "old", "pipe"]
BAD = ["cut", "cut", "stub", "first", "wiretype", "length", "endless", "utf8", "short", "short", "plain", "random", "flip", "huge", "badcopy",
       "long", "framed"]


class HttpBuilder(Builder):
    def req(self, op, **kw):
        r = self.r
        o = dict(op=op, way=r.choice(WAYS), seed=r.randrange(1 << 30), **kw)
        if r.random() < 0.25:
            o["extra"] = True
        return o

    def hseries(self, ls, n, ordered=False):
        pts = [self.point(ls, ordered) for _ in range(n)]
        for p in pts:
            if p[0] in (UMAX, UMAX1):
                p[0] = self.r.choice([NEG, NEGMIN, IMAX])
        return {"ls": shuffled(self.r, ls), "pts": pts}

    def rw(self, n=None, ordered=False):
        r = self.r
        n = n or r.choice([1, 1, 2, 3, 5])
        return self.req("rw", series=[self.hseries(r.choice(self.series), r.choice([1, 1, 2, 3, 6]), ordered) for _ in range(n)])

    def hquery(self, m=None, s=None, t=None, types=None):
        r = self.r
        m = m or self.matcher()
        lim = lambda x: r.choice([NEG, NEGMIN, IMAX]) if x in (UMAX, UMAX1) and r.random() < 0.5 else IMAX if x in (UMAX, UMAX1) else x
        a, b = lim(self.bound()), lim(self.bound())
        if a > b and r.random() < 0.85:
            a, b = b, a
        return {"m": shuffled(r, m), "types": types or [0] * len(m), "s": a if s is None else s, "t": b if t is None else t}

    def rr(self, n=None):
        return self.req("rr", queries=[self.hquery() for _ in range(n or self.r.choice([1, 1, 1, 2, 3, 6]))])

    def readall(self):
        """everything, in one request with a query per series and one per pair"""
        qs = [self.hquery(ls, self.r.choice([ZERO, NEG, NEGMIN]), IMAX) for ls in self.series]
        qs += [self.hquery([list(p)], ZERO, IMAX) for p in sorted({tuple(p) for ls in self.series for p in ls})]
        self.r.shuffle(qs)
        self.ops.append(self.req("rr", queries=qs))

    def bad(self):
        r = self.r
        o = self.req("bad", how=r.choice(BAD), to=r.choice(["write", "write", "read"]))
        if o["to"] == "read" or (o["how"] in ("plain", "random", "flip") and r.random() < 0.3):
            o["queries"] = [self.hquery() for _ in range(r.choice([1, 2, 4]))]
            if o["how"] == "flip":
                o["how"] = "short"
        else:
            # timestamps in range: if any of it is stored, it shows
            n = r.choice([1, 2, 3, 8, 40])
            o["series"] = [{"ls": shuffled(r, r.choice(self.series)), "pts": [[self.inrange(), self.v()]]} for _ in range(n)]
        return o

    def raw(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            n = r.choice([1, 5, 80, 3000])
            b = bytes(r.randrange(256) for _ in range(n)) if r.random() < 0.5 else r.choice(
                [b"\r\n\r\n", b"GET\r\n\r\n", b"POST /write HTTP/9.9\r\n\r\n", b"POST /write HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc",
                 b"POST /write HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabc", b"GET /read HTTP/1.1\r\nHost\r\n\r\n",
                 b"POST /write HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n", b"\xff\xfe /\xff HTTP/1.1\r\n\r\n",
                 b"POST /write HTTP/1.1\r\nTransfer-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc",
                 b"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", b"GET http://other/read HTTP/1.1\r\n\r\n",
                 b"POST /read HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 5\r\n\r\nabcde"])
            return {"op": "raw", "bytes": b.hex(), "shut": r.random() < 0.7}
        if x < 0.4:
            # any length may be announced
            n = r.choice([0, 1, 1024, 1025, 2**20, 2**31 - 1, 2**31, 2**32, 2**33, 2**40, 2**46, 2**47, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64])
            b = ("POST /%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n%s\r\n" % (
                r.choice(["read", "write", "write", ""]), n, r.choice(["", "", "Expect: 100-continue\r\n"]))).encode()
            return {"op": "raw", "bytes": (b + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 900])))).hex(), "shut": r.random() < 0.8}
        if x < 0.6:
            # less body than announced, then the connection ends
            ss = [{"ls": shuffled(r, r.choice(self.series)), "pts": [[self.inrange(), self.v()]]} for _ in range(r.choice([1, 3, 60]))]
            return {"op": "raw", "to": "write", "series": ss, "method": "POST", "headers": "Content-Length: 100000\r\n",
                    "drop": r.choice([1, 2, 5, 30]),
                    "shut": r.random() < 0.8, "answer": r.random() < 0.3}
        if x < 0.85:
            return {"op": "raw", "to": r.choice(["read", "write", "/", "/writer", "/write/", "/read?x=1", "/%2e%2e", "*", "/" + "x" * 3000]),
                    "method": r.choice(["GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "BREW"]), "answer": False,
                    "shut": r.random() < 0.5, "sent": 0, "headers": "Content-Length: 0\r\n"}
        return {"op": "raw", "to": r.choice(["/", "/nowhere", "/writ", "/Write"]), "method": "POST", "answer": True, "series": [],
                "body": "00", "headers": "Content-Length: 1\r\n"}


def httpdata(r, id, backend, nops=22, **kw):
    """remote writes and remote reads, mixed with calls and rotations"""
    size = r.choice([5, 20, 100, 60000])
    t0 = r.choice([1600000000000, 1000, 70, 2**31 - 5, 2**40 - 3, 2**62])
    b = HttpBuilder(r, id, backend, size, t0, workers=r.choice([1, 2, 4]), **kw)
    tricky = r.random() < 0.5
    b.series = collisions(r) if tricky and r.random() < 0.4 else label_sets(r, r.randint(1, 8), tricky)
    if r.random() < 0.2:
        b.series.append([["big", "x" * r.choice([127, 128, 200, 17000])], ["a", "é" * 70]])
    ordered = backend[0] == "tikv"
    b.starts.append(0)
    for _ in range(nops):
        x = r.random()
        if x < 0.42:
            b.ops.append(b.rw(None, ordered))
        elif x < 0.5:
            b.write(r.choice(b.series), r.choice([1, 2, 4]), ordered)
            if b.ops[-1]["op"] == "single":
                o = b.ops.pop()
                b.put(o["ls"], [[o["t"], o["v"]]])
        elif x < 0.85:
            b.ops.append(b.rr())
        elif x < 0.95:
            b.tick(r.choice([0, 1, size // 2, size, size + 1, 2 * size]))
        else:
            b.ops.append(b.bad())
    b.readall()
    for ls in b.series:
        b.query(ls, ZERO, UMAX)
    return b.sc


def httpfaults(r, id, backend, **kw):
    """accesses to the stores fail while a request is answered; the request may be repeated"""
    size = r.choice([20, 100, 60000])
    b = HttpBuilder(r, id, backend, size, 1600000000000, workers=r.choice([1, 2]), **kw)
    b.series = label_sets(r, r.randint(2, 6), r.random() < 0.3)
    b.starts.append(0)
    ordered = backend[0] == "tikv"

    def plan(top):
        return {"op": "faults", "plan": [[k, r.choice(["before", "after", "before"])] for k in sorted(r.sample(range(top), r.choice([1, 1, 1, 2, 3])))]}
    off = {"op": "faults", "plan": []}
    for ls in b.series:
        if r.random() < 0.6:
            b.ops.append(b.req("rw", series=[b.hseries(ls, r.choice([1, 3]), ordered)]))
    new = 0
    for _ in range(r.randint(5, 10)):
        x = r.random()
        if x < 0.5:
            if r.random() < 0.5:
                new += 1
                b.series.append([["n", "new%d" % new]] + ([["shared", "s"]] if r.random() < 0.7 else []))
            o = b.rw(r.choice([1, 2, 4]), ordered)
            if new and r.random() < 0.7:
                o["series"].append(b.hseries(b.series[-1], 1, ordered))
            b.ops += [plan(r.choice([4, 10, 40])), o, off]
            if r.random() < 0.6:
                b.ops.append(json.loads(json.dumps(o)))
            b.readall()
        elif x < 0.9:
            o = b.rr()
            b.ops += [plan(r.choice([4, 8, 30])), o, off]
            if r.random() < 0.5:
                b.ops.append(json.loads(json.dumps(o)))
        else:
            b.ops.append(b.rr())
    b.readall()
    for ls in b.series:
        b.query(ls, ZERO, UMAX)
    return b.sc


def httplong(r, id, backend, n=11500, **kw):
    """a series of thousands of samples in one answer"""
    b = HttpBuilder(r, id, backend, 40000, 1600000000000, workers=2, **kw)
    b.series = [[["a", "x"], ["s", str(k)]] for k in range(2)]
    b.starts.append(0)
    ts = sorted(r.sample(range(b.start, b.end() + 1), n))
    b.used = r.sample(ts, 20)
    i = 0
    while i < n:
        k = r.choice([700, 1000, 1500])
        b.ops.append(b.req("rw", series=[{"ls": b.series[0], "pts": [[t, b.v()] for t in ts[i:i + k]]}]))
        i += k
    b.ops.append(b.req("rw", series=[{"ls": b.series[1], "pts": [[ts[5], b.v()]]}]))
    b.ops.append(b.req("rr", queries=[b.hquery([["a", "x"]], ZERO, IMAX)]))
    b.ops.append(b.req("rr", queries=[b.hquery([["s", "0"]], ts[1], ts[-2]), b.hquery([["s", "0"]], ts[n // 2], IMAX)]))
    return b.sc


def httpmany(r, id, backend, n=None, **kw):
    """many series and samples in one request"""
    n = n or r.choice([30, 80, 150])
    b = HttpBuilder(r, id, backend, 4000, 1600000000000, workers=2, **kw)
    b.series = [[["all", "1"], ["n", str(i)], ["m", str(i % 7)]] for i in range(n)]
    b.starts.append(0)
    order = list(range(n))
    r.shuffle(order)
    ss = []
    for i in order:
        k = r.choice([1, 2, 5, 40 if n < 100 else 3])
        ts = sorted(r.sample(range(b.start, b.end() + 1), k))
        b.used += ts
        ss.append({"ls": shuffled(r, b.series[i]), "pts": [[t, b.v()] for t in ts]})
    while ss:
        k = r.choice([1, 7, 40, min(n, 300)])
        b.ops.append(b.req("rw", series=ss[:k]))
        ss = ss[k:]
    b.ops.append(b.req("rr", queries=[b.hquery([["all", "1"]], ZERO, IMAX)]))
    b.ops.append(b.req("rr", queries=[b.hquery([["m", str(k)]], ZERO, IMAX) for k in range(8)]))
    b.ops.append(b.req("rr", queries=[b.hquery([["n", str(r.randrange(n))]], NEG, IMAX) for k in range(25)]))
    for _ in range(4):
        b.ops.append(b.req("rr", queries=[b.hquery(r.choice([[["all", "1"]], [["m", "3"]]])) for k in range(3)]))
    return b.sc


def httppar(r, id, backend, rounds=3, **kw):
    """Several clients at the same time, each with series of its own: what one of them sees does not depend on the others."""
    size = r.choice([20, 100, 60000])
    n = r.choice([2, 3, 4, 6])
    b = HttpBuilder(r, id, backend, size, 1600000000000, workers=r.choice([1, 2, 4, 8]), **kw)
    ordered = backend[0] == "tikv"
    b.starts.append(0)
    own = [[ls + [["client", str(k)]] for ls in label_sets(r, r.randint(1, 3), r.random() < 0.3, maxlen=3)] for k in range(n)]
    for _ in range(rounds):
        progs = []
        for k in range(n):
            b.series, prog = own[k], []
            for _ in range(r.choice([2, 4, 6])):
                x = r.random()
                if x < 0.5:
                    o = b.rw(r.choice([1, 2, 6]), ordered)
                elif x < 0.9:
                    o = b.rr(r.choice([1, 2, 3]))
                    for q in o["queries"]:
                        if ["client", str(k)] not in q["m"]:
                            q["m"].append(["client", str(k)])
                            q["types"].append(0)
                else:
                    o = b.bad()
                prog.append(o)
            progs.append(prog)
        b.ops.append({"op": "par", "ops": progs})
        b.series = [ls for x in own for ls in x]
        b.readall()
        if r.random() < 0.4:
            b.tick(r.choice([1, size, size + 1]))
    for ls in b.series:
        b.query(ls, ZERO, UMAX)
    return b.sc


def httptypes(r, id, backend, **kw):
    """queries that use the other three types of matchers"""
    b = HttpBuilder(r, id, backend, 1000, 1600000000000, **kw)
    b.series = label_sets(r, 6, False, maxlen=3)
    b.starts.append(0)
    for ls in b.series:
        b.ops.append(b.req("rw", series=[b.hseries(ls, 2, True)]))
    for _ in range(8):
        m = [list(p) for p in r.sample(r.choice(b.series), 1)]
        q = b.hquery(m, ZERO, IMAX, [r.choice([1, 2, 3])])
        if r.random() < 0.5:
            p = r.choice(r.choice(b.series))
            q["m"].append(list(p))
            q["types"].append(0)
        if q["types"][0] > 1 and r.random() < 0.5:
            q["m"][0][1] = r.choice([".*", ".+"])
        b.ops.append(b.req("rr", queries=[q]))
        b.ops.append(b.rr())
    return b.sc


def httpbad(r, id, backend, nops=26, **kw):
    """requests that cannot be decoded or are no requests at all, between ones that can"""
    size = r.choice([20, 100, 60000])
    b = HttpBuilder(r, id, backend, size, 1600000000000, workers=r.choice([2, 2, 3, 4]), **kw)
    b.series = label_sets(r, r.randint(2, 5), r.random() < 0.4)
    if r.random() < 0.4:
        b.series += [[["w", wide(r)]] for _ in range(3)]
    ordered = backend[0] == "tikv"
    b.starts.append(0)
    held = 0
    for _ in range(nops):
        x = r.random()
        if x < 0.2:
            b.ops.append(b.rw(None, ordered))
        elif x < 0.32:
            b.ops.append(b.rr())
        elif x < 0.65:
            b.ops.append(b.bad())
        elif x < 0.85:
            b.ops.append(b.raw())
        elif x < 0.9 and held + 1 < b.sc["workers"]:
            # a client that stops in the middle
            held += 1
            body = r.choice([0, 3, 900, 5000])
            b.ops.append({"op": "hold", "bytes": (r.choice([b"", b"POS", b"POST /write HTTP/1.1\r\nContent-Length: 40000\r\n",
                          b"POST /write HTTP/1.1\r\nContent-Length: 40000\r\n\r\n" + b"\x07" * body,
                          b"POST /read HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1000\r\n" + b"\x07" * body])).hex()})
        elif x < 0.94:
            b.tick(r.choice([1, size // 2, size]))
        else:
            ops = [b.bad() for _ in range(3)] + [b.rr() for _ in range(3)]
            r.shuffle(ops)
            b.ops.append({"op": "par", "ops": ops})
    b.readall()
    for ls in b.series:
        b.query(ls, ZERO, UMAX)
    return b.sc
