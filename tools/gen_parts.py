"""Histories of storages, indexers and chunks on their own, for `mbt parts`."""
import gen
from gen import ZERO, ONE, UMAX, UMAX1, IMAX

U64 = (1 << 64) - 1


def size(r, *opts):
    return r.choice(opts)


def windows(r, times):
    """windows around the given times"""
    ts = sorted(t for t in times if abs(t) < 900000000) or [0]
    edge = lambda: r.choice([ZERO, ONE, UMAX, UMAX1, IMAX] + [r.choice(ts) + r.choice([-1, 0, 0, 1]) for _ in range(8)])
    a, b = edge(), edge()
    return (a, b) if a <= b or r.random() < 0.1 else (b, a)


def ids(r, n):
    """n ascending ids"""
    style = r.randrange(4)
    if style == 0:
        return list(range(1, n + 1))
    if style == 1:
        return sorted(r.sample(range(0, 200), n))
    if style == 2:
        return sorted({r.choice([9, 10, 99, 100, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, U64 - 1, U64, 0, 1,
                                 r.getrandbits(r.choice([8, 16, 32, 64]))]) for _ in range(3 * n)})[-n:]
    k = r.getrandbits(62)
    return [k + j for j in range(n)]


def storages(r, id, kinds=("sled", "tikv"), num=None, nops=60):
    """samples of several series in several storages"""
    v = gen.Values(r)
    num = num or r.randint(1, 3)
    ops, objs = [], []
    for k in range(num):
        kind = r.choice(kinds)
        ops.append({"op": "new", "o": "s%d" % k, "what": "storage", "kind": kind, "chunk": k})
        objs.append({"o": "s%d" % k, "kind": kind, "k": k, "series": {}, "ro": False})
    pool = [str(x) for x in ids(r, r.randint(1, 4))]
    span = r.choice([3, 10, 100, 5000])
    for _ in range(nops):
        o = r.choice(objs)
        s = r.choice(pool)
        have = o["series"].get(s, [])
        if r.random() < 0.55 and not o["ro"]:
            last = max([t for t in have if t < 900000000], default=0)
            if r.random() < 0.75 or not have:
                t = last + r.randint(1, 1 + span // 3)
            else:
                t = r.choice([last, r.choice(have), r.randint(0, span), r.randint(0, span), r.choice([ZERO, ONE, IMAX, UMAX1, UMAX])])
            ops.append({"op": "put", "o": o["o"], "id": s, "t": t, "v": v(r.random() < 0.9)})
            o["series"].setdefault(s, []).append(t)
        elif r.random() < 0.06:
            ops.append({"op": "attach", "o": o["o"], "what": "storage", "kind": o["kind"], "chunk": o["k"]})
            o["ro"] = o["kind"] == "sled"
        else:
            s = s if r.random() < 0.9 else str(r.getrandbits(64))
            a, b = windows(r, have)
            ops.append({"op": "get", "o": o["o"], "id": s, "s": a, "t": b})
    for o in objs:
        for s in pool:
            ops.append({"op": "get", "o": o["o"], "id": s, "s": ZERO, "t": UMAX})
    return {"id": id, "t0": r.choice(gen.T0S), "ops": ops}


def indexes(r, id, kinds=("sled", "tikv"), tricky=None, nsets=None, num=None):
    """label sets in several indexes"""
    num = num or r.randint(1, 2)
    tricky = r.random() < 0.5 if tricky is None else tricky
    ops = []
    for k in range(num):
        kind = r.choice(kinds)
        o = "i%d" % k
        n = nsets or r.choice([1, 3, 8, 8, 20, 40])
        sets = gen.collisions(r) if tricky and r.random() < 0.5 else gen.label_sets(r, n, tricky, maxlen=r.choice([1, 2, 4, 7]))
        sets = [x for j, x in enumerate(sets) if sorted(x) not in [sorted(y) for y in sets[:j]]]
        num_ids = ids(r, len(sets))
        sets = sets[:len(num_ids)]
        ops.append({"op": "new", "o": o, "what": "index", "kind": kind, "chunk": k})
        done = []
        pairs = sorted({tuple(p) for s in sets for p in s})
        for s, x in zip(sets, num_ids):
            ops.append({"op": "index", "o": o, "ls": gen.shuffled(r, s), "id": str(x)})
            done.append(s)
            for _ in range(r.choice([0, 1, 2])):
                ops.append(lookup(r, o, sets, done, pairs))
            if r.random() < 0.05:
                ops.append({"op": "attach", "o": o, "what": "index", "kind": kind, "chunk": k})
        for _ in range(12):
            ops.append(lookup(r, o, sets, done, pairs))
    return {"id": id, "t0": 1000, "ops": ops}


def lookup(r, o, sets, done, pairs):
    if r.random() < 0.35:
        ls = r.choice(sets) if r.random() < 0.8 else [list(r.choice(pairs))]
        return {"op": "exact", "o": o, "ls": gen.shuffled(r, ls)}
    s = r.choice(done)
    m = r.sample(s, r.randint(1, len(s)))
    if r.random() < 0.25:
        other = list(r.choice(pairs)) if r.random() < 0.7 else ["a", "nothing"]
        if other[0] not in [p[0] for p in m]:
            m.append(other)
    if r.random() < 0.1:
        m = m + [m[0]]      # the same matcher twice
    return {"op": "find", "o": o, "m": gen.shuffled(r, m)}


def chunks(r, id, backends=None, num=None, nops=50):
    """samples of series in several chunks, some of them closed and found again"""
    v = gen.Values(r)
    num = num or r.randint(1, 3)
    ops, objs = [], []
    t0 = r.choice(gen.T0S)
    tricky = r.random() < 0.3
    series = gen.label_sets(r, r.randint(1, 5), tricky)
    pairs = sorted({tuple(p) for s in series for p in s})
    for k in range(num):
        kind, ikind = r.choice(backends or gen.BACKENDS)
        a = r.randint(0, 40)
        b = a + r.choice([0, 1, 5, 30, 1000])
        if r.random() < 0.08:
            b = UMAX
        if r.random() < 0.08:
            a = ZERO
        op = {"op": "new", "o": "c%d" % k, "what": "chunk", "kind": kind, "ikind": ikind, "chunk": k, "start": a, "end": b}
        ops.append(op)
        objs.append({"op": op, "o": "c%d" % k, "a": a, "b": b, "closed": False, "top": {}, "times": [a, b]})
    for _ in range(nops):
        o = r.choice(objs)
        x = r.random()
        lo, hi = max(o["a"], 0), min(o["b"], 3000)
        if x < 0.55:
            ls = r.choice(series)
            key = str(sorted(ls))
            top = o["top"].get(key, lo - 1)
            near = lambda x, d: x if abs(x) > 900000000 else x + d
            t = r.choice([top + 1, top + 1, top + 1, top + r.randint(1, 4), r.randint(lo, hi), o["a"], o["b"], near(o["b"], 1), near(o["a"], -1), UMAX, ZERO])
            ops.append({"op": "insert", "o": o["o"], "ls": gen.shuffled(r, ls), "t": t, "v": v(r.random() < 0.9)})
            if o["a"] <= t <= hi:
                o["top"][key] = max(top, t)
                o["times"].append(t)
        elif x < 0.60 and not o["closed"] and r.random() < 0.5:
            ops.append({"op": "close", "o": o["o"]})
            o["closed"] = True
        elif x < 0.66 and o["closed"]:
            ops.append(dict(o["op"], op="attach"))
        else:
            ls = r.choice(series)
            m = r.sample(ls, r.randint(1, len(ls)))
            if r.random() < 0.1:
                m.append(list(r.choice(pairs)))
            a, b = windows(r, o["times"])
            ops.append({"op": "select", "o": o["o"], "m": gen.shuffled(r, m), "s": a, "t": b})
    for o in objs:
        for p in pairs[:8]:
            ops.append({"op": "select", "o": o["o"], "m": [list(p)], "s": ZERO, "t": UMAX})
    return {"id": id, "t0": t0, "ops": ops}


def lists(r, id, n=60):
    """ascending lists of ids and what they have in common"""
    ops = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 15, 17, 31])
        base = r.choice([0, 1, 250, 65530, (1 << 32) - 5, (1 << 63) - 10, U64 - 400])
        span = r.choice([1, 3, 10, 40, 200])
        density = r.choice([0.02, 0.3, 0.7, 0.95, 1.0])
        common = {base + r.randrange(span) for _ in range(r.choice([0, 1, 1, 3]))}
        ls = []
        for _ in range(k):
            d = r.choice([density, density, 0.0, 1.0]) if r.random() < 0.3 else density
            s = {base + j for j in range(span) if r.random() < d} | common
            if r.random() < 0.1:
                s = set(sorted(s)[:r.randint(0, len(s))])
            ls.append([str(x) for x in sorted(s)])
        ops.append({"op": "lists", "lists": ls})
    return {"id": id, "t0": 1000, "ops": ops}


def dirs(r, id, n=80):
    eight = lambda x: list(x.to_bytes(8, "big"))
    pick = lambda: r.choice([0, 1, 15, 16, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 60) - 1, 1 << 60, (1 << 63) - 1, 1 << 63, U64 - 1, U64,
                             1600000000000, r.getrandbits(r.choice([4, 8, 16, 31, 32, 33, 48, 60, 63, 64]))])
    ops = []
    for _ in range(n):
        a, b = pick(), pick()
        if r.random() < 0.5:
            b = min(U64, a + r.choice([0, 1, 60000, 12000000]))
        ops.append({"op": "dir", "start": eight(a), "end": eight(b)})
    return {"id": id, "t0": 1000, "ops": ops}


def from_tlc(r, id, hist):
    """a history of Shared.tla"""
    ops, made, t = [], [], 0
    for h in hist:
        o = "%s%s" % (h["r"], h["c"])
        part = {"o": o, "what": h["r"], "kind": "tikv", "chunk": h["c"]}
        if h["op"] == "new":
            ops.append(dict(part, op="new"))
            made.append((h["r"], o))
        elif h["op"] == "attach":
            ops.append(dict(part, op="attach"))
        elif h["op"] == "write" and h["r"] == "storage":
            t += 1
            ops.append({"op": "put", "o": o, "id": str(h["x"]), "t": t, "v": "%016x" % (h["v"] + 1)})
        elif h["op"] == "write":
            ops.append({"op": "index", "o": o, "id": str(h["v"]), "ls": [["a", "x%d" % h["x"]], ["b", "y%d" % h["v"]]]})
        if h["op"] in ("new", "write", "attach"):
            for what, p in r.sample(made, min(len(made), 3)):
                x = r.choice([1, 2])
                if what == "storage":
                    ops.append({"op": "get", "o": p, "id": str(x), "s": ZERO, "t": UMAX})
                else:
                    ops.append({"op": "find", "o": p, "m": [["a", "x%d" % x]]})
    for what, p in made:
        for x in (1, 2):
            ops.append({"op": "get", "o": p, "id": str(x), "s": ZERO, "t": UMAX} if what == "storage"
                       else {"op": "find", "o": p, "m": [["a", "x%d" % x]]})
    return {"id": id, "t0": 1000, "ops": ops}


def storages_shared(r, id, **kw):
    return storages(r, id, kinds=("tikv",), num=r.randint(2, 4), **kw)


def indexes_shared(r, id, **kw):
    return indexes(r, id, kinds=("tikv",), num=r.randint(2, 4), nsets=5, **kw)


def chunks_shared(r, id, **kw):
    return chunks(r, id, backends=[("tikv", "tikv")], num=r.randint(2, 4), nops=90)
