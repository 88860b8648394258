"""Histories of write-ahead-log segments."""


def takes(r):
    """how much of a buffer a file takes, time after time; 0: it is interrupted, -1: it refuses"""
    t = accepted(r)
    if r.random() < 0.4:
        t = t or [1 << 20] * r.choice([1, 2, 3, 7])
        for _ in range(r.choice([1, 1, 2, 4])):
            t.insert(r.randint(0, len(t)), -1)
    return t


def accepted(r):
    k = r.randrange(6)
    if k < 2:
        return []
    if k == 2:
        return [1]
    if k == 3:
        return [r.choice([1, 2, 3, 7, 8, 15, 100])]
    return [r.choice([0, 1, 2, 5, 8, 14, 15, 16, 40, 1000]) for _ in range(r.randint(2, 7))] + [3]


def data(r, n):
    return [r.choice([0, 255, r.randrange(256)]) for _ in range(n)] if n < 200 else list(r.randbytes(n))


def sequence(r, n):
    k = r.random()
    x = n + 1 if k < 0.7 else r.getrandbits(64) if k < 0.9 else r.choice([0, (1 << 64) - 1, 1 << 63, (1 << 32) - 1])
    return list(x.to_bytes(8, "big"))


def dress(r, id, policy, limit, ops):
    """ops: list of (kind, length)"""
    sink = r.choice(["direct"] * 6 + ["buffered", "file"])
    if r.random() < 0.6 and ops and ops[-1][0] == "close":
        ops = ops + [("close", 0)] * r.choice([1, 2, 5])      # in case the file refuses
    return {"id": id, "policy": policy, "limit": limit, "sink": sink, "takes": takes(r), "buffer": r.choice([1, 8, 16, 64, 8192]),
            "ops": [{"op": "entry", "seq": sequence(r, n), "data": data(r, l), "parts": r.choice([0, 1] if l == 0 else [1, 1, 2, 3])}
                    if k == "entry" else {"op": k} for n, (k, l) in enumerate(ops)]}


def scenario(r, id, big=False):
    policy = r.choice(["immediate", "count", "count", "size", "size"])
    if big:
        ops = [("entry", r.choice([65535, 65534, 40000, 32768, 32767, 1000, 255, 256, 257, 3])) for _ in range(r.randint(1, 3))]
        limit = {"immediate": 0, "count": r.choice([0, 1, 2, 3]), "size": r.choice([10, 15 + 65535, 16 + 65535, 80000, 200000])}[policy]
    else:
        lens = r.choice([[0], [1], [0, 1, 2], [0, 5, 17, 64], [4], [0, 1, 255, 256, 257], list(range(30))])
        ops = [("entry", r.choice(lens)) if r.random() < 0.88 else ("flush", 0) for _ in range(r.choice([0, 1, 2, 5, 9, 20, 40]))]
        limit = 0
        if policy == "count":
            limit = r.choice([0, 1, 2, 3, 4, 5, 7, 9, 16, 100])
        elif policy == "size":
            sizes = [15 + l for k, l in ops if k == "entry"] or [15]
            n = r.randint(1, len(sizes))
            limit = max(0, r.choice([0, 1, 15, 16, 100, 1000, sum(sizes[:n]), sum(sizes[:n]) + 1, sum(sizes[:n]) - 1, sum(sizes) + 5]))
    ops += r.choice([[], [("flush", 0)], [("flush", 0), ("flush", 0)]])
    if r.random() < 0.85:
        ops.append(("close", 0))
    return dress(r, id, policy, limit, ops)


def many(r, id):
    """hundreds of small entries"""
    n = r.choice([130, 258, 300, 520])
    ops = [("entry", r.choice([0, 1, 2])) if r.random() < 0.995 else ("flush", 0) for _ in range(n)]
    policy = r.choice(["immediate", "count", "count", "size"])
    limit = {"immediate": 0, "count": r.choice([63, 64, 100, 127, 128, 129, 255, 256, 257, 300]),
             "size": r.choice([255, 256, 257, 1000, 4095, 4096, 4097, 5000])}[policy]
    if r.random() < 0.8:
        ops.append(("close", 0))
    return dress(r, id, policy, limit, ops)


def from_tlc(r, id, s):
    return dress(r, id, s["policy"], s["limit"], [(o["op"], o["len"]) for o in s["ops"] if o["op"] != "end"])
