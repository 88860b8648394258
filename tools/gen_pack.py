"""Series for the compression checks: timestamps and values as lists of eight bytes."""
import struct
SPECIAL = [0, 1, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0xffffffffffffffff,
           0x3ff0000000000000, 0x4000000000000000, 0x00000000ffffffff, 0xffffffff00000000, 0x8000000000000001, 0x0000000100000000,
           0x000000000000ffff, 0x7fefffffffffffff]
TOP = (1 << 64) - 1


def eight(x):
    return list(x.to_bytes(8, "big"))


def value(r, prev, style):
    if style == "same":
        return prev
    if style == "float":
        return struct.unpack(">Q", struct.pack(">d", r.choice([r.random(), r.randint(-1000, 1000), r.randint(0, 9) * 0.1, 1e300 * r.random(), 0.0, -0.0])))[0]
    if style == "near":
        x = struct.unpack(">d", struct.pack(">Q", prev))[0]
        if x != x or abs(x) > 1e300:
            x = 1.0
        return struct.unpack(">Q", struct.pack(">d", x + r.choice([1, -1, 0.5, 12, 0.1, 0])))[0]
    if style == "special":
        return r.choice(SPECIAL)
    if style == "window":   # differs from the previous value in bits a..b only
        a = r.choice([0, 1, 30, 31, 32, 33, 62, 63, r.randrange(64)])
        b = r.choice([0, 1, 30, 31, 32, 33, 62, 63, r.randrange(64)])
        a, b = min(a, b), max(a, b)
        x = (1 << (63 - a)) | (1 << (63 - b))
        for k in range(a + 1, b):
            x |= r.randrange(2) << (63 - k)
        return prev ^ x
    if style == "bit":
        return prev ^ (1 << r.randrange(64))
    return r.getrandbits(64)


EDGES = [d + s * (1 << k) for k in (0, 6, 7, 8, 14, 15, 16, 30, 31, 32, 33, 62) for d in (-1, 0, 1) for s in (1, -1)] + [0, 0, 0]


def series(r, n, jumps):
    style = r.choice(["same", "float", "near", "special", "window", "bit", "random", "mix", "mix", "mix"])
    t = r.choice([0, 1, 1000, 1600000000000, 1 << 32, (1 << 63) - 100, r.getrandbits(63)])
    d = r.choice([0, 1, 15000, 60000, 1 << 31, 1 << 33])
    v = r.choice(SPECIAL)
    res = []
    for k in range(n):
        s = r.choice(["same", "float", "near", "special", "window", "window", "bit", "random"]) if style == "mix" else style
        v = value(r, v, s) if k else v
        res.append([t, v])
        if jumps == "edges":
            d2 = d + r.choice(EDGES)
        elif jumps == "regular":
            d2 = d if r.random() < 0.8 else d + r.randint(-5, 5)
        elif jumps == "wild":
            d2 = r.getrandbits(r.choice([1, 8, 16, 32, 33, 62, 64]))
        else:
            d2 = r.choice([0, 0, 1, d])
        d2 = max(0, d2)
        if t + d2 > TOP:
            d2 = r.choice([TOP - t, 0, (TOP - t) // 2])
        t, d = t + d2, d2
    return [[eight(a), eight(b)] for a, b in res]


def scenario(r, id, kind=None, n=None):
    n = r.choice([0, 1, 2, 2, 3, 4, 5, 8, 13, 30]) if n is None else n
    return {"id": id, "kind": kind or r.choice(["gorilla"] * 5 + ["none"]), "how": r.choice(["vec", "each", "peek"]),
            "pts": series(r, n, r.choice(["edges", "edges", "regular", "wild", "stay"]))}
