"""Generators shared by C16 and C17 (MortonTree)."""
HARNESS = "mtree.cpp"
TRACE = "MortonTreeTrace"
TYPES = [(32, False), (64, False), (32, True), (64, True)]

def mc(ctx):
    return [dict(module="MortonTreeMC", cfg="MortonTreeMC_%s.cfg" % ctx.tier)]

def cfg(t, d, sc, u=False, off=0):
    return dict(w=t[0], f=t[1], d=d, sc=sc, u=u, off=off)

def replayed(ctx, emitted):
    out = []
    for i, hs in enumerate(emitted[0]):
        for o in hs:
            if o["op"] == "box": o["pre"] = i % 3
        out.append(dict(cfg=cfg(TYPES[i % 4], 2, [0, 3, 9][i % 3]), ops=hs))
    return out

def points(r, d, rng, n):
    k = r.random()
    if k < .25:
        base = [[r.randint(-rng, rng) for _ in range(d)] for _ in range(3)]
        return [r.choice(base) for _ in range(n)]
    if k < .45: return [[r.choice([-rng, -1, 0, 1, rng, r.randint(-rng, rng)]) for _ in range(d)] for _ in range(n)]
    if k < .6:
        s = 1 << r.randint(0, 3)
        return [[s * r.randint(-4, 4) for _ in range(d)] for _ in range(n)]
    return [[r.randint(-rng, rng) for _ in range(d)] for _ in range(n)]

def insert(r, d, rng, n):
    return dict(op="insert", via=r.choice(["one", "range", "conv"]), reset=r.random() < .6,
                items=[dict(v=v, id=r.randint(-2, 50)) for v in points(r, d, rng, n)])

def box(r, d, rng, pts):
    k = r.random()
    pre = r.choice([0, 0, 1, 3])
    q = (lambda: list(r.choice(pts))) if pts and r.random() < .6 else (lambda: [r.randint(-rng, rng) for _ in range(d)])
    if k < .35: return dict(op="range", c=q(), r=r.choice([0, 1, 2, 3, rng // 2, rng]), pre=pre)
    a, b = q(), q()
    lo, hi = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
    if k < .45: lo = [-rng] * d
    if k < .5: hi = [rng] * d
    if k > .95: lo, hi = hi, lo
    return dict(op="box", lo=lo, hi=hi, pre=pre)

def random_cases(ctx, n, wbox):
    r, out = ctx.rng, []
    for i in range(n):
        t, d = r.choice(TYPES + [(16, False)]), r.choice([1, 2, 2, 3, 3, 5])
        u = not t[1] and r.random() < .4
        rng = r.choice([3, 7, 20, 1000, 60000] if t[0] > 16 else [3, 7, 20, 120, 1000])
        sc = r.choice([0, 1, 3, 9])
        if not t[1]:        # multiples of 2^sc, far up in the word
            sc = r.choice([0, 0, {16: 0 if rng > 120 else 6, 32: 12 if rng < 60000 else 2, 64: r.choice([15, 34, 42])}[t[0]]])
        # far from the origin: non-negative coordinates below 2^17 plus a power of two above them
        off = 0
        if rng <= 60000 and t[0] > 16 and r.random() < .25:
            if not t[1]: sc, off = 0, r.choice([24, 29] if t[0] == 32 else [24, 33, 55, 61])
            elif t[0] == 64: off = r.choice([17, 26, 40])
            elif rng <= 20: off = 12
        ops, pts = [], []
        big = i % 60 == 5
        lim = 400 if big else 90
        tr = (lambda v: [abs(x) for x in v]) if u or off else (lambda v: v)
        for _ in range(r.randint(2, 9)):
            k = r.random()
            if k < .35 or not ops:
                o = insert(r, d, rng, r.choice([0, 1, 2, 5, 12, 30] + ([60] if i % 10 == 0 else [])) if not big else r.choice([150, 250, 390]))
                for x in o["items"]: x["v"] = tr(x["v"])
                pts += [x["v"] for x in o["items"]]
                if len(pts) > lim: break
                ops.append(o)
            elif k < .42: ops.append(dict(op="sort"))
            elif k < .46: ops.append(dict(op="copy"))
            elif r.random() < wbox:
                o = box(r, d, rng, pts)
                for f in ("lo", "hi", "c"):
                    if f in o: o[f] = tr(o[f])
                if u and o["op"] == "range": o["r"] = min([o["r"]] + o["c"])      # no wrap-around
                ops.append(o)
            elif k < .8: ops.append(dict(op="find", q=tr(list(r.choice(pts)) if pts and r.random() < .6 else [r.randint(-rng, rng) for _ in range(d)])))
            else: ops.append(dict(op="level", x=r.randrange(1000), y=r.randrange(1000)))
        if u and not all(x >= 0 for o in ops for y in ([o.get("lo", []), o.get("hi", []), o.get("c", []), o.get("q", [])] + [z["v"] for z in o.get("items", [])]) for x in y): continue
        out.append(dict(cfg=cfg(t, d, sc, u, off), ops=ops))
    return out
