"""C03: raster and boustrophedon iteration."""
HARNESS = "interval.cpp"
LIBS = ()
TRACE = "TraversalTrace"
ASSUMPTIONS = ["iterators are moved only between begin and end", "the number of cells fits the index type"]

def mc(ctx):
    return [dict(module="IntervalTraversalMC", cfg="IntervalTraversalMC_%s.cfg" % ctx.tier)]

def walk(r, N, steps):
    ops, p = ["start"], 0
    if r.random() < .3:
        ops, p = ["fromend"], N
    for _ in range(steps):
        c = []
        if p < N: c += ["preinc", "postinc", "preinc"]
        if p > 0: c += ["predec", "postdec"]
        if not c: break
        if r.random() < .05:
            o = r.choice(["start", "fromend"]); p = 0 if o == "start" else N
        else:
            o = r.choice(c); p += 1 if "inc" in o else -1
        ops.append(o)
    return ops

def case(r, m, d, ty, ordr, steps):
    N = 1
    for x in d: N *= x
    if any(x <= 0 for x in d): N = 0
    c = dict(mode="trav", D=len(d), type=ty, ord=ordr, cfg=dict(min=m, dim=d, n=N))
    if N: c["walk"] = walk(r, N, steps)
    return c

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for a in emitted[0]:
        for o in ("raster", "boust"):
            out.append(case(r, a["min"], a["dim"], "int", o, 12))
    for i in range(600 if ctx.quick else 8000):
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        hi = {1: 60, 2: 12, 3: 7, 4: 4, 5: 3}[n]
        if i % 40 == 0: hi = {1: 400, 2: 25, 3: 10, 4: 5, 5: 4}[n]
        d = [r.randint(1, hi) if r.random() < .97 else r.choice([0, -1, -2]) for _ in range(n)]
        if i % 23 == 0: d = [r.choice([-1, -2, 1, 2]) for _ in range(n)]
        m = [r.randint(-50, 50) for _ in range(n)]
        if i % 30 == 11:      # one long side, far from the origin
            d = [r.choice([1, 1, 2, 3]) for _ in range(n)]
            d[r.randrange(n)] = r.choice([130, 260, 300])
            while len(d) > 2 and d[0] * d[1] * d[2] > 1000: d[r.randrange(n)] = 1
            m = [r.randint(-3000, 3000) for _ in range(n)]
        out.append(case(r, m, d, r.choice(["int", "long", "short"]), r.choice(["raster", "boust"]), 30))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for e in x["ev"]:
            if e["op"] == "sweep" and e["ord"] == "boust" and len(e["seq"]) > 4:
                e["seq"][2], e["seq"][3] = e["seq"][3], e["seq"][2]
                return x
