"""C05: PeakFinderD reports exactly the strict window maxima."""
HARNESS = "peaks.cpp"
LIBS = ()
TRACE = "PeakFinderTrace"
ASSUMPTIONS = ["the domain is not empty and the half-window is non-negative", "values are totally ordered numbers"]

def mc(ctx):
    return [dict(module="PeakFinderMC_q", cfg="PeakFinderMC_%s.cfg" % ctx.tier)]

def dom(r, m, d, form=None):
    form = form or r.choice(["domain", "domain1", "domainc"])
    if form == "domain1":
        m = [0] * len(d); q = d; p = m
    elif form == "domainc":
        d = [x if x % 2 else x + 1 for x in d]
        q = [(x - 1) // 2 for x in d]; p = [a + b for a, b in zip(m, q)]
    else:
        p, q = m, [a + b - 1 for a, b in zip(m, d)]
    return dict(op=form, p=p, q=q, min=m, dim=d), m, d

def field(r, d, exact):
    n = 1
    for x in d: n *= x
    k = r.choice(["flat", "few", "few", "many", "spikes", "ramp", "distinct", "extreme", "rare"])
    if k == "flat": return [3] * n
    if k == "few": return [r.randint(0, 2) for _ in range(n)]
    if k == "many": return [r.randint(-50, 50) for _ in range(n)]
    if k == "extreme":
        E = [-2147483648, 2147483647, -2147483647, 2147483646, 0, -1, 1] if exact else [-16777216, 16777216, 16777215, 0]
        return [r.choice(E) for _ in range(n)]
    if k == "rare":      # isolated best cells of equal value among lower noise
        v = [r.randint(-9, 4) for _ in range(n)]
        for _ in range(r.randint(1, 3)): v[r.randrange(n)] = 7
        return v
    if k == "distinct":
        v = list(range(n)); r.shuffle(v); return v
    if k == "spikes":
        v = [0] * n
        for _ in range(max(1, n // 5)): v[r.randrange(n)] = r.randint(-3, 9)
        return v
    s = r.choice([1, -1])
    return [s * i // r.choice([1, 2]) for i in range(n)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, x in enumerate(emitted[0]):
        n = len(x["min"])
        o, m, d = dom(r, x["min"], x["dim"], "domain")
        neg = i % 2
        ops = [o, dict(op="window", q=x["w"])]
        if i % 3 == 2: ops.append(dict(op="filter", on=True, v=[0, 1, 2][i % 7 % 3] * (-1 if neg else 1)))
        ops.append(dict(op="detect", f=[-v for v in x["f"]] if neg else x["f"]))
        out.append(dict(cfg=dict(n=n, ord="less" if neg else "greater", st=False), ops=ops))
    for i in range(700 if ctx.quick else 9000):
        n = r.choice([1, 2, 2, 2, 3, 3, 4])
        hi = {1: 25, 2: 7, 3: 4, 4: 3}[n]
        if i % 50 == 0: hi = {1: 150, 2: 16, 3: 6, 4: 4}[n]
        ops, m, d, have = [], None, None, False
        for _ in range(r.choice([1, 1, 2, 3])):
            if d is None or r.random() < .5:
                o, m, d = dom(r, [r.randint(-9, 9) for _ in range(n)], [r.randint(1, hi) for _ in range(n)]); ops.append(o)
            if r.random() < .9: ops.append(dict(op="window", q=[r.choice([0, 1, 1, 2, 3] if r.random() < .8 else [4, 7, 12]) for _ in range(n)]))
            f = field(r, d, n < 4)
            if r.random() < .5: ops.append(dict(op="filter", on=r.random() < .8, v=r.choice(f + [0, 2])))
            ops.append(dict(op="detect", f=f))
        out.append(dict(cfg=dict(n=n, ord=r.choice(["less", "greater"]), st=r.random() < .3), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        if e["op"] == "detect" and len(e["res"]) > 1:
            e["res"].pop()
            return x
