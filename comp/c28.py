"""C28: fast elementary functions and PNEBI."""
HARNESS = "numeric.cpp"
TRACE = "NumericTrace"
ASSUMPTIONS = ["angles within 10^10 turns in double precision, 60 turns in single precision", "PNEBI arguments up to 10^6, values compared to 2e-5",
               "the true values of PNEBI are characterised by recurrence, normalisation and agreement of all orders"]

def mc(ctx):
    return [dict(module="NumericMC", cfg="NumericMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, ops, out = ctx.rng, [], []
    for x in emitted[0]:
        a = x["a"]
        for f in (0, 1):
            ops.append(dict(op="cs", a=a, f=f))
            if not f: ops.append(dict(op="cs", a=a, f=f, turns=r.choice([-1, 1]) * r.choice([10**5, 32768, 65535, 10**7, 2**31 - 1, 2**31, 2**32 + 1, 10**10])))
            ops.append(dict(op="at2", a=a, r=r.choice([1, 1, 3, 1e-3, 1e5, .3]), f=f, nz=0))
            if abs(a) <= 4500: ops.append(dict(op="atan", a=a, f=f))
            if a % 18000 == 0: ops.append(dict(op="at2", a=a, r=2, f=f, nz=1))
    for sx in (1, -1):
        for sy in (1, -1):
            for f in (0, 1): ops.append(dict(op="at0", sx=sx, sy=sy, f=f))
    for i in range(6000 if ctx.quick else 60000):
        f, k = r.choice([0, 1]), r.random()
        if k < .4:
            t = r.choice([0, 0, 1, 5, 28, 60] if f else [0, 0, 1, 5, 28, 1000, 10000])
            a = r.randint(-36000 * t - 36000, 36000 * t + 36000)
            if r.random() < .3: a = 9000 * r.randint(-8, 8) + r.randint(-4, 4)
            ops.append(dict(op="cs", a=a, f=f))
            if not f: ops.append(dict(op="cs", a=a, f=f, turns=r.choice([-1, 1]) * r.choice([10**5, 32768, 65535, 10**7, 2**31 - 1, 2**31, 2**32 + 1, 10**10])))
        elif k < .8:
            a = r.choice([r.randint(-36000, 36000), 4500 * r.randint(-8, 8) + r.randint(-3, 3)])
            ops.append(dict(op="at2", a=a, r=10.0 ** (r.uniform(-5, 5) if r.random() < .6 else r.uniform(-18, 18) if f else r.uniform(-140, 140)), f=f, nz=r.choice([0, 1])))
        else: ops.append(dict(op="atan", a=r.choice([r.randint(-4500, 4500), r.randint(-20, 20)]), f=f))
    out += [dict(cfg=dict(xn=1, xd=1), ops=ops[i:i + 20]) for i in range(0, len(ops), 20)]
    for i in range(800 if ctx.quick else 6000):
        xd = r.choice([1, 100, 100])
        if xd == 100: xn = r.choice([0, 1, 10, 374, 375, 376, r.randint(0, 200), r.randint(0, 1000), r.randint(0, 10000)])
        else: xn = r.choice([r.randint(0, 20), r.randint(0, 100), r.randint(100, 1000), r.randint(1000, 10000)])
        x = xn / xd
        full = max(11, int((40 * x) ** .5) + 2)
        ns = [full] if full < 400 else []
        for _ in range(r.randint(1, 4)): ns.append(r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 40)]))
        if r.random() < .3: r.shuffle(ns)
        ops = []
        if r.random() < .1: ops += [dict(op="eval", k=0, neg=0), dict(op="evalv", old=[5, 7][:r.randint(0, 2)], order=0, neg=0)]
        for n in ns: ops.append(dict(op="vec", n=n, size=r.choice([0, 0, n + 1, n + 1, n, n + 4]), neg=r.choice([0, 1])))
        ops.append(dict(op="p0", neg=r.choice([0, 1])))
        for _ in range(r.choice([0, 1, 1, 2])):
            n, tol = r.choice([0, 1, 2, 5, 12]), r.choice([20000, 5000, 1000, 200])
            ops.append(dict(op="init", n=n, tol=tol, how=r.choice([0, 1])))
            for _ in range(r.randint(1, 3)): ops.append(dict(op="eval", k=r.randint(0, n), neg=r.choice([0, 1])))
            ops.append(dict(op="evalv", old=[r.randint(0, 9) for _ in range(r.choice([0, 0, n + 1, n + 3]))], order=n, neg=r.choice([0, 1])))
            if r.random() < .3: ops.append(dict(op="far", e=r.choice([12, 13, 16, 24, 30, 66, 100, 160, 250, 307]), order=n, n=r.choice([0, 1, 3, 7]), neg=r.choice([0, 1])))
        out.append(dict(cfg=dict(xn=xn, xd=xd), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "vec" and e["n"] >= 11:
                e["p"][2] += 60
                x["ev"] = x["ev"][:k + 1]
                return x
