"""C22: truncated least squares consensus."""
HARNESS = "tls.cpp"
LIBS = ()
TRACE = "TlsTrace"
ASSUMPTIONS = ["at least one value, equally many ranges; small multiples of a unit of length, ranges of 1, 2, 3 or 6 units",
               "where rounding can occur a set whose cost exceeds the minimum by less than 1/1024 (single precision: 1/16) of a unit may be chosen"]

def mc(ctx):
    return [dict(module="TlsMC", cfg="TlsMC_%s.cfg" % ctx.tier)]

def op(r, x, rg, f):
    n, d = r.choice([(1, 1)] * 4 + [(1, 2), (1, 4), (1, 10), (3, 10), (1, 3)])
    exact = d in (1, 2, 4) and not f and max(rg) < 3
    return dict(op="tls", flat=False, x=x, r=rg, off=0 if f else r.choice([0, 0, 64, -1000]), u=dict(n=n, d=d), slack=0 if exact else 64 if f else 1)

def cases(ctx, emitted):
    r, out = ctx.rng, []
    em = emitted[0]
    for i in range(0, len(em), 3):
        f = i % 2 == 0
        out.append(dict(cfg=dict(f=f), ops=[op(r, e["x"], e["r"], f) for e in em[i:i + 3]]))
    for i in range(2500 if ctx.quick else 20000):
        f = r.random() < .3
        ops = []
        for _ in range(r.choice([1, 1, 2, 4])):
            n = r.choice([1, 2, 3, 4, 5, 6, 6, 8])
            RG = r.choice([[1, 2], [1, 2, 3], [1, 2, 3, 6], [6, 1]])
            hi = r.choice([2, 5, 9, 15])
            rg = [r.choice(RG) for _ in range(n)] if r.random() < .7 else [r.choice(RG)] * n
            k = r.random()
            if k < .3:
                c = r.randint(0, hi)
                x = [min(15, max(0, c + r.randint(-2, 2))) if r.random() < .6 else r.randint(0, hi) for _ in range(n)]
            else: x = [r.randint(0, hi) for _ in range(n)]
            ops.append(op(r, x, rg, f))
        out.append(dict(cfg=dict(f=f), ops=ops))
    # small and large units of length
    for i in range(200 if ctx.quick else 2000):
        f = r.random() < .3
        n, RG = r.choice([1, 2, 2, 3, 3]), r.choice([[1, 2], [2, 1], [3, 6], [3, 6, 2]])
        x, rg = [r.randint(0, 3) for _ in range(n)], [r.choice(RG) for _ in range(n)]
        o = op(r, x, rg, f)
        o.update(off=0, u=r.choice([dict(n=1, d=1000), dict(n=1, d=2000), dict(n=1, d=4096), dict(n=1, d=10000), dict(n=100, d=1), dict(n=1000, d=1)]), slack=64 if f else 1)
        out.append(dict(cfg=dict(f=f), ops=[o]))
    # ranges below a millionth, which weigh alike
    for i in range(200 if ctx.quick else 2000):
        n = r.choice([1, 2, 2, 3, 3])
        k, d, hi = r.choice([(1, 4 * 10**6, 3), (3, 10**7, 3), (1, 2**22, 3), (1, 3 * 10**6, 2)])
        x, rg = [r.randint(0, 5) for _ in range(n)], [r.randint(1, hi) for _ in range(n)]
        out.append(dict(cfg=dict(f=False), ops=[dict(op="tls", flat=True, x=x, r=rg, off=0, u=dict(n=k, d=d), slack=-1)]))
    # many values (ranges 3 and 6 keep the integers of the specification small)
    for i in range(150 if ctx.quick else 1500):
        f, ops = r.random() < .3, []
        for _ in range(r.choice([1, 2])):
            n = r.choice([12, 16, 20, 33, 40])
            hi = 5 * n
            rg = [r.choice([3, 6]) for _ in range(n)] if r.random() < .6 else [r.choice([3, 6])] * n
            c = r.randint(0, hi)
            while True:
                x = [max(0, c + r.randint(-4, 4)) if r.random() < .3 else r.randint(0, hi) for _ in range(n)]
                ends = [a - b for a, b in zip(x, rg)] + [a + b for a, b in zip(x, rg)]
                if max(ends.count(v) for v in set(ends)) <= 7: break
            ops.append(op(r, x, rg, f))
        out.append(dict(cfg=dict(f=f), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][0]
        if e["op"] == "tls":
            e["inl"][0] = not e["inl"][0]
            x["ev"] = [e]
            return x
