"""C25: bounds of cosine and Fourier series."""
HARNESS = "fourier.cpp"
TRACE = "FourierTrace"
ASSUMPTIONS = ["exact bounds are decided for end points and phases of whole degrees (where the extrema over the reals lie on the grid); off the grid, enclosure of 400 sampled values"]

def mc(ctx):
    return [dict(module="FourierMC", cfg="FourierMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r = ctx.rng
    ops = [dict(op="lucos", a=x["a"], b=x["b"]) for x in emitted[0]]
    for i in range(6000 if ctx.quick else 40000):
        a = r.choice([15 * r.randint(-60, 60), 180 * r.randint(-6, 6), r.randint(-900, 900), 180 * r.randint(-4, 4) + r.randint(-2, 2)])
        b = a + r.choice([0, 1, 90, 180, 359, 360, 361, 179, 181, 15 * r.randint(-26, 26), r.randint(-400, 400), r.randint(-1200, 1200)])
        if r.random() < .1:
            t = 360 * r.choice([100, -100, r.randint(-1000, 1000)])
            a, b = a + t, b + t
        k = r.random()
        if k < .3: ops.append(dict(op="lucos", a=a, b=b))
        elif k < .4: ops.append(dict(op="cosat", a=1000 * a + r.choice([0, r.randint(-999, 999)]), b=1000 * b + r.randint(-999, 999)))
        elif k < .75:
            n = r.choice([1, 2, 2, 3, 4, 4, 9])
            ops.append(dict(op="lufou", a=a, b=b, A=[r.randint(-9, 9)] + [r.randint(0, 9) for _ in range(n - 1)], P=[0] + [r.choice([15 * r.randint(-12, 12), r.randint(-180, 180)]) for _ in range(n - 1)]))
        else:
            n = r.choice([1, 2, 3, 5, 12])
            ops.append(dict(op="fou", c=[r.randint(-20, 20) for _ in range(n)], d=[r.randint(-20, 20) for _ in range(n)], x=a))
    return [dict(cfg={}, ops=ops[i:i + 10]) for i in range(0, len(ops), 10)]

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][0]
        if e["op"] == "lucos":
            e["hi"] += 40
            x["ev"] = [e]
            return x
