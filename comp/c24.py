"""C24: angles, arcs, orientation and poses in the plane."""
HARNESS = ("planar.cpp", "normalize_shim.cpp")
LIBS = ("common", "geometry")
TRACE = "PlanarTrace"
ASSUMPTIONS = ["angles within 10^4 turns (single precision: decided with a margin that grows with the number of turns); comparisons of numerically different but congruent angles are left open",
               "points have small integer coordinates (exact products)"]
N = 24000

def mc(ctx):
    return [dict(module="PlanarMC", cfg="PlanarMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, ops = ctx.rng, []
    n = 6 if ctx.quick else 8
    for i, x in enumerate(emitted[0]):
        if x["k"] == "arc":
            t = N // n
            ops.append(dict(op=["inside", "insideeq"][i % 2], a=x["a"] * t, b=x["b"] * t, e=x["e"] * t))
        else:
            ops.append(dict(op="ccw", p=x["p"], q=x["q"], r=x["r"], sc=0))
    def angle():
        k = r.random()
        if k < .3: return 1000 * r.randint(-48, 48)
        if k < .5: return N * r.randint(-6, 6) + r.randint(-3, 3)
        return r.randint(-6 * N, 6 * N)
    for i in range(9000 if ctx.quick else 60000):
        k = r.random()
        if k < .25:
            a = angle()
            if r.random() < .4: a = N // 2 * r.randint(-12, 12)
            via = r.choice([0, 1])
            if r.random() < .2: a = a % N + N * r.choice([-1, 1]) * r.choice([10, 100, 1000, 9999, r.randint(1, 9999)])
            tiny = 0
            if r.random() < .15: a, tiny = r.choice([0, 0, 0, N, -N, N // 2]), r.choice([-1, 1]) * r.randint(5, 320 if via else 44)
            ops.append(dict(op="norm180" if via and r.random() < .5 else "norm", via=via, a=a, tiny=tiny, ulp=r.choice([0, 0, 1, -1, 2, -2, 5, -5])))
        elif k < .65:
            b, e = angle(), angle()
            a = r.choice([b, e, angle(), angle(), b + r.randint(-5, 5), e + r.randint(-5, 5)])
            if r.random() < .1: e = b
            if r.random() < .2:
                a, b, e = (x % N + N * r.choice([0, 1, -1]) * r.choice([10, 100, 1000, r.randint(1, 9999)]) for x in (a, b, e))
            ops.append(dict(op=r.choice(["inside", "insideeq"]), a=a, b=b, e=e))
        elif k < .8:
            m = r.choice([2, 10, 1000])
            p, q, s = [[r.randint(-m, m), r.randint(-m, m)] for _ in range(3)]
            if r.random() < .3: s = [2 * q[0] - p[0], 2 * q[1] - p[1]]
            if r.random() < .2: p, s = s, p
            ops.append(dict(op="ccw", p=p, q=q, r=s, sc=r.choice([0, 0, -3, 4, 10, -20])))
        elif k < .88:
            ops.append(dict(op="poseg", t=[r.randint(-20, 20), r.randint(-20, 20)], a=r.choice([r.randint(-72000, 72000), r.randint(-300, 300)]), p=[r.randint(-20, 20), r.randint(-20, 20)]))
        else:
            ops.append(dict(op="pose", t=[r.randint(-50, 50), r.randint(-50, 50)], k=r.randint(-30, 30), p=[r.randint(-50, 50), r.randint(-50, 50)]))
    return [dict(cfg={}, ops=ops[i:i + 10]) for i in range(0, len(ops), 10)]

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][0]
        if e["op"] == "ccw":
            e["res"] += 1
            x["ev"] = [e]
            return x
