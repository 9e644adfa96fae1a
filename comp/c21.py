"""C21: correspondence graph association returns all largest consistent associations."""
HARNESS = "corrgraph.cpp"
LIBS = ("common", "geometry")
TRACE = "CorrGraphTrace"
ASSUMPTIONS = ["the distance functor is symmetric and has finite values; integer multiples of a power of two make comparisons exact",
               "at most 5 source and 5 destination items in dense instances, 12 in sparse ones"]

def mc(ctx):
    return [dict(module="CorrGraphMC", cfg="CorrGraphMC_%s.cfg" % ctx.tier)]

def matrix(r, n, hi, kind):
    if kind == "line":
        x = [r.randint(0, hi) for _ in range(n)]
        return [[abs(a - b) for b in x] for a in x]
    if kind == "plane":
        x = [(r.randint(0, hi), r.randint(0, hi)) for _ in range(n)]
        return [[abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in x] for a in x]
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i): m[i][j] = m[j][i] = r.randint(0, hi)
    return m

def shuffled(r, m, n, hi):
    """a permutation of the items of m, some of them replaced"""
    k = len(m)
    p = [r.randrange(k) for _ in range(n)] if k and r.random() < .3 else r.sample(range(k), min(k, n))
    out = [[m[a][b] for b in p] for a in p]
    while len(out) < n:
        new = [r.randint(0, hi) for _ in range(len(out))]
        for row, v in zip(out, new): row.append(v)
        out.append(new + [0])
    if out and r.random() < .4:
        i, j = r.randrange(len(out)), r.randrange(len(out))
        if i != j: out[i][j] = out[j][i] = r.randint(0, hi)
    return out

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, d in enumerate(emitted[0]):
        ops = [dict(op="src", m=d["src"]), dict(op="dst", m=d["dst"]), dict(op="min", v=d["dmin"]), dict(op="assoc", via=["cliques", "hyp"][i % 2])]
        out.append(dict(cfg=dict(tol=d["tol"], u=[1, .25][i % 3 % 2]), ops=ops))
    for i in range(1500 if ctx.quick else 14000):
        hi = r.choice([2, 4, 9, 30])
        ops, src, dst = [], None, None
        top = 5 if i % 8 == 0 else 4
        for _ in range(r.choice([1, 1, 2, 3])):
            if src is None or r.random() < .5:
                src = matrix(r, r.choice([0, 1, 2, 3, 3, top, top]), hi, r.choice(["line", "plane", "any"]))
                ops.append(dict(op="src", m=src))
            if dst is None or r.random() < .6:
                n = r.choice([0, 1, 2, 3, 3, top, top])
                dst = shuffled(r, src, n, hi) if r.random() < .7 else matrix(r, n, hi, "any")
                ops.append(dict(op="dst", m=dst))
            if r.random() < .4: ops.append(dict(op="tol", v=r.choice([1, 1, 2, 3, hi])))
            if r.random() < .3: ops.append(dict(op="min", v=r.choice([0, 1, 2, hi // 2])))
            for _ in range(r.choice([1, 1, 2])): ops.append(dict(op="assoc", via=r.choice(["cliques", "hyp"])))
        # a new object: tolerance 0.1, that is 0.4, 1.6 or 3.2 units
        if i % 7 == 0: out.append(dict(cfg=dict(r.choice([dict(tol=1, u=.25), dict(tol=2, u=.0625), dict(tol=4, u=.03125)]), dflt=True), ops=ops))
        else: out.append(dict(cfg=dict(tol=r.choice([1, 1, 2]), u=r.choice([1, .5, .125])), ops=ops))
    # larger instances whose consistent sets are few: generic distances, or equally spaced items
    for i in range(60 if ctx.quick else 400):
        if i % 3:
            n, hi = r.choice([6, 7, 8, 9, 10]), 3000
            src = matrix(r, n, hi, r.choice(["line", "plane", "any"]))
            dst = shuffled(r, src, r.choice([n, n - 1, n + 1, n + 2, max(1, n - 3)]), hi)
            if r.random() < .5: src, dst = dst, src
        else:
            n, st = r.choice([6, 7]), r.choice([1, 5])
            src = [[abs(a - b) * st for b in range(n)] for a in range(n)]
            dst = shuffled(r, src, n, 3000)
        ops = [dict(op="src", m=src), dict(op="dst", m=dst), dict(op="assoc", via=r.choice(["cliques", "hyp"]))]
        if i % 4 == 0: ops += [dict(op="src", m=dst), dict(op="assoc", via="hyp")]
        out.append(dict(cfg=dict(tol=1, u=r.choice([1, .25])), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "assoc" and len(e["res"]) > 1:
                e["res"].pop()
                x["ev"] = x["ev"][:k + 1]
                return x
