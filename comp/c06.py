"""C06: DisjointSet maintains the partition generated by the joins."""
HARNESS = "dset.cpp"
TRACE = "DisjointSetTrace"
ASSUMPTIONS = ["the representative of a merged set is any of its members (the choice is the implementation's)"]

def mc(ctx):
    return [dict(module="DisjointSetMC", cfg="DisjointSetMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, hs in enumerate(emitted[0]):
        ops = []
        for j, (o, x, y) in enumerate(hs):
            if i % 2: x, y = y, x
            ops.append([o, x, y] if o == "join" else [o])
            if i % 3 == 0: ops.append(["full"])
        out.append(dict(cfg=dict(n=4, dflt=False), ops=ops + [["full"]]))
    for i in range(900 if ctx.quick else 10000):
        n = r.choice([0, 0, 1, 3, 6, 10, 20]) if i % 30 else r.choice([60, 120, 300])
        if i == 45: n = 700 if ctx.quick else 2000
        n0, ops = n, []
        steps = r.choice([5, 15, 40]) if n < 50 else 2 * n if n < 500 else n
        style = r.choice(["rand", "chain", "blocks", "tree"])
        last = 0
        for s in range(steps):
            k = r.random()
            if k < .55 and n:
                if style == "chain": x, y = s % n, (s + 1) % n
                elif style == "blocks": x = r.randrange(n); y = (x // 4) * 4 + r.randrange(4); y = min(y, n - 1)
                elif style == "tree": w = 1 << r.randrange(5 if n < 100 else 9); x = (r.randrange(n) // (2 * w)) * 2 * w; y = min(n - 1, x + w)
                else: x, y = r.randrange(n), r.randrange(n)
                if r.random() < .5: x, y = y, x
                ops.append(["join", x, y])
            elif k < .63 : ops.append(["make"]); n += 1
            elif k < .75 and n: ops.append(["find", r.randrange(n)])
            elif k < .85 and n: ops.append(["size", r.randrange(n)])
            elif k < .90:
                bad = r.choice([-1, n, n + 1, -5, n + 1000, -2147483648, 2147483647])
                ok = r.randrange(n) if n else 0
                ops.append(r.choice([["find", bad], ["size", bad], ["join", bad, ok], ["join", ok, bad], ["join", bad, bad]]))
            elif k < .91:
                n = r.choice([0, 1, 5, 9]); ops.append(["init", n])
            else: ops.append(["full"])
        out.append(dict(cfg=dict(n=n0, dflt=r.random() < .5), ops=ops + [["full"]]))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for e in x["ev"]:
            if e["op"] == "join" and e["obs"]["sets"] < e["obs"]["nodes"]:
                e["obs"]["sets"] += 1
                return x
