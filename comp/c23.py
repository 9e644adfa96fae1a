"""C23: profiler statistics."""
HARNESS = "profiler.cpp"
TRACE = "ProfilerTrace"
ASSUMPTIONS = ["labels without white space; times are integer multiples of a scale", "the steady clock does not go back"]

def mc(ctx):
    return [dict(module="ProfilerMC", cfg="ProfilerMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, hs in enumerate(emitted[0]):
        if ctx.quick and i % 2: continue
        out.append(dict(cfg=dict(s=[1, .001][i // 2 % 2]), ops=hs + [dict(op="print")]))
    for i in range(1200 if ctx.quick else 8000):
        labels = r.sample(["a", "b", "run", "run()", "x:1", "é", "A"], r.randint(1, 4))
        hi = r.choice([1, 5, 30, 40])
        base = r.choice([0, 0, 20])
        ops = []
        for _ in range(r.choice([1, 2, 5, 10, 16])):
            if r.random() < .15: ops.append(dict(op="print"))
            t = base + r.randint(0, hi)
            if r.random() < .1: t = -t
            ops.append(dict(op="stat", a=r.choice(labels), t=t))
        ops.append(dict(op="print"))
        if i % 40 == 0: ops.append(dict(op="timer", k=r.randint(1, 4)))
        if i % 40 == 20: ops.append(dict(op="nest", k=r.randint(1, 5)))
        if i % 3: cfg = dict(s=r.choice([1, .5, .001, 1000]))
        else: cfg = dict(s=r.choice([1, .001]), off=r.choice([1000, 1000000, 30000000]))      # small spread far from zero
        out.append(dict(cfg=cfg, ops=ops))
    for i in range(12 if ctx.quick else 100):      # long series, many labels
        if i % 2:
            labels = ["l%d" % k for k in range(60)] + ["a" * 100, "a", "aa", "ab"]
            ops = [dict(op="stat", a=r.choice(labels), t=r.randint(0, 30)) for _ in range(300)]
        else:
            labels = r.sample(["a", "b", "c"], r.choice([1, 2]))
            ops = [dict(op="stat", a=r.choice(labels), t=r.randint(0, 2)) for _ in range(600)]
        ops.insert(r.randrange(len(ops)), dict(op="print"))
        out.append(dict(cfg=dict(s=1), ops=ops + [dict(op="print")]))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "print" and e["rows"] and e["rows"][0]["n"] > 2:
                e["rows"][0]["var"] += 1000
                x["ev"] = x["ev"][:k + 1]
                return x
