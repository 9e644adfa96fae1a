"""C07: LabelSet implements set algebra."""
HARNESS = "labels.cpp"
TRACE = "LabelSetTrace"

def mc(ctx):
    return [dict(module="LabelSetMC", cfg="LabelSetMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for x in emitted[0]:
        ops = [dict(op="range", s="a", xs=r.sample(x["a"], len(x["a"]))), dict(op="range", s="b", xs=x["b"])]
        k = r.choice([1, 2, 3, 4, 5, 6, 0])
        for o in (dict(op="union", s="c", a="a", b="b"), dict(op="inter", s="c", a="a", b="b"), dict(op="diff", s="c", a="a", b="b"),
                  dict(op="diff", s="c", a="b", b="a"), dict(op="union1", s="c", a="a", x=k), dict(op="diff1", s="c", a="a", x=k),
                  dict(op="insert", s="a", x=k), dict(op="remove", s="b", x=k), dict(op="copy", s="c", a="a")):
            ops.append(o)
        for o in ops: o["probe"] = [0, 1, 2, 3, 4, 5, 6]
        out.append(dict(cfg={}, ops=ops))
    EXT = [-2147483648, 2147483647, 0, -1, 1]
    for i in range(1200 if ctx.quick else 10000):
        U = r.choice([3, 8, 40, 1000])
        lab = lambda: r.choice(EXT) if r.random() < .05 else r.randint(-U, U)
        ops = []
        for _ in range(r.randint(3, 30)):
            s, a, b = (r.choice("abc") for _ in range(3))
            k = r.random()
            if k < .40: o = dict(op="insert", s=s, x=lab())
            elif k < .52: o = dict(op="remove", s=s, x=lab())
            elif k < .54: o = dict(op="clear", s=s)
            elif k < .64: o = dict(op="range", s=s, xs=[lab() for _ in range(r.choice([0, 1, 3, 8, 40]))])
            elif k < .70: o = dict(op="copy", s=s, a=a)
            elif k < .90: o = dict(op=r.choice(["union", "inter", "diff"]), s=s, a=a, b=b)
            else: o = dict(op=r.choice(["union1", "diff1"]), s=s, a=a, x=lab())
            o["probe"] = [lab() for _ in range(3)] + ([o["x"]] if "x" in o else [])
            ops.append(o)
        out.append(dict(cfg={}, ops=ops))
    # large sets: regular and random ones sharing ends, contained in each other or disjoint
    for i in range(40 if ctx.quick else 400):
        n = r.choice([60, 130, 260, 520] if i % 8 else [1500])
        def some():
            k = r.random()
            if k < .25: return list(range(n))
            if k < .45: return list(range(0, 2 * n, 2))
            if k < .6: return list(range(-n, n // 3))
            if k < .75: return sorted(r.sample(range(-n, 2 * n), n))
            if k < .85: return [r.randint(-10**9, 10**9) for _ in range(n)] + [0, n - 1]
            if k < .93: return [n - 1, 0, -n, 2 * n - 2][:r.randint(0, 4)]
            return list(range(n - 1, -1, -1)) + [-2147483648, 2147483647]
        ops = [dict(op="range", s="a", xs=some()), dict(op="range", s="b", xs=some())]
        for _ in range(4):
            a, b = r.choice(["ab", "ba", "ab", "ac", "cb", "aa"])
            ops.append(dict(op=r.choice(["union", "inter", "diff"]), s="c", a=a, b=b))
            if r.random() < .5: ops.append(dict(op=r.choice(["insert", "remove"]), s=r.choice("abc"), x=r.choice([0, n - 1, n, 2 * n - 2, -n])))
        if r.random() < .5: ops += [dict(op="copy", s="b", a="a"), dict(op="remove", s="b", x=r.choice([0, n - 1, 2 * n - 2]))]
        for o in ops: o["probe"] = [0, n - 1, n, 2 * n - 2]
        out.append(dict(cfg={}, ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        e["obs"]["eq"][0]["eq"] = not e["obs"]["eq"][0]["eq"]
        return x
