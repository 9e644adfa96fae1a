"""C01: MinMaxHeap is a double-ended priority queue."""
HARNESS = "heap.cpp"
LIBS = ()
TRACE = "MinMaxHeapTrace"
CPU = 60
ASSUMPTIONS = ["the comparator is a strict weak ordering", "popTop/popBottom/top/... are called on non-empty heaps only"]
ORDERS = ["less", "greater", "mod5", "abs", "flat"]

def mc(ctx):
    return [dict(module="MinMaxHeapMC", cfg="MinMaxHeapMC_%s.cfg" % ctx.tier),
            dict(module="MinMaxHeapArrMC", cfg="MinMaxHeapArrMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for hs in emitted[0]:
        out.append(dict(cfg=dict(order="less", kind="plain"), ops=hs))
    # every sampled tree (pushing a valid tree in array order rebuilds it), then pops
    for k, c in enumerate(emitted[1]):
        order = ["less", "greater"][k % 5 == 0]
        ops = [["push", v if order == "less" else -v] for v in c]
        first = ["popTop", "popBottom"][k % 2]
        n = len(c)
        if k % 3 == 0: ops.append(["push", r.randint(-4, 4)]); n += 1
        ops += [[first, 0]] * min(2, n)
        ops += [[r.choice(["popTop", "popBottom"]), 0] for _ in range(max(0, n - 2))]
        out.append(dict(cfg=dict(order=order, kind="plain"), ops=ops))
    n = 500 if ctx.quick else 6000
    for i in range(n):
        order = r.choice(ORDERS[:4]) if i % 10 else "flat"
        kind = r.choice(["plain", "named", "deque"])
        if i % 4 == 1: kind, order = "scalar", "less"
        size = r.choice([6, 8, 12, 16, 20, 34, 70]) if i % 25 else r.choice([130, 300] if ctx.quick else [300, 700])
        if i == 7: size = 1100 if ctx.quick else 2500
        span = r.choice([1, 2, 3, 8, 30, 1000, 10**6])
        val = lambda: r.randint(-span, span) if r.random() < 0.9 else r.choice([0, span, -span])
        ops, mode = [], r.choice(["grow", "mix", "waves", "window"])
        live = 0
        def do(o):
            nonlocal live
            if o == "push":
                ops.append(["push", val()]); live += 1
            elif live:
                ops.append([o, 0]); live -= 1
        if mode == "grow":
            seq = [val() for _ in range(size)]
            k = r.random()
            if k < .2: seq.sort()
            elif k < .4: seq.sort(reverse=True)
            ops = [["push", v] for v in seq]; live = size
            p = r.random()
            while live:
                do("popTop" if r.random() < p else "popBottom")
        elif mode == "mix":
            for _ in range(2 * size):
                do(r.choice(["push", "push", "popTop", "popBottom"]))
            while live: do(r.choice(["popTop", "popBottom"]))
        elif mode == "waves":
            for _ in range(3):
                for _ in range(size // 2): do("push")
                for _ in range(size // 3): do(r.choice(["popTop", "popBottom"]))
            p = r.choice([0, .5, 1])
            while live: do("popTop" if r.random() < p else "popBottom")
        else:
            for _ in range(size): do("push")
            for _ in range(size):
                do("push"); do(r.choice(["popTop", "popBottom"]))
        if i % 2:
            for _ in range(r.randint(0, 3)): ops.insert(r.randint(0, len(ops)), ["copy", 0])
        if kind == "scalar":
            for _ in range(r.randint(0, max(3, size // 3))): ops.insert(r.randint(0, len(ops)), ["alias", r.choice([0, 1, 2, r.randint(3, 2000)])])
        out.append(dict(cfg=dict(order=order, kind=kind, **(dict(t=r.choice(["int", "double", "long"])) if kind == "scalar" else {})), ops=ops))
    return out

def corrupt(ctx, recs):
    for r in recs:
        for e in reversed(r["ev"]):
            if e["op"] == "popTop" and e["obs"]["size"] >= 2 and r["cfg"]["order"] == "less":
                e["obs"]["size"] += 1
                return r
