"""C02: IntervalIndices behaves as a product-set of integer intervals."""
HARNESS = "interval.cpp"
LIBS = ()
TRACE = "IntervalTrace"
ASSUMPTIONS = ["bounds of the intervals do not overflow the index type", "stacked() is applied to non-empty intervals"]

def mc(ctx):
    cf = ["IntervalAlgebraMC_1.cfg", "IntervalAlgebraMC_2.cfg", "IntervalAlgebraMC_3.cfg"]
    if not ctx.quick:
        cf[1] = "IntervalAlgebraMC_2t.cfg"
    return [dict(module="IntervalAlgebraMC", cfg=c) for c in cf]

FAR = 2147483647
def corners(r, m, d):
    """probe points around an interval"""
    n, pts = len(m), []
    pts.append([m[i] for i in range(n)])
    pts.append([m[i] + d[i] - 1 for i in range(n)])
    pts.append([m[i] + d[i] for i in range(n)])
    pts.append([m[i] - 1 for i in range(n)])
    for _ in range(4):
        pts.append([r.choice([m[i] - 1, m[i], m[i] + d[i] - 1, m[i] + d[i], m[i] + max(0, d[i]) // 2]) for i in range(n)])
    # far away in some dimensions: the harness hands over the least and greatest index of the type
    for _ in range(2):
        q = r.choice(pts)
        pts.insert(r.randint(0, 6), [r.choice([-FAR, FAR]) if r.random() < .6 else x for x in q])
    return pts

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for em in emitted:
        for x in em:
            a, b, n = x["a"], x["b"], len(x["a"]["min"])
            pts = corners(r, a["min"], a["dim"])[:6] + corners(r, b["min"], b["dim"])[:3]
            out.append(dict(mode="algebra", D=n, type="int", cfg=dict(n=n), ops=[
                dict(op="bounds", p=a["min"], q=a["dim"], pts=pts),
                dict(op="intersect", p=b["min"], q=b["dim"], pts=pts),
                dict(op="stacked", d=x["e"] - 1, k=x["k"], pts=pts),
                dict(op="translate", p=b["min"], pts=pts),
                dict(op="intersect", p=b["min"], q=b["dim"], pts=pts)]))
    for i in range(3000 if ctx.quick else 40000):
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        ty = r.choice(["int", "int", "long", "short"])
        big = r.random() < .2
        lim = 6 if n > 3 else 20
        M = 3000 if big else r.choice([2, 5, 30])
        dl = (40 if n <= 3 else 20) if big else lim
        vec = lambda lo, hi: [r.randint(lo, hi) for _ in range(n)]
        dims = lambda: [r.randint(1, dl) if r.random() < .93 else r.choice([0, 0, -1, -2]) for _ in range(n)]
        if i % 17 == 0:      # several degenerate dimensions
            dims = lambda: [r.choice([-2, -1, 0, 1, 2]) for _ in range(n)]
        top = 4                         # greatest thickness of stacked()
        if i % 6 == 1:                  # far away and large: cardinalities up to 10^18
            if ty == "short" and n <= 3: M, dl = 2500, 900
            else: ty, M, dl = ("int" if ty == "short" else ty), 10**8, {1: 200000, 2: 200000, 3: 200000, 4: 30000, 5: 3000}[n]
            big = True
            top = dl
        cm, cd = [0] * n, [0] * n
        ops = []
        def push(o):
            o["pts"] = corners(r, cm, cd)[:r.randint(2, 8)]
            if "q" in o and o["op"] == "intersect":
                o["pts"] += corners(r, o["p"], o["q"])[:4]
            ops.append(o)
        if r.random() < .3:
            push(dict(op="default"))
        for _ in range(r.randint(2, 7)):
            k = r.choice(["ctor", "bounds", "minmax", "centered", "translate", "translate1", "clone", "intersect", "intersect", "intersect", "stacked", "stacked"])
            if k in ("ctor", "bounds"):
                cm, cd = vec(-M, M), dims()
                push(dict(op=k, p=cm, q=cd))
            elif k == "minmax":
                cm, cd = vec(-M, M), dims()
                push(dict(op=k, p=cm, q=[a + b - 1 for a, b in zip(cm, cd)]))
            elif k == "centered":
                c, w = vec(-M, M), [r.randint(0, max(1, dl // 2 - 1)) if r.random() < .95 else -r.randint(1, 2) for _ in range(n)]
                cm, cd = [a - b for a, b in zip(c, w)], [2 * b + 1 for b in w]
                push(dict(op=k, p=c, q=w))
            elif k == "translate":
                t = vec(-M, M)
                cm = [a + b for a, b in zip(cm, t)]
                push(dict(op=k, p=t))
            elif k == "translate1":
                d, t = r.randrange(n), r.randint(-M, M)
                cm = list(cm); cm[d] += t
                push(dict(op=k, d=d, k=t))
            elif k == "clone":
                push(dict(op=k))
            elif k == "intersect":
                if r.random() < .75:
                    p = [a + r.randint(-max(1, abs(b)) - 1, max(1, abs(b)) + 1) for a, b in zip(cm, cd)]
                else:
                    p = vec(-M, M)
                push(dict(op=k, p=p, q=dims()))
            else:
                push(dict(op=k, d=r.randrange(n), k=r.randint(-top, top)))
        out.append(dict(mode="algebra", D=n, type=ty, cfg=dict(n=n), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        if e["op"] == "intersect" and not e["res"]["empty"]:
            e["res"]["max"][0] += 1
            return x
