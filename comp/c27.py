"""C27: nearest point of a box."""
from comp.box import *
ASSUMPTIONS = ["lattice coordinates (exact in float and double); ties are left open"]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for part in emitted:
        by = {}
        for x in part: by.setdefault(tuple(x["hs"]), []).append(x["q"])
        for hs, qs in by.items():
            for i in range(0, len(qs), 40):
                out.append(dict(cfg=cfg(r, len(hs)), ops=[dict(op="dim", hs=list(hs))] + [dict(op="near", q=q) for q in qs[i:i + 40]]))
    for i in range(800 if ctx.quick else 8000):
        d = r.choice([2, 3])
        ops = []
        for _ in range(r.choice([1, 2])):
            m = r.choice([1, 4, 10, 50, 5000])
            hs = [r.randint(0, m) for _ in range(d)]
            ops.append(dict(op="dim", hs=hs))
            for _ in range(12):
                k = r.random()
                if k < .3: q = [r.randint(-2 * m, 2 * m) for _ in range(d)]
                elif k < .7: q = [r.randint(-h, h) for h in hs]
                elif k < .85: q = surface(r, hs)
                else: q = [r.choice([h, -h, 0, h + 1, -h - 1]) for h in hs]
                ops.append(dict(op="near", q=q))
        c = cfg(r, d)
        if i % 3 == 0: c["s"] = r.choice([1 / 1024, 1 / 64, 64])
        out.append(dict(cfg=c, ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "near" and max(x["ev"][0]["hs"]) > 0:
                e["res"][0] += 1
                x["ev"] = x["ev"][:k + 1]
                return x
