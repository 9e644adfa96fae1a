"""C29: box registration."""
from comp.box import *
ASSUMPTIONS = ["initial poses with rational entries and lattice clouds without ties of association, so that the association is exact",
               "initial guesses are checked on clouds symmetric about three orthogonal planes (any rational orientation) with distinct spreads"]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i in range(2500 if ctx.quick else 25000):
        d = r.choice([2, 3, 3])
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            hs = [r.randint(1, 5) if r.random() < .8 else r.randint(4, 14) for _ in range(d)]
            ops.append(dict(op="dim", hs=hs))
            for _ in range(2):
                # the given pose: by right angles, or by a rational rotation on a multiple of the lattice
                R, q1 = (r.choice(ROTS[d]), 1) if r.random() < .5 else r.choice(RAT[d])
                t0 = [r.randint(-4, 4) for _ in range(d)]
                n, k, c = r.choice([1, 2, 3, 4, 5, 6, 8]) if i % 20 else r.choice([20, 50, 120]), r.random(), []
                top = max(q1, 7)
                while len(c) < n:
                    if k < .3: q = surface(r, hs)                               # the pose is already right
                    elif k < .6: q = [x + r.randint(-1, 1) for x in surface(r, hs)]
                    elif k < .8: q = [r.randint(-top, top) for _ in range(d)]
                    else: q = [r.randint(-h, h) for h in hs]
                    if q1 > 1: q = [q1 * ((x + q1 // 2) // q1) for x in q]
                    if not tie(hs, q): c.append(app(R, t0, q, q1))
                    elif r.random() < .02: n -= 1
                if c: ops.append(dict(op="fit", r0=R, k=q1, t0=t0, c=c))
            if r.random() < .5:
                N, q1 = r.choice(RAT[d]) if r.random() < .6 else (r.choice(ROTS[d]), 1)
                a = [x * q1 for x in r.sample(range(0, 6 if q1 < 4 else 4), d)]
                t = [r.randint(-5, 5) for _ in range(d)]
                c = [app(N, t, [s[j] * a[j] for j in range(d)], q1) for s in itertools.product((1, -1), repeat=d)]
                if r.random() < .3: c += [list(t) for _ in range(r.randint(1, 3))]
                if i % 20 == 0: c = c * r.choice([3, 10])
                if r.random() < .1: c = c[:r.randint(0, 1)]
                r.shuffle(c)
                ops.append(dict(op="init", c=c, r0=N, k=q1))
        out.append(dict(cfg=cfg(r, d), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "fit" and len(e["c"]) >= 5:
                e["R"] = [[-v for v in e["R"][0]], [-v for v in e["R"][1]]] + e["R"][2:]
                x["ev"] = x["ev"][:k + 1]
                return x
