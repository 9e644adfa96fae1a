"""C33: plane-aligned frames of point clouds (rofl_pcl)."""
HARNESS = "align.cpp"
LIBS = ("pcl",)
FLAGS = ("-isystem", "/usr/include/pcl-1.14")
LDFLAGS = ("-lpcl_common",)
TRACE = "AlignTrace"
ASSUMPTIONS = ["normals are integer vectors with an integer norm (all directions of Pythagorean quadruples up to norm 51), scaled by any factor",
               "coordinates are multiples of a power of two; a point on the border of the tolerance only with planes of unit normal",
               "a plane through the origin may be oriented either way; a normal whose largest component is tied with z may use either reference axis"]

QUADS = sorted({(a, b, c, m) for m in range(1, 52) for a in range(0, m + 1) for b in range(0, m + 1) for c in range(0, m + 1) if a * a + b * b + c * c == m * m
                and not any(a % k == 0 and b % k == 0 and c % k == 0 for k in range(2, m + 1))})

def mc(ctx):
    return [dict(module="AlignMC", cfg="AlignMC_%s.cfg" % ctx.tier)]

def dot(a, b): return sum(x * y for x, y in zip(a, b))

def border(p, tol, q):
    return p["m"] > 1 and q and 100 * abs(dot(p["n"], q) + p["d"]) == tol * p["m"]

def clean(ops, tol0):
    """drops the points on the border of the tolerance of a plane with an inexact normal"""
    pl, tol, cl = dict(n=[0, 0, 1], m=1, d=0), tol0, None
    for e in ops:
        if e["op"] == "plane": pl = e
        elif e["op"] == "tol": tol = e["tol"]
        elif e["op"] == "cloud": cl = e
        elif e["op"] == "compute" and cl is not None and any(border(pl, tol, q) for q in cl["c"]): return False
    return True

def finish(r, ops):
    out = []
    for e in ops:
        e = dict(e)
        if e["op"] == "plane": e.update(s=r.choice([1, 1, 2, .25, 3, 100]), unit=r.random() < .5)
        out.append(e)
        if e["op"] == "compute": out.append(dict(op="transform", fresh=r.random() < .5))
    return out

TYPES = ["xyz", "xyzi", "xyzrgb"]
def cases(ctx, emitted):
    r, out = ctx.rng, []
    em = emitted[0]
    for i, h in enumerate(em if len(em) < 30000 else em[::len(em) // 30000 + 1]):
        u = [1, .5, 2][i % 3]
        t0 = [2, 4, 1][i % 3]
        if clean(h, t0): out.append(dict(cfg=dict(type=TYPES[i % 3], u=u, tol0=t0), ops=finish(r, h)))
    for i in range(2500 if ctx.quick else 40000):
        u, t0 = r.choice([(1, 2), (.5, 4), (2, 1), (.25, 8), (.03125, 64)])
        ops, pl = [], dict(n=[0, 0, 1], m=1, d=0)
        for _ in range(r.choice([1, 2, 2, 4])):
            if r.random() < .8:
                q = r.choice(QUADS) if r.random() < .7 else r.choice([(0, 0, 1, 1), (0, 1, 0, 1), (1, 0, 0, 1), (1, 2, 2, 3), (3, 4, 0, 5)])
                n = list(q[:3]); r.shuffle(n)
                n = [x * r.choice([1, -1]) for x in n]
                lim = 60 if q[3] < 8 else 12
                pl = dict(op="plane", n=n, m=q[3], d=r.choice([0, r.randint(-lim, lim) * q[3], r.randint(-lim * q[3], lim * q[3])]))
                ops.append(pl)
            tol = t0
            if r.random() < .8:
                tol = r.choice([r.randint(1, 300), r.choice([100, 200, 300]), r.randint(1, 3000)])
                ops.append(dict(op="tol", tol=tol))
            if r.random() < .9:
                c = []
                for _ in range(r.choice([0, 1, 2, 5, 12, 40])):
                    k = r.random()
                    p = [r.randint(-40, 40) for _ in range(3)]
                    if k < .05: p = []
                    elif k < .7:    # pushed to the plane
                        s = dot(pl["n"], p) + pl["d"]
                        f = s / pl["m"] ** 2
                        p = [round(x - f * y) for x, y in zip(p, pl["n"])]
                        p = [max(-80, min(80, x)) for x in p]
                    c.append(p)
                ops.append(dict(op="cloud", c=c))
            if r.random() < .1: ops.append(dict(op="transform", fresh=True))
            ops.append(dict(op="compute"))
        if clean(ops, t0): out.append(dict(cfg=dict(type=r.choice(TYPES), u=u, tol0=t0), ops=finish(r, ops)))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "compute" and e["t"][0]:
                e["t"][0] += 2000
                x["ev"] = x["ev"][:k + 1]
                return x
