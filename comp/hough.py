"""Generators shared by C18, C19 (HoughPlaneDetector) and C20 (HoughLineDetector)."""
import math
HARNESS = "hough.cpp"
LIBS = ("common", "geometry")
TRACE = "HoughTrace"
ASSUMPTIONS = ["angle bins of whole degrees, lengths are multiples of a power of two",
               "a projection closer to a bin boundary than the fixed-point error may vote in either of the two bins",
               "output vectors of the appending forms are empty when handed over (those of the replacing forms hold earlier results); windows are non-negative"]

def init(r, na, big):
    rn, rs = r.choice([1, 2, 3, 5, 8] + ([16, 30] if big else [])), r.choice([1, 2, 3, 4, 5, 7])
    u = r.choice([1, .5, .125, 4])
    via = r.choice(["ctor", "default", "full", "full"])
    if via == "full":
        if na == 1: an = [r.randint(1, 40 if big else 8)]
        else: an = r.choice([[r.randint(1, 4), r.randint(1, 9)], [r.randint(1, 2), r.randint(8, 26)], [r.randint(1, 9), r.randint(1, 4)]])
        return dict(op="init", via=via, u=u, anum=an, amin=[r.choice([0, 0, 15 * r.randint(-12, 12), r.randint(-180, 180)]) for _ in range(na)],
                    astep=[r.choice([15, 30, 45, 60, 90, 1, 5, 20, r.randint(1, 50)]) for _ in range(na)], rnum=rn, rmin=r.randint(-12, 12), rstep=rs)
    if na == 1:
        t = r.choice([1, 2, 3, 4, 6, 12] + ([18, 36, 60] if big else []))
        return dict(op="init", via=via, u=u, anum=[t], amin=[0], astep=[180 // t], rnum=rn, rmin=0, rstep=rs)
    t, p = r.choice([1, 2, 3] + ([5, 6, 9] if big else [])), r.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12] + ([18, 24, 36] if big else []))
    return dict(op="init", via=via, u=u, anum=[t, p], amin=[0, 0], astep=[90 // t, 360 // p], rnum=rn, rmin=-(rn // 2) * rs, rstep=rs)

def points(r, na, g, n):
    d = na + 1
    hi = g["rmin"] + g["rnum"] * g["rstep"]
    m = max(abs(g["rmin"]), abs(hi), 3)
    k = r.random()
    if k < .2:      # on an axis-aligned plane
        ax, c = r.randrange(d), r.randint(-m, m)
        return [[c if i == ax else r.randint(-m, m) for i in range(d)] for _ in range(n)]
    if k < .35:     # bin boundaries along the axes, and around both ends of the range
        e = [g["rmin"] + j * g["rstep"] for j in range(g["rnum"] + 1)]
        return [[r.choice(e + [e[0] - 1, e[0] + 1, e[-1] - 1, e[-1] + 1]) if r.random() < .6 else 0 for _ in range(d)] for _ in range(n)]
    if k < .45:
        p = [r.randint(-m, m) for _ in range(d)]
        return [list(p) for _ in range(n)]
    return [[r.randint(-m - 3, m + 3) for _ in range(d)] for _ in range(n)]

def far_points(r, na, g, n):
    """points so far away that their projections on every normal of the grid are out of range"""
    out = []
    A = math.pi / 180
    if g["anum"][0] * g["anum"][-1] > 300: return out
    ang = [(g["amin"][0] + i * g["astep"][0]) * A for i in range(g["anum"][0])]
    ns = [(math.cos(a), math.sin(a)) for a in ang]
    if na == 2: ns = [(c * math.cos(b), c * math.sin(b), s) for c, s in ns for b in [(g["amin"][1] + i * g["astep"][1]) * A for i in range(g["anum"][1])]]
    for _ in range(4 * n):
        p = [r.randint(-9, 9) for _ in range(na + 1)]
        if all(abs(sum(x * y for x, y in zip(p, v))) > .05 for v in ns): out.append(p + [r.choice([14, 16, 20, 31, 32, 33, 36, 50])])
    return out[:n]

def replayed(na, emitted, votes, tail):
    g = dict(op="init", via="full", u=1, anum=[4], amin=[0], astep=[90], rnum=3, rmin=-2, rstep=2) if na == 1 else \
        dict(op="init", via="full", u=1, anum=[2, 2], amin=[0, 0], astep=[90, 90], rnum=3, rmin=-2, rstep=2)
    out = []
    for i, hs in enumerate(emitted[0]):
        out.append(dict(cfg=dict(na=na, votes=votes), ops=[dict(g, u=[1, .25][i % 2])] + hs + [dict(op="dump")] + tail(i, g)))
    return out

def window(r, na):
    return dict(op="window", via=r.choice(["int", "scalar"]), w=[r.choice([1, 1, 1, 2, 2, 3, 3, 0, 9]) for _ in range(na)], r=r.choice([1, 1, 1, 2, 2, 4, 4, 0, 11]), f=r.choice([2, 5, 8]))

def queries(r, na, g):
    out = []
    if na == 1:
        for o in ("specmax", "normals", "angles", "lines"):
            if r.random() < .6: out.append(dict(op=o))
    else:
        for o in ("specmax", "normals", "planes"):
            if r.random() < .6: out.append(dict(op=o))
        for _ in range(2):
            t = [r.randrange(g["anum"][0]), r.randrange(g["anum"][1])]
            out.append(dict(op="parallel", t=t))
            out.append(dict(op="cell", c=t + [r.randrange(g["rnum"])]))
    return out

def random_cases(ctx, na, n, votes, find):
    r, out = ctx.rng, []
    for i in range(n):
        g = init(r, na, i % 12 == 0)
        ops = [g]
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.random()
            if k < .1: ops.append(dict(op="zero"))
            elif k < .2:
                g = init(r, na, False); ops.append(g)
            if r.random() < (.8 if k < .2 else .05): ops.append(dict(op="dump"))
            ops.append(dict(op="insert", via=r.choice(["vec", "vec", "it"]), pts=points(r, na, g, r.choice([0, 1, 2, 5, 9]) if i % 25 or g["anum"][-1] > 8 else r.choice([40, 300]))))
            if i % 3 == 0 and g["rnum"] * g["rstep"] < 200: ops[-1]["far"] = far_points(r, na, g, r.choice([1, 3]))
            if r.random() < .5:
                ops.append(dict(op="dump"))
                if find:
                    if r.random() < .6: ops.append(window(r, na))
                    ops += queries(r, na, g)
        ops.append(dict(op="dump"))
        if find: ops += [window(r, na)] + queries(r, na, g)
        out.append(dict(cfg=dict(na=na, votes=votes), ops=ops))
    return out
