"""Shared by C27 and C29."""
import itertools
HARNESS = ("box.cpp", "box2f.cpp", "box2d.cpp", "box3f.cpp", "box3d.cpp")
LIBS = ("common", "geometry")
TRACE = "BoxTrace"

def mc(ctx):
    return [dict(module="BoxMC", cfg="BoxMC_2_%s.cfg" % ctx.tier), dict(module="BoxMC", cfg="BoxMC_3_%s.cfg" % ctx.tier)]

def cfg(r, d):
    return dict(dim=d, f=r.choice([0, 1]), s=r.choice([1, 1, .5, .25, 2]))

def rots(d):
    out = []
    for a in itertools.permutations(range(d)):
        inv = sum(1 for i in range(d) for j in range(i) if a[j] > a[i])
        for s in itertools.product((1, -1), repeat=d):
            det = (-1) ** inv
            for x in s: det *= x
            if det == 1: out.append([[s[i] if j == a[i] else 0 for j in range(d)] for i in range(d)])
    return out
ROTS = {2: rots(2), 3: rots(3)}

def rational():
    """proper rotations N / k from integer quaternions (3D) and Pythagorean triples (2D)"""
    out = {2: [(n, 1) for n in ROTS[2]], 3: [(n, 1) for n in ROTS[3]]}
    for a, b, c in ((3, 4, 5), (4, 3, 5), (-3, 4, 5), (3, -4, 5), (5, 12, 13), (-12, 5, 13), (8, 15, 17)):
        out[2].append(([[a, -b], [b, a]], c))
    for w, x, y, z in itertools.product(range(-2, 3), repeat=4):
        k = w * w + x * x + y * y + z * z
        if k not in (3, 5, 6, 7, 9): continue
        N = [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)], [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)], [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]
        out[3].append((N, k))
    return out
RAT = rational()
def app(R, t, p, k=1): return [sum(R[i][j] * p[j] for j in range(len(p))) // k + t[i] for i in range(len(p))]
def inv(R, t, p): return [sum(R[i][j] * (p[i] - t[i]) for i in range(len(p))) for j in range(len(p))]

def tie(hs, q):
    """more than one nearest surface point"""
    if any(abs(x) > h for x, h in zip(q, hs)): return False
    g = sorted((h - abs(x), x == 0) for x, h in zip(q, hs))
    return g[0][1] or (len(g) > 1 and g[0][0] == g[1][0] and g[0][0] > 0)

def surface(r, hs):
    p = [r.randint(-h, h) for h in hs]
    d = r.randrange(len(hs))
    p[d] = r.choice([-1, 1]) * hs[d]
    return p
