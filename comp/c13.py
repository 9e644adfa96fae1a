"""C13: integer Morton order is the bit-interleaving order."""
from comp.words import *
HARNESS = "morton.cpp"
TRACE = "WordsTrace"
ASSUMPTIONS = []
OP = "cmp"

def mc(ctx):
    return [dict(module="MortonMC", cfg="MortonMC_quick.cfg"), dict(module="MortonMC", cfg="MortonMC_3.cfg")] + ([] if ctx.quick else [dict(module="MortonMC", cfg="MortonMC_thorough.cfg")])

def pairs(ctx, emitted, op, n):
    r, out = ctx.rng, []
    # every pair of the specification: at the top, at the bottom (sign extended) and in the middle of the word
    groups = {}
    for em in emitted:
        for k, p in enumerate(em):
            b = len(p["a"][0])
            places = [(8, 0), (16, 3), (32, 1), (64, 2), (64, 0), (32, 0), (16, 0), (8, 1)]
            for t in range(2):
                w, how = places[(k * 2 + t) % len(places)]
                sg = (k // 4 + t) % 2 == 0
                def pl(x):
                    if how == 0: return x + [0] * (w - b)
                    if how == 1: return [x[0]] * (w - b) + x
                    if how == 2: return [0] * (w - b) + x
                    return [x[0]] * ((w - b) // 2) + x + [x[-1]] * (w - b - (w - b) // 2)
                groups.setdefault((w, sg, len(p["a"])), []).append(dict(a=[pl(x) for x in p["a"]], b=[pl(x) for x in p["b"]]))
    for w in (8, 16, 32, 64):
        for sg in (False, True):
            for d in (1, 2, 3, 4, 7):
                groups.setdefault((w, sg, d), []).extend(ipair(r, w, d) for _ in range(n))
    for (w, sg, d), xs in sorted(groups.items()):
        for ch in chunk(xs, 25): out.append(dict(ops=[dict(op=op, w=w, sg=sg, d=d, xs=ch)]))
    return out

def cases(ctx, emitted):
    return pairs(ctx, emitted, "cmp", 250 if ctx.quick else 5000)

def corrupt(ctx, recs):
    x = recs[len(recs) // 2]
    x["ev"][0]["rs"][0]["lt"] = not x["ev"][0]["rs"][0]["lt"]
    return x
