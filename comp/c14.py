"""C14: floating-point Morton order is the order of the exact binary expansions."""
from comp.words import *
HARNESS = "morton.cpp"
TRACE = "WordsTrace"
ASSUMPTIONS = ["coordinates are zero or normal numbers of magnitude >= 2^-100 (float), 2^-960 (double); no negative zero"]

def mc(ctx):
    return [dict(module="FloatsMC", cfg="FloatsMC_%s.cfg" % ctx.tier), dict(module="FloatMortonMC", cfg="FloatMortonMC_%s.cfg" % ctx.tier)]

def pairs(ctx, emitted, op, n):
    r, out, groups = ctx.rng, [], {}
    eb, mb = (2, 1) if ctx.quick else (3, 1)
    em = emitted if len(emitted) < 40000 else r.sample(emitted, 40000)
    for k, p in enumerate(em):
        for w in ((32, 64)[k % 2],):
            groups.setdefault((w, 2), []).append(dict(a=[embed(x, eb, mb, w) for x in p["a"]], b=[embed(x, eb, mb, w) for x in p["b"]]))
    for w in (32, 64):
        for d in (1, 2, 3, 4, 7):
            groups.setdefault((w, d), []).extend(fpair(r, w, d) for _ in range(n))
    for (w, d), xs in sorted(groups.items()):
        for ch in chunk(xs, 25): out.append(dict(ops=[dict(op=op, w=w, sg=False, d=d, xs=ch)]))
    return out

def cases(ctx, emitted):
    return pairs(ctx, emitted[1], "fcmp", 900 if ctx.quick else 15000)

def corrupt(ctx, recs):
    x = recs[len(recs) // 2]
    x["ev"][0]["rs"][0]["lt"] = not x["ev"][0]["rs"][0]["lt"]
    return x
