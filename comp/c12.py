"""C12: float decomposition is exact and invertible."""
from comp.words import *
HARNESS = "morton.cpp"
TRACE = "WordsTrace"
ASSUMPTIONS = ["x86-64 SSE floating point (returning a float does not change its bits)"]

def mc(ctx):
    return [dict(module="FloatsMC", cfg="FloatsMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    out += [dict(ops=[dict(op="consts", w=w, sg=False)]) for w in (32, 64)]
    eb, mb = (3, 2) if ctx.quick else (3, 4)
    for w in (32, 64):
        E, M = FW[w]
        xs = set()
        for x in emitted[0]:
            xs.add(tuple(embed(x, eb, mb, w)))
            # the same word stretched: all ones / zeros fields keep their class
            e = x[1:1 + eb]
            e = e + [e[-1]] * (E - eb)
            m = x[1 + eb:]
            xs.add(tuple(x[:1] + e + m + [m[-1]] * (M - mb)))
        for s in (0, 1):
            for ef in ([0, 1, 2, (1 << E) - 1, (1 << E) - 2] + list(range(0, 1 << E, 1 if w == 32 else 16))):
                for m in (0, 1, (1 << M) - 1, 1 << (M - 1), r.getrandbits(M)):
                    xs.add(tuple(bits((s << (w - 1)) | (ef << M) | m, w)))
        for _ in range(3000 if ctx.quick else 60000): xs.add(tuple(bits(r.getrandbits(w), w)))
        for ch in chunk([list(x) for x in sorted(xs)], 40): out.append(dict(ops=[dict(op="float", w=w, sg=False, xs=ch)]))
    return out

def corrupt(ctx, recs):
    x = recs[len(recs) // 2]
    x["ev"][0]["rs"][0]["e"] += 1
    return x
