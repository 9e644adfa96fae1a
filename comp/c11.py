"""C11: bit utilities compute exact logarithms and powers of two."""
from comp.words import *
HARNESS = "bitmanip.cpp"
TRACE = "WordsTrace"
ASSUMPTIONS = ["the most negative value of a signed type is exempt (its negation is not representable)"]

def mc(ctx):
    return [dict(module="BitsMC", cfg="BitsMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    pats = [x for x in emitted[0] if len(x) <= 8]
    def add(w, xs):
        for ch in chunk(xs, 40):
            for op, sg in (("raw", False), ("typed", False), ("typed", True)):
                out.append(dict(ops=[dict(op=op, w=w, sg=sg, xs=ch)]))
    for w in (8, 16, 32, 64):
        # every pattern of the specification, at the low and at the high end of the word
        xs = {tuple([0] * (w - len(p)) + p) for p in pats} | {tuple(p + [0] * (w - len(p))) for p in pats} | {tuple([1] * (w - len(p)) + p) for p in pats}
        xs |= {tuple(bits(v, w)) for v in special(w)}
        if w > 8: xs |= {tuple(bits(word(r, w), w)) for _ in range(8000 if ctx.quick else 60000)}
        if w == 16: xs = {tuple(bits(v, 16)) for v in range(1 << 16)}
        add(w, [list(x) for x in sorted(xs)])
    return out

def corrupt(ctx, recs):
    x = recs[len(recs) // 2]
    x["ev"][0]["rs"][0]["nlz"] += 1
    return x
