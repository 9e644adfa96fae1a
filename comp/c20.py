"""C20: votes and lines of HoughLineDetector."""
from comp.hough import *

def mc(ctx):
    return [dict(module="HoughMC", cfg="HoughMC_1_%s.cfg" % ctx.tier)]

def tail(i, g):
    return [dict(op="specmax"), dict(op="lines"), dict(op="normals"), dict(op="angles")]

def cases(ctx, emitted):
    return replayed(1, emitted, True, tail) + random_cases(ctx, 1, 1200 if ctx.quick else 12000, True, True)

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "lines" and e["res"]:
                e["res"].pop(); e["par"].pop()
                x["ev"] = x["ev"][:k + 1]
                return x
