"""C19: planes reported by HoughPlaneDetector."""
from comp.hough import *

def mc(ctx):
    return [dict(module="HoughMC", cfg="HoughMC_2_%s.cfg" % ctx.tier)]

def tail(i, g):
    return [dict(op="specmax"), dict(op="planes"), dict(op="normals"), dict(op="parallel", t=[i % 2, i // 2 % 2]), dict(op="cell", c=[i % 2, i // 2 % 2, i % 3])]

def cases(ctx, emitted):
    return replayed(2, emitted, False, tail) + random_cases(ctx, 2, 800 if ctx.quick else 9000, False, True)

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "planes" and e["res"]:
                e["res"].pop(); e["par"].pop()
                x["ev"] = x["ev"][:k + 1]
                return x
