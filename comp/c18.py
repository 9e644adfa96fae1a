"""C18: every point votes once per direction (HoughPlaneDetector)."""
from comp.hough import *

def mc(ctx):
    return [dict(module="HoughMC", cfg="HoughMC_2_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    return replayed(2, emitted, True, lambda i, g: []) + random_cases(ctx, 2, 800 if ctx.quick else 9000, True, False)

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "dump":
                e["ht"][0][0] += 1
                x["ev"] = x["ev"][:k + 1]
                return x
