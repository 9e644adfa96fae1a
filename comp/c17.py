"""C17: MortonTree box search is exact."""
from comp.mtree import *
from comp.c16 import ASSUMPTIONS

def cases(ctx, emitted):
    return replayed(ctx, emitted) + random_cases(ctx, 1500 if ctx.quick else 18000, .9)

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] in ("box", "range") and e["res"]:
                e["res"].pop()
                x["ev"] = x["ev"][:k + 1]
                return x
