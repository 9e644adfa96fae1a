"""C16: MortonTree keeps all items, in Morton order, with their identifiers."""
from comp.mtree import *
ASSUMPTIONS = ["coordinates are integers, or integers times a power of two for floating point trees (C13, C14 cover the comparators on all words)"]

def cases(ctx, emitted):
    return replayed(ctx, emitted) + random_cases(ctx, 1200 if ctx.quick else 15000, .15)

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        if e["op"] == "find" and len(e["after"]) > 1:
            e["after"][0]["id"] += 1
            return x
