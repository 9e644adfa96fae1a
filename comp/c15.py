"""C15: Morton cell splitting brackets and separates the points."""
from comp.words import *
from comp import c13, c14
HARNESS = "morton.cpp"
TRACE = "WordsTrace"
ASSUMPTIONS = c14.ASSUMPTIONS

def mc(ctx):
    return c13.mc(ctx)[:2] + c14.mc(ctx)

def cases(ctx, emitted):
    return c13.pairs(ctx, emitted[:2], "split", 120 if ctx.quick else 2500) + c14.pairs(ctx, emitted[3], "fsplit", 450 if ctx.quick else 8000)

def corrupt(ctx, recs):
    x = recs[len(recs) // 2]
    x["ev"][0]["rs"][0]["mid"][0][-1] ^= 1
    return x
