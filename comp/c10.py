"""C10: ParamMap container parameters and tilde expansion."""
from comp.params import *
ASSUMPTIONS = ["HOME is set", "the delimiter and the texts contain no NUL"]

def mc(ctx):
    return [dict(module="ParamMapContMC", cfg="ParamMapContMC_%s.cfg" % ctx.tier)]

def tildes(r):
    return r.choice(["~", "~/", "~/a", "~/a/b", "~/x~y", "~/~", "/~", "a~", "~user/x", "~~", "~a", "~.bak", "~user", "x/~/y", "", "~/very/long/path/that/does/not/fit/in/the/small/string/buffer/of/the/library", "plain", "0"])

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, x in enumerate(emitted[0]):
        kind = ["int", "string"][i % 2]
        lit = {"int": "-3", "string": "dd"}[kind]
        gv = {"int": "77777", "string": "GUARD"}[kind]
        ops = [dict(op="set", kind="raw", name="a", text=x["s"])]
        for nm in ("a", "b"):
            ops.append(dict(op="range", kind=kind, name=nm, n=x["n"], dtext=x["s"], dflt=lit, gv=gv, delim=x["d"], dd=False))
        ops.append(dict(op="ins", kind=kind, name="a", delim=x["d"], dd=False, dflt=lit))
        ops.append(dict(op="ins", kind=kind, name="c", delim=x["d"], dd=False, dflt=lit))
        out.append(wrap(["a", "b", "c"], ops))
    for i in range(2500 if ctx.quick else 25000):
        U = universe(r)
        ops = []
        for _ in range(r.randint(2, 9)):
            k = r.random()
            if k < .3: ops.append(rangeop(r, U))
            elif k < .5: ops.append(insop(r, U))
            elif k < .65: ops.append(listset(r, U))
            elif k < .85: ops.append(dict(op="set", kind="raw", name=name(r, U), text=tildes(r)))
            else: ops.append(dict(op="tilde", home=r.choice(["/home/u", "/h", "/root", "/home/averyveryverylongusernamethatisheapallocated"])))
        ops.append(dict(op="tilde", home=r.choice(["/home/u", "/h"])))
        out.append(wrap(U, ops))
    return out
