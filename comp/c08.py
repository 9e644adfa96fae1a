"""C08: ParamMap is a last-writer-wins table with typed access."""
from comp.params import *
ASSUMPTIONS = ["the values of floating point texts of more than 6 digits are not compared", "arguments and texts are ASCII"]

def mc(ctx):
    return [dict(module="ParamMapMC", cfg="ParamMapMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    U = ["a", "b", "c"]
    for i, hs in enumerate(emitted[0]):
        ops = []
        for e in hs:
            if e["op"] == "read": e.update(via=["stream", "file"][i % 7 == 0], nl=i % 2 == 0)
            elif e["op"] == "set": e.update(kind=["int", "raw", "string"][i % 3])
            elif e["op"] == "get": e.update(dflt="8", prev="7")
            ops.append(e)
        out.append(wrap(U, ops))
    for i in range(2500 if ctx.quick else 25000):
        U = universe(r)
        ops = []
        for _ in range(r.randint(2, 12)):
            k = r.random()
            ops.append(read(r, U) if k < .3 else argv(r, U) if k < .5 else setop(r, U) if k < .65 else get(r, U) if k < .97 else dict(op="clear"))
        if i % 200 == 50:      # a long file: hundreds of lines, many names
            U = ["p%d" % k for k in range(150)]
            ops.insert(r.randrange(len(ops)), read(r, U, 300, 400))
            U = r.sample(U, 12)
        for n in r.sample(U, min(3, len(U))):
            g = get(r, U); g["name"] = n; ops.append(g)
        out.append(wrap(U, ops))
    return out
