"""C09: ParamMap files round-trip and list the table in order."""
from comp.params import *
ASSUMPTIONS = ["round trips are claimed for tables of single-word names and values"]

def mc(ctx):
    return [dict(module="ParamMapMC", cfg="ParamMapMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    U = ["a", "b", "c"]
    for i, hs in enumerate(emitted[0]):
        ops = []
        for e in hs:
            if e["op"] == "read": e.update(via="stream", nl=True)
            elif e["op"] == "set": e.update(kind="raw")
            elif e["op"] == "get": e.update(dflt="8", prev="7")
            ops.append(e)
        ops.append(dict(op="write", via="stream", prefix=""))
        ops.append(dict(op="trip", via=["stream", "file"][i % 5 == 0]))
        out.append(wrap(U, ops))
    for i in range(2000 if ctx.quick else 20000):
        U = universe(r)
        if i % 4 == 0: U = U + ["".join(r.choice("abAB01._-") for _ in range(r.randint(1, 6))) for _ in range(r.choice([5, 30]))]
        U = [u for u in U if not u.startswith("-")]
        if i % 100 == 7: U = ["%s%d" % (r.choice("abAB_."), r.randrange(1000)) for k in range(200)]
        ops = []
        for _ in range(r.randint(1, 8)):
            k = r.random()
            if k < .35: ops.append(read(r, U, 1, 12 if len(U) < 12 else 30 if len(U) < 100 else 300))
            elif k < .45: ops.append(argv(r, [u for u in U if u[0].isalpha()] or ["a"]))
            elif k < .7: ops.append(dict(op="set", kind="raw", name=name(r, U), text=value(r) if r.random() < .95 else "w" * r.choice([300, 1990, 2000, 2600])))
            elif k < .75:
                ops.append(get(r, U))
                if ops[-1]["dflt"] in ("", " lead", "two words"): ops[-1]["dflt"] = "w"
            elif k < .78: ops.append(dict(op="badread"))
            elif k < .81: ops.append(dict(op="badwrite"))
            else:
                v = r.choice(["stream", "prefix", "file"])
                ops.append(dict(op="write", via=v, prefix=r.choice(["", "# ", "  ", "p_"]) if v == "prefix" else ""))
            if r.random() < .2: ops.append(dict(op="trip", via=r.choice(["stream", "file"])))
        # empty command-line arguments would give empty values, which are not words
        for o in ops:
            if o["op"] == "argv": o["args"] = [x for x in o["args"] if x != ""]
        ops.append(dict(op="trip", via=r.choice(["stream", "file"])))
        v = r.choice(["stream", "prefix", "file"])
        ops.append(dict(op="write", via=v, prefix="#  " if v == "prefix" else ""))
        out.append(wrap(U, ops))
    # values that are not words are listed all the same (they do not come back, so no round trips here)
    for i in range(400 if ctx.quick else 4000):
        U = [u for u in universe(r) if not u.startswith("-")]
        ops = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < .7: ops.append(dict(op="set", kind="raw", name=name(r, U), text=r.choice(["", "", " ", "two words", " lead", "trail ", "\t", "# x", "w" * 300, value(r)])))
            elif k < .8: ops.append(argv(r, [u for u in U if u[0].isalpha()] or ["a"]))
            if r.random() < .4:
                v = r.choice(["stream", "prefix", "file"])
                ops.append(dict(op="write", via=v, prefix=r.choice(["", "# ", "  ", "p_", "a" * 300]) if v == "prefix" else ""))
        v = ["stream", "prefix", "file"][i % 3]
        ops.append(dict(op="write", via=v, prefix=r.choice(["> ", "", "%s "]) if v == "prefix" else ""))
        out.append(wrap(U, ops))
    return out
