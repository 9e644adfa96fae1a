"""C04: Grid cells are independent and addressed bijectively."""
import itertools
HARNESS = "grid.cpp"
LIBS = ()
TRACE = "GridTrace"
ASSUMPTIONS = ["cells are accessed with indices inside the domain", "after re-initialising a domain, cell contents are unspecified until written"]

def mc(ctx):
    return [dict(module="GridMC", cfg="GridMC_%s.cfg" % ctx.tier)]

def dom_op(r, m, d, form=None):
    n = len(m)
    form = form or r.choice(["ctor", "ctor1", "bounds", "bounds1", "minmax", "center"])
    if form in ("ctor1", "bounds1"):
        m = [0] * n
    if form == "center":
        d = [x if x % 2 else x + 1 for x in d]
        w = [(x - 1) // 2 for x in d]
        p, q = [a + b for a, b in zip(m, w)], w
    elif form == "minmax":
        p, q = m, [a + b - 1 for a, b in zip(m, d)]
    else:
        p, q = m, d
    pts = [[r.choice([m[i] - 1, m[i], m[i] + d[i] - 1, m[i] + d[i]]) for i in range(n)] for _ in range(6)]
    o = dict(op="dom", form=form, p=p, q=q, min=m, dim=d, pts=pts)
    return o, m, d

def cases(ctx, emitted):
    r, out = ctx.rng, []
    F = ["arr", "ptr", "pos"]
    for i, hs in enumerate(emitted[0]):
        ops, m = [], None
        for e in hs:
            if e["op"] == "dom":
                o, m, d = dom_op(r, e["min"], e["dim"], r.choice(["ctor", "bounds", "minmax"]))
                ops.append(o)
            elif e["op"] == "w":
                ops.append(dict(op="w", t=e["t"], v=e["v"], form=F[(i + len(ops)) % 3]))
                ops.append(dict(op="dump", form=F[(i // 3 + len(ops)) % 3]))
            else:
                ops.append(dict(op="fill", v=e["v"]))
                ops.append(dict(op="dump", form="pos"))
        out.append(dict(D=len(m), type=["int", "string"][i % 2], cfg={}, ops=ops))
    for i in range(1500 if ctx.quick else 12000):
        n = r.choice([1, 2, 3, 4])
        hi = {1: 30, 2: 9, 3: 5, 4: 4}[n]
        if i % 250 == 9: hi = {1: 1500, 2: 40, 3: 11, 4: 6}[n]
        mk = lambda: ([r.randint(-20, 20) for _ in range(n)], [r.randint(1 if i % 250 != 9 else hi - 2, hi) if r.random() < .9 else 1 for _ in range(n)])
        ops, known = [], {}
        o, m, d = dom_op(r, *mk()); ops.append(o)
        rt = lambda: [r.randint(m[k], m[k] + d[k] - 1) if r.random() < .8 else r.choice([m[k], m[k] + d[k] - 1]) for k in range(n)]
        if r.random() < .6: ops.append(dict(op="dump", form=r.choice(F)))
        for _ in range(r.randint(3, 25)):
            k = r.random()
            if k < .5: ops.append(dict(op="w", t=rt(), v=str(r.randint(1, 99)), form=r.choice(F)))
            elif k < .8: ops.append(dict(op="r", t=rt(), form=r.choice(F), cst=r.random() < .5))
            elif k < .88: ops.append(dict(op="fill", v=str(r.randint(1, 99))))
            elif k < .91:
                o, m, d = dom_op(r, *mk(), form=r.choice(["bounds", "bounds1", "minmax", "center"])); ops.append(o)
            elif k < .94: ops.append(dict(op="copy", how=r.choice(["ctor", "assign"])))
            else: ops.append(dict(op="dump", form=r.choice(F)))
        ops.append(dict(op="dump", form=r.choice(F)))
        out.append(dict(D=n, type=r.choice(["num", "string", "other"]), cfg={}, ops=ops))
    # large domains, on a sample of cells: positions, inverses, values
    for i in range(60 if ctx.quick else 400):
        n = r.choice([1, 2, 3, 4])
        hi = {1: 1000000, 2: 900, 3: 90, 4: 30}[n]
        d = [r.randint(max(1, hi // 3), hi) for _ in range(n)]
        m = [r.randint(-5000, 5000) for _ in range(n)]
        o, m, d = dom_op(r, m, d)
        ts = {tuple(r.choice([m[k], m[k] + d[k] - 1, r.randint(m[k], m[k] + d[k] - 1)]) for k in range(n)) for _ in range(60)}
        ts = [list(t) for t in sorted(ts)]
        r.shuffle(ts)
        o.update(op="big", ts=ts, wf=[r.choice(F) for _ in ts], rf=[r.choice(F) for _ in ts])
        out.append(dict(D=n, type="num" if n < 4 else r.choice(["num", "other"]), cfg={}, ops=[o]))
    return out

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        if e["op"] == "dump" and len(e["vals"]) > 1:
            w = [k for k in range(len(x["ev"])) if x["ev"][k]["op"] == "fill"]
            if w:
                e["vals"][0] = "777"
                return x
