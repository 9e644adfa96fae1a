"""C34: requests outside their domain are refused, those inside are answered."""
HARNESS = ("guard.cpp", "guard_lut.cpp")
LIBS = ("common", "geometry")
TRACE = "GuardTrace"
ASSUMPTIONS = ["refused: the program ends with a failure status and a message on the standard error; a memory error (address sanitizer), a silent end, an exception or a signal is not a refusal",
               "every history runs in a child process of its own"]
BIG = 2147483647

def mc(ctx):
    return [dict(module="GuardMC", cfg="GuardMC_%s.cfg" % ctx.tier)]

def num(r, n):
    return r.choice([-1, 0, n - 1, n, n + 1, r.randint(-3, n + 3), r.randint(0, max(n - 1, 0)), r.randint(0, max(n - 1, 0)), BIG, -BIG]) if r.random() < .5 else r.randint(0, max(n - 1, 0))

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, hs in enumerate(emitted[0]):
        out.append(dict(cfg=dict(dim=2), ops=[dict(o, v=o.get("v", i % 2)) for o in hs]))
    H = ["top", "bottom", "nextTop", "nextBottom", "popTop", "popBottom"]
    for i in range(1200 if ctx.quick else 9000):
        dim, ops = r.choice([1, 2, 4]), []
        hn, lut, pl, ln = 0, -1, [0, 0, 0], [0, 0]
        kinds = r.sample(["heap", "lut", "plane", "line", "interval", "peak", "tls", "iter", "assert"], r.randint(1, 4))
        for _ in range(r.choice([2, 5, 12])):
            k, v = r.choice(kinds), r.randint(0, 1)
            if k == "heap":
                if r.random() < .45 or (hn == 0 and r.random() < .9): ops.append(dict(op="push")); hn += 1
                else:
                    o = r.choice(H); ops.append(dict(op=o))
                    if o.startswith("pop"): hn -= 1
            elif k == "lut":
                if lut < 0 and r.random() < .8 or r.random() < .2: lut = r.choice([0, 1, 3, 8]); ops.append(dict(op="lut", k=lut))
                else: ops.append(dict(op="eval", k=num(r, lut + 1), v=v))
            elif k == "plane":
                if pl[0] == 0 and r.random() < .9 or r.random() < .15: pl = [r.choice([1, 2, 3, 5]) for _ in range(3)]; ops.append(dict(op="plane", i=pl))
                else: ops.append(dict(op=r.choice(["ht3", "par3", "hs3", "nor3"]), i=[num(r, n) for n in pl], v=v))
            elif k == "line":
                if ln[0] == 0 and r.random() < .9 or r.random() < .15: ln = [r.choice([1, 2, 3, 7]) for _ in range(2)]; ops.append(dict(op="line", i=ln))
                else: ops.append(dict(op=r.choice(["ht2", "hs2"]), i=[num(r, n) for n in ln], v=v))
            elif k == "interval": ops.append(dict(op=r.choice(["stacked", "translate"]), k=num(r, dim), v=v))
            elif k == "peak":
                if r.random() < .5: ops.append(dict(op="domain", i=[r.choice([0, 1, 2, 3, 5]), r.choice([1, 2, 3, 5])], v=v))
                else: ops.append(dict(op="detect"))
            elif k == "tls":
                n = r.randint(0, 5); m = n if r.random() < .8 else r.randint(0, 5)
                if n + m: ops.append(dict(op="tls", n=n, m=m))
            elif k == "assert": ops.append(dict(op="assert", n=r.randint(0, 5), a=r.randint(0, 1), b=r.randint(0, 1), v=v))
            else: ops.append(dict(op="iter", null=r.random() < .15, v=v))
        if ops: out.append(dict(cfg=dict(dim=dim), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if not e["ret"]:
                e["ret"] = True; e["how"] = "answered"
                x["ev"] = x["ev"][:k + 1]
                return x
