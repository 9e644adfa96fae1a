"""C31: fixed-size vector algebra."""
HARNESS = "vecarray.cpp"
LIBS = ()
TRACE = "VecArrayTrace"
ASSUMPTIONS = ["entries are multiples of 1/4 (floating point) or integers of magnitude below 10^6, so that all element types are exact; inexact floating-point quotients are compared to a thousandth"]
ABS = 20000

def mc(ctx):
    return [dict(module="VecArrayMC", cfg="VecArrayMC_%s.cfg" % ctx.tier)]

def quot(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)

def exact(v, k):
    return [x // k for x in v] if all(x % k == 0 for x in v) else None

def step(reg, e, k=1):
    o, d = e["op"], e["d"] - 1
    A = reg[e["a"] - 1] if "a" in e else None
    B = reg[e["b"] - 1] if "b" in e else None
    D = reg[d]
    if o == "add": v = [x + y for x, y in zip(A, B)]
    elif o == "sub": v = [x - y for x, y in zip(A, B)]
    elif o == "mul": v = exact([x * y for x, y in zip(A, B)], k)
    elif o == "div":
        if 0 in B: return None
        if k > 1 and any(k * x % y for x, y in zip(A, B)): return None
        v = [quot(k * x, y) for x, y in zip(A, B)]
    elif o == "scale": v = exact([x * e["s"] for x in A], k)
    elif o == "addeq": v = [x + y for x, y in zip(D, B)]
    elif o == "muleq": v = exact([x * y for x, y in zip(D, B)], k)
    elif o == "scaleeq": v = exact([x * e["s"] for x in D], k)
    elif o == "scaleown": v = exact([x * D[e["i"] - 1] for x in D], k)
    elif o == "put": v = D[:e["i"] - 1] + [e["s"]] + D[e["i"]:]
    elif o == "copy": v = list(A)
    else: v = [0] * len(D)
    return v if v is not None and all(abs(x) <= ABS for x in v) else None

def cases(ctx, emitted):
    r, out = ctx.rng, []
    types = ["int", "double", "float", "long"]
    for n, x in enumerate(emitted[0][::1 if ctx.quick else 7]):
        put = [dict(op="put", d=k + 1, i=i + 1, s=x["start"][k][i], how=0) for k in range(2) for i in range(2)]
        out.append(dict(cfg=dict(type=types[n % 4], dim=2, regs=2, k=1), ops=put + x["ops"]))
    for i in range(1500 if ctx.quick else 15000):
        dim, regs, ty = r.choice([1, 2, 3, 5, 5, 16]), r.randint(1, 4), r.choice(types)
        k = r.choice([1, 2, 4]) if ty in ("float", "double") else 1
        if k > 1 and dim > 3: dim = 2
        reg, ops = [[0] * dim for _ in range(regs)], []
        for _ in range(r.choice([6, 15, 30])):
            o = r.choice(["put", "put", "put", "add", "sub", "mul", "div", "scale", "addeq", "muleq", "scaleeq", "scaleown", "copy", "new"])
            if o == "new" and r.random() < .7: continue
            e = dict(op=o, d=r.randint(1, regs))
            if o in ("add", "sub", "mul", "div", "scale", "copy"): e["a"] = r.randint(1, regs)
            if o in ("add", "sub", "mul", "div", "addeq", "muleq"): e["b"] = r.randint(1, regs)
            if o in ("scale", "scaleeq", "put"): e["s"] = r.randint(-9, 9)
            if o in ("put", "scaleown"): e["i"] = r.randint(1, dim)
            if o == "put": e["how"] = r.choice([0, 1])
            v = step(reg, e, k)
            if v is not None:
                reg[e["d"] - 1] = v
                ops.append(e)
        out.append(dict(cfg=dict(type=ty, dim=dim, regs=regs, k=k), ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "sub" and e["ret"][0]:
                e["ret"][0] = -e["ret"][0]
                x["ev"] = x["ev"][:k + 1]
                return x
