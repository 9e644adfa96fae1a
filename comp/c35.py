"""C35: printed forms show the content."""
HARNESS = "print.cpp"
LIBS = ("common",)
TRACE = "PrintTrace"
ASSUMPTIONS = ["streams in their default state", "coordinates of items are whole numbers below 10^5 (streams round others to six digits)"]
EXT = [-2147483647, 2147483647, 0, -1, 1]

def mc(ctx):
    return [dict(module="PrintMC", cfg="PrintMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    for i, hs in enumerate(emitted[0]):
        ops = list(hs)
        if i % 4 == 0: ops = [y for x in hs for y in (x, dict(op="rows"), dict(op="labels", via=i // 4 % 2))]
        out.append(dict(cfg={}, ops=ops + [dict(op="rows"), dict(op="labels", via=i % 2)]))
    for i in range(800 if ctx.quick else 8000):
        ops, n, big = [], 0, i % 40 == 3
        num = lambda m: r.choice(EXT) if r.random() < .1 else r.randint(-m, m)
        for _ in range(r.choice([4, 12, 30]) if not big else 300):
            k = r.random()
            if k < .25: ops.append(dict(op="insert", x=num(r.choice([9, 200]))))
            elif k < .3: ops.append(dict(op="remove", x=num(9)))
            elif k < .5: ops.append(dict(op="push", x=num(r.choice([5, 10**6])))); n += 1
            elif k < .58 and n: ops.append(dict(op=r.choice(["popTop", "popBottom"]))); n -= 1
            elif k < .64 and not (big and r.random() < .8): ops.append(dict(op="labels", via=r.randint(0, 1)))
            elif k < .7 and not (big and r.random() < .8): ops.append(dict(op="rows"))
            elif k < .78:
                d, ty = r.randint(1, 4), r.randint(0, 2)
                m = r.choice([5, 3000] if ty == 2 else [5, 3000, 10**6 if d == 1 else 3000])
                ops.append(dict(op="interval", ty=ty, via=r.randint(0, 1), p=[r.randint(-m, m) for _ in range(d)], q=[r.randint(0, m) if d == 1 or m == 5 else r.randint(1, 20) for _ in range(d)]))
            elif k < .85: ops.append(dict(op="index", ty=r.randint(0, 2), v=[r.choice([0, -1, 5, 32767, -32768, r.randint(-300, 300)]) for _ in range(r.randint(1, 4))]))
            elif k < .92: ops.append(dict(op="item", ty=r.randint(0, 2), via=r.randint(0, 1), v=[r.randint(-99999, 99999) if r.random() < .5 else r.randint(-9, 9) for _ in range(r.randint(1, 4))], id=num(100)))
            elif k < .97: ops.append(dict(op="var", vals=[num(100) for _ in range(r.randint(1, 7))]))
            else: ops.append(dict(op="msg", via=r.randint(0, 1), vals=[num(100), num(100)]))
        out.append(dict(cfg={}, ops=ops + [dict(op="rows"), dict(op="labels", via=0)]))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "labels" and "," in e["text"]:
                e["text"] = e["text"].replace(", ", ",")
                x["ev"] = x["ev"][:k + 1]
                return x
