"""C32: stamped names."""
HARNESS = "stamp.cpp"
TRACE = "StampTrace"
ASSUMPTIONS = ["instants of the years 1905 to 9990 (four-digit years)", "zones given by POSIX rules (fixed offset, or summer time by month, week and day, from 1971 on); the wall clock is interposed by the harness"]

def mc(ctx):
    return [dict(module="StampMC", cfg="StampMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, ops = ctx.rng, []
    fix = lambda: list(r.choice(["", "", "log_", "a%d", "%Y", "x y/", "20200101_", "_", ".txt", "%", "%%", "%S", "a" * 300, "\t", "\\n"]))
    zone = lambda off, dst=0, start=(1, 1, 0, 0), end=(1, 1, 0, 0): dict(off=off, dst=dst, start=list(start), end=list(end))
    def rz():
        k = r.random()
        if k < .4: return zone(r.choice([0, 0, 3600, -3600, 19800, -12600, 43200, -43200, 20700, -34200]))
        h = 900 * r.randint(-44, 44)
        if k < .7: return zone(h, r.choice([3600, 3600, 1800, 7200]), (r.randint(3, 5), r.randint(1, 5), r.randint(0, 6), 1800 * r.randint(0, 12)), (r.randint(9, 11), r.randint(1, 5), r.randint(0, 6), 3600 * r.randint(3, 6)))
        return zone(h, r.choice([3600, 3600, 1800]), (r.randint(9, 11), r.randint(1, 5), r.randint(0, 6), 1800 * r.randint(0, 12)), (r.randint(3, 5), r.randint(1, 5), r.randint(0, 6), 3600 * r.randint(3, 6)))
    def add(d, s, z):      # the C library has no summer time before 1971
        if d < 366: z = zone(z["off"])
        ops.append(dict(op="stamp", t=[d, s], zone=z, prefix=fix(), postfix=fix()))
    for x in emitted[0]: add(x["d"], x["s"], x["zone"])
    for i in range(5000 if ctx.quick else 40000):
        d = r.choice([r.randint(0, 24800), r.randint(10957, 24800), r.randint(-23700, 0), r.randint(24800, 2900000)])
        add(d, r.choice([r.randint(0, 86399), 3600 * r.randint(0, 23), 86399, 60 * r.randint(0, 1439) + 59]), rz())
    return [dict(cfg={}, ops=ops[i:i + 10]) for i in range(0, len(ops), 10)]

def corrupt(ctx, recs):
    x = recs[0]
    e = x["ev"][0]
    e["res"][len(e["prefix"]) + 7] = "x"
    x["ev"] = [e]
    return x
