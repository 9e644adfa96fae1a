"""C30: geodetic conversions."""
HARNESS = "gis.cpp"
LIBS = ("common", "geometry")
TRACE = "GisTrace"
ASSUMPTIONS = ["origins and ECEF positions in quarters of a degree; offsets up to some degrees; single-precision Scalar (about half a metre on ECEF and geodetic coordinates)"]

def mc(ctx):
    return [dict(module="GisMC", cfg="GisMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r = ctx.rng
    ops = [dict(op="per", k=k) for k in range(-360, 361)]
    for x in emitted[0]: ops.append(dict(op="ecef", **x))
    for i in range(5000 if ctx.quick else 50000):
        k, m, q = r.randint(-340, 340), r.randint(-719, 719), r.random()
        if q < .3: ops.append(dict(op="xy", k=k, m=m, nlat=r.choice([0, r.randint(-10, 10), r.randint(-300, 300)]), nlon=r.choice([0, r.randint(-10, 10), r.randint(-300, 300)])))
        elif q < .6: ops.append(dict(op="ll", k=k, m=m, x=r.choice([0, r.randint(-1000, 1000), r.randint(-9000, 9000)]), y=r.choice([0, r.randint(-1000, 1000), r.randint(-90000, 90000)])))
        elif q < .8: ops.append(dict(op="trip", k=k, m=m, nlat=r.randint(-200, 200), nlon=r.randint(-200, 200)))
        else: ops.append(dict(op="ecef", k=r.choice([-360, 0, 360, r.randint(-360, 360), r.randint(-360, 360)]), m=r.choice([-720, 0, 360, r.randint(-720, 720), r.randint(-720, 720)]), alt=r.choice([0, 1000, -400, r.randint(-100, 12000)])))
    return [dict(cfg={}, ops=ops[i:i + 20]) for i in range(0, len(ops), 20)]

def corrupt(ctx, recs):
    e = recs[0]["ev"][30 % len(recs[0]["ev"])]
    e["lon"] += 20
    recs[0]["ev"] = [e]
    return recs[0]
