"""C26: directory listing."""
HARNESS = "dir.cpp"
TRACE = "DirTrace"
ASSUMPTIONS = ["the directory exists, is readable and does not change during the call; a symbolic link counts as what it refers to"]
REG, OTH = ["file", "empty", "exec", "link"], ["dir", "fulldir", "linkdir", "dangling", "fifo"]
NAMES = ["a", "b", "A", "B.txt", "a.txt", "a1", "a10", "a2", ".hidden", "x y", "\u00e9", "file-01", "file_01", "File", "~", "inner", "target", "-x", "#1", "a" * 40, "b" * 250, "..x", "a.", "a\\b", "new\nline", ".a.swp", "%s", "'q'"]

def config(names, extra):
    spell, dirof = ["d1", "d2", "d1/", "./d2"], [1, 2, 1, 2]
    path = lambda b, n: (spell[b] if spell[b].endswith("/") else spell[b] + "/") + n
    strings = sorted({path(b, n) for b in range(4) for n in names} | set(extra), key=lambda s: s.encode())
    return dict(names=names, spell=spell, dirof=dirof, strings=strings,
                id=[[strings.index(path(b, n)) + 1 for n in names] for b in range(4)])

def mc(ctx):
    return [dict(module="DirMC", cfg="DirMC_%s.cfg" % ctx.tier)]

def cases(ctx, emitted):
    r, out = ctx.rng, []
    cfg = config(["a", "b"], [])
    step = 1 if ctx.quick else 10
    for hs in emitted[0][::step]: out.append(dict(cfg=cfg, ops=hs))
    for i in range(700 if ctx.quick else 6000):
        names = r.sample(NAMES, r.choice([1, 3, 8, 14]))
        if i % 60 == 9: names = ["f%d" % r.randrange(10**6) for _ in range(250)]; names = sorted(set(names)); r.shuffle(names)
        extra = r.sample(["", "zz", "d", "d1", "d2/zzzz", "e", "D1/a", "/abs/path", "d1/a", "0"], r.randint(0, 5))
        cfg = config(names, extra)
        ops, fs = [], set()
        for _ in range(r.choice([3, 8, 20]) if len(names) < 100 else 330):
            k, d, n = r.random(), r.choice([1, 1, 2]), r.randint(1, len(names))
            if k < .6 and (d, n) not in fs:
                fs.add((d, n)); ops.append(dict(op="mk", d=d, n=n, k=r.choice(REG + ["file"] * 3 + OTH)))
            elif k < .7 and fs:
                d, n = r.choice(sorted(fs)); fs.remove((d, n)); ops.append(dict(op="rm", d=d, n=n))
            elif k < .8: ops.append(dict(op="set", v=[r.randint(1, len(cfg["strings"])) for _ in range(r.choice([0, 1, 4]))]))
            else: ops.append(dict(op="list", b=r.randint(1, 4)))
        ops.append(dict(op="list", b=r.randint(1, 4)))
        out.append(dict(cfg=cfg, ops=ops))
    return out

def corrupt(ctx, recs):
    for x in recs:
        for k, e in enumerate(x["ev"]):
            if e["op"] == "list" and len(e["res"]) > 1 and e["res"][0] != e["res"][-1]:
                e["res"] = e["res"][::-1]
                x["ev"] = x["ev"][:k + 1]
                return x
