"""Shared generators of the ParamMap components C08, C09, C10."""
HARNESS = "params.cpp"
TRACE = "ParamMapTrace"
INTS = ["0", "1", "-1", "42", "-17", "007", "+5", "123456", "-999999", "2147"]
BIGS = ["123456789", "-999999999", "2147483647", "-2147483648", "2147483648", "-2147483649", "0002147483647", "4294967296", "10000000000", "18446744073709551616"]
DECS = ["0.5", "-0.25", "3.75", "12.5", "1.125", "-100.5", "0.001", "1e3", "-2.5e1", "4E-2", ".5", "-.25", "2.", "+1.5", "1e+2", "07.50", "7"]
BADN = ["abc", "1x", "4.5.6", "--3", "1 2", "0x1f", "", "99999999999", "12,5", "-", "+", ".", "-.", "e5", "1e", "1e+", "1f", "5L", "1.5e1.0", "+-3", "3-"]
WORDS = ["foo", "bar_1", "a-b", "/tmp/x", "x=y", "~/d", "#no", "true", "a.b.c", "-5", "--q", "[1,2]", "01", "+1", "00", "citt\u00e0", "\u65e5\u672c", "a\\b", "\"q\"", "'s'", "$HOME", "%d%s", "a;b"]

def name(r, U):
    return r.choice(U)

def universe(r):
    base = ["a", "b", "ab", "abc", "B", "_x", "n1", "n2", "path.to", "z9", "A", "a_b", "a.b", "a1", "aa", "x/y", "k:v"]
    r.shuffle(base)
    return base[:r.choice([2, 3, 5, 9])]

def value(r):
    return r.choice([r.choice(INTS + BIGS), r.choice(DECS[:-1]), r.choice(WORDS), r.choice([x for x in BADN if x and " " not in x])])

def line(r, U):
    k = r.random()
    sp = lambda: r.choice([" ", " ", "  ", "\t", " \t "])
    n, v = name(r, U), value(r)
    if k < .55: s = n + sp() + v
    elif k < .65: s = sp() + n + sp() + v + sp()
    elif k < .72: s = n + sp() + v + sp() + value(r) + sp() + "# trailing"
    elif k < .78: s = r.choice(["#", "# ", "  #", "##", "\t#"]) + n + sp() + v
    elif k < .83: s = n
    elif k < .87: s = r.choice(["", " ", "\t"])
    elif k < .90: s = n + sp() + "#" + v
    elif k < .93: s = n + sp() + v + "\r"
    elif k < .95: s = n + "#x" + sp() + v
    elif k < .955: s = n + sp() + v + " " * r.choice([100, 1990, 1995, 2000, 2500]) + r.choice(["", "x"])
    elif k < .99: s = n + sp() + v
    else: s = n + sp() + "L" + "o" * r.choice([500, 1993, 1996, 1997, 1998, 1999, 2001, 3000]) + "ng"
    return s

def read(r, U, lo=1, hi=6):
    return dict(op="read", via=r.choice(["stream", "stream", "file"]), nl=r.random() < .6, lines=[line(r, U) for _ in range(r.randint(lo, hi))])

def argv(r, U):
    a = ["prog"]
    if r.random() < .1: a = [r.choice(["-a", "-b"])]
    for _ in range(r.randint(0, 5) if r.random() < .97 else 60):
        k = r.random()
        if k < .5: a += ["-" + name(r, U), value(r)]
        elif k < .65: a += ["-" + name(r, U)]
        elif k < .8: a += [value(r)]
        elif k < .9: a += ["-" + name(r, U), r.choice(["-5", "-0.5", "-", "--" + name(r, U), "-1x", ""])]
        else: a += [r.choice(["--" + name(r, U), "-", "-7", "", "x"]), value(r)]
    return dict(op="argv", args=a)

def literal(r, kind):
    if kind == "int": return r.choice(["0", "1", "-1", "42", "-17", "123456789", "99"])
    if kind in ("double", "float"): return r.choice(["0.5", "-0.25", "3.75", "12", "1.125", "-100.5", "0"])
    if kind == "bool": return r.choice(["0", "1"])
    return r.choice(WORDS + ["two words", "", " lead", "x"])

def setop(r, U):
    kind = r.choice(["int", "double", "float", "bool", "string", "raw"])
    return dict(op="set", kind=kind, name=name(r, U), text=literal(r, kind))

def get(r, U):
    kind = r.choice(["int", "double", "float", "bool", "string"])
    return dict(op="get", kind=kind, name=name(r, U), dflt=literal(r, kind), prev=literal(r, kind))

DELIMS = ["[],", "[],", ";", ", ", " ", "[]", ""]
def listtext(r, kind, delim):
    p = [r.choice({"int": INTS, "double": DECS[:-1] + INTS[:6], "string": [w for w in WORDS if not set(w) & set("[],; ")]}[kind]) for _ in range(r.randint(0, 6) if r.random() < .97 else 80)]
    if r.random() < .2: p.insert(r.randint(0, len(p)), r.choice(["abc", "1x", "-"]))
    d = delim or ","
    k = r.random()
    if d == "[],": return ("[" + ",".join(p) + "]") if k < .6 else ",".join(p) if k < .8 else "[[" + ",,".join(p) + "],"
    c = r.choice(d)
    return c.join(p) if k < .7 else c + (c + c).join(p) + c

def rangeop(r, U, dtexts=None):
    kind = r.choice(["int", "int", "double", "string"])
    delim = r.choice(DELIMS)
    lit = {"int": "-3", "double": "-0.5", "string": "dd"}[kind]
    gv = {"int": "77777", "double": "777.5", "string": "GUARD"}[kind]
    return dict(op="range", kind=kind, name=name(r, U), n=r.randint(0, 6) if r.random() < .97 else 60, dtext=listtext(r, kind, delim), dflt=lit, gv=gv, delim=delim, dd=delim == "[],")

def insop(r, U):
    kind = r.choice(["int", "double", "string"])
    delim = r.choice(DELIMS)
    return dict(op="ins", kind=kind, name=name(r, U), delim=delim, dd=delim == "[],", dflt={"int": "-3", "double": "-0.5", "string": "dd"}[kind])

def listset(r, U):
    kind = r.choice(["int", "double", "string"])
    return dict(op="set", kind="raw", name=name(r, U), text=listtext(r, kind, r.choice(DELIMS)))

def wrap(U, ops):
    return dict(cfg={}, names=sorted(set(U) | {"#a", "a#", "-a"}), ops=ops)

def corrupt(ctx, recs):
    for x in recs:
        e = x["ev"][-1]
        for s in e["seen"]:
            if s["has"]:
                s["val"] += "!"
                return x
