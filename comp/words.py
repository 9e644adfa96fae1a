"""Generators of machine words (bits, most significant first) shared by C11 - C15."""
def bits(v, w):
    return [(v >> i) & 1 for i in range(w - 1, -1, -1)]

def special(w):
    """every single run of ones, every power of two, its neighbours and their complements"""
    s, m = set(), (1 << w) - 1
    for k in range(w + 1):
        for d in (-2, -1, 0, 1, 2):
            s.add(((1 << k) + d) & m)
            s.add(-((1 << k) + d) & m)
    for i in range(w):
        for j in range(i, w, 1 if w <= 16 else 5):
            s.add((((1 << (j - i + 1)) - 1) << i) & m)
            s.add(((1 << i) | (1 << j)) & m)
    return sorted(s)

def word(r, w):
    k = r.random()
    if k < .3: return r.getrandbits(w)
    if k < .6: return r.getrandbits(r.randint(1, w))
    if k < .8: return (-r.getrandbits(r.randint(1, w))) & ((1 << w) - 1)
    return r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 2, 3])

def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]

FW = {32: (8, 23), 64: (11, 52)}
def fword(w, s, e, m):
    eb, mb = FW[w]
    return (s << (w - 1)) | ((e + (1 << (eb - 1)) - 1) << mb) | m

def embed(x, eb, mb, w):
    """a word of a small format as the word of the same value in float/double"""
    s, e, m = x[0], 0, 0
    for b in x[1:1 + eb]: e = 2 * e + b
    for b in x[1 + eb:]: m = 2 * m + b
    bias = (1 << (eb - 1)) - 1
    if e == 0: return bits(0, w)           # zero (subnormals and negative zero are not used)
    return bits(fword(w, s, e - bias, m << (FW[w][1] - mb)), w)

def fnum(r, w, near=None):
    """zero or a normal number whose differences stay normal"""
    eb, mb = FW[w]
    lo, hi = (-100, 127) if w == 32 else (-960, 1023)
    if r.random() < .06: return 0
    k = r.random()
    if near and k < .6 and near != 0:       # same exponent, differing low or high bits
        j = r.randrange(mb)
        v = near ^ (1 << j) if r.random() < .7 else near ^ r.getrandbits(j + 1)
        if r.random() < .15: v ^= 1 << (w - 1)
        if r.random() < .2: v = fword(w, v >> (w - 1), max(lo, min(hi, exp_of(v, w) + r.choice([-1, 1, -2]))), v & ((1 << mb) - 1))
        return v
    e = r.choice([r.randint(-3, 3), r.randint(-3, 3), r.randint(-60, 60), r.randint(lo, hi), lo, hi])
    m = r.choice([0, 0, 1, (1 << mb) - 1, (1 << mb) - 2, 1 << (mb - 1), r.getrandbits(mb), r.getrandbits(4) << (mb - 4), (1 << mb) - (1 << r.randrange(mb))])
    return fword(w, r.getrandbits(1), e, m)

def exp_of(v, w):
    eb, mb = FW[w]
    return ((v >> mb) & ((1 << eb) - 1)) - ((1 << (eb - 1)) - 1)

def ipair(r, w, d):
    a = [word(r, w) for _ in range(d)]
    m = (1 << w) - 1
    k = r.random()
    if k < .3: b = [word(r, w) for _ in range(d)]
    elif k < .85:
        b = list(a)
        for i in range(d):
            if r.random() < .75: b[i] = (a[i] ^ (r.getrandbits(r.randint(1, w)) if r.random() < .5 else 1 << r.randrange(w))) & m
        if r.random() < .5 and d > 1:       # ties between dimensions
            i, j = r.sample(range(d), 2); b[i] = a[i] ^ (a[j] ^ b[j])
    elif k < .95: b = [(x + r.choice([-1, 0, 1])) & m for x in a]
    else: b = list(a)
    return dict(a=[bits(x, w) for x in a], b=[bits(x, w) for x in b])

def fpair(r, w, d):
    a = [fnum(r, w) for _ in range(d)]
    if d > 1 and r.random() < .3: a = [a[0]] + [fnum(r, w, a[0]) for _ in range(d - 1)]
    k = r.random()
    b = [fnum(r, w, a[i]) for i in range(d)] if k < .9 else list(a)
    if k < .5:
        for i in range(d):
            if r.random() < .3: b[i] = a[i]
    return dict(a=[bits(x, w) for x in a], b=[bits(x, w) for x in b])
