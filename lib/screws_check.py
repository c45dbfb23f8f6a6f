"""Paths along screws: T03."""
from fractions import Fraction as F
from urdf_check import emitted, number
from motions_check import rotation, den, turn, axisrot
from conversions_check import AXES

STEPS = [(1, 0, 3), (-1, 0, 3), (-1, 1, 4), (1, -1, 4), (2, -1, 3), (-2, 1, 3), (0, 1, 1), (0, -1, 1), (3, -1, 2), (-3, 2, 2), (3, -2, 2), (2, 0, 1), (3, 0, 1), (5, -1, 1), (-5, 1, 1), (4, -2, 1)]
ROUND = [a for a in AXES if a[1] <= 3]


def path(rnd):
    """a path and how many steps stay below a half-turn"""
    w = rnd.random()
    a = b = j = 0
    u, g = rnd.choice(AXES)
    if w < .12:
        n = 10
    elif w < .3:
        u, g = rnd.choice(ROUND)
        j, n = rnd.choice([1, 2, 3, 4, 5, 7, 9, 11, 14]) * rnd.choice([1, -1]), 4
    else:
        a, b, n = rnd.choice(STEPS)
        while 5 ** (abs(a) * n) * g * g > 100000:
            u, g = rnd.choice(AXES)
    while True:
        r = rotation(rnd)
        if den(r) <= (3 if j else 5):
            break
    aligned = rnd.random() < .25      # turning about a coordinate axis of both the base and the screw
    if aligned:
        k, x = rnd.randrange(3), rnd.choice([1, -1])
        u, g = [x if i == k else 0 for i in range(3)], 1
        c, x = turn(rnd.choice([0, 0, 0, 0 if j else 1, 0 if j else -1]), rnd.randrange(4))
        r = axisrot(k, c, x)
    t = [rnd.randint(-5, 5) for _ in range(3)]
    d = den(r)
    e = 1 if j else rnd.choice([1, 1, 2])
    s = dict(u=list(u), g=g, a=a, b=b, j=j, p=[rnd.randint(-3, 3) for _ in range(3)], e=e, h=rnd.choice([0, 0, 1, -1, 2, 3, -4]))
    if aligned and rnd.random() < .6:
        s['h'] = 0
    if rnd.random() < .15:
        s['p'] = [0, 0, 0]
    if 5 ** (abs(a) * n) * g * g * e * d > 200000:
        e = s['e'] = 1
        if d > 1:
            d, r = 1, [F(1), F(0), F(0), F(0), F(0), F(-1), F(0), F(1), F(0)]
    return dict(base=dict(v=[int(x * d) for x in r] + [x * d for x in t], d=d), s=s), n


def program(rnd):
    p, n = path(rnd)
    lo, hi = (-1, 1) if n == 1 else (-(n // 2), n - n // 2)
    if n == 1 and rnd.random() < .5:
        lo, hi = 0, 1
    top = 10 if n == 10 else n
    reg = [0, 0, 0]
    ops = []
    for r in (1, 2):
        reg[r - 1] = rnd.randint(lo, hi)
        ops.append(dict(op='load', r=r, k=reg[r - 1]))
    want = rnd.randint(4, 12)
    for _ in range(80):
        if len(ops) >= want:
            break
        r, a, b = (rnd.randint(1, 3) for _ in range(3))
        f = rnd.choice(['ret', 'in'])
        x, y = reg[a - 1], reg[b - 1]
        fits = abs(y - x) <= n
        w = rnd.random()
        if w < .35:
            if not fits:
                continue
            m = rnd.choice([abs(y - x), abs(y - x) * 2, abs(y - x) * 4, 3]) or rnd.randint(1, 7)
            i = rnd.choice([0, m, rnd.randint(0, m), rnd.randint(0, m)])
            if (y - x) * i % m:
                continue
            reg[r - 1] = x + (y - x) * i // m
            ops.append(dict(op='mean', f=f, r=r, a=a, b=b, n=i, m=m))
        elif w < .4:
            n_, m_ = rnd.choice([(-1, 10), (11, 10), (2, 1), (-3, 1), (10001, 10000), (-1, 100000)])
            ops.append(dict(op='bad', f=f, r=r, a=a, b=b, n=n_, m=m_))
        elif w < .55:
            k = rnd.randint(-top, top)
            if abs(x + k) > top:
                continue
            reg[r - 1] = x + k
            ops.append(dict(op='go', f=f, r=r, a=a, k=k))
        elif w < .7 and fits:
            ops.append(dict(op='log', f=f, r=r, a=a, b=b))
        elif w < .78 and fits:
            reg[r - 1] = y
            ops.append(dict(op='trip', f=f, r=r, a=a, b=b))
        elif w < .85:
            if 5 ** (abs((y - x) * p['s']['a'])) * p['s']['g'] * p['base']['d'] > 200000:
                continue
            ops.append(dict(op='diff', f=f, r=r, a=a, b=b))
        elif w < .95:
            c = rnd.randint(0, top)
            h = rnd.randint(0, min(c, top - c, n // 2))
            c -= rnd.randint(0, c - h) if rnd.random() < .5 else 0
            ks = [c - h, c + h]
            for _ in range(rnd.randint(0, 2)):
                q = rnd.randint(0, h)
                ks += [c - q, c + q]
            if rnd.random() < .4:
                ks.append(c)
            if rnd.random() < .15:
                ks = [c] * rnd.randint(1, 4)
            rnd.shuffle(ks)
            if rnd.random() < .04:
                ks = []
            ops.append(dict(op='avg', f=rnd.choice(['vec', 'deque', 'const']), r=r, ks=ks))
        else:
            e = rnd.choice([1, 2, 4])
            ops.append(dict(op='half', f=f, r=r, k=rnd.randint(1, 3), t=[rnd.randint(-9, 9) for _ in range(3)], e=e))
    return dict(p, ops=ops)


def t03(c):
    t = c.thorough
    ws = emitted(c.tlc('ScrewsMC', dict(DEPTH=2, EMIT=True), workers=1))
    c.tlc('ScrewsMC', dict(DEPTH=4 if t else 3, EMIT=False))
    hs = ws if t else c.pick(ws, 3000)
    hs += [program(c.rnd) for _ in range(60000 if t else 6000)]
    hs = number(hs)
    recs = c.run_driver('screws', hs)
    c.judge('ScrewsTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=300)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T03': t03}
