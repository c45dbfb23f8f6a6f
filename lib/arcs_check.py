"""Paths of two turns and a line: C02."""
import math
from urdf_check import emitted, number

TRIPLES = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1), (20, 21, 29)]


def target(rnd, s):
    a = rnd.choice([0, 0, 1, -1, 2, -2])
    b = rnd.randint(-4, 5)
    n = 5 ** abs(a)
    r = n * rnd.randint(0, max(1, rnd.choice([10, 100, 700, 2500]) // n))
    w = rnd.random()
    strict = 0
    if w < .25:      # at the limit
        u, v, g = rnd.choice(TRIPLES)
        k = rnd.randint(1, 1000 // g)
        r = g * k
        if r % n:
            k = n * rnd.randint(1, max(1, 1000 // (g * n)))
            r = g * k
        if r > 1000:
            return None
        strict = 1 if s in (1, 128, 256, 1024) else 0
        x, y = 4 * u * k * rnd.choice([1, -1]), 4 * v * k * rnd.choice([1, -1])
        if rnd.random() < .2:
            x, y = y, x
        if rnd.random() < .3:
            x += rnd.choice([1, -1])
    else:
        d, t = 4 * r + rnd.choice([rnd.uniform(-r, r), rnd.uniform(0, 4000), rnd.uniform(0, 12000)]), rnd.uniform(-math.pi, math.pi)
        if rnd.random() < .2:
            t = rnd.choice([0, math.pi / 2, math.pi, -math.pi / 2])
        x, y = round(d * math.cos(t)), round(d * math.sin(t))
    if max(abs(x), abs(y)) > 12000 or (x == 0 and y == 0):
        return None
    if strict and max(x * x, y * y, 16 * r * r) >= 2 ** 24:
        strict = 0
    return dict(x=x, y=y, a=a, b=b, r=r, strict=strict)


def program(rnd):
    s = rnd.choice([1, 128, 256, 1024, 1000, 2000, 100, 10000])
    ops = []
    while len(ops) < 6:
        q = target(rnd, s)
        if q:
            ops.append(q)
    return dict(s=s, ops=ops)


def c02(c):
    t = c.thorough
    ws = emitted(c.tlc('ArcsMC', dict(DEPTH=1, EMIT=True, SPAN=7 if t else 4, STEP=150 if t else 225), workers=1))
    c.tlc('ArcsMC', dict(DEPTH=1, EMIT=False, SPAN=40 if t else 14, STEP=25))
    hs = c.known_inputs() + c.pick(ws, 20000 if t else 2500) + [program(c.rnd) for _ in range(150000 if t else 12000)]
    hs = number(hs)
    recs = c.run_driver('arcs', hs)
    c.judge('ArcsTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=500)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'C02': c02}
