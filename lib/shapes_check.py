"""Solids, visitors and pills: S01."""
import math, struct
from urdf_check import emitted, number

KINDS = dict(sphere=1, roundedrectangle=3, pill=2, plane=0, halfspace=0, rectangle=2, halfline=0)
QUADS = [(1, 2, 2), (2, 3, 6), (1, 4, 8), (4, 4, 7), (2, 6, 9), (6, 6, 7), (0, 3, 4), (0, 0, 1), (0, 5, 12), (8, 9, 12)]


def words(x):
    return [str(w) for w in struct.unpack('<2H', struct.pack('<f', x))]


def visits(rnd):
    ops = []
    for _ in range(rnd.randint(1, 6)):
        k = rnd.choice(list(KINDS))
        ops.append(dict(shape=dict(kind=k, dims=[words(rnd.choice([0.0, 0.1, 1.0, 2.5, 1e-30, 3e30, rnd.uniform(0, 9), -1.0])) for _ in range(KINDS[k])]),
                        visitor=dict(own=rnd.choice(['all', 'none', k] + list(KINDS)), msg=rnd.choice(['', 'refused', 'no %s here' % k]))))
    return dict(kind='visit', ops=ops)


def pill(rnd):
    w = rnd.random()
    e = rnd.choice([1, 1, 2, 10, 100])
    if w < 0.35:
        d = list(rnd.choice(QUADS))
        rnd.shuffle(d)
        d = [x * rnd.choice([-1, 1]) for x in d]
    elif w < 0.7:
        d = [rnd.randint(-30, 30) for _ in range(3)]
    elif w < 0.95:     # nearly along an axis or a plane
        d = [0, 0, 0]
        d[rnd.randrange(3)] = rnd.choice([-1, 1]) * rnd.randint(9000, 20000)
        for i in range(3):
            if not d[i]:
                d[i] = rnd.choice([0, 0, 1, -1, 2, 3, -3, 10, rnd.randint(-20000, 20000)])
        e = 1000
    else:
        d = [rnd.choice([-1, 0, 1]) for _ in range(3)]
        e = 1000
    if not any(d):
        return pill(rnd)
    span = min(30 * e, 20000) if e > 1 else 30
    a = [rnd.choice([0, 0, rnd.randint(-span, span) // 3]) for _ in range(3)]
    # close points far away from the origin are rounded by the arithmetic itself
    m = max(map(abs, d))
    a = [max(-40 * m, min(40 * m, x)) for x in a]
    return dict(kind='pill', a=a, b=[x + y for x, y in zip(a, d)], e=e)


def s01(c):
    t = c.thorough
    hs = [h for h in emitted(c.tlc('ShapesMC', dict(EMIT=True, R=4 if t else 3), workers=1))]
    hs += [visits(c.rnd) for _ in range(4000 if t else 1000)]
    hs += [pill(c.rnd) for _ in range(80000 if t else 8000)]
    hs = number(hs)
    recs = c.run_driver('shapes', hs)
    c.judge('ShapesTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: 2, per=400)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'S01': s01}
