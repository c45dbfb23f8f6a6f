"""Footsteps: C01."""
import math
from urdf_check import emitted, number

LFOOT = [[80, 50], [80, -38], [-47, -38], [-47, 50]]
RFOOT = [[80, 38], [80, -50], [-47, -50], [-47, 38]]


def clockwise(ps):
    """convex hull without collinear corners, clockwise"""
    ps = sorted(set(map(tuple, ps)))
    cross = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def half(seq):
        out = []
        for p in seq:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return [list(p) for p in reversed(half(ps) + half(ps[::-1]))]


def box(rnd):
    w = rnd.random()
    if w < .25:
        return rnd.choice([LFOOT, RFOOT])
    if w < .5:
        a, b, c, d = (rnd.randint(10, 120) for _ in range(4))
        return [[a, b], [a, -c], [-d, -c], [-d, b]]
    while True:
        n = rnd.choice([3, 4, 4, 5, 6, 9])
        r = rnd.choice([30, 60, 120])
        ox, oy = (0, 0) if rnd.random() < .6 else (rnd.randint(-60, 60), rnd.randint(-60, 60))
        ps = clockwise([[max(-125, min(125, ox + rnd.randint(-r, r))), max(-125, min(125, oy + rnd.randint(-r, r)))] for _ in range(n)])
        if len(ps) < 3:
            continue
        area = -sum(ps[i - 1][0] * ps[i][1] - ps[i - 1][1] * ps[i][0] for i in range(len(ps))) / 2
        edge = min(math.hypot(ps[i][0] - ps[i - 1][0], ps[i][1] - ps[i - 1][1]) for i in range(len(ps)))
        if area > 900 and edge > 8:      # no side too short for single precision
            k = rnd.randrange(len(ps))
            return ps[k:] + ps[:k]


def near(rnd):
    w = rnd.random()
    if w < .5:
        d, t = rnd.uniform(0, 150), rnd.uniform(-math.pi, math.pi)
        return [round(d * math.cos(t)), round(d * math.sin(t))]
    if w < .8:
        return [rnd.randint(-60, 60), rnd.choice([1, -1]) * rnd.randint(60, 130)]
    if w < .9:
        return [rnd.choice([0, 0, 20, -40]), rnd.choice([0, 0, 30, -50])]
    return [rnd.randint(-250, 250), rnd.randint(-250, 250)]


def angle(rnd):
    return rnd.choice([0, rnd.randint(-31000, 31000), rnd.randint(-31000, 31000), rnd.randint(-9000, 9000), rnd.choice([15708, -15708, 31416, -7854, 7854, 40000, 62832, -50000])])


def program(rnd):
    boxes = [box(rnd) for _ in range(2)] if rnd.random() < .8 else [LFOOT, RFOOT]
    if rnd.random() < .1:
        boxes[1] = boxes[0]
    ops = [dict(op='move', m=near(rnd) + [angle(rnd)])]
    for _ in range(rnd.randint(3, 9)):
        w = rnd.random()
        if w < .15:
            ops.append(dict(op='move', m=near(rnd) + [angle(rnd)]))
        elif w < .3:
            ops.append(dict(op='clip', a=rnd.choice([1, -1]) * rnd.randint(20, 150), b=rnd.choice([1, 1, -1]) * rnd.randint(20, 150)))
        elif w < .5:
            ops.append(dict(op='avoid', left=rnd.randint(0, 1)))
        elif w < .6:
            ops.append(dict(op='turn', f=rnd.randint(1, 2), g=rnd.randint(1, 2)))
        elif w < .67:
            ops.append(dict(op='box', f=rnd.randint(1, 2)))
        elif w < .87:
            op = dict(op='hit', f=rnd.randint(1, 2), g=rnd.randint(1, 2), p=[0, 0, 0], q=near(rnd) + [angle(rnd)])
            if rnd.random() < .5:
                op['p'] = near(rnd) + [angle(rnd)]
                op['q'][:2] = [x + y for x, y in zip(op['q'], op['p'])]
            if rnd.random() < .1:
                op['q'] = list(op['p'])
                op['g'] = op['f']
            ops.append(op)
        else:
            e = rnd.choice([5, 20, 100])
            s = [[rnd.randint(-e, e), rnd.randint(-e, e)] for _ in range(4)]
            if rnd.random() < .2:      # parallel or degenerate
                k = rnd.choice([0, 1, 2, -1])
                s[3] = [s[2][i] + k * (s[1][i] - s[0][i]) for i in range(2)]
            den = abs((s[3][0] - s[2][0]) * (s[1][1] - s[0][1]) - (s[1][0] - s[0][0]) * (s[3][1] - s[2][1]))
            if den and den < 20:
                continue
            ops.append(dict(op='seg', s=s))
    return dict(s=rnd.choice([1000, 1000, 128, 1000, 10, 1]), boxes=boxes, ops=ops)


def c01(c):
    t = c.thorough
    ws = emitted(c.tlc('FeetMC', dict(DEPTH=3, EMIT=True), workers=1))
    c.tlc('FeetMC', dict(DEPTH=3 if t else 2, EMIT=False))
    hs = c.known_inputs() + c.pick(ws, 20000 if t else 2500) + [program(c.rnd) for _ in range(80000 if t else 8000)]
    hs = number(hs)
    recs = c.run_driver('feet', hs)
    c.judge('FeetTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=300)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'C01': c01}
