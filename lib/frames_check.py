"""Vectors in other frames, frames on directions, projections on axes: T05."""
from fractions import Fraction as F
from urdf_check import emitted, number
from motions_check import Qu, axisrot, den, mm, mv, rotation, tr, turn
from conversions_check import AXES


def motion(rnd, limit=400):
    while True:
        r = rotation(rnd)
        if den(r) <= limit:
            break
    t = [F(rnd.randint(-9, 9), rnd.choice([1, 1, 2])) for _ in range(3)]
    return r, t


def listed(xs):
    d = den(xs)
    return dict(v=[int(x * d) for x in xs], d=d)


class Val:
    """rotation part (kind T only), then rotated vectors, then what stays"""
    def __init__(s, r, vs, rest):
        s.r, s.vs, s.rest = r, vs, rest

    def turned(s, m):
        return Val(mm(m, s.r) if s.r else None, [mv(m, v) for v in s.vs], s.rest)

    def nums(s):
        return (s.r or []) + [x for v in s.vs for x in v] + s.rest


def value(rnd, k):
    n = lambda: F(rnd.randint(-40, 40), 1 if rnd.random() < .4 else rnd.choice([2, 3, 4, 5, 8]))
    vec = lambda: [n() if rnd.random() < .85 else F(0) for _ in range(3)]
    if k == 'T':
        r, _ = motion(rnd)
        return Val(r, [vec()], [])
    if k == 'L':
        return Val(None, [vec()[:2] + [F(0)]], [n()])
    return Val(None, [vec() for _ in range(1 if k == 'X' else 2)], [])


def shown(k, x):
    return [y for y in x.nums()] if k != 'L' else x.vs[0][:2] + x.rest


def program(rnd):
    k = rnd.choice('VPXTTL')
    frames = [motion(rnd) for _ in range(2)]
    zero = Val(list(axisrot(0, F(1), F(0))) if k == 'T' else None, [[F(0)] * 3 for _ in range(2 if k in 'VP' else 1)], [F(0)] if k == 'L' else [])
    reg = [zero] * 3
    ops = []

    def put(op, x):
        ns = x.nums()
        if den(ns) > 3000 or max(map(abs, ns)) > 80 or max(abs(y * den(ns)) for y in ns) > 200000:
            return
        op['r'] = op.get('r') or rnd.randint(1, 3)
        reg[op['r'] - 1] = x
        ops.append(op)
    for i in (1, 2):
        x = value(rnd, k)
        put(dict(op='load', r=i, **listed(shown(k, x))), x)
    want = rnd.randint(4, 10)
    for _ in range(40):
        if len(ops) >= want:
            break
        if rnd.random() < .15:
            x = value(rnd, k)
            put(dict(op='load', r=rnd.randint(1, 3), **listed(shown(k, x))), x)
            continue
        a = rnd.randint(1, 3)
        op = dict(op='ch', f='out', inv=rnd.randint(0, 1), h=rnd.randint(1, 2), a=a, r=rnd.choice([a, rnd.randint(1, 3)]))
        if k == 'T' and rnd.random() < .4:
            op['h'] = rnd.randint(3, 5)
            if rnd.random() < .4:
                op['r'] = op['h'] - 2
        if k in 'XL' and rnd.random() < .5:
            op.update(f='in', r=a)
        if k == 'L':
            op.update(inv=0, ta=rnd.choice([0, 1, -1, 2, -2, 3]), tb=rnd.randint(-5, 5))
            c, s = turn(op['ta'], op['tb'])
            m = axisrot(2, c, s)
        else:
            m = reg[op['h'] - 3].r if op['h'] > 2 else frames[op['h'] - 1][0]
            if op['inv']:
                m = tr(m)
        put(op, reg[a - 1].turned(m))
    return dict(kind=k, frames=[listed(r + t) for r, t in frames], ops=ops)


def direction(rnd):
    w = rnd.random()
    if w < .25:
        u = list(rnd.choice(AXES)[0])
    elif w < .5:
        u = [rnd.randint(-9, 9) for _ in range(3)]
    elif w < .6:
        u = [0, 0, 0]
        u[rnd.randrange(3)] = rnd.choice([1, -1, 3, 20000])
    elif w < .9:     # nearly along an axis
        u = [rnd.choice([0, 0, 1, -1, 2, -3, 4, rnd.randint(-40, 40)]) for _ in range(3)]
        u[rnd.randrange(3)] = rnd.choice([1, -1]) * rnd.choice([200, 9999, 10000, 10001, 20000, 20000])
    else:
        u = [rnd.choice([0, 1, -1, 500, -20000, 20000]) for _ in range(3)]
    if rnd.random() < .05:
        u = [0, 0, 0]
    return u


def others(rnd):
    ops = []
    for _ in range(rnd.randint(2, 6)):
        f = rnd.choice(['in', 'ret'])
        if rnd.random() < .4:
            ops.append(dict(op='orth', f=f, u=direction(rnd), e=rnd.choice([1, 2, 7, 100, 1000])))
            continue
        u, g = rnd.choice(AXES) if rnd.random() < .7 else ([rnd.randint(-6, 6) for _ in range(3)], 0)
        if rnd.random() < .03:
            u, g = [0, 0, 0], 0
        w = rnd.random()
        if g and w < .5:      # about the axis itself
            c, s = turn(rnd.choice([0, 0, 1, -1, 2]), rnd.randrange(4))
            r = Qu([c] + [s * F(x, g) for x in u]).rot()
        elif g == 1 and w < .75:      # sends some coordinate axis to this one
            r = rnd.choice([axisrot(0, F(0), F(1)), axisrot(1, F(0), F(1)), axisrot(2, F(0), F(1)), axisrot(1, F(0), F(-1)), axisrot(0, F(0), F(-1))])
            c, s = turn(rnd.choice([0, 1, -1]), rnd.randrange(4))
            r = mm(axisrot([i for i in range(3) if u[i]][0], c, s), r)
        else:
            r = motion(rnd, 1000)[0]
        if den(r) > 3000:
            continue
        xs = list(r)
        if rnd.random() < .5:
            xs += [F(rnd.randint(-20, 20), 1) for _ in range(3)]
        ops.append(dict(op='proj', f=f, u=list(u), e=rnd.choice([1, 1, 2, g or 3, 100]), strict=0, **listed(xs)))
    return dict(kind='O', frames=[], ops=ops)


def t05(c):
    t = c.thorough
    ws = emitted(c.tlc('FramesMC', dict(DEPTH=3 if t else 2, EMIT=True), workers=1))
    c.tlc('FramesMC', dict(DEPTH=6 if t else 4, EMIT=False))
    hs = c.pick(ws, 30000 if t else 3000)
    hs += [program(c.rnd) for _ in range(60000 if t else 7000)]
    hs += [others(c.rnd) for _ in range(60000 if t else 7000)]
    hs = number(c.known_inputs() + hs)
    recs = c.run_driver('frames', hs)
    c.judge('FramesTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=300)
    for h in hs[:1] + hs[-8000:-7999] + hs[-1:]:
        c.sample(h)


CHECKS = {'T05': t05}
