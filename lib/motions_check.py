"""Registers of rigid motions: T01."""
import math
from fractions import Fraction as F
from urdf_check import emitted, number


def lcm(*xs):
    r = 1
    for x in xs:
        r = r * x // math.gcd(r, x)
    return r


def mm(a, b):
    return [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]


def mv(a, v):
    return [sum(a[3 * i + k] * v[k] for k in range(3)) for i in range(3)]


def tr(a):
    return [a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]]


I9 = [F(1), F(0), F(0), F(0), F(1), F(0), F(0), F(0), F(1)]
COLS = ((0, 1, 2), (3, 4, 5), (6, 7, 8))


class Mo:
    """rotation r (9), translation t (3)"""
    def __init__(self, r=None, t=None, a=0, b=0):
        self.r, self.t, self.a, self.b = r or list(I9), t or [F(0)] * 3, a, b

    def __mul__(s, o):
        return Mo(mm(s.r, o.r), [x + y for x, y in zip(s.t, mv(s.r, o.t))], s.a + o.a, s.b + o.b)

    def inv(s):
        return Mo(tr(s.r), [-x for x in mv(tr(s.r), s.t)], -s.a, -s.b)

    def nums(s, k):
        return s.r + s.t if k == 'T' else s.r if k == 'R' else s.t[:2] + [s.r[0], s.r[3]]

    def act(s, p):
        return [x + y for x, y in zip(mv(s.r, p), s.t)]

    def big(s):
        return max(map(abs, s.t))


class Qu:
    a = b = 0

    def __init__(s, q):
        s.q = q

    def __mul__(s, o):
        a, b, c, d = s.q
        e, f, g, h = o.q
        return Qu([a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e])

    def inv(s):
        return Qu([s.q[0]] + [-x for x in s.q[1:]])

    def nums(s, k):
        return s.q

    def rot(s):
        w, x, y, z = s.q
        return [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z),
                2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]

    def act(s, p):
        return mv(s.rot(), p)

    def big(s):
        return 0


class Di(Qu):
    """a position and a unit quaternion"""
    def __init__(s, q, t):
        s.q, s.t = q, t

    def __mul__(s, o):
        return Di(Qu(s.q).__mul__(Qu(o.q)).q, [x + y for x, y in zip(s.t, mv(s.rot(), o.t))])

    def nums(s, k):
        return s.q + s.t

    def big(s):
        return max(map(abs, s.t))


class Ge(Di):
    def __mul__(s, o):
        x = Di.__mul__(s, o)
        return Ge(x.q, x.t)

    def inv(s):
        i = Qu(s.q).inv()
        return Ge(i.q, [-y for y in mv(i.rot(), s.t)])

    def act(s, p):
        return [x + y for x, y in zip(s.t, mv(s.rot(), p))]


def den(xs):
    return lcm(*[x.denominator for x in xs])


def turn(a, b):
    c, s = F(1), F(0)
    for _ in range(abs(a)):
        u, v = F(3, 5), F(4, 5) if a > 0 else F(-4, 5)
        c, s = c * u - s * v, c * v + s * u
    for _ in range(b % 4):
        c, s = -s, c
    return c, s


def axisrot(k, c, s):
    z, o = F(0), F(1)
    return [[o, z, z, z, c, -s, z, s, c], [c, z, s, z, o, z, -s, z, c], [c, -s, z, s, c, z, z, z, o]][k]


QUATS = [((1, 0, 0, 0), 1), ((0, 1, 0, 0), 1), ((0, 0, 1, 0), 1), ((0, 0, 0, 1), 1), ((1, 1, 1, 1), 2), ((1, -1, 1, 1), 2), ((1, 1, -1, -1), 2),
         ((-1, 1, 1, -1), 2), ((4, 3, 0, 0), 5), ((3, 0, 4, 0), 5), ((3, 0, 0, -4), 5), ((0, 3, 4, 0), 5), ((2, 2, 1, 0), 3), ((1, 2, 0, 2), 3), ((0, 1, 2, -2), 3),
         ((-1, 0, 0, 0), 1), ((1, 1, 1, 5), None), ((1, 1, 7, 7), 10), ((1, 3, 3, 9), 10), ((1, 5, 5, 7), 10), ((2, 2, 4, 1), 5), ((2, 4, 5, 2), 7), ((0, 2, 3, 6), 7)]
QUATS = [(q, d) for q, d in QUATS if d and sum(x * x for x in q) == d * d]


def rotation(rnd):
    w = rnd.random()
    if w < .5:
        r = I9
        for k in rnd.choice([[0], [1], [2], [2, 1], [1, 0], [2, 1, 0]]):
            c, s = turn(rnd.choice([0, 0, 1, -1, 2]), rnd.randrange(4))
            r = mm(r, axisrot(k, c, s))
        return r
    q, d = rnd.choice(QUATS)
    q = [F(x, d) * rnd.choice([1, -1]) for x in q]
    return Qu(q).rot()


def loaded(rnd, k):
    if k == 'Q':
        q, d = rnd.choice(QUATS)
        q = list(q)
        if rnd.random() < .5:
            rnd.shuffle(q)
        q = [x * rnd.choice([1, -1]) for x in q]
        return Qu([F(x, d) for x in q]), dict(v=q, d=d)
    if k in 'DG':
        x, l = loaded(rnd, 'Q')
        if k == 'G' and rnd.random() < .4:
            u, g = rnd.choice([((1, 0, 0), 1), ((0, -1, 0), 1), ((0, 0, 1), 1), ((3, 0, 4), 5), ((1, 2, 2), 3), ((2, -1, 2), 3), ((-3, 6, 2), 7)])
            a, b = rnd.choice([(1, 0), (0, 1), (-1, 1), (1, 2), (0, 0), (-1, 0), (0, 3)])
            cs, sn = turn(a, b)
            x = Qu([cs] + [sn * F(y, g) for y in u])
            l = dict(v=[1, 0, 0, 0], d=1, u=list(u), g=g, w=[a, b])
        t, e = [rnd.randint(-9, 9) for _ in range(3)], rnd.choice([1, 1, 2])
        return (Ge if k == 'G' else Di)(x.q, [F(y, e) for y in t]), dict(l, t=t, e=e)
    if k == 'P':
        d = rnd.choice([1, 1, 2, 4])
        v = [rnd.randint(-12, 12) for _ in range(2)]
        a, b = rnd.choice([0, 0, 1, -1, 2]), rnd.choice([0, 1, 2, 3, -1, -2, 4, 5])
        c, s = turn(a, b)
        return Mo(axisrot(2, c, s), [F(x, d) for x in v] + [F(0)], a, b), dict(v=v, d=d, a=a, b=b)
    r = rotation(rnd)
    t = [F(rnd.randint(-9, 9), rnd.choice([1, 1, 2, 5])) for _ in range(3)] if k == 'T' and rnd.random() < .8 else [F(0)] * 3
    d = den(r + t)
    return Mo(list(r), t), dict(v=[int(x * d) for x in list(r) + t], d=d)


def ok(k, x):
    d = den(x.nums(k))
    if k in 'TR':
        return d <= 3500 and x.big() <= 40 and den(x.r + x.t) <= 3500
    if k == 'Q':
        return d <= 1500
    if k in 'DG':
        return den(x.q) <= 35 and d <= 2500 and x.big() <= 40
    return den(x.r + x.t) <= 2500 and x.big() <= 40 and abs(x.a * math.atan2(4, 3) + x.b * math.pi / 2) <= 15


MAXD = dict(G=20000, D=20000, T=12500, R=12500, Q=22500, P=12500)


def program(rnd, k):
    one = Qu([F(1), F(0), F(0), F(0)]) if k == 'Q' else Ge([F(1), F(0), F(0), F(0)], [F(0)] * 3) if k == 'G' else Di([F(1), F(0), F(0), F(0)], [F(0)] * 3) if k == 'D' else Mo()
    regs = [one] * 3
    D = 1
    ops = []

    def put(op, r, x):
        nonlocal D
        n = lcm(D, den(x.nums(k)))
        if n > MAXD[k] or not ok(k, x):
            return
        D = n
        regs[r - 1] = x
        ops.append(dict(op, r=r))
    want = rnd.randint(5, 12)
    tries = 0
    for r in (1, 2):
        x, l = loaded(rnd, k)
        put(dict(op='load', x=l), r, x)
    while len(ops) < want and tries < 60:
        tries += 1
        r, a, b = rnd.randint(1, 3), rnd.randint(1, 3), rnd.randint(1, 3)
        w = rnd.random()
        if w < .12:
            x, l = loaded(rnd, k)
            put(dict(op='load', x=l), r, x)
        elif w < .15:
            put(dict(op='ident'), r, one)
        elif w < .4:
            f = rnd.choice(['op'] + (['asg'] if k != 'G' else []) + (['pre'] if k == 'T' else []))
            if f == 'asg':
                a = r
            if f == 'pre':
                b = r
            put(dict(op='mul', f=f, a=a, b=b), r, regs[a - 1] * regs[b - 1])
        elif w < .55 and k != 'D':
            f = rnd.choice(dict(T=['member', 'free', 'free2', 'inplace', 'pinv'], R=['member', 'free2'], Q=['member', 'free', 'free2'],
                                P=['member', 'free', 'free2', 'inplace', 'pinv'], G=[''])[k])
            if f == 'inplace':
                a = r
            put(dict(op='inv', f=f, a=a), r, regs[a - 1].inv())
        elif w < .65 and k in 'TP':
            put(dict(op='diff', f=rnd.choice(['member', 'free']), a=a, b=b), r, regs[a - 1].inv() * regs[b - 1])
        elif w < .82 and k != 'D':
            e = rnd.choice([1, 1, 2, 5])
            p = [rnd.randint(-9, 9) for _ in range(3)]
            f = rnd.choice(dict(T=['', 'flat'], R=['', 'velocity', 'inplace'], Q=[''], P=[''], G=[''])[k])
            if f == 'flat' or k == 'P':
                p[2] = 0
            q = regs[r - 1].act([F(x, e) for x in p])
            d = den(q)
            m = den(regs[r - 1].q) ** 2 * den(regs[r - 1].t) if k == 'G' else den(regs[r - 1].r + regs[r - 1].t) if k != 'Q' else den(regs[r - 1].q) ** 2
            if d <= 22500 and m <= 22500:
                ops.append(dict(op='act', f=f, r=r, p=p, e=e, D=d))
        elif w < .87 and k not in 'PD':
            s = [rnd.randint(1, 4) for _ in range(3)]
            if k in 'QG':
                s = [s[0]] * 3
            ops.append(dict(op='normalise', f=rnd.choice(['member', 'free']), r=r, s=s))
        elif w < .92 and k in 'TR':
            m = [rnd.randint(-3, 3) for _ in range(9)]
            if rnd.random() < .6:
                s = [0, 1, 2]
                rnd.shuffle(s)
                m = [0] * 9
                for i, j in enumerate(s):
                    m[3 * i + j] = rnd.choice([1, 1, 1, -1, rnd.choice([1, 2])])
                if rnd.random() < .3:
                    m[rnd.randrange(9)] = rnd.choice([-1, 1, 2])
            ops.append(dict(op='matrix', r=r, v=m, f=rnd.choice(['member', 'free'] + (['vector', 'twelve'] if k == 'T' else []))))
        elif k != 'D':
            what = rnd.choice(dict(T=['det', 'norm', 'dist', 'distsq', 'is'], R=['det', 'is'], Q=['norm'], P=['norm', 'dist', 'distsq'], G=['norm', 'is', 'same', 'same'])[k])
            L = 1000
            if what in ('dist', 'distsq', 'norm') and k not in 'QG':
                L = den(regs[r - 1].r + regs[r - 1].t)
                if what != 'norm':
                    L = lcm(L, den(regs[b - 1].r + regs[b - 1].t))
                if L > 500:
                    continue
            f = rnd.choice(['member', 'free'] + (['vector', 'twelve'] if what == 'det' and k == 'T' else []))
            ops.append(dict(op='meas', what=what, f=f, r=r, b=b, L=L))
    return dict(kind=k, D=D, ops=ops)


def t01(c):
    t = c.thorough
    hs = []
    for k, depth in (('T', 3), ('R', 3), ('Q', 3), ('P', 3), ('G', 3)):
        w = [dict(h, D=2500 if k == 'G' else 100) for h in emitted(c.tlc('MotionsMC', dict(KIND=k, DEPTH=depth, EMIT=True), workers=1))]
        hs += w if t else c.pick(w, 2500)
        if t:
            c.tlc('MotionsMC', dict(KIND=k, DEPTH=5, EMIT=False))
    for k in 'TTTRQPDG':
        hs += [program(c.rnd, k) for _ in range(8000 if t else 1000)]
    hs = number(hs)
    recs = c.run_driver('motions', hs)
    c.judge('MotionsTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=400)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T01': t01}
