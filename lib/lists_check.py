"""Values as lists of numbers and as text: T08."""
from urdf_check import emitted, number

DIM = dict(Y=2, K=2, X=3, V=3, E=3, P=3, Q=4, S=6, W=6, R=9, T=12, L=18)
PRINT = dict(DIM, GV=3, GQ=4, GT=7)
FILL, SPACED, READ = 'YXSVWPT', 'XEWTSQ', 'YXSVWEPQRT'
MASKS = ['X', 'Y', 'XY', 'Z', 'WX', 'WY', 'WZ', 'WYWZ', 'ALL', 'VEL', 'ROT', 'NONE', 'PLANEZ']


def cube(rnd):
    """a rotation by quarter-turns, row major"""
    while True:
        p = rnd.sample(range(3), 3)
        s = [rnd.choice([1, -1]) for _ in range(3)]
        m = [[s[i] if j == p[i] else 0 for j in range(3)] for i in range(3)]
        d = sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
        if d == 1:
            return m


def value(rnd, ty, plain=False):
    m = rnd.choice([8, 100, 7999])
    num = lambda: rnd.choice([rnd.randint(-m, m), rnd.randint(-m, m), rnd.randint(-m, m), 0, 8, -8])
    if ty in 'TL' and not plain:
        r = cube(rnd)
        v = [c for i in range(3) for c in [8 * x for x in r[i]] + [num()]]
        return v + [num() for _ in range(6 if ty == 'L' else 0)]
    return [num() for _ in range(PRINT[ty])]


def program(rnd):
    ops, l, c = [], [], 0
    for _ in range(rnd.randint(3, 12)):
        w = rnd.random()
        if w < .15:
            n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 40])
            l, c = [rnd.randint(-500, 500) for _ in range(n)], 0
            if n >= 12 and rnd.random() < .6:
                l[:12] = value(rnd, 'T')
                if n == 16:
                    l[12:] = [0, 0, 0, 8]
            ops.append(dict(op='set', l=l))
        elif w < .4:
            ty = rnd.choice(FILL)
            n = 16 if ty == 'T' else DIM[ty]
            if c + n > len(l):
                continue
            c += n
            ops.append(dict(op='fill', ty=ty, v=value(rnd, ty)))
        elif w < .5:
            ty = rnd.choice([k for k in DIM if k != 'L'])
            v = value(rnd, ty)
            l, c = v + ([0, 0, 0, 8] if ty == 'T' else []), 0
            ops.append(dict(op='to', f=rnd.choice(['ret', 'into']), ty=ty, v=v))
            if ty in READ and rnd.random() < .5:
                ops.append(dict(op='take', ty=ty, p=0, n=len(l)))
        elif w < .52:
            ty = rnd.choice('WWX')
            v = l = value(rnd, ty)
            c = 0
            ops.append(dict(op='eigen', f=rnd.choice(['ret', 'into']), ty=ty, v=v))
        elif w < .55:
            v = l = value(rnd, 'T')
            c = 0
            ops.append(dict(op='to12', f=rnd.choice(['ret', 'into']), ty='T', v=v))
        elif w < .75:
            ty = rnd.choice(READ)
            n = rnd.choice([DIM[ty], DIM[ty], rnd.randint(0, len(l)), DIM[ty] - 1, DIM[ty] + 1, 16])
            if n > len(l):
                continue
            ops.append(dict(op='take', ty=ty, p=rnd.choice([0, len(l) - n, rnd.randint(0, len(l) - n)]), n=n))
        elif w < .93:
            ty = rnd.choice(list(PRINT))
            ops.append(dict(op='print', f=rnd.choice(['stream'] + (['spaced'] if ty in SPACED else [])), ty=ty, v=value(rnd, ty, True)))
        elif w < .96:
            ops.append(dict(op='mask', m=rnd.choice(MASKS)))
        else:
            ops.append(dict(op='ismask', n=rnd.choice([rnd.randint(-5, 70), rnd.randint(0, 64), 1 << rnd.randint(0, 30), -(1 << rnd.randint(0, 30)), 2147483647])))
    return dict(ops=ops)


def t08(c):
    t = c.thorough
    ws = emitted(c.tlc('ListsMC', dict(DEPTH=2, EMIT=True), workers=1))
    c.tlc('ListsMC', dict(DEPTH=4 if t else 3, EMIT=False))
    hs = ws if t else c.pick(ws, 6000)
    hs.append(dict(ops=[dict(op='mask', m=m) for m in MASKS] + [dict(op='ismask', n=n) for n in range(-70, 200)]))
    hs += [program(c.rnd) for _ in range(100000 if t else 12000)]
    hs = number(hs)
    recs = c.run_driver('lists', hs)
    c.judge('ListsTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=1000)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T08': t08}
