"""Rigid bodies: U08."""
from math import gcd
from urdf_check import emitted, number

QT = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1]]
PY = {5: [(3, 4), (4, 3), (-3, 4), (4, -3), (-4, -3)], 13: [(5, 12), (12, -5), (-5, 12)], 1: []}


def rotation(rnd, D):
    """roll, pitch, yaw whose matrix has denominator 1 or D; and that denominator"""
    r = [rnd.choice(QT) for _ in range(3)]
    if D > 1 and rnd.random() < .7:
        r[rnd.randrange(3)] = list(rnd.choice(PY[D])) + [D]
        return r, D
    return r, 1


def annotate(h):
    """the grids on which the results of a program lie: the total mass and the denominator of the basis"""
    regs = {}
    for op in h['ops']:
        if op['op'] in ('place', 'read'):
            d = max(x[2] for x in op['rpy'])
            regs[op['r']] = (op['m'], d if op['op'] == 'place' else 1)
            if op['op'] == 'read':
                op.update(M=op['m'], d=1, K=op['m'] * h['D'] ** 2)
        elif op['op'] == 'squash':
            a, b = regs[op['a']], regs[op['b']]
            m, d = a[0] + b[0], a[1]
            regs[op['c']] = (m, d)
            op.update(M=m, d=d, K=m * h['D'] ** 2 * d * d)
    return h


def tensor(rnd):
    while True:
        I = [rnd.randint(0, 12), rnd.randint(-4, 4), rnd.randint(-4, 4), rnd.randint(0, 12), rnd.randint(-4, 4), rnd.randint(0, 12)]
        if rnd.random() < .15:
            I = [0] * 6
        if (I[0] + I[3] + I[5]) % 2 == 0:
            return I


def program(rnd):
    D = rnd.choice([1, 1, 5, 5, 5])
    big = 9 if D == 1 else 3
    pt = lambda: [rnd.randint(-big, big) if rnd.random() < .8 else 0 for _ in range(3)]
    ops, have = [], {}
    for _ in range(rnd.randint(3, 10)):
        w = rnd.random()
        free = [k for k in have if have[k] <= 8]
        pairs = [(a, b) for a in have for b in have if a != b and have[a] + have[b] <= (12 if D == 1 else 8)]
        if w < .35 or not have:
            k, m = rnd.randint(1, 4), rnd.randint(1, 4)
            r, d = rotation(rnd, D)
            have[k] = m
            ops.append(dict(op=rnd.choice(['place', 'place', 'read']), r=k, m=m, I=tensor(rnd), rpy=r, t=pt()))
        elif w < .7 and pairs:
            a, b = rnd.choice(pairs)
            k = rnd.choice([x for x in (1, 2, 3, 4) if x not in (a, b)])
            have[k] = have[a] + have[b]
            ops.append(dict(op='squash', a=a, b=b, c=k))
        elif w < .78:
            ops.append(dict(op='acc', I=tensor(rnd)))
        elif w < .86:
            ops.append(dict(op='add', m=rnd.randint(-3, 9), p=pt()))
        elif w < .93:
            ops.append(dict(op='point', m=rnd.randint(-3, 9), p=[rnd.randint(-30, 30) for _ in range(3)], n=rnd.choice([0, 9, 3, 20, 9])))
        else:
            r, d = rotation(rnd, rnd.choice([1, 5, 13]))
            ops.append(dict(op='rpy', rpy=r, t=pt(), d=max(x[2] for x in r)))
    return annotate(dict(D=D, ops=ops, **{'as': rnd.choice(['d', 'i', 'f']) if D == 1 else rnd.choice(['d', 'i'])}))


def u08(c):
    t = c.thorough
    ws = emitted(c.tlc('BodiesMC', dict(DEPTH=3, EMIT=True), workers=1))
    c.tlc('BodiesMC', dict(DEPTH=3, EMIT=False))
    ws = c.pick(ws, 4000)
    for w in ws:
        w['as'] = c.rnd.choice(['d', 'i'])
    hs = c.known_inputs() + [annotate(w) for w in ws] + [program(c.rnd) for _ in range(80000 if t else 8000)]
    hs = number(hs)
    recs = c.run_driver('bodies', hs)
    c.judge('BodiesTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=300)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'U08': u08}
