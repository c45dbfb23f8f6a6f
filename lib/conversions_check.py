"""Walks through the representations of a motion: T02."""
from fractions import Fraction as F
from motions_check import QUATS, axisrot, den, lcm, loaded, mm, rotation, turn, Qu
from urdf_check import emitted, number

TO = {}


def table():
    """the conversions named in spec/Conversions.tla"""
    if not TO:
        import os, re, vt
        with open(os.path.join(vt.VERIF, 'spec', 'Conversions.tla')) as f:
            for n, a, b in re.findall(r'(\w+) \|-> <<"(\w)","(\w)",\d>>', f.read()):
                TO.setdefault(a, []).append((n, b))
    return TO


AXES = [((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1), ((0, 0, -1), 1), ((-1, 0, 0), 1), ((0, -1, 0), 1), ((3, 4, 0), 5), ((0, 3, -4), 5), ((-4, 0, 3), 5), ((1, 2, 2), 3), ((-2, 1, 2), 3),
        ((2, -2, 1), 3), ((2, 3, 6), 7), ((6, -2, 3), 7), ((-3, 6, 2), 7)]


def place(rnd, near=False):
    e = 1 if near else rnd.choice([1, 1, 2, 4, 5])
    return dict(t=[rnd.randint(-9 * min(e, 2), 9 * min(e, 2)) for _ in range(3)], e=e)


def ang(rnd, big=0):
    return [rnd.choice([0, 0, 0, 1, -1]), rnd.choice([0, 1, 2, -1, -2, 3 if big else 0, -3 if big else 1, 5 if big else 0])]


def making(rnd):
    f = rnd.choice(['T', 'T', 'T', 'R', 'R', 'axes_xy', 'axes_xz', 'axes_yz', 'axes_xyz', 'Q', 'Q', 'Q', 'Qneg', 'Qnear', 'D', 'A', 'A', 'A', 'E', 'E', 'E', 'S', 'S', 'S', 'P', 'P', 'polar', 'polar_Y', 'X', 'Y',
                    'pos_T', 'pos_T_member', 'pos_T_ctor', 'rot_T', 'rot_T_member', 'rot_R', 'rot_R_member', 'rot_half', 'rot_quarter', 'rotvec', 'rotvec_pos', 'rotvec_pos_in'])
    op = dict(op='make', f=f)
    planar = False
    if f in ('T', 'R') or f.startswith('axes'):
        while True:
            r = rotation(rnd)
            if den(r) <= 700:
                break
        if f == 'T' and rnd.random() < .4:
            c, s = turn(*ang(rnd))
            r, planar = axisrot(2, c, s), True
        t = [F(rnd.randint(-9, 9), rnd.choice([1, 2, 5])) for _ in range(3)] if f == 'T' else [F(0)] * 3
        d = den(list(r) + t)
        op.update(v=[int(x * d) for x in list(r) + t], d=d)
        if rnd.random() < .15:    # almost the identity, a quarter or a half-turn
            k, j = rnd.randrange(3), rnd.choice([1, 2, 3, 4, 5, 7, 8, 10, 14, 20, 30, 60]) * rnd.choice([1, -1])
            c, s = rnd.choice([(10000, j), (-10000, j), (j, 10000), (j, -10000)])
            r = axisrot(k, F(c, 10000), F(s, 10000))
            op.update(v=[int(x * 10000) for x in r] + [rnd.randint(-3, 3) * 10000 if f == 'T' else 0 for _ in range(3)], d=10000)
            planar = f == 'T' and k == 2
    elif f == 'Qnear':
        op.update(v=[rnd.choice([0, 0, 1, -2, 3, -4, 5, 7, -9, 12, 20, -30]) for _ in range(3)], d=10000)
    elif f in ('Q', 'Qneg', 'D'):
        op.update({k: x for k, x in loaded(rnd, 'Q')[1].items()})
        if f == 'D':
            op.update(place(rnd))
    elif f == 'A':
        v, d = rnd.choice(AXES)
        op.update(v=list(v), d=d, w=[ang(rnd)])
    elif f in ('E', 'S'):
        w = [ang(rnd), ang(rnd), ang(rnd)]
        if rnd.random() < .3:
            w[1] = [0, rnd.choice([1, -1])]
        if rnd.random() < .25:
            w[0] = w[1] = [0, 0]
            planar = True
        op.update(w=w)
        if f == 'S':
            op.update(place(rnd))
    elif f in ('P', 'polar', 'polar_Y'):
        op.update(place(rnd), w=[ang(rnd, 1)])
    elif f in ('X', 'Y', 'pos_T', 'pos_T_member', 'pos_T_ctor'):
        op.update(place(rnd))
    elif f in ('rot_half', 'rot_quarter'):
        op.update(k=rnd.randint(1, 3))
    else:
        op.update(k=rnd.randint(1, 3), w=[ang(rnd, 1)])
        if f.startswith('rotvec_'):
            op.update(place(rnd))
        planar = op['k'] == 3
    rep = 'T' if f in ('T', 'rotvec') or f[:5] in ('rot_T', 'pos_T', 'rotve') else 'R' if f[0] == 'R' or f[:4] == 'axes' or f[:5] in ('rot_R', 'rot_h', 'rot_q') else 'Q' if f[0] == 'Q' else \
        'P' if f == 'polar' else 'Y' if f == 'polar_Y' else f
    return op, rep, planar or rep in 'PXY' or f[:3] == 'pos'


def walk(rnd, n):
    to = table()
    op, rep, planar = making(rnd)
    ops = [op]
    near = op.get('d') == 10000
    for i in range(n):
        w = rnd.random()
        if rep == 'R' and w < .15:
            ops.append(dict(op='rot_into', f='', **place(rnd, near)))
            rep = 'T'
            continue
        if rep == 'R' and w < .3:
            ops.append(dict(op='with_pos', f='', g=rnd.choice(['nums', 'vec']), **place(rnd, near)))
            rep = 'T'
            continue
        if rep == 'X' and w < .15:
            while True:
                r = rotation(rnd)
                if den(r) <= 25:
                    break
            d = den(r)
            ops.append(dict(op='pos_into', f='', v=[int(x * d) for x in r], d=d))
            rep, planar = 'T', False
            continue
        if rep == 'Y' and w < .3:
            ops.append(dict(op='with_angle', f='', g=rnd.choice(['in', 'ret']), w=[ang(rnd, 1)]))
            rep = 'P'
            continue
        c = [(f, t) for f, t in to[rep] if (t not in 'XYP' or rnd.random() < .4)]
        if not c:
            break
        f, t = rnd.choice(c)
        ops.append(dict(op='to', f=f, to=t))
        rep = t
        if t == 'P' and not planar:
            break
        if t in 'XYP':
            planar = True
    if rnd.random() < .05:
        v = rnd.choice([[0, 0, 0], [1, 1, 0], [3, 4, 1], [0, 0, 2], [3, 3, 3], [1, 0, 0], [100, 1, 1], [995, 1, 1], [1001, 0, 0]])
        d = 1000 if max(v) > 900 else 100 if max(v) == 100 else 5
        if sum(x * x for x in v) != d * d and abs(sum(x * x for x in v) - d * d) > 1e-4 * d * d:
            ops.append(dict(op='bad_axis', f='', g=rnd.choice(['nums', 'vec', 'member']), v=v, d=d, w=[ang(rnd)]))
    return dict(ops=ops)


def t02(c):
    t = c.thorough
    ws = emitted(c.tlc('ConversionsMC', dict(DEPTH=2, EMIT=True), workers=1))
    c.tlc('ConversionsMC', dict(DEPTH=5 if t else 3, EMIT=False))
    hs = ws if t else c.pick(ws, 4000)
    hs += [walk(c.rnd, c.rnd.randint(1, 7)) for _ in range(80000 if t else 9000)]
    hs = number(hs)
    recs = c.run_driver('conversions', hs)
    c.judge('ConversionsTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=400)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T02': t02}
