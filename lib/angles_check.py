"""Angles and intervals: T06."""
import struct
from urdf_check import emitted, number

CIRCLE = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)] + [(x * a, y * b, c) for p, q, c in [(3, 4, 5), (5, 12, 13)] for a, b in [(p, q), (q, p)] for x in (1, -1) for y in (1, -1)]
PI = struct.unpack('<f', struct.pack('<f', 3.141592653589793))[0]


def bits(x):
    return '%08x' % struct.unpack('<I', struct.pack('<f', x))[0]


def near(x, d):
    n = struct.unpack('<I', struct.pack('<f', x))[0]
    return '%08x' % (n + d)


EDGES = [near(m * PI, d) for m in (1, -1, 2, -2, 3, -3, .5, 4, -4, 5, -5, 100, 101, -101) for d in range(-3, 4)] + \
    [bits(x) for x in (0., -0., 1e-45, -1e-45, 1e-30, 1e20, -1e20, 3e38, -3e38, 1e6, -1e6)]


def program(rnd):
    ops, a, l, bad = [], 0, [], 0
    for _ in range(rnd.randint(3, 12)):
        w = rnd.random()
        if w < .3:
            if a >= 6:
                ops.append(dict(op='clear'))
                a = bad = 0
                continue
            p = list(rnd.choice(CIRCLE)) + [rnd.choice([0, 0, 0, 1, -1, rnd.randint(-20, 20)])]
            if a and rnd.random() < .25:    # opposite of an earlier one
                q = rnd.choice([o['p'] for o in ops if o['op'] == 'push'])
                p = [-q[0], -q[1], q[2], rnd.choice([0, 1, -1])]
            k = rnd.choice([1, 1, 1, 2, 3, 5, rnd.randint(1, 20)] + ([0, -1, -3] if rnd.random() < .2 else []))
            ops.append(dict(op='push', p=p, w=k))
            a += 1
        elif w < .5:
            ops.append(dict(op='mean') if rnd.random() < .4 else dict(op='wmean', e=rnd.choice([0, 0, -3, 4, -14, 14, 30, -30])))
        elif w < .53:
            ops.append(dict(op='weights', w=[rnd.randint(1, 5) for _ in range(max(0, a + rnd.choice([-1, 1, 0])))]))
        elif w < .56:
            ops.append(dict(op='swap'))
        elif w < .7:
            ops.append(dict(op='reduce', f=rnd.choice(['ret', 'place']), n=rnd.randint(-300, 300), k=rnd.choice([0, 0, 1, -1, 2, rnd.randint(-10, 10), rnd.randint(-1000, 1000), rnd.randint(-100000, 100000)])))
        elif w < .77:
            ops.append(dict(op='float', f=rnd.choice(['ret', 'place']), b=rnd.choice([rnd.choice(EDGES), bits(rnd.uniform(-7, 7)), bits(rnd.uniform(-1e3, 1e3)),
                                                                                    bits(rnd.choice([1, -1]) * 10 ** rnd.uniform(-30, 30))])))
        elif w < .84:
            m = rnd.choice([2, 10, 1000])
            l = [[rnd.choice([rnd.randint(-m, m), rnd.randint(-m, m), 1000000, -1000000] if rnd.random() < .3 else [rnd.randint(-m, m)]) for _ in range(rnd.randint(0, 4))] for _ in range(rnd.randint(0, 4))]
            ops.append(dict(op='lists', l=l))
        else:
            m = rnd.choice([2, 10, 1000])
            b = sorted(rnd.randint(-m, m) for _ in range(2))
            if rnd.random() < .2:
                b[1] = b[0]
            if rnd.random() < .15:
                b[1] = 1000000
            if rnd.random() < .15:
                b[0] = -1000000
            op = dict(op='clip', f=rnd.choice(['all', 'list', 'one']), lo=b[0], hi=b[1])
            if op['f'] != 'all':
                if not l:
                    continue
                op['i'] = rnd.randint(1, len(l))
                if op['f'] == 'one':
                    if not l[op['i'] - 1]:
                        continue
                    op['j'] = rnd.randint(1, len(l[op['i'] - 1]))
            ops.append(op)
    return dict(ops=ops)


def t06(c):
    t = c.thorough
    ws = emitted(c.tlc('AnglesMC', dict(DEPTH=3 if t else 2, EMIT=True), workers=1))
    c.tlc('AnglesMC', dict(DEPTH=4 if t else 3, EMIT=False))
    hs = ws if not t else c.pick(ws, 40000)
    hs += [dict(ops=[dict(op='float', f='ret', b=b), dict(op='float', f='place', b=b)]) for b in EDGES]
    hs += [dict(ops=[dict(op='reduce', f='ret', n=n, k=k)]) for n in range(-240, 241, 8) for k in range(-6, 7)]
    hs += [program(c.rnd) for _ in range(150000 if t else 20000)]
    hs = number(hs)
    recs = c.run_driver('angles', hs)
    c.judge('AnglesTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=1000)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T06': t06}
