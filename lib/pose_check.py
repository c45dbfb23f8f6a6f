"""Poses of the robot description: U06."""
import struct
from fractions import Fraction as Fr
from urdf_check import emitted, number

Q = [(1, 0), (0, 1), (-1, 0), (0, -1)]
P = [(3, 4), (4, 3), (-3, 4), (3, -4), (-4, -3)]


def words(x):
    return list(struct.unpack('<4H', struct.pack('<d', x)))


def mmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rot(k, q):
    c, s, n = (Fr(q[0], q[2]), Fr(q[1], q[2]), 1)
    o, z = Fr(1), Fr(0)
    return [[[o, z, z], [z, c, -s], [z, s, c]], [[c, z, s], [z, o, z], [-s, z, c]], [[c, -s, z], [s, c, z], [z, z, o]]][k]


def den(m, t):
    d = 1
    for x in [y for r in m for y in r] + t:
        d = d * x.denominator // __import__('math').gcd(d, x.denominator)
    return d


def program(rnd, n):
    reg = {i: ([[Fr(int(a == b)) for b in range(3)] for a in range(3)], [Fr(0)] * 3) for i in (1, 2, 3)}
    ops = []
    D, DMAX = 15625 * 8, 3125
    tries = 0
    while len(ops) < n and tries < 20 * n:
        tries += 1
        r = rnd.randint(1, 3)
        w = rnd.random()
        if w < 0.3 or not ops:
            hard = rnd.choice([0, 0, 1, 1, 2, 3])
            q = [list(rnd.choice(Q)) + [1] if rnd.random() < 0.6 or hard <= 0 else None for _ in range(3)]
            q = [x or list(rnd.choice(P)) + [5] for x in q]
            if rnd.random() < 0.25:
                q = [[1, 0, 1]] * 3
            d = rnd.choice([1, 1, 2, 4, 5])
            xyz = [rnd.choice([0, rnd.randint(-9, 9)]) for _ in range(3)] if rnd.random() < 0.85 else [0, 0, 0]
            op = dict(op='load', r=r, xyz=xyz, d=d, rpy=q)
            if rnd.random() < 0.3:
                op['turns'] = [rnd.choice([0, 0, 1, -1, 3]) for _ in range(3)]
            m = mmul(rot(2, q[2]), mmul(rot(1, q[1]), rot(0, q[0])))
            new = (m, [Fr(x, d) for x in xyz])
        elif w < 0.62:
            a, b = rnd.randint(1, 3), rnd.randint(1, 3)
            (ma, ta), (mb, tb) = reg[a], reg[b]
            new = (mmul(ma, mb), [ta[i] + sum(ma[i][k] * tb[k] for k in range(3)) for i in range(3)])
            op = dict(op='mul', r=r, a=a, b=b)
        elif w < 0.8:
            a = rnd.randint(1, 3)
            m, t = reg[a]
            mt = [[m[j][i] for j in range(3)] for i in range(3)]
            new = (mt, [-sum(mt[i][k] * t[k] for k in range(3)) for i in range(3)])
            op = dict(op='inv', r=r, a=a)
        elif w < 0.94:
            a = rnd.randint(1, 3)
            new = reg[a]
            op = dict(op='trip', r=r, a=a, via=rnd.choice(['ptree', 'joint', 'xml', 'inertial', 'visual']))
        else:
            op = dict(op='eq', r=r, a=rnd.randint(1, 3), b=rnd.randint(1, 3))
            new = reg[r]
        if den(*new) > DMAX or max(abs(x) for x in new[1]) > 60:
            continue
        # the denominators the specification meets before it reduces: keep its products in range
        if op['op'] == 'mul' and den(*reg[op['a']]) * den(*reg[op['b']]) > 15625:
            continue
        if op['op'] == 'inv' and den(*reg[op['a']]) > 625:
            continue
        reg[r] = new
        ops.append(op)
    return dict(D=D, ops=ops)


SPECIAL = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1e300, -1.7976931348623157e308, 0.1, 1 / 3., 1e-17, 123456789.123456789,
           3.141592653589793, 6.283185307179586, -1.5707963267948966, 1e22, 9007199254740993.0, 4.35, 2.5e-310]


def number_(rnd):
    w = rnd.random()
    if w < 0.3:
        return rnd.choice(SPECIAL)
    if w < 0.5:
        return rnd.choice([0.0, -0.0])
    while True:
        x = struct.unpack('<d', struct.pack('<Q', rnd.getrandbits(64)))[0] if w < 0.8 else rnd.uniform(-10, 10)
        if x == x and abs(x) != float('inf'):
            return x


def raw(rnd):
    ops = []
    for _ in range(rnd.randint(1, 4)):
        if rnd.random() < 0.4:
            ops.append(dict(op='vec', v=[words(number_(rnd)) for _ in range(3)], xml=rnd.random() < 0.5))
            continue
        t3 = lambda: [words(number_(rnd)) for _ in range(3)] if rnd.random() < 0.7 else [words(rnd.choice([0.0, -0.0])) for _ in range(3)]
        ops.append(dict(op='raw', r=1, xb=t3(), rb=t3()))
        ops.append(dict(op='trip', r=2, a=1, via=rnd.choice(['ptree', 'joint', 'xml', 'inertial', 'visual'])))
        if rnd.random() < 0.5:
            ops.append(dict(op='eq', r=2, a=rnd.choice([1, 2]), b=rnd.choice([1, 2, 3])))
        if rnd.random() < 0.5:   # pure translations on either side, and inverted
            zero = [words(rnd.choice([0.0, -0.0])) for _ in range(3)]
            small = [words(rnd.uniform(-5, 5)) for _ in range(3)]
            ops.append(dict(op='raw', r=3, xb=small, rb=zero))
            ops.append(dict(op='raw', r=1, xb=[words(rnd.choice([0.1, -0.0, 1 / 3., 1e-300, 7.25])) for _ in range(3)],
                            rb=[words(rnd.uniform(-7, 7)) for _ in range(3)]))
            ops.append(dict(op='mul', r=2, a=rnd.choice([1, 3]), b=rnd.choice([3, 3, 1])))
            ops.append(dict(op='inv', r=2, a=3))
    return dict(D=1, ops=ops)


def token(rnd):
    if rnd.random() < 0.08:
        return rnd.choice(['1x', '--1', '1,2', 'nan', 'e5', '1e', '1e+', '.', '-', '+', '1.2.3', '0x1', '1-2', 'one', '1e2e3', '+-1', '1d0', '1_0', '1f'])
    s = rnd.choice(['', '', '-', '+'])
    i = str(rnd.randint(0, 99)) if rnd.random() < 0.8 else rnd.choice(['', '0', '007'])
    f = rnd.choice(['', '', '.', '.5', '.%d' % rnd.randint(0, 999), '.0'])
    if not i and f in ('', '.'):
        i = '3'
    e = rnd.choice(['', '', '', '', 'e0', 'e-1', 'E-2', 'e+00', 'E1' if len(i) < 2 else 'e-1'])
    return s + i + f + e


def chars(s):
    return ['VT' if c == '\v' else c for c in s]


def text(rnd):
    def triple():
        n = 3 if rnd.random() < 0.8 else rnd.choice([0, 1, 2, 4, 5])
        seps = [' ', ' ', ' ', '  ', '\t', '\n', ' \t', '\r\n', '\f', '\v']
        toks = [token(rnd) for _ in range(n)]
        s = rnd.choice(['', '', '', ' ', '\n']) + ''.join(t + rnd.choice(seps) for t in toks)
        return s if rnd.random() < 0.25 else s.rstrip()
    ops = []
    for _ in range(rnd.randint(1, 5)):
        ops.append(dict(op='text', D=1000000, xyz=[chars(triple())] if rnd.random() < 0.8 else [],
                        rpy=[chars(triple())] if rnd.random() < 0.6 else []))
    return dict(D=1, ops=ops)


def u06(c):
    t = c.thorough
    hs = [dict(h, D=1000) for h in c.pick(emitted(c.tlc('PoseMC', dict(DEPTH=3, EMIT=True), workers=1)), 2000)[:40000]]
    if t:
        c.tlc('PoseMC', dict(DEPTH=4, EMIT=False))
    hs += [program(c.rnd, c.rnd.randint(2, 14)) for _ in range(40000 if t else 4000)]
    hs += [raw(c.rnd) for _ in range(20000 if t else 2000)]
    hs += [text(c.rnd) for _ in range(20000 if t else 2000)]
    hs = number(hs)
    recs = c.run_driver('pose', hs)
    c.judge('PoseTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=400)
    for h in hs[:1] + hs[3000:3001] + hs[-1:]:
        c.sample(h)


CHECKS = {'U06': u06}
