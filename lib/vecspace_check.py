"""Vector-like types: T04."""
from urdf_check import emitted, number

DIM = dict(Y=2, K=2, X=3, V=3, E=3, P=3, Q=4, S=6, W=6, D=7, R=9, T=12, L=18)
LINEAR = 'YXSVWEP'
SCALE = LINEAR + 'Q'
LIMIT = 1000


def vector(rnd, n, prev):
    w = rnd.random()
    if prev and w < .35:        # close to another value: one or two components differ
        v = list(rnd.choice(prev))
        for _ in range(rnd.choice([0, 1, 1, 2])):
            i = rnd.randrange(n)
            v[i] += rnd.choice([-1, 1, 2, -3, 16, -64])
        if rnd.random() < .3:
            v = [-c for c in v]
        return [max(-LIMIT, min(LIMIT, c)) for c in v]
    if w < .5:
        v = [0] * n
        v[rnd.randrange(n)] = rnd.choice([1, -1, 64, -64, 5])
        return v
    if w < .6:
        a, b, c = rnd.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)])
        v = [0] * n
        i, j = rnd.sample(range(n), 2)
        v[i], v[j] = a * rnd.choice([1, -1, 8]), b * rnd.choice([1, -1, 8])
        return v
    if w < .66 and n >= 3:      # unit vectors
        v = [0] * n
        i, j = rnd.sample(range(3), 2)
        v[i], v[j] = rnd.choice([(64, 0), (-64, 0), (0, 64), (63, 11), (64, 1), (63, 12), (45, 45)])
        return v
    m = rnd.choice([4, 64, 300, LIMIT])
    return [rnd.randint(-m, m) for _ in range(n)]


def program(rnd):
    ty = rnd.choice('YXSVWEPYXSVWEPQQRTDKL')
    n = DIM[ty]
    z = 0
    if rnd.random() < .3:       # far from one
        z = rnd.choice([1, 3, 10, 20, 30] if ty == 'P' else [-30, -20, -14, -10, -5, 1, 10, 25])
    x = [[0] * n for _ in range(3)]
    ops = []
    want = rnd.randint(4, 14)
    kinds = ['load', 'near', 'near']
    if ty not in 'DKL':
        kinds += ['eq', 'eq']
    if ty in LINEAR:
        kinds += ['add', 'sub', 'add', 'sub', 'all', 'none'] + ([] if ty == 'E' else ['neg', 'pos'])
    if ty in SCALE:
        kinds += ['mul', 'mul', 'mul', 'zero', 'quot', 'norm'] + ([] if ty == 'E' else ['unit', 'unit'])
    if ty in 'YXSP':
        kinds += ['dist', 'dist']
    if ty in 'YX':
        kinds += ['dot', 'cross', 'dot', 'cross']
    if ty in 'YP':
        kinds += ['angle', 'angle']
    if ty == 'X':
        kinds += ['ortho', 'isunit', 'veloc']
    if ty == 'S':
        kinds += ['veloc']
    if ty == 'W':
        kinds += ['back']
    if ty == 'K':
        kinds += ['none']
    for r in range(1, 4):
        if rnd.random() < .8:
            v = vector(rnd, n, x[:r - 1])
            ops.append(dict(op='load', r=r, v=v))
            x[r - 1] = v
    for _ in range(100):
        if len(ops) >= want:
            break
        o = rnd.choice(kinds)
        r, a, b = (rnd.randint(1, 3) for _ in range(3))
        va, vb = x[a - 1], x[b - 1]
        op = dict(op=o, r=r)
        new = None
        if o == 'load':
            op['v'] = new = vector(rnd, n, x)
        elif o == 'all':
            op['c'] = rnd.randint(-LIMIT, LIMIT)
            new = [op['c']] * n
        elif o == 'none':
            new = [0] * n
        elif o in ('add', 'sub'):
            op['f'] = rnd.choice(['plain'] if ty == 'W' else ['plain', 'self'])
            if op['f'] == 'self':
                a, va = r, x[r - 1]
            op.update(a=a, b=b)
            new = [p + q if o == 'add' else p - q for p, q in zip(va, vb)]
        elif o == 'neg':
            op['a'] = a
            new = [-p for p in va]
        elif o == 'pos':
            op['a'] = a
            new = list(va)
        elif o == 'mul':
            f = op['f'] = rnd.choice(['right', 'self', 'div', 'div_self'] + (['left'] if ty in 'YVW' else []))
            if 'self' in f:
                a, va = r, x[r - 1]
            if 'div' in f:
                p, q = rnd.choice([(1, 1), (2, 1), (4, 1), (1, 2), (1, 4), (1, 8)])
            else:
                p, q = rnd.choice([(0, 1), (1, 1), (2, 1), (3, 1), (5, 1), (1, 2), (3, 2), (1, 4), (3, 4), (7, 8)])
            p *= rnd.choice([1, -1])
            op.update(a=a, n=p, d=q)
            if any(c * p % q for c in va):
                continue
            new = [c * p // q for c in va]
        elif o == 'zero':
            op.update(f=rnd.choice(['div', 'div_self']), s=rnd.choice([1, -1]))
        elif o == 'quot':
            op.update(a=a, f=rnd.choice(['div', 'self']), s=rnd.choice([3, -3, 5, 7, -11, 100]))
        elif o == 'near':
            op.update(a=a, b=b)
            d = [abs(p - q) for p, q in zip(va, vb)]
            op['e'] = rnd.choice([0 if z else -1, -2, 0, max(d), max(max(d) - 1, 0), max(d) + 1, rnd.choice(d), rnd.randint(0, 200)])
        elif o == 'eq':
            op.update(a=a, b=b)
        elif o in ('norm', 'unit'):
            op.update(a=a, f=rnd.choice(['member', 'free']))
        elif o == 'dist':
            op.update(a=a, b=b, f=rnd.choice(['member', 'free']))
            if max(abs(p - q) for p, q in zip(va, vb)) > LIMIT:
                continue
        elif o in ('dot', 'cross'):
            op.update(a=a, b=b, f=rnd.choice(['member', 'free', 'out']))
        elif o == 'angle':
            op['a'] = a
        elif o == 'ortho':
            t = abs(sum(p * q for p, q in zip(va, vb)))
            op.update(a=a, b=b, f=rnd.choice(['member', 'free']), e=rnd.choice([0 if z else -1, 0, t, max(t - 1, 0), t + 1, 500]))
        elif o == 'isunit':
            if z:
                continue
            op.update(a=a, f=rnd.choice(['member', 'free']), e=rnd.choice([-1, -1, 1, 8, 32, 100]))
        elif o == 'veloc':
            p, q = rnd.choice([(3, 1), (-1, 1), (1, 2), (-3, 4), (0, 1)])
            if any(c * p % q for c in va):
                continue
            op.update(a=a, n=p, d=q)
        elif o == 'back':
            op['a'] = a
        if new is not None:
            if max(map(abs, new)) > LIMIT:
                continue
            x[r - 1] = new
        ops.append(op)
    if rnd.random() < .5:       # one component apart
        v = [max(-LIMIT, min(LIMIT, c)) for c in x[0]]
        w = list(v)
        i = rnd.randrange(n)
        d = rnd.choice([1, -1, 2, -5])
        w[i] = v[i] + d if abs(v[i] + d) <= LIMIT else v[i] - d
        ops += [dict(op='load', r=1, v=v), dict(op='load', r=2, v=w)]
        if ty not in 'DKL':
            ops.append(dict(op='eq', r=1, a=1, b=2))
        ops += [dict(op='near', r=1, a=rnd.choice([1, 2]), b=rnd.choice([1, 2]), e=e) for e in (abs(d) - 1, abs(d))]
    return dict(ty=ty, z=z, ops=ops)


def t04(c):
    t = c.thorough
    types = list(DIM)
    ws = emitted(c.tlc('VecSpaceMC', dict(DEPTH=3, EMIT=True, TYPES=types), workers=1))
    c.tlc('VecSpaceMC', dict(DEPTH=4 if t else 3, EMIT=False, TYPES=types))
    hs = ws if t else c.pick(ws, 12000)
    hs += [program(c.rnd) for _ in range(150000 if t else 15000)]
    hs = number(hs)
    recs = c.run_driver('vecspace', hs)
    c.judge('VecSpaceTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=1000)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T04': t04}
