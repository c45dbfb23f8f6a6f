"""Maps, pixels and metres: T07."""
from urdf_check import emitted, number


def program(rnd):
    exact = rnd.random() < .5
    unit = rnd.choice([16, 64, 1024]) if exact else 2000
    res = lambda: rnd.choice([2, 4, 8, 16, 64]) if exact else rnd.choice([2, 20, 40, 100, 200, 2 * rnd.randint(1, 100)])
    size = lambda: rnd.choice([0, 1, 2, 3, 7, 64, 99, 100, 255, 512, 1001])
    far = rnd.choice([40, 2000, 100000]) if exact else rnd.choice([200, 20000, 200000])
    point = lambda: [rnd.randint(-far, far), rnd.randint(-far, far)]
    cur = [0, 0]
    ops = []

    def make():
        op = dict(op='new', size=size(), res=res(), c=point(), t=rnd.choice([0, 1, 4, 8, 15, 16]))
        if rnd.random() < .3:
            op.update(f='default', t=4)
        cur[0], cur[1] = op['size'], op['res']
        off[:] = [op['c'][0] - op['size'] * op['res'] // 2, op['c'][1] + op['size'] * op['res'] // 2]
        ops.append(op)
    off = [0, 0]
    make()
    pix = lambda: [rnd.choice([0, 1, -1, cur[0], cur[0] // 2, rnd.randint(-3, cur[0] + 3), rnd.randint(-1500, 1500)]) for _ in range(2)]
    for _ in range(rnd.randint(3, 10)):
        w = rnd.random()
        if w < .05:
            make()
        elif w < .12:
            c = point()
            ops.append(dict(op='center', c=c))
            off[:] = [c[0] - cur[0] * cur[1] // 2, c[1] + cur[0] * cur[1] // 2]
        elif w < .17:
            off[:] = point()
            ops.append(dict(op='origin', c=list(off)))
        elif w < .22:
            cur[1] = res()
            ops.append(dict(op='res', res=cur[1]))
        elif w < .25:
            cur[0] = size()
            ops.append(dict(op='size', size=cur[0]))
        elif w < .45:
            f = rnd.choice(['pose', 'position'])
            op = dict(op='metric', f=f, p=pix())
            if f == 'pose':
                op.update(a=rnd.randint(-400, 400), g=rnd.randint(0, 1))
            ops.append(op)
        elif w < .6:
            ops.append(dict(op='there', f=rnd.choice(['pose', 'position']), p=pix(), a=rnd.randint(-400, 400)))
        elif w < .92:
            p = pix()
            e = [rnd.choice([0, cur[1] // 2, -(cur[1] // 2), cur[1] // 2 - 1, 1 - cur[1] // 2, rnd.randint(-cur[1], cur[1])]) for _ in range(2)]
            f = rnd.choice(['pose', 'position', 'static', 'delta'])
            d = [p[0] * cur[1] + e[0], e[1] - p[1] * cur[1]]
            if f != 'delta':
                d = [d[0] + off[0], d[1] + off[1]]
            ops.append(dict(op='pixel', f=f, d=d, a=rnd.randint(-400, 400)))
        else:
            a = [rnd.randint(-2, 2) for _ in range(rnd.choice([2, 3]))]
            b = list(a)
            if rnd.random() < .7:
                b[rnd.randrange(len(b))] += rnd.choice([1, -1])
            ops.append(dict(op='same', a=a, b=b))
    return dict(unit=unit, exact=1 if exact else 0, ops=ops)


def t07(c):
    t = c.thorough
    ws = emitted(c.tlc('MapFrameMC', dict(DEPTH=3, EMIT=True), workers=1)) if t else \
        emitted(c.tlc('MapFrameMC', dict(DEPTH=2, EMIT=True), workers=1))
    c.tlc('MapFrameMC', dict(DEPTH=4 if t else 3, EMIT=False))
    hs = ws + [program(c.rnd) for _ in range(150000 if t else 20000)]
    hs = number(hs)
    recs = c.run_driver('mapframe', hs)
    c.judge('MapFrameTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=1000)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'T07': t07}
