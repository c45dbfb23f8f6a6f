"""Durations and ROS times: R01."""
from urdf_check import emitted, number

G = 10 ** 9
QMIN, QMAX, RMAX = -2 ** 63, 2 ** 63 - 1, (2 ** 32 - 1) * G + 999999999


def limbs(x):
    return [x // (G * G), x // G % G, x % G]


def program(rnd):
    def value():
        return rnd.choice([lambda: rnd.randint(QMIN, QMAX), lambda: rnd.randint(1, RMAX), lambda: rnd.randint(-5, 5), lambda: RMAX + rnd.randint(-5, 5),
                           lambda: rnd.randint(0, 2 ** 32 - 1) * G + rnd.choice([0, 1, G - 1]), lambda: rnd.choice([1, -1]) * 2 ** rnd.randint(0, 62) + rnd.randint(-1, 1),
                           lambda: rnd.choice([QMIN, QMAX, QMIN + 1, QMAX - 1, -G, G, -1, 0])])()
    q = value()
    r = 1
    ops = [dict(op='set', q=limbs(q))]
    for _ in range(rnd.randint(2, 9)):
        w = rnd.random()
        if w < .15:
            q = value()
            ops.append(dict(op='set', q=limbs(q)))
        elif w < .35:
            s = rnd.choice([1, -1, G, -G, rnd.randint(-10 ** 12, 10 ** 12)])
            if not QMIN <= q + s <= QMAX:
                continue
            q += s
            ops.append(dict(op='advance', q=limbs(s)))
        elif w < .45:
            r = rnd.choice([0, 1, RMAX, rnd.randint(0, RMAX)])
            ops.append(dict(op='ros', r=limbs(r)))
        elif w < .75:
            r = min(RMAX, max(1, q))
            ops.append(dict(op='to'))
        else:
            q = r
            ops.append(dict(op='back'))
    return dict(ops=ops)


def r01(c):
    t = c.thorough
    ws = emitted(c.tlc('ClockMC', dict(DEPTH=5, EMIT=True), workers=1))
    c.tlc('ClockMC', dict(DEPTH=8 if t else 6, EMIT=False))
    hs = number(c.known_inputs() + c.pick(ws, 8000) + [program(c.rnd) for _ in range(100000 if t else 10000)])
    recs = c.run_driver('clock', hs)
    c.judge('ClockTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: len(r['ops']) + 1, per=300)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'R01': r01}
