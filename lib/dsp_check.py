"""Digital filter (D01) and PID controller (D02)."""
from fractions import Fraction as Fr
from math import lcm
from urdf_check import emitted, number


def pr(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


def steps1(r):
    return 1 + len(r['ops'])


# the generator simulates the history only to keep numbers exactly representable on a grid
class Sim:
    def __init__(self, den_max, mag_max):
        self.den = 1
        self.ok = True
        self.den_max, self.mag_max = den_max, mag_max

    def see(self, *xs):
        for x in xs:
            self.den = lcm(self.den, x.denominator)
            if abs(x) > self.mag_max:
                self.ok = False
        if self.den > self.den_max:
            self.ok = False


def d01_history(rnd, n):
    sim = Sim(4096, 4000)
    slots = [dict(wi=[Fr(1)], wo=[], g=Fr(1), bi=[], bo=[]) for _ in range(2)]
    ops = []
    while len(ops) < n:
        s = rnd.randint(0, 1) if rnd.random() < 0.25 else 0
        f = slots[s]
        w = rnd.random()
        if not f['bi'] and not f['bo'] and (w < 0.5 or not ops):
            small = [Fr(k, 4) for k in range(-4, 5)] + [Fr(k) for k in (-2, 2, 1, 0)]
            few = [Fr(k, 2) for k in (-1, 0, 1)] + [Fr(-1), Fr(0), Fr(1)]
            f['wi'] = [rnd.choice(small) for _ in range(rnd.choice([1, 1, 2, 3, 4, 5, 6]))]
            f['wo'] = [rnd.choice(few) for _ in range(rnd.choice([0, 0, 1, 2, 3, 4]))]
            f['g'] = rnd.choice([Fr(1), Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(4)])
            ops.append(dict(op='configure', s=s + 1, wi=[pr(x) for x in f['wi']], wo=[pr(x) for x in f['wo']], g=pr(f['g'])))
        elif w < 0.07:
            f['bi'], f['bo'] = [], []
            ops.append(dict(op='reset', s=s + 1))
        elif w < 0.10:
            slots[1 - s] = dict(f, bi=list(f['bi']), bo=list(f['bo']))
            ops.append(dict(op='copy', s=2 - s, o=s + 1))
        elif w < 0.12:
            slots[s] = dict(wi=[Fr(1)], wo=[], g=Fr(1), bi=[], bo=[])
            ops.append(dict(op='new', s=s + 1))
        else:
            x = rnd.choice([Fr(rnd.randint(-8, 8)), Fr(rnd.randint(-8, 8), 2)])
            b = (f['bi'] + [x / f['g']])[-len(f['wi']):] if f['wi'] else []
            y = x
            if len(b) == len(f['wi']) and len(f['bo']) == len(f['wo']):
                y = sum(a * c for a, c in zip(b, f['wi'])) + sum(a * c for a, c in zip(f['bo'], f['wo']))
                y = Fr(y)
            f['bi'] = b
            f['bo'] = (f['bo'] + [y])[-len(f['wo']):] if f['wo'] else []
            sim.see(x, y, *[a * c for a, c in zip(b, f['wi'])])
            if not sim.ok:
                return None
            ops.append(dict(op='step', s=s + 1, x=pr(x)))
    return dict(kind='filter', D=sim.den, ops=ops)


def d01(c):
    t = c.thorough
    hs = []
    if t:
        c.tlc('FilterMC', dict(DEPTH=5, EMIT=False))
    for h in c.pick(emitted(c.tlc('FilterMC', dict(DEPTH=4, EMIT=True), workers=1)), 3000)[:40000]:
        hs.append(dict(kind='filter', D=64, ops=[dict(o, s=1) for o in h['ops']]))
    n = 0
    while n < (30000 if t else 4000):
        h = d01_history(c.rnd, c.rnd.randint(3, 25))
        if h:
            hs.append(h)
            n += 1
    for _ in range(3000 if t else 400):
        h = d01_history(c.rnd, c.rnd.randint(60, 160))
        if h:
            hs.append(h)
    hs = number(hs)
    recs = c.run_driver('dsp', hs)
    c.judge('DspTrace', recs, inputs={h['id']: h for h in hs}, states=steps1, per=400)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


NAMES = ['kp', 'kv', 'ki', 'th', 'off', 'per']


def d02_history(rnd, n):
    sim = Sim(40000, 200)
    D0 = dict(zip(NAMES, map(Fr, (0, 0, 0, 0, 0, 1))))
    fresh = lambda p: dict(p=dict(p), e=Fr(0), acc=Fr(0), first=True)
    slots = [fresh(D0), fresh(D0)]
    ops = []
    pers = rnd.choice([[Fr(1), Fr(2), Fr(1, 2), Fr(1, 4)], [Fr(1, 100), Fr(1, 50)], [Fr(1, 10), Fr(1)]])
    gains = [Fr(0), Fr(1), Fr(2), Fr(1, 2), Fr(1, 4), Fr(3)]
    while len(ops) < n:
        s = rnd.randint(0, 1) if rnd.random() < 0.25 else 0
        w = rnd.random()
        if w < 0.16 or not ops:
            p = dict(kp=rnd.choice(gains), kv=rnd.choice(gains) * (Fr(1, 2) if pers[0] > Fr(1, 20) else Fr(1, 10)), ki=rnd.choice(gains),
                     th=rnd.choice([Fr(0), Fr(1), Fr(1, 2), Fr(1, 4)]), off=rnd.choice([Fr(0), Fr(1), Fr(1, 2)]), per=rnd.choice(pers))
            if rnd.random() < 0.35:
                k = rnd.choice(NAMES)
                p[k] = rnd.choice([Fr(-1), Fr(-1, 100)] + ([Fr(0)] if k == 'per' else []))
            ok = all(p[k] >= 0 for k in NAMES) and p['per'] > 0
            if ok:
                slots[s] = fresh(p)
            ops.append(dict(op=rnd.choice(['new', 'init', 'init']), s=s + 1, p={k: pr(v) for k, v in p.items()}))
        elif w < 0.24:
            slots[s] = fresh(slots[s]['p'])
            ops.append(dict(op='init0', s=s + 1))
        elif w < 0.27:
            slots[1 - s] = dict(slots[s], p=dict(slots[s]['p']))
            ops.append(dict(op='copy', s=2 - s, o=s + 1))
        elif w < 0.28:
            slots[s] = fresh(D0)
            ops.append(dict(op='new0', s=s + 1))
        elif w < 0.36:
            g = {k: rnd.choice(gains[:4]) for k in NAMES[:3]}
            if rnd.random() < 0.4:
                g[rnd.choice(NAMES[:3])] = Fr(-1, 2)
            if min(g.values()) >= 0:
                slots[s]['p'] = dict(slots[s]['p'], **g)
            ops.append(dict(op='gains', s=s + 1, **{k: pr(v) for k, v in g.items()}))
        else:
            cc = slots[s]
            p = cc['p']
            ab = rnd.random() < 0.3
            t = p['per']
            if ab:
                e = Fr(rnd.randint(0, 12), 4)
                ops.append(dict(op='fba', s=s + 1, e=pr(e)))
            else:
                cmd, sen = Fr(rnd.randint(-12, 12), 4), Fr(rnd.randint(-12, 12), 4)
                e = cmd - sen
                per = rnd.choice([Fr(-1), Fr(-1), Fr(0), rnd.choice(pers), rnd.choice(pers)])
                if per > 0:
                    t = per
                ops.append(dict(op='fb', s=s + 1, cmd=pr(cmd), sen=pr(sen), per=pr(per)))
            r = e - p['th'] if e > p['th'] else e + p['th'] if e < -p['th'] else Fr(0)
            d = Fr(0) if cc['first'] else (abs(r - cc['e']) if ab else r - cc['e']) / t
            cc['acc'] += r * t
            cc['e'], cc['first'] = r, False
            y = p['off'] + p['kp'] * r + p['kv'] * d + p['ki'] * cc['acc']
            sim.see(y, cc['acc'], p['kv'] * d)
            if not sim.ok:
                return None
    return dict(kind='pid', D=sim.den, ops=ops)


def d02(c):
    t = c.thorough
    hs = []
    if t:
        c.tlc('PidMC', dict(DEPTH=5, EMIT=False))
    for h in c.pick(emitted(c.tlc('PidMC', dict(DEPTH=4 if t else 3, EMIT=True), workers=1)), 3000)[:40000]:
        ops = [dict(o, s=1) for o in h['ops']]
        hs.append(dict(kind='pid', D=16, ops=ops))
    n = 0
    while n < (30000 if t else 4000):
        h = d02_history(c.rnd, c.rnd.randint(3, 20))
        if h:
            hs.append(h)
            n += 1
    for _ in range(3000 if t else 400):
        h = d02_history(c.rnd, c.rnd.randint(60, 160))
        if h:
            hs.append(h)
    hs = number(hs)
    recs = c.run_driver('dsp', hs)
    c.judge('DspTrace', recs, inputs={h['id']: h for h in hs}, states=steps1, per=400)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'D01': d01, 'D02': d02}
