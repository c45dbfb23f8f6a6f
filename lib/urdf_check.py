"""Robot descriptions: U01-U05, U07 (and the documents used by B01)."""
import json, re
from math import gcd

Q = [[1, 0], [0, 1], [-1, 0], [0, -1]]
ID = dict(xyz=[0, 0, 0], rpy=[Q[0], Q[0], Q[0]])
TYPES = ['revolute', 'continuous', 'prismatic', 'fixed', 'floating', 'planar']


def emitted(out):
    r = []
    for l in out['out'].splitlines():
        m = re.match(r'<<"H", "(.*)">>$', l)
        if m:
            r.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return r


def number(hs, **extra):
    return [dict(h, id=i, **extra) for i, h in enumerate(hs)]


def rot(rnd, generic):
    """roll, pitch, yaw: quarter turns, and 3-4-5 angles where generic allows"""
    r = [rnd.choice(Q) for _ in range(3)]
    if generic and rnd.random() < 0.5:
        c, s = rnd.choice([(3, 4), (4, 3), (-3, 4), (4, -3), (-4, -3)])
        r[rnd.randrange(3)] = [c / 5, s / 5]
        r = [x + [rnd.choice([0, 0, 1, -1])] if rnd.random() < 0.1 else x for x in r]
        return r, True
    return r, False


class Gen:
    """random robots whose poses are exact rationals"""

    def __init__(self, rnd, generic=2):
        self.r = rnd
        self.generic = generic    # number of 3-4-5 rotations left in this document

    def pose(self, p_id=0.3):
        if self.r.random() < p_id:
            return {}
        x = {}
        if self.r.random() < 0.8:
            x['xyz'] = [self.r.randint(-3, 3) for _ in range(3)]
        if self.r.random() < 0.8:
            x['rpy'], g = rot(self.r, self.generic > 0)
            self.generic -= g
        return x

    def mass(self, inertial_pose=True):
        I = [2 * self.r.randint(1, 9), 2 * self.r.randint(-2, 2), 2 * self.r.randint(-2, 2),
             2 * self.r.randint(1, 9), 2 * self.r.randint(-2, 2), 2 * self.r.randint(1, 9)]
        return dict(k='inertial', mass=self.r.randint(1, 4), I=I, **(self.pose() if inertial_pose else {}))

    def tree(self, n, shuffle=True):
        """names, parents"""
        names = ['l%d' % i for i in range(n)]
        self.r.shuffle(names)
        order = list(range(n))
        par = [None] + [self.r.choice(order[max(0, i - 3):i] if self.r.random() < 0.5 else order[:i]) for i in range(1, n)]
        return names, par

    AX = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [0.6, 0.8, 0], [0, -0.6, 0.8]]

    def joint(self, name, pa, ch, types=TYPES, poses=True, extra=True, axes=None):
        r = self.r
        ty = r.choice(types)
        j = dict(k='joint', n=name, pa=pa, ch=ch, ty=ty)
        if poses:
            j.update(self.pose())
        if ty in ('revolute', 'continuous', 'prismatic', 'planar') and r.random() < 0.85:
            j['ax'] = r.choice(axes or self.AX)
        x = []
        if extra and r.random() < 0.4:
            x.append(['limit.<xmlattr>.lower', str(-r.randint(0, 3))])
            x.append(['limit.<xmlattr>.upper', str(r.randint(0, 3))])
        if extra and r.random() < 0.2:
            x.append(['dynamics.<xmlattr>.damping', '0.%d' % r.randint(1, 9)])
        if x:
            j['x'] = x
        return j

    def robot(self, n, types=TYPES, poses=True, els=('inertial', 'visual', 'collision'), mimic=0.0, extra=True,
              axes=None, meshes=False, pmass=0.6):
        r = self.r
        names, par = self.tree(n)
        links, joints = [], []
        for i in range(n):
            e = []
            for k in els:
                if k == 'inertial':
                    if r.random() < pmass:
                        e.append(self.mass(poses))
                else:
                    for _ in range(r.choice([0, 0, 1, 1, 2])):
                        el = dict(k=k, **(self.pose() if poses else {}))
                        if meshes:
                            el['x'] = self.geometry(k)
                        elif r.random() < 0.5:
                            el['x'] = [['geometry.sphere.<xmlattr>.radius', str(r.randint(1, 5))]]
                        e.append(el)
            r.shuffle(e)
            links.append(dict(k='link', n=names[i], els=e))
        jn = ['j%d' % i for i in range(n)]
        r.shuffle(jn)
        for i in range(1, n):
            joints.append(self.joint(jn[i], names[par[i]], names[i], types, poses, extra, axes))
        mim = [j for j in joints if r.random() < mimic]
        if mim:   # flat or chained, never looping: mimic a joint earlier in a random order
            order = joints[:]
            r.shuffle(order)
            for j in mim:
                k = order.index(j)
                if k:
                    j['mi'] = order[r.randrange(k)]['n']
        mixed = links + joints
        if r.random() < 0.7:
            r.shuffle(mixed)
        if extra and r.random() < 0.3:
            mixed.insert(r.randrange(len(mixed) + 1),
                         dict(k='material', n='', x=[['<xmlattr>.name', 'm'], ['color.<xmlattr>.rgba', '1 0 0 1']]))
        return mixed

    def geometry(self, kind):
        r = self.r
        x = []
        g = r.random()
        if g < 0.6:
            x.append(['geometry.mesh.<xmlattr>.filename', 'f%d.dae' % r.randrange(100)])
            if r.random() < 0.3:
                x.append(['geometry.mesh.<xmlattr>.scale', '2 2 2'])
        elif g < 0.9 or kind == 'visual':
            x.append(['geometry.box.<xmlattr>.size', '1 2 3'])
        if r.random() < 0.4:
            x.append(['material.<xmlattr>.name', 'mat%d' % r.randrange(9)])
            if kind == 'visual' and r.random() < 0.7:
                x.append(['material.texture.<xmlattr>.filename', 't%d.png' % r.randrange(100)])
            elif r.random() < 0.3:
                x.append(['material.texture.<xmlattr>.other', 'zz'])
        return x


def links(doc):
    return [e['n'] for e in doc if e['k'] == 'link']


def joints(doc):
    return [e['n'] for e in doc if e['k'] == 'joint']


def mimicked(doc):
    return {e.get('mi') for e in doc if e['k'] == 'joint' and e.get('mi')}


def nstates(r):
    return 2 + len(r['steps'])


def conform(c, hs, focus, name='urdf'):
    recs = c.run_driver('urdf', hs)
    c.judge('UrdfTrace', recs, inputs={h['id']: h for h in hs}, consts=dict(FOCUS=focus), states=nstates)
    for h in hs[:3]:
        c.sample(h)


def model(c, world, nl, depth, emit=True):
    return emitted(c.tlc('UrdfMC', dict(WORLD=world, NL=nl, DEPTH=depth, EMIT=emit)))


QS = [[1, 0, 1, 0], [0, 1, 1, 2], [-1, 0, 1, -1], [0, -1, 1, 1]]
QG = [[3, 4, 5, -1], [-4, 3, 5, 2]]


def qs(rnd, doc, n=2, generic=False):
    r = []
    for _ in range(n):
        left = 1 if generic else 0
        d = {}
        for j in joints(doc):
            if left and rnd.random() < 0.3:
                d[j] = rnd.choice(QG)
                left -= 1
            else:
                d[j] = rnd.choice(QS)
        r.append(d)
    return r


# ---------------------------------------------------------------------- U01
def u01(c):
    hs = []
    for nl, nj in ([(1, 0), (1, 1), (2, 1), (2, 2), (3, 2)] + ([(3, 3)] if c.thorough else [])):
        out = c.tlc('UrdfAccept', dict(NLINK=nl, NJOINT=nj, MIMIC=False, EMIT=True))
        hs += emitted(out)
    for nj in (2, 3) + ((4,) if c.thorough else ()):
        out = c.tlc('UrdfAccept', dict(NLINK=nj + 1, NJOINT=nj, MIMIC=True, EMIT=True))
        hs += emitted(out)
    n = len(hs)
    rnd = c.rnd
    for _ in range(6000 if c.thorough else 1200):
        g = Gen(rnd)
        doc = g.robot(rnd.randint(1, 9), poses=False, els=(), mimic=rnd.choice([0, 0.3, 0.7]), extra=rnd.random() < 0.3)
        for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):   # damage
            js = [e for e in doc if e['k'] == 'joint']
            ls = [e for e in doc if e['k'] == 'link']
            w = rnd.randrange(9)
            if w == 0 and js:
                rnd.choice(js)['pa'] = rnd.choice(links(doc) + ['zz', '', 'l2x'])
            elif w == 1 and js:
                rnd.choice(js)['ch'] = rnd.choice(links(doc) + ['zz', '', 'l2x'])
            elif w == 2 and js:
                rnd.choice(js)['mi'] = rnd.choice(joints(doc) + ['zz', 'a', 'j', 'j1x'])
            elif w == 3 and js:
                rnd.choice(js)['n'] = rnd.choice(joints(doc))
            elif w == 4 and len(ls) > 1:
                rnd.choice(ls)['n'] = rnd.choice(links(doc))
            elif w == 5 and js:
                doc.remove(rnd.choice(js))
            elif w == 6 and len(ls) > 1:
                doc.remove(rnd.choice(ls))
            elif w == 7 and len(js) > 1:      # swap the children of two joints: loops
                a, b = rnd.sample(js, 2)
                a['ch'], b['ch'] = b['ch'], a['ch']
            elif w == 8:
                doc.insert(rnd.randrange(len(doc) + 1), dict(k='link', n='extra', els=[]))
            if not links(doc):
                break
        hs.append(dict(doc=doc))
    hs = number(hs)
    c.cov['exhaustive_documents'] = n
    conform(c, hs, 'U01')


# ---------------------------------------------------------------------- U02
def u02(c):
    t = c.thorough
    hs = c.pick(model(c, 'pose', 2, 2) + model(c, 'pose', 3, 1), 2500)
    if t:
        c.tlc('UrdfMC', dict(WORLD='pose', NL=3, DEPTH=2, EMIT=False))
    rnd = c.rnd
    for _ in range(8000 if t else 1500):
        g = Gen(rnd, rnd.choice([0, 0, 1, 2]))
        doc = g.robot(rnd.randint(1, 6), mimic=0.1)
        ops = []
        for _ in range(rnd.randint(1, 4)):
            if rnd.random() < 0.65:
                ops.append(dict(op='define_root', n=rnd.choice(links(doc) + (['nope'] if rnd.random() < 0.2 else []))))
            else:
                p = dict(xyz=[0, 0, 0], rpy=[Q[0]] * 3)
                p.update(g.pose(0.1))
                p['rpy'] = p.get('rpy') or [Q[0]] * 3
                ops.append(dict(op='transport', **p))
        hs.append(dict(doc=doc, ops=ops))
    for h in hs:
        h['q'] = qs(rnd, h['doc'], 2, rnd.random() < 0.3)
    conform(c, number(hs), 'U02')


# ---------------------------------------------------------------------- U03
def structural_ops(rnd, doc, n, reroot=True):
    mi = mimicked(doc)
    js = joints(doc)
    ops = []
    for _ in range(n):
        w = rnd.random()
        if w < 0.2:
            ops.append(dict(op='rm_root'))
        elif w < 0.45 and js:
            ops.append(dict(op='rm_leaf', n=rnd.choice(js + ['nope'])))
        elif w < 0.6 and js:
            ops.append(dict(op='remove_if', sel=rnd.sample(js, rnd.randint(0, min(2, len(js))))))
        elif reroot:
            ops.append(dict(op='define_root', n=rnd.choice(links(doc) + ['nope'])))
    return ops


def no_mimic_source(doc):
    """removing a mimicked joint leaves a dangling mimic: a known finding, exercised on its own"""
    for e in doc:
        e.pop('mi', None)
    return doc


def u03(c):
    t = c.thorough
    hs = c.pick(model(c, 'struct', 3, 2) + model(c, 'struct', 4, 1), 2500)
    if t:
        hs += model(c, 'struct', 3, 3)
        c.tlc('UrdfMC', dict(WORLD='struct', NL=4, DEPTH=2, EMIT=False))
    rnd = c.rnd
    for _ in range(8000 if t else 1500):
        doc = Gen(rnd, 1).robot(rnd.randint(1, 10), poses=rnd.random() < 0.3)
        hs.append(dict(doc=doc, ops=structural_ops(rnd, doc, rnd.randint(1, 8))))
    hs = number(hs)
    hs += [dict(k, id=len(hs) + i) for i, k in enumerate(c.known_inputs())]
    conform(c, hs, 'U03')


# ---------------------------------------------------------------------- U04
def u04(c):
    t = c.thorough
    hs = c.pick(model(c, 'struct', 4, 1) + (model(c, 'struct', 3, 3) if t else model(c, 'struct', 3, 2)), 2500)
    rnd = c.rnd
    for _ in range(8000 if t else 1500):
        doc = no_mimic_source(Gen(rnd, 0).robot(rnd.randint(1, 10), poses=False))
        ops = structural_ops(rnd, doc, rnd.randint(0, 3))
        js = joints(doc)
        for _ in range(2):
            ops.insert(rnd.randint(0, len(ops)), dict(op='traverse', prune=rnd.sample(js, rnd.randint(0, min(3, len(js))))))
        ops.append(dict(op='traverse', prune=rnd.sample(js, rnd.randint(0, min(2, len(js))))))
        ops.append(dict(op='dot'))
        hs.append(dict(doc=doc, ops=ops))
    conform(c, number(hs), 'U04')


# ---------------------------------------------------------------------- U05
def u05(c):
    t = c.thorough
    hs = c.pick(model(c, 'mass', 3, 1) + model(c, 'mass', 2, 2), 2000)
    if t:
        c.tlc('UrdfMC', dict(WORLD='mass', NL=3, DEPTH=2, EMIT=False))
    rnd = c.rnd
    for _ in range(8000 if t else 1500):
        g = Gen(rnd, rnd.choice([0, 1, 1]))
        doc = g.robot(rnd.randint(1, 7), types=['fixed', 'fixed', 'revolute', 'continuous', 'prismatic', 'floating'],
                      mimic=0.1, pmass=rnd.choice([0.3, 0.6, 0.9]))
        ops = []
        for _ in range(rnd.randint(1, 3)):
            w = rnd.random()
            if w < 0.4 and joints(doc):
                ops.append(dict(op='squash', n=rnd.choice(joints(doc) + (['nope'] if rnd.random() < 0.1 else []))))
            elif w < 0.7:
                ops.append(dict(op='squash_all'))
            else:
                ops.append(dict(op='massless'))
        hs.append(dict(doc=doc, ops=ops))
    conform(c, number(hs), 'U05')


# ---------------------------------------------------------------------- U07
def u07(c):
    rnd = c.rnd
    hs = []
    for _ in range(8000 if c.thorough else 1500):
        doc = Gen(rnd, 0).robot(rnd.randint(1, 7), poses=rnd.random() < 0.4, meshes=True, mimic=0.1)
        if rnd.random() < 0.5:
            for _ in range(rnd.randint(1, 2)):
                doc.insert(rnd.randrange(len(doc) + 1), dict(k='material', n='', x=[['<xmlattr>.name', 'm']] + (
                    [['texture.<xmlattr>.filename', 'g%d.png' % rnd.randrange(99)]] if rnd.random() < 0.8 else [])))
        ops = []
        js = joints(doc) + ['nope']
        for _ in range(rnd.randint(1, 4)):
            w = rnd.randrange(5)
            ops.append([dict(op='make_fixed', n=rnd.choice(js)), dict(op='make_floating', n=rnd.choice(js)),
                        dict(op='cont_fixed'), dict(op='filenames'),
                        dict(op='put_name', n=rnd.choice(links(doc)), to='new name')][w])
        hs.append(dict(doc=doc, ops=ops))
    conform(c, number(hs), 'U07')
    read_elements(c)


def read_elements(c):
    rnd = c.rnd
    hs = []

    def v():
        return rnd.choice([0, 8, -8, 4, 1, rnd.randint(-1000, 1000)])

    def maybe(d, p=0.5, **kw):
        for k, f in kw.items():
            if rnd.random() < p:
                d[k] = f()
    t3 = lambda: [v(), v(), v()]
    for _ in range(6000 if c.thorough else 1500):
        what = rnd.choice(['joint', 'joint', 'inertial', 'visual', 'link'])
        f = {}
        if what == 'joint':
            maybe(f, 0.9, name=lambda: 'n%d' % rnd.randrange(9), ty=lambda: rnd.choice(TYPES + ['', 'weird']),
                  pa=lambda: 'p%d' % rnd.randrange(9), ch=lambda: 'c%d' % rnd.randrange(9))
            maybe(f, 0.5, xyz=t3, rpy=t3, ax=t3, lower=v, upper=v, effort=v, velocity=v, mimic=lambda: 'q%d' % rnd.randrange(9))
            if rnd.random() < 0.1:
                f['origin0'] = True
            if 'mimic' in f:
                maybe(f, 0.5, mult=v, off=v)
        elif what == 'inertial':
            maybe(f, 0.9, mass=v, ixx=v, ixy=v, ixz=v, iyy=v, iyz=v, izz=v)
            maybe(f, 0.5, xyz=t3, rpy=t3)
        elif what == 'visual':
            maybe(f, 0.5, xyz=t3, rpy=t3)
            f['shape'] = rnd.choice(['box', 'cylinder', 'sphere', 'mesh', 'none', 'nogeometry'])
            maybe(f, 0.9, size=t3, radius=v, length=v, filename=lambda: 'f%d' % rnd.randrange(9))
            maybe(f, 0.5, scale=t3)
        else:
            maybe(f, 0.8, name=lambda: 'n%d' % rnd.randrange(9))
            maybe(f, 0.5, mass=v)
            f['visuals'] = rnd.randint(0, 3)
        hs.append(dict(mode='read', what=what, f=f))
    hs = [dict(h, id=1000000 + i) for i, h in enumerate(hs)]
    recs = c.run_driver('urdf', hs)
    c.judge('UrdfRead', recs, inputs={h['id']: h for h in hs}, states=None)


CHECKS = dict(U01=u01, U02=u02, U03=u03, U04=u04, U05=u05, U07=u07)
