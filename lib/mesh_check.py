"""Meshes: M01 (protocol), M02 (generated boxes), M03 (exported scenes)."""
from urdf_check import emitted, number


def steps1(r):
    return 1 + len(r['steps'])


def rnd_ops(rnd, n, tex):
    ops = []
    t3 = lambda: [rnd.randint(-9, 9) for _ in range(3)]
    nrms = [[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, -1], [0, -1, 0], [-1, 0, 0]]
    for _ in range(n):
        w = rnd.random()
        if w < 0.40:
            ops.append(rnd.choice([dict(op='vertexAt', i=rnd.choice([0, 0, 1, 2, 3, 5, -1])), dict(op='vertex', v=t3())]))
        elif w < 0.52:
            ops.append(dict(op='end'))
        elif w < 0.66:
            ops.append(dict(op='begin', mode=rnd.choice(['POLYGON', 'TRIANGLES', 'QUADS'])))
        elif w < 0.74:
            ops.append(dict(op='position', v=t3()))
        elif w < 0.82:
            ops.append(dict(op='normal', v=rnd.choice(nrms)))
        elif w < 0.88:
            ops.append(dict(op='normalAt', i=rnd.choice([0, 1, 2, 4, -1])))
        elif w < 0.94:
            ops.append(dict(op='texCoord', v=t3()[:2]))
        else:
            ops.append(dict(op='texCoordAt', i=rnd.choice([0, 1, 2, -1])))
    return ops


def m01(c):
    hs = c.pick(emitted(c.tlc('MeshMC', dict(MAXV=8 if c.thorough else 5, EMIT=True), workers=1)), 3500)
    rnd = c.rnd
    for _ in range(12000 if c.thorough else 1500):
        tex = rnd.random() < 0.4
        ops = rnd_ops(rnd, rnd.randint(1, 40), tex)
        if rnd.random() < 0.7:       # get into the interesting part quickly
            ops = [dict(op='normal', v=[0, 0, 1]), dict(op='texCoord', v=[1, 1])][:1 + tex] + ops
        hs.append(dict(tex=tex, ops=ops))
    # complete groups: n vertices then end, n across the multiples
    for mode in ('POLYGON', 'TRIANGLES', 'QUADS'):
        for n in range(0, 14):
            for tex in (False, True):
                hs.append(dict(tex=tex, ops=[dict(op='normal', v=[0, 0, 1]), dict(op='texCoord', v=[1, 1]),
                                             dict(op='position', v=[1, 1, 1]), dict(op='begin', mode=mode)] +
                               [dict(op='vertexAt', i=0)] * n + [dict(op='end'), dict(op='end'), dict(op='begin', mode='QUADS')]))
    hs = number(hs, mode='mesh')
    recs = c.run_driver('mesh', hs)
    c.judge('MeshTrace', recs, inputs={h['id']: h for h in hs}, states=steps1)
    for h in hs[:3]:
        c.sample(h)


def m02(c):
    hs = []
    rnd = c.rnd
    t = c.thorough
    E = [0, 1, 3, 8]
    for x in E:
        for y in E:
            for z in E:
                if x and y and z:
                    hs.append(dict(round=False, x=x, y=y, z=z, r=0, n=0))
                    hs.append(dict(round=True, x=x, y=y, z=z, r=0, n=rnd.randint(0, 4)))   # becomes a box
                for r in (1, 4):
                    for n in ((0, 1, 2, 3, 5) if t else (0, rnd.choice([1, 2, 3]))):
                        hs.append(dict(round=True, x=x, y=y, z=z, r=r, n=n))
    for _ in range(300 if t else 30):
        hs.append(dict(round=True, x=rnd.randint(0, 8), y=rnd.randint(0, 8), z=rnd.randint(0, 8), r=rnd.randint(1, 8),
                       n=rnd.randint(0, 6 if t else 4)))
    hs = number([dict(h, pre=rnd.random() < 0.3) for h in hs], mode='factory')
    for h in hs:
        if h['r'] == 0:
            h['round_r0'] = h['round']
    recs = c.run_driver('mesh', hs)
    c.judge('Boxes', recs, inputs={h['id']: h for h in hs}, states=None, per=20)
    for h in hs[:3]:
        c.sample(h)


I12 = [4, 0, 0, 0, 0, 4, 0, 0, 0, 0, 4, 0]
R3 = [[4, 0, 0, 0, 4, 0, 0, 0, 4], [0, -4, 0, 4, 0, 0, 0, 0, 4], [0, 0, 4, 0, 4, 0, -4, 0, 0], [4, 0, 0, 0, 0, -4, 0, 4, 0]]


def tf(rnd):
    m = rnd.choice(R3)
    t = [rnd.randint(-40, 40) for _ in range(3)]
    return m[0:3] + [t[0]] + m[3:6] + [t[1]] + m[6:9] + [t[2]]


def rnd_mesh(rnd, tex=None, k=None):
    tex = (rnd.random() < 0.15) if tex is None else tex
    r = rnd if k is None else __import__('random').Random(k)
    n = r.randint(0, 3)
    ops = [dict(op='normal', v=r.choice([[0, 0, 1], [0, -1, 0]])), dict(op='texCoord', v=[r.randint(0, 3), 1])][:1 + tex]
    for _ in range(r.randint(1, 6)):
        ops.append(dict(op='position', v=[r.randint(-9, 9) / 4 for _ in range(3)]))
    np = len(ops) - 1 - tex
    for _ in range(n):
        mode = r.choice(['POLYGON', 'TRIANGLES', 'QUADS'])
        ops.append(dict(op='begin', mode=mode))
        for _ in range(r.randint(3, 6) if mode == 'POLYGON' else r.randint(0, 3) * (3 if mode == 'TRIANGLES' else 4)):
            if r.random() < 0.3:
                ops.append(dict(op='normal', v=r.choice([[0, 0, 1], [1, 0, 0], [0, -1, 0]])))
            ops.append(dict(op='vertexAt', i=r.randrange(np)))
        ops.append(dict(op='end'))
    return dict(tex=bool(tex), ops=ops)


def m03(c):
    rnd = c.rnd
    t = c.thorough
    hs = []
    for h in c.pick(emitted(c.tlc('SceneMC', dict(DEPTH=4 if t else 3, EMIT=True))), 8000 if t else 500):
        for op in h['ops']:
            if 'mesh' in op:
                op['mesh'] = rnd_mesh(rnd, op['mesh']['tex'])
                op['op'] = rnd.choice(['mesh', 'mesh_tf'])
                op['tf'] = tf(rnd)
        hs.append(h)
    for _ in range(3000 if t else 400):
        live = {0}
        ops = []
        for _ in range(rnd.randint(1, 8)):
            w = rnd.random()
            b = rnd.choice(sorted(live))
            if w < 0.55:
                ops.append(dict(op=rnd.choice(['mesh', 'mesh_tf']), b=b, mesh=rnd_mesh(rnd), tf=tf(rnd)))
            elif w < 0.65:
                ops.append(dict(op='shape', b=b, shape=rnd.choice(['rect', 'plane', 'halfspace', 'halfline']), tf=tf(rnd), d=[1, 2, 3]))
            elif w < 0.9:
                to = rnd.randrange(3)
                ops.append(dict(op=rnd.choice(['copy', 'assign']), b=b, to=to))
                live.add(to)
            elif len(live) > 1:
                live.discard(b)
                ops.append(dict(op='drop', b=b))
        h = dict(ops=ops)
        if rnd.random() < 0.5:
            h['color'] = [rnd.randint(0, 8) for _ in range(4)]
        if ops:
            hs.append(h)
    for shape in ('sphere', 'pill', 'rrect'):
        for i in range(12 if t else 4):
            hs.append(dict(arc=rnd.randint(0, 4 if t else 2), ops=[
                dict(op='shape', b=0, shape=shape, direct=i % 2 == 0, tf=tf(rnd),
                     d=[rnd.randint(1, 8), rnd.randint(1, 8), rnd.randint(1, 8)]),
                dict(op='mesh', b=0, mesh=rnd_mesh(rnd, False), tf=tf(rnd))]))
    # indexes beyond a million
    hs.append(dict(ops=[dict(op='mesh', b=0, tf=I12, mesh=dict(tex=False, big=True, ops=[
        dict(op='normal', v=[0, 0, 1]), dict(op='fill', n=1234570), dict(op='begin', mode='POLYGON')] +
        [dict(op='vertexAt', i=i) for i in (0, 1234567, 1000000, 1234569, 999999)] + [dict(op='end')]))]))
    hs = number(hs, mode='scene')
    recs = c.run_driver('mesh', hs)
    c.judge('SceneTrace', recs, inputs={h['id']: h for h in hs}, states=steps1, per=80)
    for h in hs[:2]:
        c.sample(h)


CHECKS = dict(M01=m01, M02=m02, M03=m03)
