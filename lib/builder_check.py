"""Rigid-body builders: B01."""
from urdf_check import emitted, number, Gen, TYPES, joints

CFG = dict(pre='', suf='_joint', nosf=False, gal='')
AX = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def a_cfg(rnd, gal=True):
    return dict(pre=rnd.choice(['', '', 'to_']), suf=rnd.choice(['_joint', '_joint', '', 'J']), nosf=rnd.random() < 0.15,
                gal=rnd.choice(['', '', 'world']) if gal else '')


def robots(rnd, n):
    hs = []
    for _ in range(n):
        g = Gen(rnd, rnd.choice([0, 0, 1, 2]))
        types = rnd.choice([['revolute', 'continuous', 'fixed'], ['revolute', 'continuous', 'fixed', 'floating'], TYPES,
                            ['revolute', 'revolute', 'continuous', 'floating']])
        doc = g.robot(rnd.randint(1, 8), types=types, mimic=0.05, els=('inertial', 'visual'), pmass=rnd.choice([0.6, 0.9, 1]),
                      axes=AX if rnd.random() < 0.8 else None)
        if rnd.random() < 0.03 and joints(doc):     # not a tree
            e = rnd.choice([e for e in doc if e['k'] == 'joint'])
            e[rnd.choice(['pa', 'ch'])] = 'nope'
        contfixed = rnd.random() < 0.3
        rmroot = rnd.random() < 0.25
        chain = rnd.choice([[], [], ['names'], ['names'], ['names', 'eraser'], ['cast'], ['names', 'cast', 'plain'], ['plain', 'names']])
        cfg = a_cfg(rnd, False)
        hs.append(dict(kind='robot', doc=doc, rmroot=rmroot, contfixed=contfixed, cfg=cfg,
                       chain=[x for x in chain if x != 'eraser'], stream=rnd.random() < 0.4))
    return hs


def a_req(rnd, names, jn, conv, **fixed):
    c = fixed.get('c') or rnd.choice(['body', 'body', 'frame'])
    q = dict(c=c, pa=rnd.choice(names), n=rnd.choice(names), conv=conv, xyz=[rnd.randint(-3, 3) for _ in range(3)],
             rpy=[rnd.choice([[1, 0], [0, 1], [-1, 0], [0, -1], [0.6, 0.8]])] + [rnd.choice([[1, 0], [0, 1]]) for _ in range(2)])
    if jn is not None:
        q['jn'] = jn
    if c == 'body':
        q.update(ty=rnd.choice(['free', 'rx', 'ry', 'rz']), mass=rnd.randint(1, 4), com=[rnd.randint(-2, 2) for _ in range(3)],
                 I=[2 * rnd.randint(1, 9), 2 * rnd.randint(-2, 2), 2 * rnd.randint(-2, 2), 2 * rnd.randint(1, 9), 2 * rnd.randint(-2, 2),
                    2 * rnd.randint(1, 9)])
    q.update(fixed)
    return q


def requests(rnd, n):
    hs = []
    for _ in range(n):
        cfg = a_cfg(rnd)
        names = rnd.sample(['a', 'b', 'c', 'd', 'e', 'B', 'a_joint', 'f', ''], rnd.randint(2, 8)) + [cfg['gal']] * rnd.randint(1, 2)
        jn = ['j', 'k', 'l', 'm', 'a_joint', 'b_joint', 'n', 'o', 'a', '']
        chain = rnd.choice([['names'], ['names'], ['names'], ['eraser'], ['names', 'eraser'], ['eraser', 'names'], ['cast', 'names'],
                            ['names', 'cast', 'eraser', 'cast'], ['names', 'names'], ['plain'], []])
        refuse = rnd.sample(names, rnd.choice([0, 0, 0, 1]))
        reqs = []
        for _ in range(rnd.randint(1, 12)):
            conv = rnd.random() < 0.5
            reqs.append(a_req(rnd, names, rnd.choice(jn) if rnd.random() < 0.6 else None, conv))
            if rnd.random() < 0.6:
                fresh = [x for x in names if x not in [q['n'] for q in reqs[:-1]]]
                known = [q['n'] for q in reqs[:-1]] + [cfg['gal']]
                if fresh:
                    reqs[-1]['n'] = rnd.choice(fresh)
                reqs[-1]['pa'] = rnd.choice(known)
        hs.append(dict(kind='reqs', cfg=cfg, chain=chain, refuse=refuse, reqs=reqs))
    return hs


def b01(c):
    t = c.thorough
    rnd = c.rnd
    hs = []
    for nl in (1, 2, 3) if t else (1, 2):
        out = c.tlc('BuilderMC', dict(WORLD='robots', NL=nl, DEPTH=0, EMIT=True))
        for h in c.pick(emitted(out), 800)[:30000]:
            h = h['in']
            hs.append(dict(kind='robot', doc=h['doc'], rmroot=h['rmroot'], contfixed=h['contfixed'], cfg=CFG,
                           chain=rnd.choice([[], ['names']]), stream=rnd.random() < 0.3))
    out = c.tlc('BuilderMC', dict(WORLD='names', NL=1, DEPTH=3 if t else 2, EMIT=True))
    for h in c.pick(emitted(out), 1200)[:30000]:
        hs.append(dict(kind='reqs', cfg=CFG, chain=['names'], refuse=h['in'],
                       reqs=[a_req(rnd, ['x'], q['jn'], rnd.random() < 0.5, c=q['c'], pa=q['pa'], n=q['n']) for q in h['reqs']]))
    hs += robots(rnd, 8000 if t else 1200)
    hs += requests(rnd, 12000 if t else 2000)
    hs = number(hs)
    recs = c.run_driver('builder', hs)
    c.judge('BuilderTrace', recs, inputs={h['id']: h for h in hs}, states=lambda r: 2)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = {'B01': b01}
