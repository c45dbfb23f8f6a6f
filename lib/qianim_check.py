"""Animations: Q01 (edits), Q02 (fields and validation)."""
import struct
from urdf_check import emitted, number

UNITS = ['dimensionless', 'radian', 'degree', 'meter']


def steps1(r):
    return 1 + len(r['steps'])


def key(f, ch=(), **at):
    return dict(k='Key', at=[['frame', str(f)]] + [[a, str(v)] for a, v in at.items()], ch=list(ch))


def other(rnd):
    return dict(k=rnd.choice(['a', '<xmlcomment>', 'Foo', 'Keys']), d=rnd.choice(['', 'text']))


def tangent(rnd, side=None):
    at = [['side', side or rnd.choice(['left', 'right'])]]
    if rnd.random() < 0.7:
        at += [['abscissaParam', str(rnd.randint(-4, 4) / 4)], ['ordinateParam', str(rnd.randint(-4, 4) / 4)]]
    return dict(k='Tangent', at=at)


def mixed(rnd, els, p=0.5):
    r = []
    for e in els:
        while rnd.random() < p * 0.6:
            r.append(other(rnd))
        r.append(e)
    while rnd.random() < p:
        r.append(other(rnd))
    return r


def q01_doc(rnd):
    curves = []
    names = rnd.sample(['x', 'y', 'z', 'HeadYaw', ''], rnd.randint(1, 3))
    for n in names:
        frames = sorted(rnd.sample(range(0, 12), rnd.randint(0, 5)))
        ks = [key(f, mixed(rnd, [tangent(rnd) for _ in range(rnd.choice([0, 1, 2, 3]))], 0.2)) for f in frames]
        curves.append(dict(k='ActuatorCurve', at=[['actuator', n]], ch=mixed(rnd, ks), late=rnd.random() < 0.5))
    labels = []
    if rnd.random() < 0.6:
        frames = sorted(rnd.choice(range(0, 6)) for _ in range(rnd.randint(0, 5)))
        labels = [dict(k='Labels', ch=mixed(rnd, [dict(k='Label', at=[['frame', str(f)]], d='l%d' % i) for i, f in enumerate(frames)]),
                       at=[['fps', '25']] if rnd.random() < 0.5 else [], late=rnd.random() < 0.5)]
    ch = curves + labels
    rnd.shuffle(ch)
    return dict(k='root', ch=[dict(k='Animation', at=[['typeVersion', '2.0']], ch=mixed(rnd, ch, 0.3), late=rnd.random() < 0.3)])


def paths(doc, kind, p=()):
    r = [list(p)] if doc['k'] == kind else []
    for i, c in enumerate(doc.get('ch', [])):
        r += paths(c, kind, tuple(p) + (i + 1,))
    return r


def q01(c):
    t = c.thorough
    rnd = c.rnd
    hs = []
    for world, d in (('curve', 4), ('labels', 4), ('key', 3), ('anim', 4)):
        if t or world in ('curve', 'labels'):
            c.tlc('QianimMC', dict(WORLD=world, DEPTH=4 if t else 3, EMIT=False))
        for h in c.pick(emitted(c.tlc('QianimMC', dict(WORLD=world, DEPTH=d + t, EMIT=True), workers=1)), 700):
            k = dict(curve='ActuatorCurve', labels='Labels', key='Key', anim='Animation')[world]
            # at an inner element and at the root of a document
            inner = rnd.random() < 0.5
            doc = dict(k='root', ch=[other(rnd), dict(k=k)] if inner else [])
            hs.append(dict(doc=doc, ops=[dict(op, path=[2] if inner else []) for op in h['ops']]))
    for _ in range(12000 if t else 1800):
        doc = q01_doc(rnd) if rnd.random() < 0.9 else dict(k='root', ch=mixed(rnd, [], 0.5))
        ops = []
        curve, lab, keys = paths(doc, 'ActuatorCurve'), paths(doc, 'Labels'), paths(doc, 'Key')
        for _ in range(rnd.randint(1, 6)):
            w = rnd.random()
            if w < 0.4 and curve:
                p = rnd.choice(curve)
                f = rnd.randint(-1, 13)
                ops.append(rnd.choice([dict(op='req_key', f=f), dict(op='req_key', f=f), dict(op='get_key', f=f), dict(op='list', of='Key'),
                                       dict(op='put_fps', i=rnd.randint(-1, 30)), dict(op='put_mute', b=rnd.random() < 0.5),
                                       dict(op='put_unit', u=rnd.choice(UNITS)), dict(op='other', k='a'), dict(op='other', k='<xmlcomment>'),
                                       dict(op='put_actuator', n=rnd.choice('xyzw'))]))
            elif w < 0.55 and lab:
                p = rnd.choice(lab)
                ops.append(rnd.choice([dict(op='add_label', f=rnd.randint(-1, 7), v='new'), dict(op='add_label', f=rnd.randint(0, 6), v='m'),
                                       dict(op='put_fps', i=rnd.randint(-1, 30)), dict(op='other', k='a'), dict(op='list', of='Label')]))
            elif w < 0.8 and keys:
                p = rnd.choice(keys)
                s = rnd.choice(['left', 'right'])
                ops.append(rnd.choice([dict(op='req_tan', side=s), dict(op='get_tan', side=s), dict(op='erase_tan', side=s),
                                       dict(op='put_tan', side=s, a=rnd.randint(-9, 9), o=rnd.randint(-9, 9)),
                                       dict(op='put_value', q=rnd.randint(-9, 9)), dict(op='other', k='a')]))
            elif w < 0.92 and paths(doc, 'Animation'):
                p = paths(doc, 'Animation')[0]
                ops.append(rnd.choice([dict(op='req_curve', n=rnd.choice(['x', 'y', 'z', 'HeadYaw', 'w', ''])), dict(op='add_labels'),
                                       dict(op='list', of='Labels'), dict(op='list', of='ActuatorCurve'),
                                       dict(op='other', k='a')]))
            else:
                p = []
                ops.append(dict(op=rnd.choice(['req_anim', 'get_anim'])))
            ops[-1]['path'] = p
        # a history may move elements: paths that follow an insertion may lead elsewhere, so keep to one
        # inserting level per history unless paths stay valid
        hs.append(dict(doc=doc, ops=stable(ops)))
    for v in ('1.0', '', '2.0', '2.00', None):
        for op in ('req_anim', 'get_anim'):
            hs.append(dict(doc=dict(k='root', ch=[dict(k='x'), dict(k='Animation', at=[['typeVersion', v]] if v is not None else [])]),
                           ops=[dict(op=op, path=[]), dict(op='req_anim', path=[])]))
    hs = number(hs, mode='edits')
    recs = c.run_driver('qianim', hs)
    c.judge('QianimTrace', recs, inputs={h['id']: h for h in hs}, states=steps1)
    for h in hs[:3]:
        c.sample(h)


def stable(ops):
    """drop operations whose path runs through an element an earlier operation may have shifted"""
    moved, out = [], []
    for op in ops:
        p = op['path']
        if any(len(p) > len(m) and p[:len(m)] == m for m in moved):
            continue
        out.append(op)
        if op['op'] in ('req_key', 'add_label', 'req_curve', 'add_labels', 'req_anim', 'req_tan', 'put_tan', 'erase_tan'):
            moved.append(p)
    return out


# ---------------------------------------------------------------------- Q02
def words(x, single=False):
    b = struct.pack('<f', x) + b'\0\0\0\0' if single else struct.pack('<d', x)
    return [str(v) for v in struct.unpack('<4H', b)]


def a_number(rnd, single):
    while True:
        w = rnd.random()
        x = (rnd.choice([0.0, -0.0, 1.0, 0.1, -1.1, 1e-3, 1 / 3]) if w < 0.2 else rnd.uniform(-10, 10) if w < 0.6 else
             rnd.uniform(-1, 1) * 10 ** rnd.randint(-30, 30))
        if single:
            return struct.unpack('<f', struct.pack('<f', x))[0]
        return x


def q02_doc(rnd, damage):
    curves = []
    for _ in range(rnd.randint(0, 3)):
        frames = sorted(rnd.sample(range(0, 12), rnd.randint(2, 5)))
        ks = []
        for i, f in enumerate(frames):
            ch = []
            if i > 0:
                d = frames[i] - frames[i - 1]
                ch.append(dict(k='Tangent', at=[['side', 'left'], ['abscissaParam', str(-rnd.choice([0, d, rnd.randint(0, 4 * d) / 4]))],
                                                ['ordinateParam', str(rnd.randint(-8, 8) / 4)]]))
            if i < len(frames) - 1:
                d = frames[i + 1] - frames[i]
                ch.append(dict(k='Tangent', at=[['side', 'right'], ['abscissaParam', str(rnd.choice([0, d, rnd.randint(0, 4 * d) / 4]))],
                                                ['ordinateParam', str(rnd.randint(-8, 8) / 4)]]))
            rnd.shuffle(ch)
            ks.append(key(f, mixed(rnd, ch, 0.1), value=rnd.randint(-8, 8) / 4))
        at = [['actuator', rnd.choice('xyz')], ['fps', str(rnd.randint(1, 30))], ['unit', rnd.choice(UNITS)]]
        if rnd.random() < 0.5:
            at.append(['mute', rnd.choice(['true', 'false'])])
        rnd.shuffle(at)
        curves.append(dict(k='ActuatorCurve', at=at, ch=mixed(rnd, ks, 0.2), late=rnd.random() < 0.3))
    doc = dict(k='Animation', at=[['typeVersion', '2.0']], ch=mixed(rnd, curves, 0.2))
    every = []

    def walk(e):
        every.append(e)
        for x in e.get('ch', []):
            walk(x)
    walk(doc)
    for _ in range(damage):
        w = rnd.random()
        tan = [e for e in every if e['k'] == 'Tangent']
        ks = [e for e in every if e['k'] == 'Key']
        cs = [e for e in every if e['k'] == 'ActuatorCurve']

        def setat(e, n, v):
            e['at'] = [a for a in e['at'] if a[0] != n] + ([[n, v]] if v is not None else [])
        if w < 0.35 and tan:
            setat(rnd.choice(tan), 'abscissaParam', rnd.choice([str(rnd.randint(-50, 50) / 4), None, 'x']))
        elif w < 0.45 and tan:
            setat(rnd.choice(tan), 'side', rnd.choice(['left', 'right', 'up', None]))
        elif w < 0.5 and tan:
            setat(rnd.choice(tan), 'ordinateParam', rnd.choice([None, 'x', '3']))
        elif w < 0.65 and ks:
            setat(rnd.choice(ks), 'frame', rnd.choice([str(rnd.randint(-1, 12)), None, 'x', '1.5']))
        elif w < 0.7 and ks:
            setat(rnd.choice(ks), 'value', rnd.choice([None, 'x', '2']))
        elif w < 0.8 and cs:
            setat(rnd.choice(cs), *rnd.choice([('fps', '0'), ('fps', '-3'), ('fps', None), ('fps', '2.5'), ('unit', None), ('unit', 'rad'),
                                               ('actuator', None), ('unit', 'Radian')]))
        elif w < 0.85:
            setat(doc, 'typeVersion', rnd.choice(['1.0', None, '2', '2.0']))
        elif ks:
            e = rnd.choice(ks)
            if e.get('ch'):
                e['ch'].pop(rnd.randrange(len(e['ch'])))
            elif tan:
                e['ch'] = [rnd.choice(tan)]
    return doc


def q02(c):
    t = c.thorough
    rnd = c.rnd
    hs = []
    for _ in range(15000 if t else 2000):
        f = rnd.choice(['frame', 'fps', 'value', 'abscissa', 'ordinate', 'side', 'unit', 'mute', 'actuator'])
        h = dict(what='write', field=f, i=0, w=[])
        if f in ('frame', 'fps'):
            h['i'] = rnd.choice([-1, 0, 1, -2147483647, 2147483647, rnd.randint(-99, 99999)])
            h['label'] = rnd.random() < 0.3
        elif f in ('value', 'abscissa', 'ordinate'):
            h['single'] = rnd.random() < 0.4
            h['w'] = words(a_number(rnd, h['single']), h['single'])
        else:
            h['w'] = [rnd.choice(dict(side=['left', 'right'], unit=UNITS, mute=['true', 'false'], actuator=['x', '', 'Head Yaw', 'é<&']).get(f))]
        h['before'] = [[a, v] for a, v in [('frame', '7'), ('fps', '25'), ('value', '1.5'), ('side', 'left'), ('unit', 'meter'), ('mute', 'true'),
                                          ('actuator', 'q'), ('abscissaParam', '2'), ('ordinateParam', '-2')] if rnd.random() < 0.4]
        hs.append(h)
    for f, ts in dict(frame=['0', '12', '-1', 'x', '', '1.5', '2x', '007', None], fps=['0', '1', '-1', '25', 'x', '', '2.5', None],
                      unit=UNITS + ['', 'Radian', 'radian ', 'rad', 'unknown', 'Meter', None], side=['left', 'right', '', 'Left', 'left ', 'up', None],
                      mute=['true', 'false', None], actuator=['', 'x', None], version=['2.0', '2', '1.0', '2.00', '', None],
                      value=['1.5', 'x', '', '-2', '1e3', '1.5y', None], abscissa=['1.5', 'x', '', None], ordinate=['1.5', 'x', '', None]).items():
        for s in ts:
            for label in ((False, True) if f in ('frame', 'fps') else (False,)):
                def isnum():
                    try:
                        (int if f in ('frame', 'fps') else float)(s)
                        return True
                    except (ValueError, TypeError):
                        return False
                num = isnum()
                hs.append(dict(what='read', field=f, text=s if s is not None else ('(absent)' if f != 'mute' else 'false'), present=s is not None,
                               num=num, i=int(s) if num and f in ('frame', 'fps') else 0, label=label))
    for h in hs:
        h['mode'] = 'field'
    # exhaustive pair of keys, boundaries of frames and tangents
    for f0 in (0, 1, 3):
        for f1 in (0, 1, 2, 3):
            d = f1 - f0
            for a in sorted({-1, 0, 1, 4 * d - 1, 4 * d, 4 * d + 1}):
                for b in sorted({1, 0, -1, -4 * d - 1, -4 * d, -4 * d + 1}):
                    tan = lambda s, v: dict(k='Tangent', at=[['side', s], ['abscissaParam', str(v / 4)], ['ordinateParam', '1']])
                    hs.append(dict(mode='check', doc=dict(k='Animation', at=[['typeVersion', '2.0']], ch=[
                        dict(k='ActuatorCurve', at=[['actuator', 'x'], ['fps', '25'], ['unit', 'meter']], ch=[
                            key(f0, [tan('right', a)], value=1), key(f1, [tan('left', b)], value=2)])])))
    for _ in range(12000 if t else 1800):
        hs.append(dict(mode='check', doc=q02_doc(rnd, rnd.choice([0, 1, 1, 2]))))
    hs = number(hs)
    recs = c.run_driver('qianim', hs)
    c.judge('QianimFields', recs, inputs={h['id']: h for h in hs}, states=None)
    for h in hs[:1] + hs[-2:]:
        c.sample(h)


CHECKS = dict(Q01=q01, Q02=q02)
