#!/usr/bin/env python3
"""Mutation campaign (not a check): small changes of the library in scratch copies; those that build and
pass the tests are shown to the checks of the properties anchored in the file.
  tools/mutate.py WORKERS PER_FILE OUT [FILE...]      results, one JSON object per line, in OUT
Run it from a copy of /verif (it uses the build cache and writes evidence there)."""
import json, os, random, re, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('scenegraph/urdfrigid', ['B01']), ('rigidbodysystembuilder', ['B01']), ('bodymass', ['B01']),
       ('urdfeigen', ['U08', 'U05']), ('scenegraph/urdf', ['U07', 'U03', 'U06', 'U02', 'U01', 'U05', 'U04', 'B01']),
       ('meshfactory', ['M02', 'M01']), ('scenegraph/mesh', ['M01', 'M03', 'M02']), ('collada', ['M03']), ('scenebuilder', ['M03']),
       ('qianim', ['Q01', 'Q02']), ('qirostime', ['R01']), ('geometrics', ['S01']), ('dubins', ['C02']), ('avoidfoot', ['C01']),
       ('digitalfilter', ['D01']), ('pid', ['D02']), ('almathio', ['T08']), ('axismask', ['T08']), ('occupancy', ['T07']),
       ('altrigonometry', ['T06']), ('almatheigen', ['T02', 'T03', 'T08']), ('qigeometry', ['T02', 'T01', 'T08']),
       ('tools/almath', ['T06', 'T01', 'T02', 'T04', 'T05', 'U08', 'T03']), ('altransformhelpers', ['T02', 'T01', 'T05', 'T03', 'T06']),
       ('types/', ['T01', 'T04', 'T02', 'T08', 'T05'])]
SLOW = '-*quaternionFromRotation3D:*rotation3DFromQuaternion2:*position6DFromTransformInPlace'


def props(f):
    for k, ps in MAP:
        if k in f:
            return ps
    return []


def code_lines(text):
    """lines with comments and the insides of preprocessor lines blanked"""
    text = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), text, flags=re.S)
    out = []
    for l in text.split('\n'):
        l = re.sub(r'//.*', lambda m: ' ' * len(m.group()), l)
        if l.lstrip().startswith('#') or 'throw' in l and '"' in l:
            l = ' ' * len(l)
        out.append(re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + ' ' * (len(m.group()) - 2) + '"', l))
    return out


RULES = [(r'(?<=[\w\)\]]) \+ (?=[\w\(])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(])', [' + ']), (r'(?<=[\w\)\]])\*(?=[\w\(])', ['/']), (r' \* ', [' / ']), (r' / ', [' * ']),
         (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ', ' >= ']), (r' >= ', [' > ', ' <= ']), (r' == ', [' != ']), (r' != ', [' == ']),
         (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']), (r' \*= ', [' /= ', ' = ']),
         (r'(?<![\w.])!(?=[\w\(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']),
         (r'\b0\.0f\b', ['1.0f']), (r'\b1\.0f\b', ['-1.0f', '0.0f']), (r'\b0\.f\b', ['1.f']), (r'\b1\.f\b', ['-1.f', '0.f']), (r'\b0\.5f\b', ['1.0f']), (r'\b2\.0f\b', ['1.0f']),
         (r'\bcosf?(?=\()', ['std::sin']), (r'\bsinf?(?=\()', ['std::cos']), (r'\.x\b', ['.y']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.y']), (r'\.wx\b', ['.wy']), (r'\.wy\b', ['.wz']), (r'\.wz\b', ['.wx']),
         (r'r([123])_c([1234])\b', ['SWAP']), (r'(?<=[=(,] )-(?=[\w(])', ['']), (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']),
         (r'\bbegin\(\)', ['end()']), (r'\+\+(?=\w)', ['--']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'\breturn true', ['return false']),
         (r'->parent_link\(', ['->child_link(']), (r'->child_link\(', ['->parent_link(']), (r'\.front\(\)', ['.back()']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\.linear\(\)\.transpose\(\)', ['.linear()']), (r'\.inverse\(\)', [''])]


def mutants(path):
    text = open(path).read()
    lines = text.split('\n')
    code = code_lines(text)
    out = []
    for i, c in enumerate(code):
        if 'ALMATH_API' in c or c.strip().startswith(('template', 'using', 'typedef', 'namespace', 'class ', 'struct ')) or '<<' in c and 'std::c' in c:
            continue
        for pat, reps in RULES:
            for m in re.finditer(pat, c):
                for r in reps:
                    if r == 'SWAP':
                        a, b = m.group(1), m.group(2)
                        r = 'r%s_c%s' % (b, a) if b != '4' and a != b else 'r%d_c%s' % (int(a) % 3 + 1, b)
                    out.append((i, lines[i][:m.start()] + r + lines[i][m.end():]))
        s = c.strip()
        if s.endswith(';') and re.match(r'^[\w:.\->\(\)\[\]]+( [-+*/]?= |\(|\+\+|\.|->)', s) and not s.startswith(('return', 'break', 'throw', 'const ', 'auto ', 'float ', 'int ', 'static', 'assert')) \
                and s.count('(') == s.count(')') and (i == 0 or code[i - 1].strip().endswith((';', '{', '}', ')', ':')) or not code[i - 1].strip()):
            out.append((i, re.sub(r'\S.*', ';', lines[i], count=1)))
    seen, res = set(), []
    for i, l in out:
        if l != lines[i] and (i, l) not in seen:
            seen.add((i, l))
            res.append((i, lines[i], l))
    return res


def sh(cmd, cwd, timeout, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, 'timeout')


CM = ['cmake', '-S', '.', '-B', '_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1', '-DCMAKE_CXX_FLAGS=-Wno-error',
      '-DCMAKE_PROJECT_ALMATH_INCLUDE=/opt/vp/almath_inject.cmake', '-Dqibuild_DIR=/opt/qienv/share/cmake/qibuild', '-DQI_WITH_TESTS=ON', '-DALMATH_WITH_QIGEOMETRY=OFF', '-DWITH_PYTHON=OFF', '-Wno-dev']


def worker(n, jobs, out, lock):
    w = '/tmp/mut/w%d' % n
    if not os.path.isdir(w):
        os.makedirs(w)
        subprocess.run('git -C /repo archive HEAD | tar -x -C ' + w, shell=True, check=True)
    else:
        subprocess.run(['rsync', '-a', '--checksum', '--delete', '--exclude', '_build', '--exclude', '.git', '/repo/', w + '/'], check=True)
    sh(CM, w, 300)
    r = sh(['ninja', '-C', '_build', '-j3'], w, 1800)
    assert r.returncode == 0, r.stdout[-2000:]
    tests = sorted(os.listdir(w + '/_build/sdk/bin'))
    while True:
        try:
            f, i, old, new = jobs.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(w, f)
        text = open(p).read()
        lines = text.split('\n')
        assert lines[i] == old
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
        try:
            b = sh(['ninja', '-C', '_build', '-j3'], w, 600)
            if b.returncode:
                rec['result'] = 'build'
            else:
                ok = True
                for t in tests:
                    for flt in (['*' if t != 'almath_tests' else SLOW] + ([SLOW[1:]] if t == 'almath_tests' else [])):
                        if ok:
                            r = sh(['sdk/bin/' + t, '--gtest_filter=' + flt], w + '/_build', 60)
                            ok = r.returncode == 0
                if not ok:
                    rec['result'] = 'tests'
                else:
                    rec['checks'] = {}
                    rec['result'] = 'SURVIVED'
                    for pr in props(f):
                        r = sh(['bin/check', pr], V, 800, dict(VT_REPO=w, VERIF_SEED='1', VT_MODELS='/tmp/mut/models'))
                        rec['checks'][pr] = r.returncode
                        if r.returncode:
                            rec['result'] = 'caught' if r.returncode == 1 else 'undecided'
                            rec['why'] = r.stdout[-500:]
                            break
        finally:
            open(p, 'w').write(text)
        with lock:
            out.write(json.dumps(rec) + '\n')
            out.flush()


def main():
    n, per, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or [l for l in subprocess.run(['git', '-C', '/repo', 'ls-files', 'src', 'almath'], capture_output=True, text=True).stdout.split() if l.endswith(('.cpp', '.h')) and props(l)]
    rnd = random.Random(os.environ.get('MUT_SEED', '7'))
    jobs = []
    for f in files:
        ms = mutants('/repo/' + f)
        k = min(per, len(ms)) if f.endswith('.cpp') else min(per, len(ms))
        jobs += [(f,) + m for m in rnd.sample(ms, k)]
        print(f, len(ms), k)
    rnd.shuffle(jobs)
    done = set()
    if os.path.exists(outp):
        done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(outp))}
    q = queue.Queue()
    for j in jobs:
        if (j[0], j[1] + 1, j[3].strip()) not in done:
            q.put(j)
    print(q.qsize(), 'mutants')
    if n == 0:
        return
    lock = threading.Lock()
    with open(outp, 'a') as out:
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]


main()
