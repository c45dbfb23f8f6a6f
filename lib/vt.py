"""Common machinery of the checks: building the drivers from /repo's working tree,
running TLC, judging recorded traces with TLC, known findings, evidence files."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, uuid
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXXFLAGS = ['-std=gnu++17', '-O1', '-g1', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-w']
CXXFLAGS += os.environ.get('VT_CXX', '').split()   # only for trials of the machinery itself
INC = ['-I' + VERIF + '/include', '-I' + REPO, '-I/usr/include/eigen3', '-I' + VERIF + '/drivers']
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _files(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _publish(tmp, dst):
    os.replace(tmp, dst)


class Builder:
    def __init__(self):
        self.dir = os.path.join(VERIF, 'build')
        os.makedirs(self.dir, exist_ok=True)
        hdr = _files(os.path.join(REPO, 'almath'), ('.h', '.hpp', '.hxx', '.ipp', '.inl'))
        hdr += _files(os.path.join(REPO, 'src'), ('.h', '.hpp', '.hxx', '.ipp', '.inl'))
        self.hkey = sha(*[x for p in hdr for x in (os.path.relpath(p, REPO), _read(p))],
                        *map(_read, _files(VERIF + '/include', ('.h', '.hpp'))))
        self.srcs = [p for p in _files(os.path.join(REPO, 'src'), ('.cpp', '.cc', '.cxx'))
                     if 'qirostime' not in p]

    def _compile(self, src, key, extra=()):
        obj = os.path.join(self.dir, key + '.o')
        if os.path.exists(obj):
            return obj
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', '-c'] + CXXFLAGS + INC + list(extra) + [src, '-o', tmp],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('cannot compile %s:\n%s' % (src, r.stderr[-4000:]))
        _publish(tmp, obj)
        return obj

    def driver(self, name):
        """Builds drivers/<name>.cpp with the whole library from the working tree."""
        dsrc = os.path.join(VERIF, 'drivers', name + '.cpp')
        dh = sha(*[_read(p) for p in _files(os.path.join(VERIF, 'drivers'), ('.h',))])
        flags = ' '.join(CXXFLAGS)
        # the sources the driver says it needs; everything if that is not enough to link it
        m = re.search(rb'^// needs: (.*)$', _read(dsrc), re.M)
        want = m.group(1).decode().split() if m else []
        few = [s for s in self.srcs if os.path.relpath(s, REPO + '/src') in want]
        for srcs in ([few] if few else []) + [self.srcs]:
            jobs = [(s, 's' + sha(self.hkey, flags, os.path.relpath(s, REPO), _read(s))) for s in srcs]
            jobs.append((dsrc, 'd' + sha(self.hkey, flags, dh, _read(dsrc))))
            with ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(lambda j: self._compile(*j), jobs))
            exe = os.path.join(self.dir, name + '-' + sha(*objs) + '.exe')
            if os.path.exists(exe):
                return exe
            tmp = exe + '.%d.tmp' % os.getpid()
            r = subprocess.run(['g++'] + CXXFLAGS + objs + ['-o', tmp], capture_output=True, text=True)
            if r.returncode == 0:
                _publish(tmp, exe)
                return exe
        raise CheckError('cannot link %s:\n%s' % (name, r.stderr[-4000:]))


class Check:
    def __init__(self, pid, technique_level='model_checking'):
        self.id = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rnd = random.Random('%s/%d' % (pid, self.seed))
        self.level = technique_level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vt-%s-' % pid)
        self.builder = Builder()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.failures = []       # dicts: input, why
        self.known = load_known(pid)
        self.known_seen = []

    def log(self, msg):
        if os.environ.get('VT_LOG'):
            print('[%6.1f] %s' % (time.time() - self.t0, msg), file=sys.stderr)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts=None, cfg=None, workers=None, simulate=None, timeout=800, what='model'):
        """Runs TLC; returns its output. A violated invariant of a *model* run is an error of
        the specification, not of the code."""
        out = None
        memo = os.environ.get('VT_MODELS')      # mutation campaigns: models do not depend on the code
        if memo:
            os.makedirs(memo, exist_ok=True)
            memo = os.path.join(memo, sha(module, json.dumps(consts), str(cfg), *[_read(p) for p in _files(VERIF + '/spec', ('.tla', '.cfg'))]))
            if os.path.exists(memo):
                with open(memo) as f:
                    out = json.load(f)
        if out is None:
            out = self._tlc(module, cfg, consts, workers, simulate, timeout)
            if memo and out['rc'] == 0:
                with open(memo + '.%d' % os.getpid(), 'w') as f:
                    json.dump(out, f)
                _publish(memo + '.%d' % os.getpid(), memo)
        if out['rc'] != 0:
            raise CheckError('TLC %s on %s/%s failed (rc %d):\n%s' %
                             (what, module, cfg, out['rc'], out['out'][-3000:]))
        self.cov['states'] += out['distinct']
        self.cov['transitions'] += out['generated']
        return out

    def _tlc(self, module, cfg, consts, workers, simulate, timeout, heap='3g'):
        t0 = time.time()
        md = tempfile.mkdtemp(dir=self.tmp)
        with open(os.path.join(VERIF, 'spec', (cfg or module) + '.cfg')) as f:
            text = f.read()
        for k, v in (consts or {}).items():
            v = {True: 'TRUE', False: 'FALSE'}[v] if isinstance(v, bool) else \
                str(v) if isinstance(v, int) else '{%s}' % ', '.join(map(json.dumps, v)) if isinstance(v, (list, tuple)) else json.dumps(v)
            text += 'CONSTANT %s = %s\n' % (k, v)
        pcfg = os.path.join(md, 'M.cfg')
        with open(pcfg, 'w') as f:
            f.write(text)
        cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', TLAJ,
               'tlc2.TLC', '-metadir', md, '-workers', str(workers or NCPU), '-deadlock', '-noGenerateSpecTE',
               '-config', pcfg]
        if simulate:
            cmd += ['-simulate'] + simulate
        cmd += [os.path.join(VERIF, 'spec', module + '.tla')]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout,
                               cwd=os.path.join(VERIF, 'spec'))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        self.log('tlc %s %s %.1f s' % (module, {k: v for k, v in (consts or {}).items() if k != 'TRACE'}, time.time() - t0))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
        g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return dict(rc=r.returncode, out=r.stdout + r.stderr, generated=g, distinct=d)

    # ------------------------------------------------------------- driver
    def run_driver(self, name, histories, args=(), timeout=600, env=None):
        """Executes each history (a JSON object) on the real code. Returns the list of recorded
        histories. A crash of the real code is attributed to the history being executed: the
        record gets the field crash and execution goes on with the next one."""
        exe = self.builder.driver(name)
        self.log('driver %s built' % name)
        n = len(histories)
        shards = max(1, min(NCPU, n // 50))
        bounds = [n * k // shards for k in range(shards + 1)]

        def work(k):
            lo, hi = bounds[k], bounds[k + 1]
            res = []
            hangs = again = 0
            while lo < hi:
                pin = os.path.join(self.tmp, 'in%d.ndjson' % k)
                pout = os.path.join(self.tmp, 'out%d.ndjson' % k)
                with open(pin, 'w') as f:
                    for h in histories[lo:hi]:
                        f.write(json.dumps(h, separators=(',', ':')) + '\n')
                e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:malloc_context_size=2:quarantine_size_mb=1:'
                         'thread_local_quarantine_size_kb=64',
                         UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C.UTF-8')
                e.update(env or {})
                try:
                    r = subprocess.run([exe, pin, pout] + list(args), capture_output=True, text=True,
                                       errors='replace', env=e, timeout=timeout, cwd=self.tmp)
                    rc, err = r.returncode, r.stderr
                except subprocess.TimeoutExpired:
                    raise CheckError('driver %s took too long' % name)
                got = []
                if os.path.exists(pout):
                    with open(pout) as f:
                        for l in f:
                            if l.endswith('\n'):
                                got.append(json.loads(l))
                    os.unlink(pout)
                res += got
                lo += len(got)
                if rc == 0:
                    if lo != hi:
                        raise CheckError('driver %s stopped early' % name)
                    break
                if rc == 3:
                    raise CheckError('driver %s: %s' % (name, err[-2000:]))
                # the history at lo crashed or hung the real code: confirm on its own
                with open(pin, 'w') as f:
                    f.write(json.dumps(histories[lo], separators=(',', ':')) + '\n')
                r = subprocess.run([exe, pin, pout] + list(args), capture_output=True, text=True,
                                   errors='replace', env=e, timeout=timeout, cwd=self.tmp)
                if r.returncode == 0:
                    with open(pout) as f:
                        res.append(json.loads(f.readline()))
                    again += 1
                    if again > 3:
                        raise CheckError('driver %s: crashes that do not repeat: %s' % (name, crash_line(err, rc)))
                else:
                    res.append(dict(id=histories[lo].get('id'),
                                    crash='hang' if r.returncode == -14 else crash_line(r.stderr, r.returncode)))
                    hangs += r.returncode == -14
                if os.path.exists(pout):
                    os.unlink(pout)
                lo += 1
                if hangs > 1 or len([x for x in res if 'crash' in x]) > 20:
                    break
            return res
        with ThreadPoolExecutor(shards) as ex:
            parts = list(ex.map(work, range(shards)))
        self.log('driver %s ran %d histories' % (name, n))
        return [x for p in parts for x in p]

    # -------------------------------------------------------------- judge
    def judge(self, module, records, inputs=None, consts=None, states=None, timeout=800, cfg=None, per=150):
        """TLC validates recorded histories against the specification. Records that are rejected go
        to self.failures. `inputs`: id -> input for reporting; `states`: record -> number of states
        its validation visits when it is accepted (a guard against validating nothing)."""
        bad = [(r, 'the code crashed: ' + r['crash']) for r in records if 'crash' in r]
        good = [r for r in records if 'crash' not in r]

        def run(part):
            p = os.path.join(self.tmp, '%s.%s.ndjson' % (module, uuid.uuid4().hex))
            with open(p, 'w') as f:
                for r in part:
                    f.write(json.dumps(r, separators=(',', ':')) + '\n')
            out = self._tlc(module, cfg, dict(consts or {}, TRACE=p), 1, None, timeout)
            os.unlink(p)
            return out

        def work(part):
            b = []
            while True:
                out = run(part)
                txt = out['out']
                if out['rc'] == 0:
                    break
                # the specification may be undefined on what the code produced: find that record
                hs = re.findall(r'^/?\\?\s*h = (\d+)', txt, re.M)
                if not hs or 'valuat' not in txt and 'verflow' not in txt and 'TLC threw' not in txt:
                    raise CheckError('TLC could not judge %s (rc %d):\n%s' % (module, out['rc'], txt[-3500:]))
                for i in (int(hs[-1]) - 1, int(hs[-1])):   # one-step judges look at record h + 1
                    r = part[min(max(i, 0), len(part) - 1)]
                    again = run([r])
                    if again['rc'] != 0:
                        break
                if again['rc'] == 0:
                    raise CheckError('TLC could not judge %s (rc %d):\n%s' % (module, out['rc'], txt[-3500:]))
                b.append((r, 'the specification is not even defined on this record: ' + tlc_error(again['out'])))
                part = [x for x in part if x is not r]
                if len(b) > 3:
                    return None, b
            m = re.search(r'"JUDGED", (\d+)', txt)
            if not m or int(m.group(1)) != len(part):
                raise CheckError('TLC judged an unexpected number of records:\n' + txt[-2000:])
            f = {}
            for mm in re.finditer(r'<<"BAD", (\d+), (\d+)(?:, "([^"]*)")?', txt):
                f.setdefault(int(mm.group(1)), 'step %s %s' % (mm.group(2), mm.group(3) or ''))
            if states and not f and out['distinct'] != sum(states(r) for r in part):
                raise CheckError('%s visited %d states, expected %d' %
                                 (module, out['distinct'], sum(states(r) for r in part)))
            return out, b + [(part[i - 1], w) for i, w in f.items()]
        shards = max(1, min(NCPU, len(good) // per))
        with ThreadPoolExecutor(shards) as ex:
            for out, b in ex.map(work, [good[k::shards] for k in range(shards)] if good else []):
                if out:
                    self.cov['states'] += out['distinct']
                    self.cov['transitions'] += out['generated']
                bad += b
        self.cov['traces_validated_against_impl'] += len(good)
        inputs = inputs or {}
        for r, why in bad:
            self.fail(inputs.get(r.get('id'), r), why, record=r)
        return bad

    def pick(self, xs, n):
        """all of xs in the thorough tier, n of them (chosen by the seed) in the quick one"""
        if self.thorough or len(xs) <= n:
            return xs
        keep = sorted(self.rnd.sample(range(len(xs)), n))
        return [xs[i] for i in keep]

    def known_inputs(self):
        """complete inputs of the known findings of this property, to be executed on every run"""
        return [dict(k['input']) for k in self.known]

    def fail(self, inp, why, record=None):
        for k in self.known:
            if known_matches(k, inp):
                if k['what'] not in self.known_seen:
                    self.known_seen.append(k['what'])
                return
        self.failures.append(dict(input=inp, why=why, record=record))

    def sample(self, x):
        if len(self.cov['samples']) < 3:
            s = json.dumps(x)
            self.cov['samples'].append(x if len(s) < 3000 else s[:3000])

    # ------------------------------------------------------------- finish
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        for w in self.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (self.id, w))
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.failures))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.id, 'w') as f:
            json.dump(ev, f, indent=1)
        if self.failures:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            p = VERIF + '/replays/%s.json' % self.id
            with open(p, 'w') as f:
                json.dump(self.failures[:50], f, indent=1)
            for x in self.failures[:5]:
                print('  %s: %s' % (x['why'], json.dumps(x['input'])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.id, p))
            return 1
        print('%s: held on everything explored: %d traces validated, %d TLC states, %.1f s' %
              (self.id, self.cov['traces_validated_against_impl'], self.cov['states'], ev['wall_s']))
        return 0


def crash_line(err, rc):
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate called' in l:
            return l.strip()[:300]
    return 'exit code %d %s' % (rc, err.strip()[-200:])


def tlc_error(txt):
    m = re.search(r'Error: (.*?)(?:\n\n|\nError: The behavior|$)', txt, re.S)
    return ' '.join((m.group(1) if m else txt[-300:]).split())[:300]


def load_known(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]


def known_matches(k, inp):
    """A known finding names the exact input (all the fields listed must be equal)."""
    return isinstance(inp, dict) and all(inp.get(a) == b for a, b in k['input'].items())


def main(fn, pid):
    c = None
    try:
        c = Check(pid)
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print('check %s could not decide: %s' % (pid, e))
        if c:
            shutil.rmtree(c.tmp, ignore_errors=True)
        rc = 2
    sys.exit(rc)
