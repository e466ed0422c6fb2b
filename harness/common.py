"""Shared infrastructure of the checks: building the code under test from
/repo's working tree in a scratch directory, running it in batches, running
TLC, and reporting (VIOLATION / KNOWN-FINDING / evidence)."""
import atexit, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DATA = os.path.join(SPEC, 'data')
NCPU = os.cpu_count() or 4
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and \
            shutil.disk_usage('/dev/shm').free > (2 << 30) else None
        self.scratch = tempfile.mkdtemp(prefix='vjbo-', dir=base)
        atexit.register(self.cleanup)
        self.bdir = None
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'runs': 0, 'models': [], 'samples': []}
        self.violations = []
        self.assumptions = []
        self.known_hits = {}
        self.known = load_known(prop)
        self.tlc_n = 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building the code under test -------------------------------
    def build(self, cflags=None):
        """Build /repo's working tree (tracked and new, not ignored, files)."""
        if self.bdir:
            return self.bdir
        src = os.path.join(self.scratch, 'src')
        os.makedirs(src)
        ls = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z', '-co',
                             '--exclude-standard'], capture_output=True)
        if ls.returncode:
            raise CheckError('git ls-files failed: ' + ls.stderr.decode())
        for f in sorted(set(ls.stdout.split(b'\0'))):
            f = f.decode('utf-8', 'surrogateescape')
            if not f or f.startswith(('tests/', 'testing/')):
                continue
            p = os.path.join(REPO, f)
            if not os.path.isfile(p):
                continue
            d = os.path.join(src, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(p, d)
        # every input file as old as the others: the Makefile then builds all
        now = time.time()
        for root, _, fs in os.walk(src):
            for f in fs:
                os.utime(os.path.join(root, f), (now - 100, now - 100))
        env = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        for k in ('MAKEFLAGS', 'MAKELEVEL', 'CFLAGS', 'CC', 'MFLAGS'):
            env.pop(k, None)
        for cmd in (['perl', 'config.pl', '--prefix=/usr/local'], ['make', 'all']):
            r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, timeout=600)
            if r.returncode:
                raise CheckError('build failed: %s\n%s' % (cmd, (r.stdout + r.stderr)[-3000:].decode('utf-8', 'replace')))
        for b in ('jbofihe', 'vlatai', 'jvocuhadju', 'smujajgau', 'cmafihe', 'smujmaji.dat'):
            if not os.path.exists(os.path.join(src, b)):
                raise CheckError('build produced no ' + b)
        runner = os.path.join(self.scratch, 'runner')
        r = subprocess.run(['gcc', '-O2', '-o', runner, os.path.join(VERIF, 'harness', 'runner.c'), '-lpthread'],
                           capture_output=True)
        if r.returncode:
            raise CheckError('runner build failed ' + r.stderr.decode())
        self.runner = runner
        self.bdir = src
        self.dict = os.path.join(src, 'smujmaji.dat')
        log('[%s] built in %.1fs' % (self.prop, time.time() - self.t0))
        return src

    def exe(self, name):
        return os.path.join(self.build(), name)

    # ---- batch runs --------------------------------------------------
    def run(self, jobs, cpu=5, dict_path='@std'):
        """jobs: list of (argv list, stdin bytes) or (argv, stdin, dict path).
        argv[0] is a program name in the build directory.  Returns a list of
        (status, stdout, stderr); status 1000+N = killed by signal N."""
        self.build()
        if not jobs:
            return []
        jf = os.path.join(self.scratch, 'jobs.bin')
        of = os.path.join(self.scratch, 'out.bin')
        envs, eidx = [], {}

        def env_index(d):
            if d not in eidx:
                envs.append(('JBOFIHE_DICTIONARY=' + (self.dict if d == '@std' else d)).encode())
                eidx[d] = len(envs)
            return eidx[d]
        body = []
        for j in jobs:
            argv, inp = j[0], j[1]
            d = j[2] if len(j) > 2 else dict_path
            if isinstance(inp, str):
                inp = inp.encode('latin-1')
            parts = [struct.pack('<I', len(argv))]
            for i, a in enumerate(argv):
                if i == 0:
                    a = os.path.join(self.bdir, a)
                a = a.encode('latin-1') if isinstance(a, str) else a
                parts.append(struct.pack('<I', len(a)))
                parts.append(a)
            parts.append(struct.pack('<I', len(inp)))
            parts.append(inp)
            parts.append(struct.pack('<I', env_index(d)))
            body.append(b''.join(parts))
        with open(jf, 'wb') as f:
            f.write(struct.pack('<I', len(envs)))
            for e in envs:
                f.write(struct.pack('<I', len(e)) + e)
            f.write(struct.pack('<I', len(jobs)))
            f.writelines(body)
        r = subprocess.run([self.runner, jf, of, str(NCPU), str(cpu)], cwd=self.scratch, capture_output=True)
        if r.returncode:
            raise CheckError('runner failed: ' + r.stderr.decode())
        with open(of, 'rb') as f:
            data = f.read()
        res, p = [], 0
        for _ in jobs:
            st, n = struct.unpack_from('<iI', data, p)
            p += 8
            out = data[p:p + n].decode('latin-1')
            p += n
            (n,) = struct.unpack_from('<I', data, p)
            p += 4
            err = data[p:p + n].decode('latin-1')
            p += n
            res.append((st, out, err))
        os.unlink(jf)
        os.unlink(of)
        self.cov['runs'] += len(jobs)
        return res

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, files=None, workers=None, timeout=800, simulate=None, depth=None, heap='12g',
            allow_violation=False):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`, in a
        directory of its own holding the specification and the given data
        files.  Returns (stdout text, stats dict)."""
        self.tlc_n += 1
        d = os.path.join(self.scratch, 'tlc%d' % self.tlc_n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for f in os.listdir(DATA):
            os.symlink(os.path.join(DATA, f), os.path.join(d, f))
        for name, content in (files or {}).items():
            p = os.path.join(d, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, 'w') as f:
                f.write(content)
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
               '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers or NCPU), '-config', 'run.cfg', '-metadir',
               os.path.join(d, 'meta'), '-noGenerateSpecTE', '-lncheck', 'final', '-fpmem', '0.3']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100), '-seed', str(self.seed)]
        cmd += [module + '.tla']
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = r.stdout
        st = {'module': module, 'wall_s': round(time.time() - t, 1), 'rc': r.returncode}
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            st['generated'], st['distinct'] = int(m.group(1)), int(m.group(2))
            self.cov['transitions'] += st['generated']
            self.cov['states'] += st['distinct']
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            st['depth'] = int(m.group(1))
        self.cov['models'].append(st)
        if r.returncode != 0 and not allow_violation:
            raise CheckError('TLC failed on %s (rc %d):\n%s\n%s' % (module, r.returncode, re.sub(r'Attempted to apply the operator overridden.*?following error:\n', '', out[max(0, out.find('Error:')):], flags=re.S)[:2500] + '\n...\n' + out[-600:], r.stderr[-1000:]))
        shutil.rmtree(d, ignore_errors=True)
        log('[%s] TLC %s: %s' % (self.prop, module, {k: v for k, v in st.items() if k != 'module'}))
        return out, st

    # ---- verdicts --------------------------------------------------------
    def violation(self, key, detail):
        """key: the concrete failing input/call; detail: a JSON-able record."""
        for k in self.known:
            if k.get('status') != 'fixed' and re.fullmatch(k['match'], key, re.S):
                self.known_hits.setdefault(k['id'], (k, []))[1].append(key)
                return
        self.violations.append({'key': key, 'detail': detail})

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s)

    def finish(self, level, note=''):
        c = self.cov
        c['known_findings_seen'] = {k: len(v[1]) for k, v in self.known_hits.items()}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': c,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations),
              'assumptions': self.assumptions}
        if note:
            ev['coverage']['note'] = note
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for kid, (k, keys) in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rc = 0
        if self.violations:
            rp = os.path.join(VERIF, 'evidence', '%s-replay.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'violations': self.violations[:50], 'total': len(self.violations)}, f, indent=1)
            for v in self.violations[:5]:
                log('violation: ' + json.dumps(v)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            rc = 1
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        sys.stdout.flush()
        return rc


def load_known(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                k = json.loads(l)
                if k['property'] == prop:
                    res.append(k)
    return res


def mismatches(out):
    """Collect the JSON records printed by the specifications as
    lines  "MISMATCH <json>"."""
    res = []
    for l in out.splitlines():
        m = re.match(r'^"?MISMATCH (.*?)"?$', l)
        if m:
            s = m.group(1)
            if l.startswith('"'):
                s = s.replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s))
    return res
