"""Builds and runs the driver, runs TLC, keeps the results of a check."""
import hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLADIR = '/opt/veriftools/tla'
SPEC = os.path.join(ROOT, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cargo_env():
    e = dict(os.environ)
    home = e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:%s/.cargo/bin:' % home + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = os.path.join(ROOT, 'driver', 'target')
    e['RUSTFLAGS'] = '--cfg cmaes_verif'
    return e


def source_digest():
    h = hashlib.sha256()
    files = []
    for base in ('src',):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'build.rs') if os.path.exists(os.path.join(REPO, f))]
    for d, _, fs in os.walk(os.path.join(ROOT, 'driver', 'src')):
        files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(ROOT, 'driver', 'Cargo.toml'))
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def build_driver():
    """Always builds what is in the working tree of the repository, whatever its time stamps say"""
    env = cargo_env()
    tdir = env['CARGO_TARGET_DIR']
    exe = os.path.join(tdir, 'release', 'driver')
    stamp = os.path.join(tdir, 'source-digest')
    digest = source_digest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == digest:
        return exe
    if os.path.exists(stamp):
        os.remove(stamp)
    cwd = os.path.join(ROOT, 'driver')
    cargo = ['cargo']
    if os.path.isdir(tdir):
        sh(cargo + ['clean', '--release', '--offline', '-p', 'cmaes'], cwd=cwd, env=env)
        sh(cargo + ['clean', '--release', '--offline', '-p', 'driver'], cwd=cwd, env=env)
    r = sh(cargo + ['build', '--release', '--offline'], cwd=cwd, env=env, timeout=800)
    if r.returncode != 0:
        # the hooks may not fit to changed code: everything public can still be observed
        env['RUSTFLAGS'] = ''
        print('the driver does not build with the hooks:\n' + r.stdout[-1500:])
        r = sh(cargo + ['build', '--release', '--offline'], cwd=cwd, env=env, timeout=800)
    if r.returncode != 0:
        raise ToolError('the driver does not build:\n' + r.stdout[-4000:])
    open(stamp, 'w').write(digest)
    return exe


def build_overrides():
    dst = os.path.join(ROOT, 'build', 'classes')
    src = os.path.join(SPEC, 'java')
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.java'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in files)).hexdigest()
    stamp = os.path.join(ROOT, 'build', 'digest')
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    r = sh(['javac', '-d', dst, '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLADIR, TLADIR)] + files)
    if r.returncode != 0:
        raise ToolError('javac: ' + r.stdout)
    open(stamp, 'w').write(h)


def known_findings():
    """{property: {key: text}} of the recorded findings"""
    res = {}
    for line in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'^finding: property=(\w+) key=(\S+) (.*)$', line)
        if m:
            res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


class Check:
    """One run of the check of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(ROOT, 'work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, 'scratch'))
        self.replays = os.path.join(ROOT, 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.samples = []
        self.labels = {}
        self.notes = {}
        self.findings = {}
        self.phases = {}
        self.nfile = 0
        self.exe = None
        self.assumptions = []
        self.known = known_findings()

    # ---------------------------------------------------------------- reporting
    def log(self, *a):
        print('[%6.1f]' % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, data):
        n = len(self.violations)
        path = os.path.join(self.replays, '%s-%d.json' % (self.pid, n))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'seed': SEED, 'tier': TIER, 'data': data}, f)
        self.violations.append((what, path))
        self.log('violation:', what)

    def finding(self, key, what):
        self.findings[key] = what

    # ---------------------------------------------------------------- driver
    def drive(self, cases, timeout=240, what='cases'):
        """Runs the cases in the real code, 8 processes at a time; returns {id: output}.  A case that
        kills the driver or does not end is a violation."""
        if not self.exe:
            self.exe = build_driver()
            self.log('driver built')
        t0 = time.time()
        procs = int(os.environ.get('VERIF_PROCS', '8'))
        chunks = [cases[i::procs] for i in range(procs)]
        chunks = [c for c in chunks if c]
        running = []
        for c in chunks:
            self.nfile += 1
            base = os.path.join(self.work, 'd%d' % self.nfile)
            with open(base + '.in', 'w') as f:
                for x in c:
                    f.write(json.dumps(x) + '\n')
            scratch = base + '.scratch'
            os.makedirs(scratch)
            err = open(base + '.err', 'w')
            p = subprocess.Popen([self.exe, base + '.in', base + '.out', scratch, base + '.progress'],
                                 stdout=err, stderr=err, cwd=scratch)
            running.append((p, base, c))
        outs = {}
        deadline = t0 + timeout
        for p, base, c in running:
            rc = None
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(base + '.out'):
                for line in open(base + '.out'):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    outs[json.dumps(o['id'])] = o
            if rc == 3:
                raise ToolError('driver: ' + open(base + '.err').read()[-2000:])
            if rc != 0:
                at = open(base + '.progress').read() if os.path.exists(base + '.progress') else 'null'
                missing = [x for x in c if json.dumps(x['id']) not in outs]
                case = missing[0] if missing else None
                self.violation('the code %s in case %s' % ('does not end' if rc is None else
                                                           'killed the process (%s)' % rc, at),
                               {'case': case, 'stderr': open(base + '.err').read()[-2000:]})
        self.phases[what] = {'cases': len(cases), 'seconds': round(time.time() - t0, 1)}
        return {json.loads(k): v for k, v in outs.items()}

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, name, workers=8, deadlock=True, timeout=600, args=(), jvm=(), heap='8g'):
        """Runs TLC, returns (status, text, states, distinct): status ok, deadlock, violated or error"""
        build_overrides()
        t0 = time.time()
        meta = os.path.join(self.work, 'meta-' + name)
        ticks = os.path.join(self.work, name + '.ticks')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-Dticks=' + ticks, *jvm,
               '-DTLA-Library=' + self.work,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Float64Overrides:EmitOverrides',
               '-cp', '%s/build/classes:%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (ROOT, TLADIR, TLADIR),
               'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
               '-config', cfg, *([] if deadlock else ['-deadlock']), *args, os.path.join(SPEC, module + '.tla')]
        try:
            r = sh(cmd, cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise ToolError('TLC did not end within %d s on %s' % (timeout, name))
        shutil.rmtree(meta, ignore_errors=True)
        text = r.stdout
        with open(os.path.join(self.work, name + '.tlc'), 'w') as f:
            f.write(text)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if os.path.exists(ticks):
            for line in open(ticks):
                c, lab = line.rstrip('\n').split(' ', 1)
                self.labels[lab] = self.labels.get(lab, 0) + int(c)
                m = re.match(r'known finding (\S+)', lab)
                if m and m.group(1) in self.known.get(self.pid, {}):
                    self.finding(m.group(1), self.known[self.pid][m.group(1)])
        status = {0: 'ok', 11: 'deadlock', 12: 'violated', 13: 'violated'}.get(r.returncode, 'error')
        self.log('TLC %s: %s, %d states, %d distinct, %.1f s' % (name, status, gen, dist, time.time() - t0))
        self.states += dist
        self.transitions += gen
        return status, text, gen, dist

    def cfg(self, name, lines):
        path = os.path.join(self.work, name + '.cfg')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return path

    def model(self, module, config, over=None, timeout=600, name=None):
        """Exhaustive exploration of a model; its failure is an error of the specification"""
        src = open(os.path.join(SPEC, config + '.cfg')).read()
        for k, v in (over or {}).items():
            src, n = re.subn(r'(?m)^(\s*%s\s*(?:=|<-)\s*).*$' % k, r'\g<1>%s' % v, src)
            if n != 1:
                raise ToolError('no %s in %s' % (k, config))
        name = name or config
        path = self.cfg(name, [src])
        status, text, gen, dist = self.tlc(module, path, name, timeout=timeout,
                                           deadlock='CHECK_DEADLOCK FALSE' not in src)
        if status != 'ok':
            raise ToolError('model %s: %s\n%s' % (name, status, text[-3000:]))
        self.models.append({'model': name, 'constants': over or {}, 'distinct_states': dist, 'states': gen})

    def arithmetic(self, over=None):
        """Compares the module overrides with the definitions of Float64"""
        src = open(os.path.join(SPEC, 'Float64.tla')).read()
        with open(os.path.join(self.work, 'Float64Def.tla'), 'w') as f:
            f.write(re.sub(r'MODULE Float64 ', 'MODULE Float64Def ', src, count=1))
        self.model('MCFloat64', 'MCFloat64', over)

    def validate(self, module, lines, traces, cases, name, checked=None, timeout=600, extra=(),
                 expect=None, view=True, heap='12g'):
        """Checks recorded traces against a trace specification"""
        if not traces:
            return
        tf = os.path.join(self.work, name + '.nd')
        vf = os.path.join(self.work, name + '.viol')
        with open(tf, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        cfg = self.cfg(name, list(lines) + [
            'CONSTANTS',
            '  TraceFile = "%s"' % tf, '  ViolationFile = "%s"' % vf,
            '  Known = {%s}' % ', '.join('"%s"' % k for f in self.known.values() for k in f),
            '  Checked = {%s}' % ', '.join('"%s"' % c for c in (checked or [self.pid])),
            *extra])
        status, text, gen, dist = self.tlc(module, cfg, name, timeout=timeout, heap=heap)
        self.traces += len(traces)
        # a trace whose initial state is not allowed has no states at all, and no deadlock
        lost = status == 'ok' and expect is not None and dist != expect
        if status == 'ok' and not (lost and os.path.exists(vf) and os.path.getsize(vf)):
            if lost:
                raise ToolError('%s: %d distinct states, expected %d' % (name, dist, expect))
            return
        if status == 'error':
            raise ToolError('TLC on %s:\n%s' % (name, text[-3000:]))
        seen = set()
        if os.path.exists(vf):
            for line in open(vf):
                v = json.loads(line)
                key = (v['label'], json.dumps(v['trace']))
                if key in seen or len(seen) >= 3:
                    continue
                seen.add(key)
                v['case'] = cases.get(v['trace']) if cases else None
                self.violation('%s: trace %s, operation %s' % (v['label'], v['trace'], v.get('op')), v)
        if not seen:
            self.violation('trace rejected by %s' % module, {'tlc': text[-3000:]})

    # ---------------------------------------------------------------- the end
    def finish(self, level='model_checking', level_extra=None):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:6],
               'models': self.models, 'labels': self.labels, 'phases': self.phases}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(self.findings.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for what, path in self.violations:
            print('violation of %s: %s' % (self.pid, what))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0
