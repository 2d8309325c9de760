"""Shared machinery: building the harness, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
BIN = os.path.join(HARNESS, 'target', 'debug', 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The check itself could not run: no verdict."""


class Hang(Exception):
    pass


_work = None


def work():
    """A scratch folder of this run."""
    global _work
    if _work is None:
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix='run-', dir=base)
    return _work


def cleanup():
    if _work and os.path.isdir(_work):
        shutil.rmtree(_work, ignore_errors=True)


def build():
    """Builds the harness against /repo's current working tree."""
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(HARNESS, 'target'))
    env.pop('RUSTFLAGS', None)
    # Do not trust modification times: always compile the crate under test again.
    subprocess.run(['cargo', 'clean', '--offline', '-p', 'svgdom'], cwd=HARNESS, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('the harness does not build against /repo:\n' + p.stdout[-4000:])


def harness(args, timeout=120, out=None, stall=None):
    """Runs the harness; returns (exit code, output file). Running longer than timeout, or than stall
    without any new output, counts as exit code -99."""
    out = out or os.path.join(work(), 'out-%d.ndjson' % time.monotonic_ns())
    with open(out, 'wb') as f:
        p = subprocess.Popen([BIN] + [str(a) for a in args], stdout=f, stderr=subprocess.DEVNULL)
        t0 = seen = time.monotonic()
        size, wait = 0, .005
        while p.poll() is None:
            time.sleep(wait)
            wait = min(.2, wait * 1.5)
            now, n = time.monotonic(), os.path.getsize(out)
            if n != size: size, seen = n, now
            if now - t0 > timeout or stall and now - seen > stall:
                p.kill()
                p.wait()
                return -99, out
        return p.returncode, out


class Tlc:
    def __init__(self, module, cfg, env=None, timeout=800, workers=8, heap='6g'):
        tag = '%s-%d' % (module, time.monotonic_ns())
        cfgfile = os.path.join(work(), tag + '.cfg')
        open(cfgfile, 'w').write(cfg)
        meta = os.path.join(work(), tag + '.meta')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Djava.io.tmpdir=' + work(), '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8',
               '-Dstdout.encoding=UTF-8', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE',
               '-metadir', meta, '-config', cfgfile, module]
        out = os.path.join(work(), tag + '.out')
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        with open(out, 'wb') as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError('TLC took more than %d s on %s' % (timeout, module))
        shutil.rmtree(meta, ignore_errors=True)
        self.wall = time.time() - t0
        self.rc = rc
        self.lines = {}
        self.states = self.distinct = 0
        tail = []
        with open(out, encoding='utf-8') as f:
            for l in f:
                m = re.match(r'"([A-Z]+) ', l)
                if m:
                    try:
                        s = json.loads(l)
                    except ValueError:
                        raise ToolError('unreadable TLC output: ' + l[:300])
                    self.lines.setdefault(m.group(1), []).append(json.loads(s[len(m.group(1)) + 1:]))
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct', l)
                if m:
                    self.states, self.distinct = int(m.group(1)), int(m.group(2))
                tail.append(l)
                if len(tail) > 80:
                    tail.pop(0)
        os.unlink(out)
        if rc != 0:
            raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, rc, ''.join(tail)))

    def get(self, key):
        return self.lines.get(key, [])


class Report:
    """Collects what a check covered and what it found."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.violations = []      # dicts
        self.known = []

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what):
        self.violations.append(what)

    def finish(self):
        findings = json.load(open(os.path.join(VERIF, 'known_findings.json')))['known']
        new = []
        for v in self.violations:
            k = [f for f in findings if f['property'] == self.prop and f['match'] == v.get('finding')]
            if k and v.get('finding'):
                if k[0] not in self.known:
                    self.known.append(k[0])
            else:
                new.append(v)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.notes, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if new:
            d = os.path.join(VERIF, 'work', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.json' % self.prop)
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'violations': new[:20]},
                      open(path, 'w'), indent=1, ensure_ascii=False)
            for v in new[:3]:
                print('  ' + json.dumps(v, ensure_ascii=False)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0
