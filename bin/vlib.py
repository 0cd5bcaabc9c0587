"""What every check is made of: TLC generating cases from the specification and
the harness replaying them into the real code, the harness recording runs of
the real code and TLC judging them, and TLC checking a model by itself."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = '/repo'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LANES = 2           # tasks at a time
CORES = 4           # for each


class ToolError(Exception):
    pass


def tla(x):
    """A TLA+ expression"""
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Text):
        return '<<%s>>' % ', '.join(str(ord(c)) for c in x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (list, tuple)):
        return '<<%s>>' % ', '.join(tla(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(tla(y) for y in x))
    if isinstance(x, dict):
        return '[%s]' % ', '.join('%s |-> %s' % (k, tla(v)) for k, v in x.items())
    raise TypeError(x)


class Text(str):
    """Characters: a sequence of code points in TLA+"""


def T(x):
    """The strings in x are Text"""
    if isinstance(x, str):
        return Text(x)
    if isinstance(x, (list, tuple)):
        return [T(y) for y in x]
    return x


def build():
    """The harness, and with it the code as it is now"""
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=HARNESS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('the code under test or the harness does not build:\n' + r.stdout[-3000:])
    return os.path.join(HARNESS, 'target', 'debug', 'harness')


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix='yary-%s-' % prop)
        self.bin = build()
        self.found = []          # violations: dicts
        self.states = self.transitions = self.traces = self.cases = self.runs = 0
        self.samples = []
        self.parts = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- TLC ---------------------------------------------------------------
    def scratch(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), d)
        return d

    def module(self, d, name, base, consts, invariant=None, more=''):
        """A model of the module base, with its constants defined"""
        defs = ''.join('%sV == %s\n' % (k, v if isinstance(v, Raw) else tla(v)) for k, v in consts.items())
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n%s====\n' % (name, base, defs))
        with open(os.path.join(d, name + '.cfg'), 'w') as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
            if invariant:
                f.write('INVARIANT %s\n' % invariant)
            f.write(more)
            if consts:
                f.write('CONSTANTS\n' + ''.join('  %s <- %sV\n' % (k, k) for k in consts))

    def tlc(self, d, name, cfg=None, extra=()):
        return ['java', '-Xss512m', '-Xmx6g', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % CORES,
                '-Djava.io.tmpdir=' + d, '-cp', JAR, 'tlc2.TLC', '-noTE', '-metadir', os.path.join(d, 'states'),
                '-workers', str(CORES), '-config', (cfg or name) + '.cfg', *extra, name + '.tla']

    def judge_tlc(self, log, what):
        """Did TLC finish, and find nothing?"""
        if 'Model checking completed. No error has been found.' not in log and \
           not re.search(r'The number of states generated: ', log):
            raise ToolError('%s: TLC failed on the specification:\n%s' % (what, log[max(log.find('Error:'), 0):][:3000]))
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', log)
        if m:
            self.states += int(m[-1][1].replace(',', ''))
            self.transitions += int(m[-1][0].replace(',', ''))

    # -- tasks -------------------------------------------------------------
    def generate(self, name, base, consts, aspects, variants, invariant='Check', simulate=None, limit=800):
        """Cases from the module base, replayed"""
        t0 = time.time()
        d = self.scratch(name)
        self.module(d, 'MC', base, consts, invariant)
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed)]
        out, log = os.path.join(d, 'mismatches.json'), os.path.join(d, 'log')
        replay = [self.bin, 'replay', '--cases', '-', '--aspects', aspects, '--variants', variants,
                  '--seed', str(self.seed), '--out', out, '--jobs', str(CORES)]
        t = subprocess.Popen(self.tlc(d, 'MC', extra=extra), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        s = subprocess.Popen(['tee', os.path.join(d, 'all')], stdin=t.stdout, stdout=subprocess.PIPE)
        t.stdout.close()
        r = subprocess.Popen(replay, cwd=d, stdin=s.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, preexec_fn=limits)
        s.stdout.close()
        try:
            o, e = r.communicate(timeout=limit)
            t.wait(timeout=limit)
            s.wait(timeout=30)
        except subprocess.TimeoutExpired:
            for p in (t, s, r):
                p.kill()
            raise ToolError('%s: out of time' % name)
        log = []
        with open(os.path.join(d, 'all'), errors='replace') as f:
            for line in f:
                if not line.startswith('"{'):
                    log.append(line)
        if r.returncode == 0:
            self.judge_tlc(''.join(log), name)
        self.replayed(name, d, r.returncode, o, e, out, aspects, variants, t0)
        shutil.rmtree(d, ignore_errors=True)

    def replayed(self, name, d, rc, o, e, out, aspects, variants, t0):
        if rc == 3:
            for line in open(out):
                x = json.loads(line)['hang']
                self.found.append(dict(task=name, doc=x['doc'], variant=x['variant'], diff='hangs', kind='hang'))
            return
        if rc != 0:
            # which case was it?
            last = os.path.join(d, 'last')
            subprocess.run([self.bin, 'replay', '--cases', os.path.join(d, 'all'), '--aspects', aspects, '--variants',
                            variants, '--seed', str(self.seed), '--out', out, '--jobs', '1', '--log', last],
                           cwd=d, capture_output=True, preexec_fn=limits, timeout=600)
            x = {}
            if os.path.exists(last):
                x = json.load(open(last))
            self.found.append(dict(task=name, doc=x.get('doc', ''), variant=x.get('variant', ''), kind='crash',
                                   diff='the process died: rc %s %s' % (rc, e[-500:])))
            return
        s = json.loads(o.strip().split('\n')[-1])
        self.cases += s['cases']
        self.runs += s['runs']
        self.traces += s['runs']
        self.parts.append(dict(task=name, cases=s['cases'], accepted=s['accepted'], runs=s['runs'], mismatches=s['mismatches'],
                               wall=round(time.time() - t0, 1)))
        self.samples += s['samples'][:2]
        if s['cases'] == 0:
            raise ToolError('%s: no cases' % name)
        for line in open(out):
            x = json.loads(line)
            x['task'], x['kind'] = name, 'replay'
            self.found.append(x)

    def check_model(self, name, base, consts, invariants, properties=(), limit=800):
        """A model by itself"""
        d = self.scratch(name)
        more = ''.join('INVARIANT %s\n' % i for i in invariants) + ''.join('PROPERTY %s\n' % p for p in properties)
        self.module(d, 'MC', base, consts, more=more)
        r = subprocess.run(self.tlc(d, 'MC'), cwd=d, capture_output=True, text=True, timeout=limit)
        self.judge_tlc(r.stdout, name)
        m = re.findall(r'([\d,]+) distinct states found', r.stdout)
        self.parts.append(dict(task=name, states=m[-1] if m else '?'))
        shutil.rmtree(d, ignore_errors=True)

    def traces_of(self, name, profile, n, variants, aspects, seed=0, limit=800):
        """Runs of the real code on random documents, judged by TLC"""
        t0 = time.time()
        d = self.scratch(name)
        tr = os.path.join(d, 'runs.json')
        r = subprocess.run([self.bin, 'record', '--gen', profile, '--seed', str(self.seed * 1000 + seed), '--n', str(n),
                            '--variants', variants, '--out', tr, '--log', os.path.join(d, 'last')], cwd=d,
                           capture_output=True, text=True, preexec_fn=limits, timeout=limit)
        bad = tr + '.bad'
        if r.returncode == 3:
            for line in open(bad):
                x = json.loads(line)['hang']
                self.found.append(dict(task=name, doc=x['doc'], variant=x['variant'], diff='hangs', kind='hang'))
            return
        if r.returncode != 0:
            last, x = os.path.join(d, 'last'), {}
            subprocess.run([self.bin, 'record', '--gen', profile, '--seed', str(self.seed * 1000 + seed), '--n', str(n),
                            '--variants', variants, '--out', tr, '--jobs', '1', '--log', last], cwd=d,
                           capture_output=True, preexec_fn=limits, timeout=limit)
            if os.path.exists(last):
                x = json.load(open(last))
            self.found.append(dict(task=name, doc=x.get('doc', ''), variant=x.get('variant', ''), kind='crash',
                                   diff='the process died: rc %s %s' % (r.returncode, r.stderr[-500:])))
            return
        for line in open(bad):
            x = json.loads(line)
            x['task'], x['kind'] = name, 'record'
            self.found.append(x)
        with open(os.path.join(d, 'aspects.json'), 'w') as f:
            f.write(json.dumps(aspects.split(',')) + '\n')
        canary = self.spoil(tr)
        env = dict(os.environ, TRACE=tr, ASPECTS=os.path.join(d, 'aspects.json'))
        r = subprocess.run(self.tlc(d, 'Trace'), cwd=d, capture_output=True, text=True, env=env, timeout=limit)
        self.judge_tlc(r.stdout, name)
        runs = sum(1 for _ in open(tr)) - canary
        rejected = seen = 0
        for line in r.stdout.split('\n'):
            if line.startswith('"{') and 'rejected' in line:
                x = json.loads(json.loads(line))
                if x['id'] == 'spoilt':
                    seen += 1
                    continue
                rejected += 1
                self.found.append(dict(task=name, kind='trace', doc=''.join(chr(c) for c in x['d']), variant=x['id'],
                                       diff='%s %s: the specification has %s, the code %s' %
                                       (x['what'], x['op'], json.dumps(x['expected']), json.dumps(x['got']))))
        if seen != canary:
            raise ToolError('%s: a trace which was spoilt on purpose was accepted' % name)
        self.traces += runs
        self.runs += runs
        self.parts.append(dict(task=name, profile=profile, traces=runs, rejected=rejected, wall=round(time.time() - t0, 1)))
        shutil.rmtree(d, ignore_errors=True)

    def spoil(self, tr):
        """Add copies of recorded runs which have lost an event, or have one twice: TLC must not accept these"""
        out = []
        for line in open(tr):
            x = json.loads(line)
            n = len(x['ops'])
            if n > 3:
                k = 1 + (self.seed + len(x['d'])) % (n - 2)
                x['id'] = 'spoilt'
                if len(out) % 2:
                    x['ops'].insert(k, x['ops'][k])
                else:
                    del x['ops'][k]
                out.append(json.dumps(x))
                if len(out) == 4:
                    break
        with open(tr, 'a') as f:
            f.write(''.join(x + '\n' for x in out))
        return len(out)

    def go(self, tasks):
        """tasks: functions without arguments"""
        with ThreadPoolExecutor(LANES) as pool:
            fs = [pool.submit(t) for t in tasks]
            errs = []
            for f in fs:
                try:
                    f.result()
                except Exception as e:     # the others go on
                    errs.append(e)
        if errs and not self.found:
            raise errs[0]


class Raw(str):
    """A TLA+ expression as it is"""
