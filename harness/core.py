"""
Harness core.

A property module (props/cNN.py) holds a list of Check objects. A Check is

- a source of JSON-able cases: a generator (see engine.py) and/or a finite
  enumeration and/or a list of fixed examples, and
- run(case, ctx), which executes the real code from /repo on the case and
  raises if the oracle disagrees.

The main process distributes the work over shard processes. Every random
choice is made by the engine, seeded from (VERIF_SEED, property, check, shard).
A failing case is shrunk, written out as JSON and can be replayed without the
engine: check.sh <property> --replay <file>.
"""

import sys, os, json, time, random, hashlib, signal, traceback, shutil, tempfile
import subprocess, resource, importlib, importlib.machinery, contextlib, io, logging, threading

VERIF = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
REPO = os.environ.get ('LULUA_REPO', '/repo')

class FreshLoader (importlib.machinery.SourceFileLoader):
    """ Always compile the source, never use a (possibly stale) .pyc """
    def path_stats (self, path):
        raise OSError ('no byte code')
    def set_data (self, path, data, *, _mode=0o666):
        pass

def freshHook (path):
    real = os.path.realpath (path)
    if real != os.path.realpath (REPO) and not real.startswith (os.path.realpath (REPO) + os.sep):
        raise ImportError ('not part of the repository')
    return importlib.machinery.FileFinder (path, (FreshLoader, ['.py']))

def bootstrap ():
    """ Make /repo (first) importable """
    if freshHook not in sys.path_hooks:
        sys.path_hooks.insert (0, freshHook)
        sys.path_importer_cache.clear ()
    if REPO not in sys.path:
        sys.path.insert (0, REPO)

class Check:
    def __init__ (self, name, run, gen=None, enumerate=None, examples=(),
            quick=0, thorough=None, round=400, cpu=60, shrink=40):
        """
        name: identifies this check inside its property
        run: callable (case, ctx)
        gen: callable (engine.D) -> case
        enumerate: callable (tier) -> iterable of cases, finite, walked completely
        examples: fixed cases (regressions)
        quick/thorough: number of generated cases, all shards together
        round: cases to generate before it is the next check’s turn
        cpu: cpu seconds a single case may take before it counts as endless
        shrink: seconds to spend on simplifying a failing case
        """
        self.name = name
        self.run = run
        self.gen = gen
        self.enumerate = enumerate
        self.examples = list (examples)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*12
        self.round = round
        self.shrink = shrink
        self.cpu = cpu

class Endless (BaseException):
    """ A case used more cpu time than allowed """

class Violation (AssertionError):
    pass

def short (x, n=1500):
    s = repr (x)
    return s if len (s) <= n else s[:n//2] + f' …({len (s)})… ' + s[-n//2:]

class Ctx:
    """ Handed to run() """

    def __init__ (self, tmp, rec):
        self.tmp = tmp
        self.rec = rec
        self.tags = set ()
        self.isNontrivial = False
        self._n = 0

    def begin (self):
        self.tags = set ()
        self.isNontrivial = False

    def tag (self, name, cond=True):
        if cond:
            self.tags.add (name)

    def nontrivial (self, cond=True):
        if cond:
            self.isNontrivial = True

    def fail (self, msg):
        raise Violation (msg)

    def true (self, cond, msg, *args):
        if not cond:
            raise Violation (msg + ''.join ('\n  ' + short (x) for x in args))

    def eq (self, got, want, msg):
        if not (got == want):
            raise Violation (f'{msg}\n  got:  {short (got)}\n  want: {short (want)}')

    def close (self, got, want, msg, rel=1e-9, abs_=1e-9):
        if not (abs (got-want) <= max (abs_, rel*max (abs (got), abs (want)))):
            raise Violation (f'{msg}\n  got:  {got!r}\n  want: {want!r}')

    def path (self, name):
        """ File name inside a scratch directory which is removed after the case """
        d = os.path.join (self.tmp, 'case')
        os.makedirs (d, exist_ok=True)
        return os.path.join (d, name)

    def cleanup (self):
        d = os.path.join (self.tmp, 'case')
        if os.path.isdir (d):
            shutil.rmtree (d, ignore_errors=True)

class Record:
    """ What a shard did """
    def __init__ (self):
        self.evaluations = {}
        self.nontrivial = {}
        self.tags = {}
        self.samples = {}
        self.enumerated = {}
        self.violation = None
        self.outOfTime = False
        self.coverageCases = 0

    def dump (self, path):
        d = dict (self.__dict__)
        d['nontrivial'] = {k: [x.hex () for x in v] for k, v in self.nontrivial.items ()}
        with open (path + '.tmp', 'w') as fd:
            json.dump (d, fd)
        os.rename (path + '.tmp', path)

def canon (case):
    return json.dumps (case, sort_keys=True, ensure_ascii=True)

class Runner:
    def __init__ (self, prop, tier, seed, shard, shards, tmp, deadline):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.shards = shards
        self.rec = Record ()
        self.ctx = Ctx (tmp, self.rec)
        self.deadline = deadline
        self.current = None
        self.states = {}
        from .engine import Coverage
        self.coverage = Coverage (os.path.join (REPO, 'lulua'))

    def execute (self, check, case):
        """ Execute one case, count it """
        ctx = self.ctx
        ctx.begin ()
        self.current = (check, case)
        signal.setitimer (signal.ITIMER_PROF, check.cpu)
        try:
            check.run (case, ctx)
        finally:
            signal.setitimer (signal.ITIMER_PROF, 0)
            ctx.cleanup ()
        rec = self.rec
        n = check.name
        rec.evaluations[n] = rec.evaluations.get (n, 0)+1
        t = rec.tags.setdefault (n, {})
        for k in ctx.tags:
            t[k] = t.get (k, 0)+1
        if ctx.isNontrivial:
            c = canon (case)
            h = hashlib.sha1 (c.encode ('ascii')).digest ()[:8]
            s = rec.nontrivial.setdefault (n, set ())
            if h not in s:
                s.add (h)
                samples = rec.samples.setdefault (n, [])
                # keep the first, then replace ever more rarely
                if len (c) < 4000 and (len (samples) < 2 or (len (s) & (len (s)-1)) == 0):
                    samples.append (case)
                    if len (samples) > 3:
                        samples.pop (0)

    def violate (self, check, case, error, shrunk=True):
        self.rec.violation = dict (property=self.prop, check=check.name, case=case,
                error=error[-6000:], shrunk=shrunk)

    def guarded (self, check, case):
        """ Execute a single, not generated case. Return False if violated. """
        try:
            self.execute (check, case)
            return True
        except Endless:
            self.violate (check, case, f'no result after {check.cpu} s of cpu time', False)
        except Exception:
            self.violate (check, case, traceback.format_exc (), False)
        return False

    def generate (self, check, n):
        """ n generated cases """
        from .engine import D, mutate, Shrinker
        st = self.states.get (check.name)
        if st is None:
            s = int.from_bytes (hashlib.sha256 (
                    f'{self.seed}/{self.prop}/{check.name}/{self.shard}'.encode ()).digest ()[:8], 'big')
            st = self.states[check.name] = (random.Random (s), [])
        rng, corpus = st
        for _ in range (n):
            if time.monotonic () > self.deadline:
                self.rec.outOfTime = True
                return False
            prefix = ()
            if corpus and rng.random () < 0.25:
                a = corpus[int (rng.random ()*len (corpus))]
                b = corpus[int (rng.random ()*len (corpus))]
                prefix = mutate (rng, a, b)
            d = D (rng, prefix)
            case = check.gen (d)
            self.coverage.take ()
            try:
                self.execute (check, case)
            except Endless:
                self.violate (check, case, f'no result after {check.cpu} s of cpu time', False)
                return False
            except Exception:
                self.violate (check, case, traceback.format_exc (), False)
            if self.rec.violation is not None:
                self.shrink (check, d.choices)
                return False
            new = self.coverage.take ()
            if new and len (d.choices) < 5000:
                corpus.append (d.choices)
                self.rec.coverageCases += 1
        return True

    def shrink (self, check, choices):
        from .engine import D, Shrinker
        def test (case):
            try:
                self.execute (check, case)
            except Exception:
                self.violate (check, case, traceback.format_exc ())
                return True
            except Endless:
                pass
            return False
        seconds = float (os.environ.get ('VERIF_SHRINK') or check.shrink)
        Shrinker (check.gen, choices, test, seconds).run ()

    def run (self, checks):
        """ Return True if the property held """
        for check in checks:
            for i, case in enumerate (check.examples):
                if i % self.shards == self.shard and not self.guarded (check, case):
                    return False
        for check in checks:
            if check.enumerate is not None:
                done = True
                for i, case in enumerate (check.enumerate (self.tier)):
                    if i % self.shards != self.shard:
                        continue
                    if time.monotonic () > self.deadline:
                        self.rec.outOfTime = True
                        done = False
                        break
                    if not self.guarded (check, case):
                        return False
                self.rec.enumerated[check.name] = done
        # round robin, so every check gets its share if time runs out
        todo = {}
        for check in checks:
            if check.gen is not None:
                total = check.quick if self.tier == 'quick' else check.thorough
                total = int (total*float (os.environ.get ('VERIF_SCALE') or 1))
                n = total//self.shards + (1 if self.shard < total%self.shards else 0)
                if n > 0:
                    todo[check.name] = [check, n]
        while todo:
            for k in list (todo):
                check, n = todo[k]
                m = min (n, check.round)
                if time.monotonic () > self.deadline:
                    self.rec.outOfTime = True
                    return self.rec.violation is None
                self.generate (check, m)
                if self.rec.violation is not None:
                    return False
                if self.rec.outOfTime:
                    return True
                todo[k][1] -= m
                if todo[k][1] <= 0:
                    del todo[k]
        return True

def onEndless (signum, frame):
    raise Endless ()

def loadProperty (prop):
    mod = importlib.import_module ('props.' + prop.lower ())
    names = [c.name for c in mod.CHECKS]
    assert len (set (names)) == len (names), names
    return mod

def shardMain (prop, tier, seed, shard, shards, out, seconds):
    signal.signal (signal.SIGPROF, onEndless)
    resource.setrlimit (resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit (resource.RLIMIT_CORE, (0, 0))
    tmp = tempfile.mkdtemp (prefix=f'shard{shard}-')
    os.chdir (tmp)
    mod = loadProperty (prop)
    r = Runner (prop, tier, seed, shard, shards, tmp, time.monotonic ()+seconds)
    r.run (mod.CHECKS)
    r.rec.dump (out)
    return 0

def replayMain (prop, path):
    """ Run a saved case, without generator """
    signal.signal (signal.SIGPROF, onEndless)
    with open (path) as fd:
        d = json.load (fd)
    mod = loadProperty (prop)
    check = next (c for c in mod.CHECKS if c.name == d['check'])
    tmp = tempfile.mkdtemp (prefix='replay-')
    os.chdir (tmp)
    r = Runner (prop, 'quick', 0, 0, 1, tmp, float ('inf'))
    ok = r.guarded (check, d['case'])
    os.chdir ('/')
    shutil.rmtree (tmp, ignore_errors=True)
    if ok:
        print (f'property={prop} check={check.name}: holds for this case')
        return 0
    print (r.rec.violation['error'])
    print (f'VIOLATION property={prop} replay={path}')
    return 1

def main (prop, tier, seed):
    start = time.monotonic ()
    mod = loadProperty (prop)
    shards = getattr (mod, 'SHARDS', 8)
    seconds = getattr (mod, 'SECONDS', {}).get (tier, 240 if tier == 'quick' else 3000)
    scratch = tempfile.mkdtemp (prefix=f'verif-{prop}-')
    env = dict (os.environ)
    env['TMPDIR'] = scratch
    procs = []
    results = []
    broken = None
    try:
        for i in range (shards):
            out = os.path.join (scratch, f'result{i}.json')
            log = open (os.path.join (scratch, f'log{i}'), 'wb')
            p = subprocess.Popen ([sys.executable, '-W', 'ignore', os.path.join (VERIF, 'run.py'), prop, tier,
                    '--shard', str (i), str (shards), out, str (seconds)],
                    env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                    cwd=scratch, start_new_session=True)
            log.close ()
            procs.append ((p, out, i))
        pending = list (procs)
        hard = start+seconds+200
        while pending:
            for x in list (pending):
                p, out, i = x
                if p.poll () is None:
                    continue
                pending.remove (x)
                killGroup (p)
                if os.path.exists (out):
                    with open (out) as fd:
                        d = json.load (fd)
                    results.append (d)
                    if d['violation'] is not None:
                        # one is enough
                        for q, _, _ in pending:
                            killGroup (q)
                        pending = []
                        break
                else:
                    with open (os.path.join (scratch, f'log{i}'), errors='replace') as fd:
                        broken = f'shard {i} exited with {p.returncode}\n' + fd.read ()[-4000:]
            if time.monotonic () > hard:
                broken = broken or 'shards did not finish in time'
                break
            time.sleep (0.05)
    finally:
        for p, _, _ in procs:
            killGroup (p)
        for p, _, _ in procs:
            p.wait ()
        shutil.rmtree (scratch, ignore_errors=True)

    violations = [d['violation'] for d in results if d['violation'] is not None]
    coverage = mergeCoverage (mod, results)
    evidence = dict (property=prop, tier=tier, seed=seed, level='exploration',
            coverage=coverage,
            assumptions=list (getattr (mod, 'ASSUMPTIONS', [])),
            wall_s=round (time.monotonic ()-start, 2),
            violations=len (violations))
    os.makedirs (os.path.join (VERIF, 'evidence'), exist_ok=True)
    with open (os.path.join (VERIF, 'evidence', f'{prop}.json'), 'w') as fd:
        json.dump (evidence, fd, indent=1, ensure_ascii=True)
        fd.write ('\n')

    if violations:
        # smallest one
        v = min (violations, key=lambda x: (not x['shrunk'], len (canon (x['case']))))
        d = os.path.join (VERIF, 'replays', prop)
        os.makedirs (d, exist_ok=True)
        h = hashlib.sha1 (canon (v['case']).encode ()).hexdigest ()[:10]
        path = os.path.join (d, f'{v["check"]}-{h}.json')
        with open (path, 'w') as fd:
            json.dump (v, fd, indent=1, ensure_ascii=True)
        print (f'check {v["check"]}, case {short (v["case"], 2000)}')
        print (v['error'])
        print (f'VIOLATION property={prop} replay={path}')
        return 1
    if broken is not None:
        print (f'check broken: {broken}', file=sys.stderr)
        return 2
    total = coverage['evaluations']
    print (f'property={prop} tier={tier} seed={seed}: held on {total} cases, '
            f'{coverage["distinct_nontrivial"]} of them distinct and non-trivial, '
            f'{evidence["wall_s"]} s')
    return 0

def killGroup (p):
    try:
        os.killpg (p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass

def mergeCoverage (mod, results):
    per = {}
    for c in mod.CHECKS:
        ev = sum (d['evaluations'].get (c.name, 0) for d in results)
        nt = set ()
        tags = {}
        samples = []
        for d in results:
            nt.update (d['nontrivial'].get (c.name, []))
            for k, v in d['tags'].get (c.name, {}).items ():
                tags[k] = tags.get (k, 0)+v
            samples.extend (d['samples'].get (c.name, []))
        x = dict (evaluations=ev, distinct_nontrivial=len (nt),
                classes=dict (sorted (tags.items ())))
        if c.enumerate is not None:
            x['enumeration_complete'] = all (d['enumerated'].get (c.name, False) for d in results) and bool (results)
        per[c.name] = (x, samples)
    samples = []
    for name, (x, s) in per.items ():
        samples.extend (dict (check=name, case=y) for y in s[-2:])
    return dict (
            evaluations=sum (x['evaluations'] for x, _ in per.values ()),
            distinct_nontrivial=sum (x['distinct_nontrivial'] for x, _ in per.values ()),
            rule=mod.RULE,
            samples=samples,
            cases_with_new_code_coverage=sum (d['coverageCases'] for d in results),
            checks={name: x for name, (x, _) in per.items ()},
            out_of_time=any (d['outOfTime'] for d in results))

### helpers for executing command line tools inside this process ###

class Result:
    def __init__ (self, ret, out, err, exc):
        self.ret = ret
        self.out = out
        self.err = err
        self.exc = exc

    @property
    def text (self):
        return self.out.decode ('utf-8')

@contextlib.contextmanager
def quiet ():
    logging.disable (logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable (logging.NOTSET)

class Buffer (io.BytesIO):
    """ Contents are available after closing """
    def close (self):
        pass

def cli (func, argv, stdin=b''):
    """
    Call a command line entry point in this process. Exceptions propagate,
    except for SystemExit, whose code is returned.
    """
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out, err = Buffer (), Buffer ()
    sys.argv = ['prog'] + list (argv)
    sys.stdin = io.TextIOWrapper (io.BufferedReader (io.BytesIO (stdin)), encoding='utf-8')
    sys.stdout = io.TextIOWrapper (out, encoding='utf-8', write_through=True)
    sys.stderr = io.TextIOWrapper (err, encoding='utf-8', write_through=True)
    ret = None
    try:
        with quiet ():
            try:
                ret = func ()
            except SystemExit as e:
                ret = e.code
        sys.stdout.flush ()
        sys.stderr.flush ()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    return Result (ret, out.getvalue (), err.getvalue (), None)
