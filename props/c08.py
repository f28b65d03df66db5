""" Corpus processing gives the same result for any number of parallel workers """

import io, os, sys, json, time, random, signal, threading, select, subprocess, tarfile

from xml.sax.saxutils import escape

from harness import gen, model, real, core
from harness.core import Check
from props.c05 import compare

RULE = 'real lulua-write processes: random layout file, filter chain (lines, json, file text, brotli and tar archives, ' \
    'html and xml documents), ' \
    '1-12 jobs, 0-60 items of very different size, delayed input, input files which are slow to read (pipes), ' \
    'randomly stopped and continued workers, and in half of the cases unreadable, undecodable or malformed items at ' \
    'random positions. Non-trivial: more than one item and more than one job, or a malformed item'
ASSUMPTIONS = ['a process tree that used less than 0.5 s of cpu time in 30 s, at least 60 s after its start and 30 s ' \
    'after the last input was provided, hangs', 'workers are not killed from outside']

### process handling: a zygote saves importing everything again and again ###

def serve ():
    """ Fork and run lulua-write, exactly as the entry point does """
    import lulua.text, lulua.stats
    ctl = os.fdopen (os.dup (1), 'wb', buffering=0)
    cin = os.fdopen (os.dup (0), 'rb')
    while True:
        line = cin.readline ()
        if not line:
            os._exit (0)
        task = json.loads (line)
        pid = os.fork ()
        if pid == 0:
            break
        ctl.write (json.dumps (dict (pid=pid)).encode () + b'\n')
        _, status = os.waitpid (pid, 0)
        ctl.write (json.dumps (dict (status=os.waitstatus_to_exitcode (status))).encode () + b'\n')
    # child: from here on this is the lulua-write process
    ctl.close ()
    cin.close ()
    for fd, (path, flags) in enumerate (((task['stdin'], os.O_RDONLY), (task['stdout'], os.O_WRONLY | os.O_CREAT), (task['stderr'], os.O_WRONLY | os.O_CREAT))):
        f = os.open (path, flags, 0o600)
        os.dup2 (f, fd)
        os.close (f)
    sys.stdin = io.TextIOWrapper (io.BufferedReader (io.FileIO (0, closefd=False)), encoding='utf-8')
    sys.stdout = io.TextIOWrapper (io.BufferedWriter (io.FileIO (1, 'w', closefd=False)), encoding='utf-8')
    sys.stderr = io.TextIOWrapper (io.FileIO (2, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
    sys.argv = ['lulua-write'] + task['argv']
    os.chdir (task['cwd'])
    # leaves the interpreter the ordinary way
    sys.exit (lulua.text.write ())

zygote = []
def process ():
    if not zygote:
        zygote.append (subprocess.Popen ([sys.executable, '-W', 'ignore', '-c',
            f'import sys; sys.path.insert (0, {core.VERIF!r}); sys.dont_write_bytecode = True; '
            'from harness import core; core.bootstrap (); from props import c08; c08.serve ()'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    return zygote[0]

def descendants (pid):
    ret = [pid]
    i = 0
    while i < len (ret):
        try:
            with open (f'/proc/{ret[i]}/task/{ret[i]}/children') as fd:
                ret.extend (int (x) for x in fd.read ().split ())
        except OSError:
            pass
        i += 1
    return ret

def cpuTime (pid):
    total = 0
    for p in descendants (pid):
        try:
            with open (f'/proc/{p}/stat') as fd:
                f = fd.read ().rsplit (')', 1)[1].split ()
                total += sum (map (int, f[11:15]))
        except OSError:
            pass
    return total/os.sysconf ('SC_CLK_TCK')

def kill (pid):
    for p in reversed (descendants (pid)):
        try:
            os.kill (p, signal.SIGKILL)
        except ProcessLookupError:
            pass

class Hang (core.Violation):
    pass

def lululaWrite (argv, ctx, feed, pauses):
    """ feed: callable (path of fifo, stop event), provides input. Return exit status, stdout, stderr """
    p = process ()
    stdin = ctx.path ('stdin')
    os.mkfifo (stdin)
    stop = threading.Event ()
    t = threading.Thread (target=feed, args=(stdin, stop), daemon=True)
    t.start ()
    p.stdin.write (json.dumps (dict (argv=argv, stdin=stdin, stdout=ctx.path ('stdout'), stderr=ctx.path ('stderr'), cwd=ctx.path (''))).encode () + b'\n')
    p.stdin.flush ()
    pid = json.loads (p.stdout.readline ())['pid']
    start = time.monotonic ()
    history = []
    pauses = sorted (pauses)
    stopped = {}
    fedAt = None
    try:
        while True:
            r, _, _ = select.select ([p.stdout], [], [], 0.02 if pauses or stopped else 0.5)
            if r:
                status = json.loads (p.stdout.readline ())['status']
                break
            now = time.monotonic ()
            # schedule perturbation
            while pauses and now-start >= pauses[0][0]:
                _, who, duration = pauses.pop (0)
                l = descendants (pid)[1:]
                if l:
                    x = l[who % len (l)]
                    try:
                        os.kill (x, signal.SIGSTOP)
                        stopped[x] = now+duration
                    except ProcessLookupError:
                        pass
            for x in [x for x, until in stopped.items () if until <= now]:
                del stopped[x]
                try:
                    os.kill (x, signal.SIGCONT)
                except ProcessLookupError:
                    pass
            if not t.is_alive () and fedAt is None:
                fedAt = now
            if not history or now-history[-1][0] > 2:
                history.append ((now, cpuTime (pid)))
            cpu = history[-1][1]
            if cpu > 200:
                raise Hang (f'used {cpu} s of cpu time')
            if now-start > 60 and not pauses and not stopped and (fedAt is None or now-fedAt > 30):
                old = [c for x, c in history if now-x >= 30]
                if old and cpu-old[-1] < 0.5 and cpu >= old[-1]:
                    raise Hang (f'no progress since 30 s, {now-start:.0f} s after its start')
    except BaseException:
        kill (pid)
        p.stdin.close ()
        zygote.clear ()
        raise
    finally:
        stop.set ()
        for x in stopped:
            try:
                os.kill (x, signal.SIGCONT)
            except ProcessLookupError:
                pass
        t.join ()
    with open (ctx.path ('stdout'), 'rb') as fd:
        out = fd.read ()
    with open (ctx.path ('stderr'), 'rb') as fd:
        err = fd.read ()
    return status, out, err

### items ###

def openFifo (path, stop):
    while not stop.is_set ():
        try:
            fd = os.open (path, os.O_WRONLY | os.O_NONBLOCK)
            os.set_blocking (fd, True)
            return os.fdopen (fd, 'wb')
        except OSError:
            time.sleep (0.01)
    return None

def itemText (x):
    """ The text of an item """
    t = gen.expand (x['text'])
    if x.get ('many'):
        # many different triads, i.e. a large result
        r = random.Random (x['many'])
        t += ''.join (r.choice (x['alphabet']) for _ in range (x['many'])) if x['alphabet'] else ''
    return t

def archive (texts):
    b = io.BytesIO ()
    with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
        for i, x in enumerate (texts):
            info = tarfile.TarInfo (f'file{i}')
            info.size = len (x)
            t.addfile (info, io.BytesIO (x))
    return b.getvalue ()

def run (case, ctx):
    import brotli
    import yaml
    if 'layout' in case:
        data = case['layout']
        with open (ctx.path ('layout.yaml'), 'w', encoding='utf-8') as fd:
            yaml.safe_dump (data, fd, sort_keys=False)
        name = ctx.path ('layout.yaml')
    else:
        name = case['name']
        data = model.packaged ()[name]
    chain = case['filter']
    want = []
    lines = []
    fifos = []
    previous = None
    for i, x in enumerate (case['items']):
        if x.get ('same') and previous and x.get ('bad') is None:
            # once more
            lines.append (previous[0])
            want.extend (previous[1])
            continue
        n = len (want)
        t = itemText (x)
        bad = x.get ('bad')
        if chain == ['lines']:
            t = t.replace ('\r', ' ').replace ('\n', ' ')
            want.append (t + '\n')
            line = t + '\n'
        elif chain == ['json']:
            want.append (t)
            line = json.dumps (t, ensure_ascii=x['pad'] % 2 == 0)
            if bad is not None:
                line = [line[:-1], '{' + line, '', 'x'][bad % 4]
            line = ' '*x['pad'] + line + '\n'
        else:
            path = ctx.path (f'item{i}')
            line = path + '\n'
            make, extracted = FORMATS.get (chain[-1], (None, None))
            if make:
                # whatever can be part of any document
                t = ''.join (c for c in t if c.isprintable ()).strip ()
                extract = lambda t: extracted % t
                encode = lambda t: (make % escape (t)).encode ('utf-8')
            else:
                extract = lambda t: t
                encode = lambda t: t.encode ('utf-8')
            b = encode (t)
            if make and x.get ('dropped'):
                # not well-formed
                b = b[:-1]
            elif bad is not None and not make:
                b += b'\xff\xfe'
            if 'tar' in chain:
                parts = [b, b'', encode (t[::-1])][:1+x['pad'] % 3]
                if not x.get ('dropped') and (b or bad is not None):
                    want.append (extract (t))
                if len (parts) == 3 and parts[2]:
                    want.append (extract (t[::-1]))
                b = archive (parts)
            elif not x.get ('dropped'):
                want.append (extract (t))
            if 'brotli' in chain:
                b = brotli.compress (b, quality=1)
                if bad is not None and bad % 3 == 1:
                    # not just the end marker of the archive
                    b = b[:10] if 'tar' in chain else b[:-1]
            if bad is not None and bad % 3 == 2:
                # does not exist or cannot be read
                if bad > 5:
                    os.mkdir (path)
            elif x['delay'] is not None:
                os.mkfifo (path)
                fifos.append ((path, b, x['delay']))
            else:
                with open (path, 'wb') as fd:
                    fd.write (b)
        lines.append (line)
        # pipes can be read only once
        previous = (line, want[n:]) if bad is None and (chain[0] != 'file' or x['delay'] is None) else None
    # otherwise there is no line
    if lines and case.get ('unterminated') and lines[-1] != '\n':
        lines[-1] = lines[-1][:-1]
        if chain == ['lines']:
            want[-1] = want[-1][:-1]
    def slowFile (path, b, delay, stop):
        fd = openFifo (path, stop)
        if fd is not None:
            try:
                with fd:
                    time.sleep (delay)
                    fd.write (b)
            except BrokenPipeError:
                pass
    def feed (path, stop):
        l = [threading.Thread (target=slowFile, args=(*x, stop), daemon=True) for x in fifos]
        for x in l:
            x.start ()
        fd = openFifo (path, stop)
        try:
            with fd:
                for i, line in enumerate (lines):
                    time.sleep (case['delays'].get (str (i), 0))
                    fd.write (line.encode ('utf-8'))
                    fd.flush ()
        except BrokenPipeError:
            pass
        for x in l:
            x.join ()
    if case.get ('keyboard'):
        with open (ctx.path ('keyboard.yaml'), 'w', encoding='utf-8') as fd:
            yaml.safe_dump (case['keyboard'], fd, sort_keys=False)
        name = ['-k', ctx.path ('keyboard.yaml'), name]
    else:
        name = [name]
    argv = ([] if case['jobs'] == 0 else ['-j', str (case['jobs'])]) + name + chain
    status, out, err = lululaWrite (argv, ctx, feed, case['pauses'])
    bad = any (x.get ('bad') is not None for x in case['items'])
    if bad:
        ctx.true (status != 0, 'malformed items, but the command was successful', err[-500:])
    else:
        ctx.true (status == 0, f'exit status {status}', err[-3000:].decode ('utf-8', 'replace'))
        got = model.addStats (*map (real.stats, real.unpickle (out)))
        # one after the other, each with a new writer
        compare (ctx, got, model.addStats (*(real.stats (real.typeStats (real.writer (data), model.normalise (t))) for t in want)))
    ctx.tag ('malformed item', bad)
    ctx.tag ('no items', not case['items'])
    ctx.tag ('more items than the queue holds', len (case['items']) > 2*(case['jobs'] or 8))
    ctx.tag (' '.join (chain))
    ctx.tag ('large items', any (x['pad'] > 60000 for x in case['items']))
    ctx.tag ('perturbed schedule', case['pauses'] or fifos)
    ctx.nontrivial (bad or (len (case['items']) > 1 and case['jobs'] != 1))

FORMATS = dict (aljazeera=('<!doctype html><meta charset="utf-8"><p>other</p><div id="DynamicContentContainer">%s</div>', '%s\n\n'),
    tei2=('<TEI.2><text><body><p><s>%s</s></p></body></text></TEI.2>', '%s\n'),
    opensubtitles=('<document><s>%s</s></document>', '%s'))

CHAINS = [['lines'], ['json'], ['file', 'text'], ['file', 'brotli', 'text'], ['file', 'tar', 'text'], ['file', 'brotli', 'tar', 'text'],
    ['file', 'brotli', 'tar', 'aljazeera'], ['file', 'brotli', 'tar', 'xml', 'tei2'], ['file', 'brotli', 'xml', 'opensubtitles'], ['file', 'xml', 'tei2']]

def case (d):
    c = dict ()
    if d.chance (1, 5):
        c['name'] = d.pick (sorted (model.packaged ()))
        data = model.packaged ()[c['name']]
    else:
        data = c['layout'] = gen.layout (d, packaged=False, wide=False, odd=True)
    own = [x for l in data['layout'] for x in l['layer'].values ()]
    if d.chance (1, 10):
        c['keyboard'] = gen.effortKeyboard (d)
    chain = d.pick (CHAINS)
    failing = d.bool ()
    slow = d.bool ()
    big = d.chance (1, 4)
    c['filter'] = chain
    jobs = c['jobs'] = d.pick ([1, 2, 3, 4, 6, 8, 12, 0])
    def item (d):
        x = dict (text=gen.texts (d, data, maxPieces=8, top=5), pad=0, delay=None)
        x['pad'] = d.pick ([0, 1, 2])
        if big and d.chance (1, 3):
            x['pad'] = d.pick ([70000, 300001, 65536])
        if big and d.chance (1, 4):
            x['many'] = d.int (50, 2000)
            x['alphabet'] = own
        if 'xml' in chain and d.chance (1, 4):
            x['dropped'] = True
        if slow and d.chance (1, 3):
            x['delay'] = d.pick ([0, 0.01, 0.1, 0.4]) if d.chance (99, 100) else d.pick ([3.5, 7, 12])
        return x
    items = d.list (item, 0, d.pick ([2, 6, 20, 60]))
    if d.chance (1, 3):
        for x in items:
            x['same'] = d.bool ()
    if failing and chain != ['lines']:
        if not items:
            items = [item (d)]
        for i in range (len (items) if d.chance (1, 4) else d.int (1, 3)):
            x = items[d.draw (len (items))]
            x['bad'] = d.draw (12)
            if chain[-1] in FORMATS and (x['bad'] % 3 == 0 or x['bad'] % 3 == 1 and 'brotli' not in chain):
                # these are not errors
                x['bad'] = 2
            if chain[0] == 'file' and x['bad'] % 3 == 2:
                x['delay'] = None
        if d.chance (1, 4):
            # everything
            for x in items:
                x.setdefault ('bad', 0 if chain[-1] not in FORMATS else 2)
    c['items'] = items
    c['unterminated'] = d.chance (1, 4)
    # last ones matter for shutting down
    c['delays'] = {}
    if items and d.bool ():
        for i in d.sub (range (len (items)), 1, 4):
            c['delays'][str (i)] = d.pick ([0.05, 0.2, 0.6])
        if d.chance (1, 20):
            # far longer than anything takes
            c['delays'][str (d.draw (len (items)))] = d.pick ([3.5, 7, 12])
    c['pauses'] = []
    if slow:
        c['pauses'] = d.list (lambda d: [d.pick ([0.05, 0.2, 0.3, 0.5, 0.8]), d.draw (13), d.pick ([0.1, 0.5, 1.2])], 0, 4)
    return c

SECONDS = dict (quick=240, thorough=3000)

CHECKS = [Check ('write', run, case, quick=480, thorough=6000, cpu=600, shrink=25)]
