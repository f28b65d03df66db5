""" Saved statistics mean the same keys in every process """

import io, base64, pickle

from harness import gen, model, real
from harness.core import Check, Ctx, Violation, cli
from props.c05 import compare

RULE = 'two or three writing processes and one reading process, each a fresh process with its own string hash seed, that ' \
    'first create arbitrary (also made up) buttons, keyboards and layouts in random order; writers save statistics of a ' \
    'typed text, optionally passed through a combining process. Non-trivial: both sides created buttons in different ' \
    'order and something was typed'
ASSUMPTIONS = ['all processes use the same version of the code and the same keyboard']

def prepare ():
    import lulua.stats, lulua.text, lulua.optimize, lulua.render

def enc (x):
    return base64.b64encode (x).decode ('ascii')

def dec (x):
    return base64.b64decode (x)

def warmup (junk):
    """ What else happened in this process before """
    from lulua.keyboard import Button, LetterButton, MultiRowButton, PhysicalKeyboard
    from lulua.layout import defaultLayouts
    keep = []
    for kind, x in junk:
        if kind == 'button':
            keep.append (Button (x))
        elif kind == 'letter':
            keep.append (LetterButton (x, isMarked=True))
        elif kind == 'multi':
            keep.append (MultiRowButton (x, 2))
        elif kind == 'keyboard':
            keep.append (PhysicalKeyboard ('x', 'x', [[[Button (n) for n in x], [LetterButton (n + 'x') for n in x]]]))
        elif kind == 'layout':
            keep.append (defaultLayouts[x].specialize (real.keyboard ()))
        elif kind == 'many':
            keep.extend (Button (f'many{i}') for i in range (x))
    return keep

def make (spec):
    """ Buttons and combinations, from plain data """
    from lulua.keyboard import Button, LetterButton, MultiRowButton
    from lulua.layout import ButtonCombination
    kind, x = spec
    if kind == 'button':
        sort, name, width, marked, scancode = x
        args = dict (name=name, width=width, isMarked=marked, scancode=scancode)
        if sort > 1:
            return MultiRowButton (span=sort, **args)
        return [Button, LetterButton][sort] (**args)
    if kind == 'comb':
        return ButtonCombination (*(frozenset (make (['button', b]) for b in y) for y in x))
    return tuple (make (y) for y in x)

def same (ctx, got, spec):
    """ got was loaded and is what spec describes """
    kind, x = spec
    own = make (spec)
    ctx.eq (type (got).__name__, type (own).__name__, 'type of a loaded object')
    if kind == 'button':
        ctx.eq ((got.name, got.width, got.isMarked, getattr (got, 'span', None)), (own.name, own.width, own.isMarked, getattr (own, 'span', None)), 'loaded button')
        ctx.eq (got.scancode, own.scancode, 'scan codes of a loaded button')
    elif kind == 'comb':
        for a, b in ((got.modifier, x[0]), (got.buttons, x[1])):
            ctx.eq (sorted (y.name for y in a), sorted ({y[1] for y in b}), 'buttons of a loaded combination')
        ctx.eq (len (got), len (own), 'number of keys')
        ctx.eq (sorted (y.name for y in got), sorted (y.name for y in own), 'keys')
    else:
        ctx.eq (len (got), len (own), 'length of a loaded tuple')
        for a, b in zip (got, x):
            same (ctx, a, b)
    ctx.true (got == own and own == got and not got != own, 'loaded object differs from own', (got, own))
    ctx.eq (hash (got), hash (own), 'hash of a loaded object')
    ctx.true ({got: 1}.get (own) == 1 and {own: 1}.get (got) == 1, 'not interchangeable', own)

def writeObjects (junk, specs, protocol):
    keep = warmup (junk)
    return enc (pickle.dumps ([make (x) for x in specs], protocol))

def readObjects (junk, files, late):
    ctx = Ctx (None, None)
    keep = warmup (junk)
    if late:
        keep.append ([make (x) for specs, data in files for x in specs])
    alike = {}
    for specs, data in files:
        loaded = pickle.loads (dec (data))
        ctx.eq (len (loaded), len (specs), 'number of objects')
        for got, spec in zip (loaded, specs):
            same (ctx, got, spec)
            alike.setdefault (got, []).append (identity (spec))
    # nothing was mixed up
    for k, v in alike.items ():
        ctx.eq (len (set (v)), 1, f'objects treated as one')
    ctx.eq (len ({x for v in alike.values () for x in v}), len (alike), 'number of different objects')
    return True

def identity (spec):
    """ Objects with the same identity are interchangeable """
    kind, x = spec
    if kind == 'button':
        return kind, x[1]
    if kind == 'comb':
        return kind, tuple (frozenset (b[1] for b in y) for y in x)
    return kind, tuple (map (identity, x))

def runObjects (case, ctx):
    files = []
    for x in case['writers']:
        files.append ((x['specs'], process (x['seed']) ('writeObjects', junk=x['junk'], specs=x['specs'], protocol=x['protocol'])))
    r = case['reader']
    process (r['seed']) ('readObjects', junk=r['junk'], files=files, late=r['late'])
    ctx.nontrivial (any (x['junk'] != r['junk'] for x in case['writers']))

def write (junk, layout, text, protocol):
    """ Runs in a process of its own """
    keep = warmup (junk)
    w = real.writer (layout)
    s = real.typeStats (w, gen.expand (text))
    # names only, understood everywhere
    return enc (pickle.dumps (s, protocol)), enc (pickle.dumps (real.stats (s)))

def combine (junk, files):
    from lulua import stats
    keep = warmup (junk)
    return enc (cli (stats.main, ['combine'], b''.join (map (dec, files))).out)

def read (junk, layout, want, files, late):
    """ Runs in a process of its own: files contain, in sum, the statistics want """
    from lulua.stats import unpickleAll, makeCombined
    ctx = Ctx (None, None)
    data = io.BufferedReader (io.BytesIO (b''.join (map (dec, files))))
    keep = warmup (junk)
    if late:
        loaded = list (unpickleAll (data))
    kb = real.sharedKeyboard ()
    if not late:
        loaded = list (unpickleAll (data))
    ctx.eq (len (loaded), len (files), 'number of objects')
    m = model.Layout (layout)
    want = [pickle.loads (dec (x)) for x in want]
    total = model.addStats (*want)
    if len (files) == len (want):
        for a, b in zip (loaded, want):
            compare (ctx, real.stats (a), b)
    sums = makeCombined (kb)
    for x in loaded:
        for k in sums:
            sums[k].update (x[k])
    compare (ctx, real.stats (sums), total)
    def lookup (d, what, key, n):
        ctx.true (key in d, f'{what} does not find a loaded key', key)
        ctx.eq (d[key], n, f'{what} finds the wrong loaded key')
    # look up with keys of this process
    for x in [sums] + (loaded if len (loaded) == 1 else []):
        for name, n in total['buttons'].items ():
            lookup (x['simple'].buttons, 'button', kb[name], n)
        for name in model.NAMES:
            if name not in total['buttons']:
                ctx.true (not x['simple'].buttons.get (kb[name]), 'button was never pressed', name)
        for c, n in total['combinations'].items ():
            lookup (x['simple'].combinations, 'combination', real.comb (*c), n)
        for t, n in total['triads'].items ():
            lookup (x['triads'].triads, 'triad', tuple (real.comb (*c) for c in t), n)
        for b in list (x['simple'].buttons):
            own = kb[b.name]
            ctx.true (own == b and b == own and hash (own) == hash (b), 'button differs', b)
            ctx.eq ((b.width, b.isMarked, b.scancode, type (b).__name__), (own.width, own.isMarked, own.scancode, type (own).__name__), f'button {b.name}')
            for other in kb.keys ():
                ctx.eq (other == b, other.name == b.name, f'equality of {b.name} and {other.name}')
            ctx.true (b in {own} and own in {b}, 'buttons are not interchangeable', b)
        # and layout lookups with loaded keys
        l = real.layout (layout)
        for c in list (x['simple'].combinations):
            ctx.eq (l.getText (c), m.text (real.combKey (c)), 'text of a loaded combination')
    # going on in this process
    w = real.writer (layout)
    more = real.typeStats (w, ''.join (sorted (m.texts)))
    for k in sums:
        sums[k].update (more[k])
    compare (ctx, real.stats (sums), model.addStats (total, real.stats (more)))
    return True

pool = {}
def process (seed):
    from harness.zygote import Zygote
    if seed not in pool:
        pool[seed] = Zygote ('props.c07', seed)
    return pool[seed]

def run (case, ctx):
    want, files = [], []
    for x in case['writers']:
        f, plain = process (x['seed']) ('write', junk=x['junk'], layout=case['layout'], text=x['text'], protocol=x['protocol'])
        files.append (f)
        want.append (plain)
    if case['combine'] is not None:
        files = [process (case['combine']['seed']) ('combine', junk=case['combine']['junk'], files=files)]
    r = case['reader']
    process (r['seed']) ('read', junk=r['junk'], layout=case['layout'], want=want, files=files, late=r['late'])
    ctx.tag ('combined', case['combine'] is not None)
    ctx.tag ('different hash seeds', any (x['seed'] != r['seed'] for x in case['writers']))
    ctx.nontrivial (any (x['text'] for x in case['writers']) and any (x['junk'] != r['junk'] for x in case['writers']))

ALIKE = [str.lower, str.upper, lambda x: x + ' ', lambda x: ' ' + x, lambda x: x[:-1], lambda x: x + '1', lambda x: x.replace ('_', '-'), lambda x: x[::-1]]

def junk (d):
    def one (d):
        k = d.draw (6)
        if k < 3:
            return [['button', 'letter', 'multi'][k], d.pick (model.NAMES + ['junk1', 'junk2', 'junk3'])]
        if k == 3:
            return ['keyboard', d.sub (model.NAMES, 1, 20)]
        if k == 4:
            return ['layout', d.pick (sorted (model.packaged ()))]
        if d.chance (1, 3):
            return ['many', d.pick ([16, 60, 150, 260, 600, 1100, 5000])]
        if d.chance (1, 2):
            return ['button', d.pick (ALIKE) (d.pick (model.NAMES))]
        return ['button', 'unknown' + str (d.draw (50))]
    return d.list (one, 0, d.pick ([1, 4, 10]))

def case (d):
    # the default layout has more triads
    data = gen.layout (d, wide=False, odd=True)
    seeds = [1, 2, 3]
    def writer (d):
        return dict (seed=d.pick (seeds), junk=junk (d), text=gen.texts (d, data, maxPieces=20, top=5, wide=False), protocol=d.pick ([5, 4, 2]))
    return dict (layout=data, writers=d.list (writer, 1, 3),
        combine=dict (seed=d.pick (seeds), junk=junk (d)) if d.bool () else None,
        reader=dict (seed=d.pick (seeds), junk=junk (d), late=d.bool ()))

def genObjects (d):
    names = list (d.sub (model.NAMES, 1, 4))
    names += [d.pick (ALIKE) (d.pick (names)) for i in range (d.draw (4))] + d.list (lambda d: d.pick (['', 'é', 'e\u0301', 'a\0', 'a', 'A', '\U0001f600', '1', 'x'*300, gen.literal (d) or 'y']), 0, 3)
    def button (d):
        scancode = d.pick ([None, None, {}, dict (x11=d.draw (300)), dict (windows=[[0, 224, 225][d.draw (3)], d.draw (128)], x11=1), dict (windows=[d.draw (300)]), dict (osx=d.draw (90), windows=[0, 1], android=None)])
        return [d.pick ([0, 0, 1, 1, 2, 3, 5]), d.pick (names), d.pick ([1, 1.5, 2, 0.25, 6.25]), d.bool (), scancode]
    def spec (d, top=True):
        k = d.draw (4 if top else 2)
        if k == 0:
            return ['button', button (d)]
        if k == 3:
            return ['triad', [spec (d, False) for i in range (3)]]
        return ['comb', [d.list (button, 0, d.pick ([1, 2, 5])), d.list (button, 1, d.pick ([1, 1, 3]))]]
    seeds = [1, 2, 3]
    return dict (writers=d.list (lambda d: dict (seed=d.pick (seeds), junk=junk (d), specs=d.list (spec, 1, 12), protocol=d.pick ([5, 4, 2])), 1, 3),
        reader=dict (seed=d.pick (seeds), junk=junk (d), late=d.bool ()))

CHECKS = [
    Check ('objects', runObjects, genObjects, quick=2000, round=100),
    Check ('processes', run, case, quick=1000),
    ]
