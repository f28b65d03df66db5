""" Typing effort equals the documented carpalx model for every history of updates """

from harness import gen, model, real
from harness.core import Check
from harness.golden import MODELS, FINGERS

RULE = 'paths: every triad of single keys of the keyboard, stroke path components separated by the weights (exhaustive); ' \
    'models: the packaged parameter sets on random triads; triads: random triads of one to four simultaneous keys with random ' \
    'parameters, on the packaged keyboard and others; history: random sequences of add, remove, bulk add, copy and reset on several objects. Non-trivial: ' \
    'a triad with at least two different keys; a history with a removal, copy or reset after an addition'
ASSUMPTIONS = ['only triads which are contained are removed', 'efforts are compared with a relative tolerance of 1e-9 (histories: relative to the sum of all efforts added)']

EMPTY = dict (name='null', layout=[dict (modifier=[[]], layer={})])

def params (m):
    from lulua.carpalx import ModelParams
    from lulua.layout import Direction, FingerType
    return ModelParams (
        kBPS=tuple (m['kBPS']), k123S=tuple (m['k123S']), w0HRF=tuple (m['w0HRF']),
        pHand={Direction[k]: v for k, v in m['pHand'].items ()},
        pRow=tuple (m['pRow']),
        pFinger={Direction[h]: {FingerType[f]: v for f, v in x.items ()} for h, x in m['pFinger'].items ()},
        fHRF=tuple (m['fHRF']),
        baselineEffort=dict (m['baselineEffort']))

def one (c, triad):
    """ Effort of a single triad """
    c.reset ()
    c.addTriad (triad, 1)
    return c.effort

PATH = dict (kBPS=(0, 0, 1), k123S=(1, 1, 1, 1), w0HRF=(0, 0, 0, 0), pHand=dict (LEFT=0, RIGHT=0), pRow=(0,)*5,
    pFinger={h: dict (THUMB=0, INDEX=0, MIDDLE=0, RING=0, LITTLE=0) for h in ('LEFT', 'RIGHT')}, fHRF=(100, 10, 1),
    baselineEffort={k: 0 for k in model.NAMES})

def runPaths (case, ctx):
    from lulua.carpalx import Carpalx
    a, b = case
    c = Carpalx (params (PATH), real.writer (EMPTY))
    key = {k: real.comb ([], k) for k in model.NAMES}
    for x in model.NAMES:
        h, r, f = model.strokePath ((a, b, x))
        got = one (c, (key[a], key[b], key[x]))
        ctx.close (got, 100*h+10*r+f, f'stroke path of {a}, {b}, {x} (hand, row, finger)')
    ctx.nontrivial ()

def paths (tier):
    for a in model.NAMES:
        for b in model.NAMES:
            yield [a, b]

def runModels (case, ctx):
    from lulua.carpalx import Carpalx, models
    golden = MODELS[case['model']]
    c = Carpalx (models[case['model']], real.writer (EMPTY))
    t = tuple ((frozenset (m), b) for m, b in case['triad'])
    got = one (c, tuple (real.comb (*x) for x in t))
    ctx.close (got, model.triadEffort (t, golden), f'effort of {t}')
    ctx.nontrivial (len ({x[1] for x in t}) > 1)

def everyKey (tier):
    for m in MODELS:
        for k in model.EFFORTKEYS:
            for t in ([k, k, k], [k, 'Dl1', 'Dr4'], ['Dl1', k, 'Cr4'], ['El2', 'Cl3', k]):
                yield dict (model=m, triad=[[[], x] for x in t])
            if k != 'Dl2':
                yield dict (model=m, triad=[[[k], 'Dl2'], [[], 'Dl3'], [[], 'Cr4']])

def comb (d, keys):
    k = d.draw (4)
    if k < 2:
        return [[], d.pick (keys)]
    l = d.sub (keys, 1, 2 if k == 2 else 4)
    return [l[1:], l[0]]

def triad (d, keys):
    if d.chance (1, 3):
        # repeated and neighbouring keys
        keys = d.sub (keys, 1, 4)
    return [comb (d, keys) for _ in range (3)]

def related (d, l):
    """ Add triads which are similar to others """
    if d.bool ():
        for t in d.sub (l, 1, 2):
            k = d.draw (3)
            if k == 0:
                # the same combinations, another order
                l.append (d.shuffle (t))
            elif k == 1:
                # the same keys pressed, but exchange modifier and letter
                l.append ([[list (m[1:]) + [b], m[0]] if m and d.bool () else [list (m), b] for m, b in t])
            else:
                # without modifiers or with those of others
                m = [x[0] for x in t]
                l.append ([[[x for x in d.pick (m + [[]]) if x != b], b] for _, b in t])
    return l

def modelCase (d):
    return dict (model=d.pick (sorted (MODELS)), triad=triad (d, model.EFFORTKEYS))

def randomParams (d, zero=True):
    def v (d):
        k = d.draw (6)
        if k == 0 and zero:
            return 0
        if k < 3:
            return d.int (1, 5)
        return d.float (0, 3, 1000)
    return dict (kBPS=[v (d) for _ in range (3)], k123S=[v (d) for _ in range (4)], w0HRF=[v (d) for _ in range (4)],
        pHand=dict (LEFT=v (d), RIGHT=v (d)), pRow=[v (d) for _ in range (5)],
        pFinger={h: {f: v (d) for f in ('THUMB', 'INDEX', 'MIDDLE', 'RING', 'LITTLE')} for h in ('LEFT', 'RIGHT')},
        fHRF=[v (d) for _ in range (3)], baselineEffort={k: v (d) for k in model.NAMES})

def runTriads (case, ctx):
    from lulua.carpalx import Carpalx
    m = case['params']
    kb = real.otherKeyboard (case['keyboard'])
    rowOf = gen.rowOf (case['keyboard'])
    c = Carpalx (params (m), real.writer (EMPTY, kb))
    total = 0
    for t in case['triads']:
        t = tuple ((frozenset (a), b) for a, b in t)
        want = model.triadEffort (t, m, rowOf)
        for _ in range (2):
            # the second time it may come from a cache
            ctx.close (one (c, tuple (real.comb (*x, kb) for x in t)), want, f'effort of {t}')
        # equal, but not the same object
        ctx.close (one (c, tuple (real.comb (list (reversed (sorted (a))), b, kb) for a, b in t)), want, f'effort of {t}')
        total += len ({x[1] for x in t}) > 1
    ctx.tag ('other keyboard', case['keyboard'])
    ctx.tag ('several keys at once', any (a for t in case['triads'] for a, b in t))
    ctx.nontrivial (total)

def triads (d):
    return dict (keyboard=gen.effortKeyboard (d) if d.chance (1, 4) else None, params=randomParams (d), triads=related (d, d.list (lambda d: triad (d, model.NAMES), 1, 6)))

def runHistory (case, ctx):
    from lulua.carpalx import Carpalx
    tr = [tuple ((frozenset (a), b) for a, b in t) for t in case['triads']]
    # the same triad twice is one
    tr = [t for i, t in enumerate (tr) if t not in tr[:i]]
    kb = real.otherKeyboard (case['keyboard'])
    rowOf = gen.rowOf (case['keyboard'])
    rt = [tuple (real.comb (*x, kb) for x in t) for t in tr]
    w = real.writer (EMPTY, kb)
    # counts or probabilities, exact as floating point numbers
    unit = 2**case['exponent']
    objs = []
    for p in case['params']:
        objs.append ([Carpalx (params (p), w), p, {}, unit])
    eff = {}
    def effort (t, p):
        k = (tr.index (t), id (p))
        if k not in eff:
            eff[k] = model.triadEffort (t, p, rowOf)
        return eff[k]
    changed = False
    for op, who, what, n in case['ops']:
        n *= unit
        o = objs[who % len (objs)]
        c, p, have, scale = o
        i = what % len (tr)
        if op == 'add':
            c.addTriad (rt[i], n)
            have[i] = have.get (i, 0)+n
            o[3] += n*abs (effort (tr[i], p))
        elif op == 'remove' and have:
            i = sorted (have)[what % len (have)]
            n = min (n, have[i])
            c.removeTriad (rt[i], n)
            have[i] -= n
            if not have[i]:
                del have[i]
            changed = True
        elif op == 'bulk':
            l = {rt[j]: n+j*unit for j in range (i+1)}
            before = dict (l)
            c.addTriads (l)
            ctx.eq (l, before, 'triads modified')
            for j in range (i+1):
                have[j] = have.get (j, 0)+n+j*unit
                o[3] += (n+j*unit)*abs (effort (tr[j], p))
        elif op == 'copy':
            if len (objs) < 6:
                objs.append ([c.copy (), p, dict (have), scale])
                changed = True
        elif op == 'reset':
            c.reset ()
            have.clear ()
            o[3] = unit
            changed = changed or bool (have)
        for c, p, have, scale in objs:
            total = sum (have.values ())
            got = c.effort
            if total == 0:
                ctx.eq (got, 0, 'effort without triads')
            else:
                want = sum (effort (tr[j], p)*v for j, v in have.items ())/total
                ctx.close (got*total, want*total, f'effort after {op}', rel=1e-9, abs_=1e-9*scale)
                ctx.close (c.N, total, 'number of triads')
    ctx.tag ('several objects', len (objs) > 1)
    ctx.nontrivial (changed)

def history (d):
    tr = related (d, d.list (lambda d: triad (d, model.NAMES), 1, 6))
    def op (d):
        k = d.draw (10)
        name = 'add' if k < 4 else 'remove' if k < 7 else 'bulk' if k < 8 else 'copy' if k < 9 else 'reset'
        return [name, d.draw (6), d.draw (6), d.pick ([1, 2, 5, 1000, 0.5, 100000])]
    return dict (keyboard=gen.effortKeyboard (d) if d.chance (1, 4) else None, triads=tr, exponent=d.pick ([0, 0, 0, 0, -10, -30, -60, 20]), params=[randomParams (d, False) for _ in range (d.int (1, 2))], ops=d.list (op, 1, 20))

CHECKS = [
    Check ('paths', runPaths, enumerate=paths),
    Check ('models', runModels, modelCase, enumerate=everyKey, quick=40000),
    Check ('triads', runTriads, triads, quick=14000),
    Check ('history', runHistory, history, quick=10000),
    ]
