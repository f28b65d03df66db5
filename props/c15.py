""" The optimizer command writes a rearrangement of its input layout """

import re, pickle, random, math, itertools
from collections import Counter
from fnmatch import fnmatch

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli
from harness.golden import MODELS

fastyaml.install ()

RULE = 'lulua-optimize runs on random layouts (1-4 layers, unique and repeated texts) for the packaged and other keyboards, statistics with random weighted triads, ' \
    'step counts, pins, swaps, triad limits, models and randomisation; every random choice is seeded by the case. ' \
    'Non-trivial: the layout changed, or a pin or swap was requested'
ASSUMPTIONS = ['modifiers of several keys do not include letter keys', 'text is on letter keys and the keys excluded from triads only',
    'at least two keys of a layer are not pinned', 'the effort of the written layout is judged if texts are unique and the triad limit does not cut through many equal weights',
    'a layer is reached with its first modifier', 'no layer is pinned whose keys are at the same time swapped with another layer']

def run (case, ctx):
    from lulua import optimize
    from lulua.layout import GenericLayout
    data = case['layout']
    kb = real.otherKeyboard (case['keyboard'])
    rowOf = gen.rowOf (case['keyboard'])
    with open (ctx.path ('layout.yaml'), 'w', encoding='utf-8') as fd:
        fastyaml.dump (data, fd, sort_keys=False)
    w = real.writer (data, kb)
    stats = real.newStats (w)
    mods = [[frozenset (m) for m in l['modifier']] for l in data['layout']]
    triads = []
    for t, n in case['triads']:
        # (layer, button), modifier number
        triads.append (([tuple (x[:2]) for x in t], n))
        k = tuple (real.comb (mods[l][m % len (mods[l])], b, kb) for l, b, m in t)
        stats['triads'].triads[k] = n
    argv = ['-l', ctx.path ('layout.yaml'), '-n', str (case['steps'])]
    if case['keyboard']:
        with open (ctx.path ('keyboard.yaml'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (case['keyboard'], fd, sort_keys=False)
        argv += ['-k', ctx.path ('keyboard.yaml')]
    if case['limit'] is not None:
        argv += ['--triad-limit', str (case['limit'])]
    if case['randomize']:
        argv += ['-r']
    if case['pins']:
        argv += ['-p', ';'.join (str (l) if b is None else f'{l},{b}' for l, b in case['pins'])]
    if case['model']:
        argv += ['-m', case['model']]
    for (i, a), (j, b) in case['swaps']:
        argv += ['-s', f'{i},{a}:{j},{b}']
    random.seed (case['seed'])
    r = cli (optimize.optimize, argv, pickle.dumps (stats, pickle.HIGHEST_PROTOCOL))
    ctx.eq (r.ret, 0, 'exit status')

    got = yaml.safe_load (r.text)
    old = data['layout']
    new = got['layout']
    ctx.eq (len (new), len (old), 'number of layers')
    for i, (a, b) in enumerate (zip (new, old)):
        ctx.eq ([sorted (m) for m in a['modifier']], [sorted (m) for m in b['modifier']], f'modifiers of layer {i}')
    ctx.eq (Counter (x for l in new for x in l['layer'].values ()), Counter (x for l in old for x in l['layer'].values ()), 'texts')
    # can be loaded and used
    l = GenericLayout.deserialize (got).specialize (kb)
    ctx.eq (sorted (k for k, _ in l), sorted ({x for l in old for x in l['layer'].values ()}), 'texts of the loaded layout')
    isMod = {x for l in mods for m in l for x in m}
    letters = [x for x in gen.letterKeys (case['keyboard']) if x not in isMod]
    for i in range (len (old)):
        for b in model.NAMES:
            if b not in letters:
                ctx.eq (new[i]['layer'].get (b), old[i]['layer'].get (b), f'text of {b}, layer {i}')

    # arrangement before optimizing: original position → position
    start = {(i, b): (i, b) for i in range (len (old)) for b in letters}
    for (i, a), (j, b) in case['swaps']:
        start[(j, b)], start[(i, a)] = start[(i, a)], start[(j, b)]
    def at (layout, p):
        return layout[p[0]]['layer'].get (p[1])
    pins = [x for x in start for l, m in case['pins'] if m is not None and x[0] == l and fnmatch (x[1], m)]
    for x in pins:
        ctx.eq (at (new, start[x]), at (old, x), f'text of pinned {x}')
    for l, m in case['pins']:
        # a swap across the border of a pinned layer contradicts the pin
        if m is None and not any ((x[0] == l) != (y[0] == l) for x, y in start.items ()):
            want = Counter (at (old, x) for x, y in start.items () if y[0] == l)
            have = Counter (at (new, (l, b)) for b in letters)
            ctx.eq (have, want, f'texts of pinned layer {l}')
    if case['steps'] == 0 and not case['randomize']:
        for x, y in start.items ():
            ctx.eq (at (new, y), at (old, x), f'text of {x}, now at {y}')
        if not case['swaps']:
            ctx.eq ([x['layer'] for x in new], [x['layer'] for x in old], 'layout without doing anything')

    if case['steps'] == 0 and case['randomize'] and case['unique'] and not case['pins'] and not case['swaps'] and \
            len ([b for b in old[0]['layer'] if b in letters]) > 12:
        # the chance of not doing anything is less than one in a billion
        ctx.true ([x['layer'] for x in new] != [x['layer'] for x in old], 'not randomized')
        ctx.tag ('randomized only')

    # energy
    m = re.findall (r'^# energy: (\S+)$', r.text, re.M)
    ctx.eq (len (m), 1, 'energy in the output')
    energy = float (m[0])
    m = re.findall (r'^final energy (\S+)$', r.err.decode ('utf-8'), re.M)
    ctx.eq ([float (x) for x in m], [energy], 'energy reported')
    l = sorted (triads, key=lambda x: -x[1])
    judged = case['unique']
    choices = None
    if case['limit']:
        cut = l[case['limit']:]
        l = l[:case['limit']]
        equal = l[-1][1] if cut and l and cut[0][1] == l[-1][1] else None
        if equal is not None:
            # any of them may have been taken
            tied = [x for x in l+cut if x[1] == equal]
            fixed = [x for x in l if x[1] != equal]
            m = len (l)-len (fixed)
            choices = [fixed+list (x) for x in itertools.combinations (tied, m)] if math.comb (len (tied), m) <= 150 else None
            judged = judged and choices is not None
    if judged:
        p = MODELS[case['model'] or 'mod01']
        where = {t: (i, b) for i, x in enumerate (new) for b, t in x['layer'].items () if b in letters}
        def effort (place, l=l):
            n = sum (x[1] for x in l)
            return sum (model.triadEffort (tuple ((mods[i][0], b) for i, b in map (place, t)), p, rowOf)*k for t, k in l)/n if n else 0
        # every position used by a triad has a text, all are different
        if choices is not None:
            l = min (choices, key=lambda l: abs (energy-effort (lambda x: where[at (old, x)], l)))
            ctx.tag ('limit among equal weights')
        ctx.close (energy, effort (lambda x: where[at (old, x)], l), 'reported energy and effort of the written layout', rel=1e-6, abs_=1e-6)
        if not case['randomize']:
            # another choice may have the same effort
            before = max (effort (lambda x: start[x], y) for y in choices) if choices is not None else effort (lambda x: start[x], l)
            ctx.true (energy <= before+1e-6, 'worse than before', energy, before)
    changed = [x['layer'] for x in new] != [x['layer'] for x in old]
    ctx.tag ('other keyboard', case['keyboard'])
    ctx.tag ('several keys per modifier', any (len (x) > 1 for l in mods for x in l))
    ctx.tag ('judged', judged)
    ctx.tag ('changed', changed)
    ctx.tag ('pins', case['pins'])
    ctx.tag ('swaps', case['swaps'])
    ctx.tag ('randomized', case['randomize'])
    ctx.nontrivial (changed or case['pins'] or case['swaps'])

def case (d):
    n = d.int (1, 4)
    kb = gen.effortKeyboard (d) if d.chance (1, 5) else None
    m = gen.modifiers (d, n, effort=True, multi=True)
    if any (len (y) > 1 and x in gen.letterKeys (kb) for l in m for y in l for x in y):
        m = gen.modifiers (d, n, effort=True, multi=False)
    if n > 1 and d.chance (1, 5):
        free = [x for x in gen.EFFORTMODS if x not in gen.letterKeys (kb)]
        if len (free) > 2:
            x = d.sub (free, 3, 4)
            i = d.int (1, n-1)
            if not any (set (x) == set (y) for l in m for y in l):
                m[i] = d.shuffle (m[i]+[x])
    if d.chance (1, 5):
        # none and some
        free = [x for x in gen.EFFORTMODS if not any (x in y for l in m for y in l)]
        m[0] = d.shuffle ([[]] + [[x] for x in d.sub (free, 1, 2)]) if free else m[0]
    isMod = {x for l in m for y in l for x in y}
    letters = [x for x in gen.letterKeys (kb) if x not in isMod]
    keys = letters + sorted (model.IGNORED - set (letters))
    unique = d.chance (3, 4)
    pool = [chr (0x621+i) for i in range (0x2a)] + [chr (0x61+i) for i in range (26)] + [chr (0x430+i) for i in range (300)]
    layers = []
    for x in m:
        btns = d.sub (keys, 0, d.pick ([4, 10, 40]))
        layer = {}
        for b in btns:
            if unique and b in letters:
                t = pool.pop (0)
            elif d.chance (1, 4):
                t = d.pick (['لا', 'ab', '\n', '\t', 'yes', '0', '#', '- x', 'ﻻ'])
            else:
                t = gen.typable (d)
            if unique and b not in letters:
                t = ' ' + t
            # how these are written is up to the YAML library
            t = t.translate ({0x85: 'x', 0x2028: 'x', 0x2029: 'x'})
            layer[b] = t
        layers.append (dict (modifier=x, layer=layer))
    data = dict (name=d.pick (['x', 'ar-x']), layout=layers)
    if not unique and d.chance (1, 6):
        data = model.packaged ()[d.pick ([k for k, v in model.packaged ().items () if v['layout'] and not any (len (y) > 1 and x in model.LETTERS for l in v['layout'] for y in l['modifier'] for x in y)
            and all (b in model.LETTERS or b in model.IGNORED for l in v['layout'] for b in l['layer'])])]
        kb = None
        n = len (data['layout'])
        isMod = {x for l in data['layout'] for y in l['modifier'] for x in y}
        letters = [x for x in model.LETTERS if x not in isMod]
    pos = [[i, b] for i, l in enumerate (data['layout']) for b in l['layer'] if b in letters]
    tr, seen = [], set ()
    if pos:
        few = d.sub (pos, 1, d.pick ([3, 10]))
        for t in d.list (lambda d: [d.pick (few)+[d.draw (2)] for _ in range (3)], 0, d.pick ([5, 20])):
            k = tuple ((i, b, x % len (data['layout'][i]['modifier'])) for i, b, x in t)
            if k not in seen:
                seen.add (k)
                tr.append ([t, d.pick ([1, 2, 5]) if d.bool () else d.int (1, 10000)])
        if d.chance (1, 25):
            # lots of them
            r = random.Random (d.draw (1 << 20))
            for _ in range (gen.length (d, 4000)):
                t = [r.choice (pos)+[0] for _ in range (3)]
                k = tuple (map (tuple, t))
                if k not in seen:
                    seen.add (k)
                    tr.append ([t, r.choice ([1, 1, 2, 30])])
    pins = []
    if d.bool ():
        pins = d.list (lambda d: [d.draw (n), d.pick ([None, 'B*', 'C*', d.pick (letters), 'D?2', '[BD]l*', 'Xyz', '?r1', '*3'])], 1, 4)
    def swap (d):
        return [[d.draw (n), d.pick (letters)], [d.draw (n), d.pick (letters)]]
    swaps = d.list (swap, 1, 3) if d.chance (1, 3) else []
    if swaps and d.chance (1, 3):
        # the same ones again, in any order and direction
        swaps = swaps + d.list (lambda d: d.pick (swaps)[::d.pick ([1, -1])], 1, 3)
    return dict (layout=data, keyboard=kb, triads=tr, steps=d.pick ([0, 1, 5, 20, 60]), limit=d.pick ([None, 0, d.int (1, 10), 1000]), randomize=d.chance (1, 5),
        pins=pins, swaps=swaps, model=d.pick ([None, 'mod01', 'salvo']), seed=d.draw (1 << 20), unique=unique)

CHECKS = [Check ('optimize', run, case, quick=6000, round=20, cpu=40)]
