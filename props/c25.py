""" An optimised layout keeps its promise when the corpus is typed again """

import os, pickle, random, re
from collections import Counter
from xml.etree import ElementTree as ET

import yaml

from harness import gen, model, real
from harness.core import Check, cli
from harness.golden import MODELS
from props.c24 import analyze, write
from props import c19

RULE = 'texts are typed on a random layout, lulua-optimize rearranges it (random pins, swaps, steps, randomisation), and the same texts are typed on ' \
    'what it wrote; in a second check all commands of the readme, from lulua-write to lulua-render, are run one after another. The statistics, total ' \
    'effort and drawing of the new layout are compared with those of the old one, the reported energy and the model. Non-trivial: the layout changed ' \
    'and at least two different triads were typed'
ASSUMPTIONS = ['one modifier per layer', 'every text is on one key only, except for those on keys without triads', 'modifiers consist of one key']

def corpus (case):
    ret = [gen.expand (t) for t in case['texts']]
    if case['long']:
        # everything in any order
        seed, n = case['long']
        own = [x for l in case['layout']['layout'] for x in l['layer'].values ()]
        ret.append (''.join (random.Random (seed).choices (own, k=n)) if own else '')
    return ret

def optimise (ctx, name, stats, case, steps=None):
    from lulua import optimize
    argv = ['-l', name, '-n', str (case['steps'] if steps is None else steps)]
    if steps is None:
        if case['randomize']:
            argv += ['-r']
        if case['pins']:
            argv += ['-p', ';'.join (str (l) if b is None else f'{l},{b}' for l, b in case['pins'])]
        for (i, a), (j, b) in case['swaps']:
            argv += ['-s', f'{i},{a}:{j},{b}']
        random.seed (case['seed'])
    r = cli (optimize.optimize, argv, stats)
    ctx.eq (r.ret, 0, 'exit status')
    m = re.findall (r'^# energy: (\S+)$', r.text, re.M)
    ctx.eq (len (m), 1, 'energy in the output')
    return r.out, float (m[0])

def texts (data, s):
    """ Number of times each text was typed """
    where = {(frozenset (m), b): t for l in data['layout'] for m in l['modifier'] for b, t in l['layer'].items ()}
    c = Counter ()
    for k, n in s['combinations'].items ():
        c[where[k]] += n
    return dict (c)

def spelled (data, s):
    where = {(frozenset (m), b): t for l in data['layout'] for m in l['modifier'] for b, t in l['layer'].items ()}
    c = Counter ()
    for k, n in s['triads'].items ():
        c[tuple (where[x] for x in k)] += n
    return dict (c)

def compare (ctx, data, new, a, b, energy):
    ctx.eq (b['unknown'], a['unknown'], 'skipped characters')
    ctx.eq (b['words'], a['words'], 'words')
    ctx.eq (texts (new, b), texts (data, a), 'typed texts')
    ctx.eq (spelled (new, b), spelled (data, a), 'triads')
    ctx.close (energy, model.meanEffort (b['triads'], MODELS['mod01']), 'reported energy and effort of typing again', rel=1e-6, abs_=1e-6)

def note (ctx, case, new, a):
    changed = [x['layer'] for x in new['layout']] != [x['layer'] for x in case['layout']['layout']]
    ctx.tag ('changed', changed)
    ctx.tag ('several layers', len (new['layout']) > 1)
    ctx.nontrivial (changed and len (a['triads']) > 1)

def effort (ctx, name, stats):
    """ As printed by lulua-analyze """
    got = analyze (ctx, name, 'pretty', stats).text.rstrip ('\n').split ('\n')[-1]
    ctx.true (got.startswith ('total effort (carpalx) '), 'total effort', got)
    return float (got.split ()[-1])

def run (case, ctx):
    data = case['layout']
    name = ctx.path ('layout.yaml')
    with open (name, 'w', encoding='utf-8') as fd:
        yaml.safe_dump (data, fd, sort_keys=False)
    def typeAll (data):
        total = None
        for t in corpus (case):
            s = real.typeStats (real.writer (data), t)
            if total is None:
                total = s
            else:
                for k in total:
                    total[k].update (s[k])
        return total
    old = typeAll (data)
    a = real.stats (old)
    out, energy = optimise (ctx, name, pickle.dumps (old, pickle.HIGHEST_PROTOCOL), case)
    new = yaml.safe_load (out)
    s = typeAll (new)
    b = real.stats (s)
    compare (ctx, data, new, a, b, energy)
    if not case['randomize'] and not case['swaps']:
        before = model.meanEffort (a['triads'], MODELS['mod01'])
        ctx.true (energy <= before+1e-6, 'worse than the original', energy, before)
    # as told by the other tool, and once more
    name2 = ctx.path ('evolved.yaml')
    with open (name2, 'wb') as fd:
        fd.write (out)
    blob = pickle.dumps (s, pickle.HIGHEST_PROTOCOL)
    if b['triads']:
        ctx.close (effort (ctx, name2, blob), energy, 'effort printed by lulua-analyze', rel=1e-6)
    out2, energy2 = optimise (ctx, name2, blob, case, 0)
    ctx.close (energy2, energy, 'energy of the layout passed through again', rel=1e-6, abs_=1e-6)
    ctx.eq (yaml.safe_load (out2)['layout'], new['layout'], 'layout passed through again')
    note (ctx, case, new, a)

def runCommands (case, ctx):
    """ As told by the readme """
    from lulua import render
    data = case['layout']
    name = ctx.path ('layout.yaml')
    with open (name, 'w', encoding='utf-8') as fd:
        yaml.safe_dump (data, fd, sort_keys=False)
    files = dict (runs=[[[[t, 1]] for t in corpus (case)]], filter=case['filter'], jobs=case['jobs'])
    def stats (name, tag):
        return analyze (ctx, None, 'combine', write (ctx, name, files, tag)).out
    old = stats (name, 'old')
    a = real.stats (pickle.loads (old))
    out, energy = optimise (ctx, name, old, case)
    name2 = ctx.path ('evolved.yaml')
    with open (name2, 'wb') as fd:
        fd.write (out)
    new = yaml.safe_load (out)
    again = stats (name2, 'new')
    b = real.stats (pickle.loads (again))
    compare (ctx, data, new, a, b, energy)
    if b['triads']:
        ctx.close (effort (ctx, name2, again), energy, 'effort printed by lulua-analyze', rel=1e-6)
    os.makedirs (ctx.path (c19.FONTS))
    for x in ('Thin', 'Regular'):
        with open (ctx.path (c19.FONTS + f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (b'font')
    cwd = os.getcwd ()
    os.chdir (ctx.path (''))
    try:
        r = cli (render.render, ['-l', name2, 'svg', 'evolved.svg'])
    finally:
        os.chdir (cwd)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    root = ET.parse (ctx.path ('evolved.svg')).getroot ()
    (g, ) = [x for x in root if c19.tag (x) == 'g']
    c19.compare (ctx, g, (float (root.get ('width')), float (root.get ('height'))), c19.expected (dict (rows=model.KEYBOARD), new, c19.DEFAULT, {}))
    note (ctx, case, new, a)

POOL = [chr (0x621+i) for i in range (0x2a) if not 0x63b <= 0x621+i <= 0x640 and not 0x622 <= 0x621+i <= 0x626] + [chr (0x64b+i) for i in range (8)] + [chr (0x61+i) for i in range (26)] + \
    ['٠', '١', '٢', '.', '-', 'لا', 'لله', 'ab', 'abc', 'ال', 'a ', ' ب', ' c', '. ', '  ', 'د\n', '\t-'] + [chr (0x430+i) for i in range (200)]

def case (d):
    n = d.int (1, 4)
    mods = [x[:1] for x in gen.modifiers (d, n, effort=True, multi=False)]
    isMod = {x for l in mods for y in l for x in y}
    letters = [x for x in model.LETTERS if x not in isMod and x in model.EFFORTKEYS]
    pool = list (POOL) if d.bool () else list (d.shuffle (POOL))
    layers = []
    for x in mods:
        layer = {}
        for b in d.sub (letters, 0, d.pick ([4, 12, 40])):
            layer[b] = pool.pop (0)
        layers.append (dict (modifier=x, layer=layer))
    if d.chance (5, 6):
        layers[0]['layer'].update (Fl_space=' ', Fr_space=' ')
    if d.bool ():
        layers[0]['layer'].update (CD_ret='\n')
    if d.bool ():
        layers[-1]['layer'].update (Cl_tab='\t')
    for i in range (1, n):
        # and something else on the same keys
        for b in sorted (model.IGNORED):
            if d.chance (1, 8):
                layers[i]['layer'][b] = pool.pop (0)
    data = dict (name=d.pick (['x', 'ar-x']), layout=layers)
    own = [x for l in layers for x in l['layer'].values ()]
    few = d.sub (own, 1, 8) if own else own
    def piece (d):
        k = d.draw (12)
        t = d.pick (own) if k < 6 and own else d.pick (few) if k < 9 and few else d.pick ([' ', '\n', ' ']) if k < 11 else gen.char (d, False)
        return [t, gen.length (d, 12) if d.chance (1, 8) else 1]
    texts = d.list (lambda d: d.list (piece, 0, d.pick ([8, 30, 80])), 1, 3)
    pins = []
    if d.bool ():
        pins = d.list (lambda d: [d.draw (n), d.pick ([None, None, 'B*', 'C*', d.pick (letters), '[BD]l*', '*3'])], 1, 4)
    swaps = d.list (lambda d: [[d.draw (n), d.pick (letters)], [d.draw (n), d.pick (letters)]], 1, 3) if d.chance (1, 4) else []
    return dict (layout=data, texts=texts, steps=d.pick ([0, 5, 40, 150]), randomize=d.chance (1, 5), pins=pins, swaps=swaps, seed=d.draw (1 << 20),
        long=[d.draw (1 << 20), gen.length (d, 6000)] if d.chance (1, 12) else None)

def commands (d):
    c = case (d)
    c['filter'] = d.pick ([['json'], ['file', 'text']])
    c['jobs'] = d.int (1, 3)
    return c

CHECKS = [
    Check ('again', run, case, quick=1600, round=20, cpu=60),
    Check ('readme', runCommands, commands, quick=120, thorough=3000, round=5, cpu=600, shrink=25),
    ]
