""" Optimizer mutations keep a bijection, respect pins and track the true effort """

import random

from harness import gen, model, real
from harness.core import Check, quiet
from harness.golden import MODELS
from props.c12 import params, randomParams

RULE = 'random layouts (1-4 layers, several modifiers per layer), position sets, initial assignments, weighted triads, pins ' \
    'and effort parameters; histories of mutations with and without energy, restarts and restored states, every random ' \
    'choice of the optimizer seeded by the case. Non-trivial: at least three mutations that involve a position used by a triad'
ASSUMPTIONS = ['at least two positions of one layer are not pinned (otherwise there is no mutation)',
    'a layer is reached with its first modifier (documented limitation of the optimizer)',
    'triads consist of positions the optimizer knows']

def run (case, ctx):
    from lulua.optimize import LayoutOptimizer
    data = case['layout']
    kb = real.otherKeyboard (case['keyboard'])
    rowOf = gen.rowOf (case['keyboard'])
    w = real.writer (data, kb)
    layout = w.layout
    pos = [tuple (x) for x in case['positions']]
    initial = dict (zip (pos, [tuple (x) for x in case['initial']]))
    mods = [[frozenset (m) for m in l['modifier']] for l in data['layout']]
    triads = []
    for t, n in case['triads']:
        triads.append (([(pos[i], m) for i, m in t], n))
    if case['many']:
        # lots of them; the last positions are not used at all
        seed, count, top = case['many']
        r = random.Random (seed)
        seen = {tuple ((pos.index (x), m % len (mods[x[0]])) for x, m in t) for t, _ in triads}
        for _ in range (count):
            t = [(r.randrange (min (top, len (pos))), 0) for _ in range (3)]
            if tuple (t) not in seen:
                seen.add (tuple (t))
                triads.append (([(pos[i], m) for i, m in t], r.choice ([1, 2, 5, 100])))
    rt = [(tuple (real.comb (mods[p[0]][m % len (mods[p[0]])], p[1], kb) for p, m in t), n) for t, n in triads]
    pins = [tuple (x) for x in case['pins']]
    p = MODELS[case['model']] if isinstance (case['model'], str) else case['model']
    cache = {}
    def effort (assign):
        total = s = 0
        for t, n in triads:
            k = tuple (assign[x] for x, _ in t)
            if k not in cache:
                cache[k] = model.triadEffort (tuple ((mods[l][0], b) for l, b in k), p, rowOf)
            s += n*cache[k]
            total += n
        return s/total if total else 0
    def plain (state):
        return {(l, b.name): (k, c.name) for (l, b), (k, c) in state.buttonMap.items ()}

    random.seed (case['seed'])
    opt = LayoutOptimizer ({(l, kb[b]): (k, kb[c]) for (l, b), (k, c) in initial.items ()}, rt, layout,
            frozenset ((l, None if b is None else kb[b]) for l, b in pins), w, params (p))
    with quiet ():
        opt.run (steps=0)
    ctx.eq (plain (opt.state), initial, 'initial assignment')
    ctx.close (opt.energy (), effort (initial), 'initial energy')
    used = {x for t, _ in triads for x, _ in t}
    fixed = [x for x in pos if x in pins]
    layers = [l for l, b in pins if b is None]
    current, saved = initial, []
    valid = True
    touched = 0
    for op, arg in case['ops']:
        before = effort (current)
        if op == 'mutate':
            if not valid:
                continue
            old = opt.state.copy ()
            delta = opt.mutate ()
            new = plain (opt.state)
            ctx.close (delta, effort (new)-before, 'energy change', rel=1e-7, abs_=1e-7)
            # as if it never happened
            ctx.eq (plain (old), current, 'state saved before')
            ctx.close (old.carpalx.effort, before, 'energy of the state saved before', rel=1e-7)
        elif op == 'blind':
            opt.mutate (withEnergy=False)
            new = plain (opt.state)
            valid = False
        elif op == 'save':
            if valid:
                saved.append ((opt.state.copy (), current))
            continue
        elif op == 'restore':
            if saved:
                s, c = saved[arg % len (saved)]
                opt.state = s.copy ()
                current = c
                valid = True
            continue
        elif op == 'restart':
            with quiet ():
                opt.run (steps=0)
            valid = True
            new = plain (opt.state)
            ctx.eq (new, current, 'assignment after restart')
        moved = [x for x in pos if new.get (x) != current[x]]
        touched += any (x in used for x in moved)
        ctx.eq (set (new), set (pos), 'positions')
        ctx.eq (len (set (new.values ())), len (pos), 'number of distinct targets')
        ctx.eq (set (new.values ()), set (initial.values ()), 'targets')
        for x in fixed:
            ctx.eq (new[x], initial[x], f'pinned button {x} moved')
        for l in layers:
            for x in pos:
                ctx.eq (new[x][0] == l, initial[x][0] == l, f'{x} left or entered pinned layer {l}')
        current = new
        if valid:
            ctx.close (opt.energy (), effort (current), f'energy after {op}', rel=1e-7, abs_=1e-7)
        for s, c in saved:
            ctx.eq (plain (s), c, 'saved state changed')
            ctx.close (s.carpalx.effort, effort (c), 'energy of saved state changed', rel=1e-7)
    ctx.tag ('other keyboard', case['keyboard'])
    ctx.tag ('pinned button', fixed)
    ctx.tag ('pinned layer', layers)
    ctx.tag ('layers', len (mods) > 1)
    ctx.nontrivial (touched >= 3)

def case (d):
    n = d.int (1, 4)
    m = gen.modifiers (d, n, effort=True)
    used = {x for l in m for y in l for x in y}
    kb = gen.effortKeyboard (d) if d.chance (1, 5) else None
    letters = [x for x in gen.letterKeys (kb) if x not in used]
    if d.bool ():
        letters = d.sub (letters, 3, 8)
    pos = []
    for l in range (n):
        pos += [[l, b] for b in (letters if d.chance (1, 4) else d.sub (letters, 0, 8))]
    # something must be able to move
    for b in letters[:3]:
        if [0, b] not in pos:
            pos.append ([0, b])
    data = dict (name='x', layout=[dict (modifier=x, layer={}) for x in m])
    pins = []
    if d.bool ():
        pins = d.list (lambda d: [d.draw (n), None] if d.bool () else d.pick (pos), 0, 4)
    pinned = [x for x in pins]
    if sum (x[0] == 0 and x not in pinned for x in pos) < 2:
        pins = [x for x in pins if x[0] != 0 or x[1] is None]
    # as after --mutate: some are exchanged, but none across a pinned layer
    initial = [list (x) for x in pos]
    lp = [l for l, b in pins if b is None]
    for _ in range (d.int (0, 4) if d.bool () else 0):
        a, b = d.draw (len (pos)), d.draw (len (pos))
        if initial[a][0] == initial[b][0] or not (set ([initial[a][0], initial[b][0]]) & set (lp)):
            initial[a], initial[b] = initial[b], initial[a]
    def triad (d):
        sub = [d.draw (len (pos)) for _ in range (d.int (1, 3))]
        return [[[d.pick (sub), d.draw (3)] for _ in range (3)], d.pick ([1, 2, 3, 10, 1000])]
    tr = d.list (triad, 0, 15)
    seen, uniq = set (), []
    for t, w in tr:
        k = tuple ((i, x % len (m[pos[i][0]])) for i, x in t)
        if k not in seen:
            seen.add (k)
            uniq.append ([t, w])
    def op (d):
        k = d.draw (12)
        if k < 8:
            return ['mutate', 0]
        return [['blind', 'restart', 'save', 'restore'][k-8], d.draw (4)]
    mod = d.pick (['mod01', 'salvo']) if d.bool () else None
    return dict (keyboard=kb, many=[d.draw (1 << 20), gen.length (d, 400), d.int (3, 30)] if d.chance (1, 5) else None, layout=data, positions=pos, initial=initial, triads=uniq, pins=pins, ops=d.list (op, 1, 20), seed=d.draw (1 << 20),
        model=mod or randomParams (d, False))

CHECKS = [Check ('mutate', run, case, quick=9000, cpu=20)]
