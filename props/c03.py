""" Layouts map texts to key combinations and back without loss """

import copy

from harness import gen, model, real
from harness.core import Check

RULE = 'layout definitions (0-6 layers, single and multi-key modifiers, repeated texts, common prefixes) on the packaged ' \
    'and on random keyboards; non-trivial: more than one layer or a text reachable by several combinations'
ASSUMPTIONS = ['no two layers declare the same modifier', 'modifier keys carry no text']

def plainLayers (layout):
    return [([frozenset (b.name for b in m) for m in l.modifier], {b.name: t for b, t in l.layout.items ()})
        for l in layout.layers]

def makeKeyboard (names):
    from lulua.keyboard import PhysicalKeyboard
    rows = []
    for i in range (0, len (names), 10):
        part = names[i:i+10]
        rows.append ([[dict (name=x, kind='letter') for x in part[:5]], [dict (name=x) for x in part[5:]]])
    return PhysicalKeyboard.deserialize (dict (name='k', description='d', rows=rows))

def run (case, ctx):
    from lulua.layout import GenericLayout, ButtonCombination
    data = case['layout']
    kb = makeKeyboard (case['keys']) if case.get ('keys') else real.sharedKeyboard ()
    m = model.Layout (data)
    given = copy.deepcopy (data)
    g = GenericLayout.deserialize (given)
    ctx.eq (len (g), sum (len (l['layer']) for l in data['layout']), 'number of assignments')
    ctx.eq (list (g.buttons ()), [x for l in data['layout'] for x in l['layer'].items ()], 'list of assignments')
    lay = g.specialize (kb)
    ctx.eq (lay.name, data['name'], 'name')
    wantLayers = [([frozenset (x) for x in l['modifier']], l['layer']) for l in data['layout']]
    ctx.eq (plainLayers (lay), wantLayers, 'layers of adapted layout')
    for l in lay.layers:
        for b in l.layout:
            ctx.true (b is kb[b.name], 'button is not one of the keyboard’s', b.name)
    # text to combination and back
    ctx.eq ({k: [real.combKey (c) for c in v] for k, v in lay}, m.texts, 'texts and combinations')
    n = 0
    for text, want in m.texts.items ():
        n += len (want) > 1
        for suffix in ('', case['suffix']):
            # longest text that is a prefix
            s = text+suffix
            w = max ((t for t in m.texts if s.startswith (t)), key=len)
            key, combs = lay (s)
            ctx.eq (key, w, f'lookup of {s!r}')
            ctx.eq ([real.combKey (c) for c in combs], m.texts[w], f'combinations for {s!r}')
        for mods, btn in want:
            ctx.eq (lay.getText (real.comb (mods, btn, kb)), text, f'text of {set (mods)}, {btn}')
    for s in ('', case['suffix'], *[t[1:] for t in m.texts]):
        if not any (s.startswith (t) for t in m.texts):
            try:
                x = lay (s)
            except KeyError:
                pass
            else:
                ctx.fail (f'unknown text {s!r} found: {x}')
    # every layer and button
    for i, l in enumerate (data['layout']):
        for mod in l['modifier']:
            fs = frozenset (kb[x] for x in mod)
            num, layer = lay.modifierToLayer (fs)
            ctx.eq (num, i, f'layer of modifier {mod}')
            ctx.eq ({b.name: t for b, t in layer.layout.items ()}, l['layer'], f'layer selected by {mod}')
            ctx.true (lay.isModifier (fs), 'declared modifier is not one', mod)
            for b in kb.keys ():
                if b.name not in l['layer']:
                    try:
                        t = lay.getText (ButtonCombination (fs, frozenset ([b])))
                    except KeyError:
                        pass
                    else:
                        ctx.fail (f'unassigned {b.name} on layer {i} gives {t!r}')
    for b in kb.keys ():
        ctx.eq (list (lay.getButtonText (b)), m.buttonTexts (b.name), f'texts of {b.name}')
        ctx.eq (lay.isModifier (frozenset ([b])), frozenset ([b.name]) in m.layerOf, f'{b.name} is a modifier')
    for x in case['sets']:
        ctx.eq (lay.isModifier (frozenset (kb[y] for y in x)), frozenset (x) in m.layerOf, f'{x} is a modifier')
    # copies
    c = lay.copy ()
    ctx.true (c == lay, 'copy is not equal')
    ctx.eq (c.name, lay.name, 'name of copy')
    ctx.eq (plainLayers (c), wantLayers, 'layers of copy')
    ctx.eq ({k: [real.combKey (c) for c in v] for k, v in c}, m.texts, 'texts of copy')
    again = g.specialize (kb)
    ctx.true (again == lay, 'adapting twice differs')
    for l in c.layers:
        for b in list (l.layout):
            l.layout[b] = 'changed'
        l.modifier.append (frozenset ())
    ctx.eq (plainLayers (lay), wantLayers, 'original changed through copy')
    for l in again.layers:
        l.layout.clear ()
        l.modifier.clear ()
    ctx.eq ([dict (modifier=[frozenset (x) for x in l['modifier']], layer=l['layer']) for l in g.serialize ()['layout']],
        [dict (modifier=[frozenset (x) for x in l['modifier']], layer=l['layer']) for l in data['layout']],
        'definition changed through adapted layout')
    if data['layout'] and any (l['layer'] for l in data['layout']):
        ctx.true (not (c == lay), 'different layouts are equal')
    # equality is about contents
    for kind, i, j in case['edits']:
        if not data['layout']:
            break
        other = copy.deepcopy (data)
        l = other['layout'][i % len (other['layout'])]
        if kind == 'text' and l['layer']:
            b = sorted (l['layer'])[j % len (l['layer'])]
            l['layer'][b] += 'x'
        elif kind == 'remove' and l['layer']:
            del l['layer'][sorted (l['layer'])[j % len (l['layer'])]]
        elif kind == 'modifier' and l['modifier']:
            del l['modifier'][j % len (l['modifier'])]
        elif kind == 'keys' and l['modifier']:
            m2 = l['modifier'][j % len (l['modifier'])]
            free = [b.name for b in kb.keys () if b.name not in m2]
            if not free:
                continue
            m2.append (free[j % len (free)])
        elif kind == 'layer':
            other['layout'].remove (l)
        else:
            continue
        x = GenericLayout.deserialize (other)
        ctx.eq ((g == x, x == g), (False, False), f'equality of definitions, different {kind}')
        x = x.specialize (kb)
        ctx.eq ((lay == x, x == lay), (False, False), f'equality of layouts, different {kind}')
        ctx.tag (f'different {kind}')
    # unknown buttons
    if case['unknown'] not in {b.name for b in kb.keys ()}:
        for where in ('layer', 'modifier'):
            bad = copy.deepcopy (data)
            if not bad['layout']:
                break
            l = bad['layout'][-1]
            if where == 'layer':
                l['layer'][case['unknown']] = 'x'
            else:
                l['modifier'].append ([case['unknown']])
            try:
                GenericLayout.deserialize (bad).specialize (kb)
            except KeyError:
                pass
            else:
                ctx.fail (f'layout with unknown button in {where} accepted')
    ctx.tag ('redundant', n)
    ctx.tag ('layers>1', len (data['layout']) > 1)
    ctx.tag ('multi-key modifier', any (len (x) > 1 for x in m.layerOf))
    ctx.tag ('random keyboard', case.get ('keys'))
    ctx.nontrivial (n or len (data['layout']) > 1)

def case (d):
    keys = None
    if d.chance (1, 4):
        # different keyboard
        keys = d.unique (lambda d: ''.join (d.list (lambda d: d.pick ('abXY_01'), 1, 4)), 3, 40)
        while len (keys) < 3:
            keys.append (f'k{len (keys)}')
        nl = d.int (0, 6)
        k = d.int (1, max (1, len (keys)//3))
        mods = keys[:k]
        rest = keys[k:]
        sets = d.unique (lambda d: d.sub (mods, 0, 3), 0, 2*nl+1, key=frozenset)
        layers = [dict (modifier=[], layer={}) for _ in range (nl)]
        if nl:
            for i, s in enumerate (sets):
                layers[i if i < nl else d.int (0, nl-1)]['modifier'].append (s)
            alphabet = d.list (gen.typable, 1, 4)
            for l in layers:
                if l['modifier']:
                    l['layer'] = {b: ''.join (d.list (lambda d: d.pick (alphabet), 1, 4)) for b in d.sub (rest, 0, 12)}
        data = dict (name='x', layout=layers)
    else:
        data = gen.layout (d, minLayers=0, maxLayers=6 if d.bool () else 4 if d.chance (9, 10) else 12, odd=True)
    pool = keys or gen.ALLMODS
    return dict (layout=data, keys=keys, suffix=gen.string (d, 0, 3),
        sets=d.list (lambda d: d.sub (pool, 0, 3), 0, 6),
        edits=d.list (lambda d: [d.pick (['text', 'remove', 'modifier', 'keys', 'layer']), d.draw (10), d.draw (100)], 0, 3),
        unknown=d.pick (['nope', '', 'Bl', 'bl1', 'Bl11', 'Cr0', 'El_shift ', 'a']))

def packaged (tier):
    for k, v in model.packaged ().items ():
        yield dict (layout=v, keys=None, suffix='\u0654', sets=[['El_shift', 'Er_shift'], ['Fr_altgr', 'Er_shift']], edits=[[x, 1, 1] for x in ('text', 'remove', 'modifier', 'keys', 'layer')], unknown='Bl0')

CHECKS = [
    Check ('packaged', run, enumerate=packaged),
    Check ('lookup', run, case, quick=30000),
    ]
