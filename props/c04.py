""" Keyboard and layout definitions survive saving and loading unchanged """

import copy, os, io, shutil

import yaml

from harness import gen, model, real, core
from harness.core import Check

RULE = 'random keyboard definitions (all button kinds, widths, spans, markings, key code tables) and layout definitions, ' \
    'serialised, dumped as YAML and loaded again, several times; names resolved in a directory with random files and ' \
    'directories. Non-trivial: a keyboard with at least two buttons, a layout with at least one text, a lookup with a ' \
    'file or directory present'
ASSUMPTIONS = ['button names are unique within a keyboard', 'files are valid YAML']

def attributes (b):
    """ Everything observable about a button """
    from lulua.keyboard import LetterButton, MultiRowButton
    kind = 'letter' if isinstance (b, LetterButton) else 'multi' if isinstance (b, MultiRowButton) else 'standard'
    s = b.scancode
    if s is not None:
        s = dict (s)
        if 'windows' in s:
            s['windows'] = list (s['windows'])
    ret = dict (name=b.name, width=b.width, isMarked=bool (b.isMarked), kind=kind, scancode=s)
    if kind == 'multi':
        ret['span'] = b.span
    return ret

def wanted (b):
    ret = dict (name=b['name'], width=b.get ('width', 1), isMarked=b.get ('isMarked', False),
        kind=b.get ('kind', 'standard'), scancode=b.get ('scancode'))
    if ret['kind'] == 'multi':
        ret['span'] = b['span']
    return ret

def plain (kb):
    return dict (name=kb.name, description=kb.description,
        rows=[[[attributes (b) for b in side] for side in row] for row in kb])

def dumpers ():
    return [lambda x: x, copy.deepcopy,
        lambda x: yaml.safe_load (yaml.safe_dump (x)),
        lambda x: yaml.safe_load (yaml.dump (x)),
        lambda x: yaml.safe_load (yaml.dump (x, default_flow_style=True))]

def runKeyboard (case, ctx):
    from lulua.keyboard import PhysicalKeyboard, defaultKeyboards
    data = copy.deepcopy (case['keyboard'])
    want = dict (name=data['name'], description=data['description'],
        rows=[[[wanted (b) for b in side] for side in row] for row in case['keyboard']['rows']])
    kb = PhysicalKeyboard.deserialize (data)
    ctx.eq (data, case['keyboard'], 'loading changed the data')
    ctx.eq (plain (kb), want, 'loaded keyboard')
    # the same data may be loaded again
    ctx.eq (plain (PhysicalKeyboard.deserialize (data)), want, 'keyboard loaded a second time')
    cur = kb
    for i in case['steps']:
        s = cur.serialize ()
        ctx.eq (plain (cur), want, 'saving changed the keyboard')
        ctx.eq (cur.serialize (), s, 'saving twice')
        s = dumpers ()[i] (s)
        cur = PhysicalKeyboard.deserialize (s)
        ctx.eq (plain (cur), want, f'round trip {i}')
    # lookup functions agree with the definition
    names = [b['name'] for row in want['rows'] for side in row for b in side]
    ctx.eq ([b.name for b in cur.keys ()], names, 'list of keys')
    ctx.eq (len (cur), len (names), 'number of keys')
    for i, row in enumerate (want['rows']):
        for side in row:
            for b in side:
                ctx.eq (attributes (cur.find (b['name'])), b, 'find')
                ctx.eq (attributes (cur[b['name']]), b, '[]')
                ctx.eq (cur.getRow (cur[b['name']]), i, f'row of {b["name"]}')
    for n in case['unknown']:
        if n not in names:
            try:
                cur[n]
            except KeyError:
                pass
            else:
                ctx.fail (f'found unknown button {n!r}')
    # buttons are equal iff their names are
    l = list (cur.keys ()) + list (kb.keys ())
    for i, a in enumerate (l[:12]):
        for b in l:
            ctx.eq (a == b, a.name == b.name, f'{a.name} == {b.name}')
            ctx.true (a.name != b.name or hash (a) == hash (b), 'hash of equal buttons differs', a.name)
    ctx.tag ('multi-row button', any (b['kind'] == 'multi' for row in want['rows'] for side in row for b in side))
    ctx.tag ('marked', any (b['isMarked'] for row in want['rows'] for side in row for b in side))
    ctx.nontrivial (len (names) > 1)

def button (d, name):
    b = dict (name=name)
    kind = d.pick (['letter', 'standard', 'multi', None])
    if kind is not None:
        b['kind'] = kind
    if kind == 'multi':
        b['span'] = d.int (1, 3)
    if d.bool ():
        b['width'] = d.pick ([1, 2, 1.5, 0.75, 1.25, 5, 3.3, 0, 1.0625, 1/3, 2.00005, 123456.789])
    if d.chance (1, 3):
        b['isMarked'] = d.bool ()
    if d.chance (2, 3):
        s = {}
        for k in d.sub (['xorg', 'keyman', 'macos', 'windows', 'x y'], 0, 5):
            if k == 'windows':
                s[k] = d.list (lambda d: d.int (0, 255) if d.chance (3, 4) else d.int (0, 0xffff), 0, 3)
            elif k == 'keyman':
                s[k] = d.pick (['K_A', 'SHIFT', '', 'K_é'])
            else:
                s[k] = d.int (0, 300) if d.chance (7, 8) else d.int (0, 1 << 33)
        b['scancode'] = s
    return b

def buttonName (d):
    if d.chance (1, 2):
        return d.pick (model.NAMES)
    return gen.string (d, 1, 5).replace ('\x00', '0')

# printable, i.e. YAML keeps it in any style
def clean (s):
    return ''.join (x for x in s if x.isprintable () and x not in '\ufffe\uffff\ufeff') or 'x'

def genKeyboard (d):
    names = d.unique (lambda d: clean (buttonName (d)), 0, d.pick ([4, 20, 60]))
    rows = []
    i = 0
    while i < len (names):
        n = d.int (1, 14)
        part = names[i:i+n]
        k = d.int (0, len (part))
        rows.append ([[button (d, x) for x in part[:k]], [button (d, x) for x in part[k:]]])
        i += n
    if d.chance (1, 4):
        # nothing in it
        for _ in range (d.int (1, 2)):
            rows.insert (d.int (0, len (rows)), [[], []])
    kb = dict (name=clean (gen.string (d, 1, 6)), description=clean (gen.string (d, 0, 10)), rows=rows)
    return dict (keyboard=kb, steps=d.list (lambda d: d.draw (5), 1, 4), unknown=d.list (lambda d: clean (buttonName (d)), 0, 3))

def packagedKeyboards (tier):
    path = os.path.join (core.REPO, 'lulua/data/keyboards')
    for x in sorted (os.listdir (path)):
        if x.endswith ('.yaml'):
            with open (os.path.join (path, x)) as fd:
                yield dict (keyboard=yaml.safe_load (fd), steps=[0, 1, 2, 3, 4], unknown=['', 'bl1'])

def plainGeneric (g):
    return g.name, [([frozenset (m) for m in l.modifier], dict (l.layout)) for l in g.layers]

def runLayout (case, ctx):
    from lulua.layout import GenericLayout
    data = copy.deepcopy (case['layout'])
    want = data['name'], [([frozenset (m) for m in l['modifier']], dict (l['layer'])) for l in data['layout']]
    g = GenericLayout.deserialize (data)
    ctx.eq (data, case['layout'], 'loading changed the data')
    ctx.eq (plainGeneric (g), want, 'loaded layout')
    cur = g
    for i in case['steps']:
        s = cur.serialize ()
        ctx.eq (plainGeneric (cur), want, 'saving changed the layout')
        ctx.true (all (isinstance (m, list) for l in s['layout'] for m in l['modifier']), 'modifiers must be lists', s)
        cur = GenericLayout.deserialize (dumpers ()[i] (s))
        ctx.eq (plainGeneric (cur), want, f'round trip {i}')
        ctx.true (cur == g, 'not equal after round trip')
    kb = real.sharedKeyboard ()
    a, b = g.specialize (kb), cur.specialize (kb)
    ctx.true (a == b, 'adapted layouts differ')
    ctx.eq (plainGeneric (g), want, 'adapting changed the layout')
    ctx.tag ('multi-key modifier', any (len (m) > 1 for l in want[1] for m in l[0]))
    ctx.nontrivial (any (l[1] for l in want[1]))

def genLayout (d):
    data = copy.deepcopy (gen.layout (d, minLayers=0, maxLayers=5, odd=True))
    if d.chance (1, 10):
        # buttons which are listed, but have no text
        for l in data['layout']:
            for b in sorted (l['layer']):
                if d.chance (1, 3):
                    l['layer'][b] = ''
    return dict (layout=data, steps=d.list (lambda d: d.draw (5), 1, 4))

def packagedLayouts (tier):
    path = os.path.join (core.REPO, 'lulua/data/layouts')
    for x in sorted (os.listdir (path)):
        if x.endswith ('.yaml'):
            yield dict (layout=model.packaged ()[x[:-5]], steps=[0, 1, 2, 3, 4])

### name resolution ###

def content (kind, label):
    if kind == 'layout':
        return dict (name=label, layout=[dict (modifier=[[]], layer={'Bl1': label})])
    else:
        return dict (name=label, description='', rows=[[[dict (name='Bl1')], []]])

def packagedKeyboard (name):
    with open (os.path.join (core.REPO, 'lulua/data/keyboards', name + '.yaml')) as fd:
        return yaml.safe_load (fd)

def runLookup (case, ctx):
    from lulua.layout import defaultLayouts
    from lulua.keyboard import defaultKeyboards
    root = ctx.path ('cwd')
    os.makedirs (root)
    old = os.getcwd ()
    files = {}
    dirs = set ()
    def create (name):
        with open (os.path.join (root, name), 'w') as fd:
            yaml.safe_dump (content (*files[name]), fd)
    def verify (got, want, which, change):
        # everything, not just the name
        if which == 'layout':
            ctx.eq (plainGeneric (got), (want['name'], [([frozenset (m) for m in l['modifier']], dict (l['layer'])) for l in want['layout']]), 'layout found')
        else:
            ctx.eq (plain (got), dict (name=want['name'], description=want['description'],
                rows=[[[wanted (b) for b in side] for side in row] for row in want['rows']]), 'keyboard found')
        if change == 'modify':
            # whoever asks next gets the original
            if which == 'layout':
                for l in got.layers:
                    l.layout['Bl1'] = 'changed'
                    l.layout.pop ('Bl2', None)
                del got.layers[1:]
            else:
                for row in got.rows:
                    for side in row:
                        del side[1:]
            ctx.tag ('modified')
    for kind, name, n in case['entries']:
        path = os.path.join (root, name)
        if os.path.exists (path):
            continue
        os.makedirs (os.path.dirname (path), exist_ok=True)
        if kind == 'dir':
            os.makedirs (path)
            dirs.add (name)
        else:
            label = f'file{n}'
            files[name] = (kind, label)
            create (name)
    os.chdir (root)
    try:
        for which, name, absolute, change in case['lookups']:
            if change == 'rewrite' and files.get (name, [None])[0] == which:
                # the file, not what it used to contain
                files[name] = (which, files[name][1]+'x')
                create (name)
            loader = defaultLayouts if which == 'layout' else defaultKeyboards
            packaged = {k: v['name'] for k, v in model.packaged ().items ()} if which == 'layout' else {'ibmpc105': 'ibmpc105'}
            if name in files:
                if files[name][0] != which:
                    continue
                got = loader[os.path.join (root, name) if absolute else name]
                ctx.eq (got.name, files[name][1], f'file {name}')
                verify (got, content (*files[name]), which, change)
                ctx.tag ('file')
                ctx.nontrivial ()
            else:
                if absolute:
                    continue
                base = name[:-5] if name.endswith ('.yaml') else name
                if base in packaged:
                    got = loader[name]
                    ctx.eq (got.name, packaged[base], f'packaged {name}')
                    verify (got, model.packaged ()[base] if which == 'layout' else packagedKeyboard (base), which, change)
                    ctx.tag ('packaged')
                    if name in dirs:
                        ctx.tag ('packaged, directory with that name')
                        ctx.nontrivial ()
                else:
                    try:
                        x = loader[name]
                    except KeyError:
                        ctx.tag ('unknown')
                    else:
                        ctx.fail (f'unknown name {name!r} gives {x!r}')
        # only packaged ones are listed
        ctx.eq (sorted (str (x.name) for x in defaultLayouts), sorted (str (v['name']) for v in model.packaged ().values ()), 'list of layouts')
        ctx.eq ([x.name for x in defaultKeyboards], ['ibmpc105'], 'list of keyboards')
    finally:
        os.chdir (old)

NAMES = ['x', 'ar-lulua', 'ibmpc105', 'ar-linux', 'null', 'ar-lulua.yaml', 'ibmpc105.yaml', 'x.yaml', 'sub/x', 'sub/ar-lulua.yaml', 'ar-malas', 'ar_lulua', 'Ar-lulua', 'ar-lulua.yml', 'y.txt']

def genLookup (d):
    def name (d):
        return d.pick (NAMES)
    return dict (entries=d.list (lambda d: [d.pick (['layout', 'keyboard', 'dir']), name (d), d.draw (100)], 0, 5),
        lookups=d.list (lambda d: [d.pick (['layout', 'keyboard']), name (d), d.chance (1, 4), d.pick ([None, None, 'modify', 'rewrite'])], 1, 8))

CHECKS = [
    Check ('packagedKeyboard', runKeyboard, enumerate=packagedKeyboards),
    Check ('packagedLayout', runLayout, enumerate=packagedLayouts),
    Check ('lookup', runLookup, genLookup, quick=400, thorough=2000, round=10),
    Check ('keyboard', runKeyboard, genKeyboard, quick=4000, round=100),
    Check ('layout', runLayout, genLayout, quick=4000, round=100),
    ]
