""" The generated Windows driver types exactly what the layout says """

import os, subprocess, copy
from itertools import combinations

import yaml

from harness import core, fastyaml, gen, model
from harness.core import Check, cli
from harness.golden import WINDOWS, WINDOWSNAMES

fastyaml.install ()

RULE = 'random scan code maps (unprefixed, E0, E1; with flags) and lists of virtual keys with one to eight characters each, and random layouts with the ' \
    'modifiers of ar-lulua plus the packaged one; the generated source is compiled together with a program walking the ' \
    'tables like Windows does, no table may be read beyond its end, and every scan code, virtual key and modifier state is looked up. Non-trivial: at least two keys with a different number of characters'
ASSUMPTIONS = ['virtual keys are listed once', 'one UTF-16 unit per character, U+F000 is the marker for no character',
    'gcc and the structures of kbd.h stand in for the Windows tool chain and kernel']

SHIFT, CONTROL, MENU, OEM_8, OEM_102 = 0x10, 0x11, 0x12, 0xdf, 0xe2
COLUMNS = [set (), {SHIFT}, {OEM_102}, {OEM_8}, {SHIFT, OEM_102}, {OEM_8, OEM_102}, {CONTROL}, {SHIFT, CONTROL}, {SHIFT, OEM_8}]
# left and right variants
GENERIC = {0xa0: SHIFT, 0xa1: SHIFT, 0xa2: CONTROL, 0xa3: CONTROL, 0xa4: MENU, 0xa5: MENU}
NONE = 0xf000
NUMPAD = {0x60+i: chr (0x30+i) for i in range (10)}

class Driver:
    def __init__ (self, ctx, source):
        self.ctx = ctx
        with open (ctx.path ('driver.c'), 'w', encoding='utf-8') as fd:
            fd.write (source)
        p = subprocess.run (['gcc', '-std=gnu11', '-w', '-O0', '-fshort-wchar', '-no-pie', '-fno-pie', '-DDRIVER="driver.c"', '-I.',
            '-o', 'walker', os.path.join (core.VERIF, 'harness', 'walker.c')], cwd=ctx.path (''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ctx.true (p.returncode == 0, 'does not compile', p.stdout.decode (errors='replace'))
        p = subprocess.run ([ctx.path ('walker')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        l = [x.split () for x in p.stdout.decode ().splitlines ()]
        # objects inside the program
        n = subprocess.run (['nm', '-S', ctx.path ('walker')], stdout=subprocess.PIPE, check=True).stdout.decode ()
        objects = [(int (x[0], 16), int (x[1], 16), x[3]) for x in map (str.split, n.splitlines ()) if len (x) == 4]
        for x in l:
            if x[:1] == ['range'] and len (x) == 3:
                start, end = map (int, x[1:])
                for o, size, name in objects:
                    if o <= start < o+size:
                        ctx.true (end <= o+size, f'reading {end-start} bytes of {name}, which has {o+size-start}: the table is not terminated')
        ctx.true (p.returncode == 0, f'walking the tables failed ({p.returncode})', p.stdout[-200:])
        ctx.eq (l[-1], ['end'], 'end of output')
        self.rows = [(x[0], list (map (int, x[1:]))) for x in l]
        self.bits = dict (self.get ('bit'))
        ctx.eq (len (self.bits), len (self.get ('bit')), 'modifier listed twice')
        self.mods = dict (self.get ('mod'))
        self.max = max (self.mods)
        self.vsc = dict (self.get ('vsc'))
        self.chars = self.get ('char')
        self.prefixed = {}
        for k, prefix in (('e0', 0xe0), ('e1', 0xe1)):
            for vsc, vk in self.get (k):
                ctx.true ((prefix, vsc) not in self.prefixed, 'scan code twice', k, vsc)
                self.prefixed[(prefix, vsc)] = vk
        self.first = {}
        for x in self.chars:
            self.first.setdefault (x[0], x)

    def get (self, what):
        return [v for k, v in self.rows if k == what]

    def scancodes (self):
        """ All valid ones """
        ret = {(k, ): v for k, v in self.vsc.items () if v & 0xff != 0xff}
        ret.update ((k, v) for k, v in self.prefixed.items () if v & 0xff != 0xff)
        return ret

    def column (self, held):
        """ Held is a set of virtual keys """
        n = 0
        for x in held:
            n |= self.bits.get (x, 0)
        return self.mods[n] if n <= self.max else 0x0f

    def char (self, vk, held):
        x = self.first.get (vk)
        if x is None:
            return None
        c = self.column (held)
        c = x[2:][c] if c < len (x)-2 else NONE
        return None if c == NONE else chr (c)

def checkTables (ctx, drv, scancodes, charmap):
    """
    scancodes: code → virtual key | flags
    charmap: virtual key → (flags, list of characters or None)
    """
    want = {k: v for k, v in scancodes.items () if v & 0xff != 0xff}
    ctx.eq (drv.scancodes (), want, 'scan codes')
    for i in range (6):
        for held in combinations ([SHIFT, CONTROL, MENU, OEM_8, OEM_102], i):
            want = COLUMNS.index (set (held)) if set (held) in COLUMNS else 0x0f
            ctx.eq (drv.column (held), want, f'column for {list (map (hex, held))}')
    allChars = dict (charmap)
    for k, v in NUMPAD.items ():
        allChars.setdefault (k, (0, [v]))
    ctx.eq (sorted (drv.first), sorted (allChars), 'virtual keys with characters')
    for vk, (flags, chars) in allChars.items ():
        x = drv.first[vk]
        ctx.eq (x[1], flags, f'attributes of {vk:x}')
        for i, keys in enumerate (COLUMNS):
            ctx.eq (drv.char (vk, keys), chars[i] if i < len (chars) else None, f'virtual key {vk:x}, column {i}')
    # nothing unreachable, except for the keypad
    n = len ([x for x in drv.chars if x[0] not in NUMPAD or x[0] in charmap and x is drv.first[x[0]]])
    ctx.eq (n, len (charmap), 'number of entries')
    ctx.eq (len (drv.chars), len (charmap)+10, 'number of entries')
    # characters of the keypad are found last
    ctx.eq (sorted (x[0] for x in drv.chars[-10:]), sorted (NUMPAD), 'last entries')
    names = {(0xe0, x[0]): ''.join (map (chr, x[1:])) for x in drv.get ('ename')}
    names.update (((x[0], ), ''.join (map (chr, x[1:]))) for x in drv.get ('name'))
    ctx.eq (names, WINDOWSNAMES, 'names of keys')
    ctx.eq (drv.get ('misc'), [[0, 0, 0, 0, 0, 1 << 16]], 'unused tables and version')

def runTables (case, ctx):
    from lulua.winkbd import VirtualKey, VirtualKeyFlag, makeDriverSources
    sc = {tuple (k): tuple ([VirtualKey[v[0]]] + [VirtualKeyFlag[x] for x in v[1:]]) for k, v in case['scancodes']}
    cm = [(VirtualKey[vk], flags, list (chars)) for vk, flags, chars in case['charmap']]
    src = makeDriverSources (sc, cm)
    drv = Driver (ctx, src)
    def value (v):
        n = 0
        for x in v:
            n |= int (x)
        return n
    checkTables (ctx, drv, {k: value (v) for k, v in sc.items ()}, {int (vk): (flags, chars) for vk, flags, chars in cm})
    ctx.nontrivial (len ({len (x[2]) for x in cm}) > 1)
    ctx.tag ('prefixed', any (len (x) > 1 for x in sc))

def runLayout (case, ctx):
    from lulua import render
    data = case['layout']
    cwd = os.getcwd ()
    d = ctx.path ('')
    if data is None:
        data = model.packaged ()['ar-lulua']
    else:
        # Definitions in the current directory are preferred
        with open (ctx.path ('ar-lulua'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (data, fd, sort_keys=False)
    os.chdir (d)
    try:
        r = cli (render.render, ['-l', 'ar-lulua', 'winkbd', 'keyboard.c'])
    finally:
        os.chdir (cwd)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    with open (ctx.path ('keyboard.c'), encoding='utf-8') as fd:
        drv = Driver (ctx, fd.read ())
    codes = {k: tuple (v) for k, v in gen.codes (None, 'windows').items ()}
    table = drv.scancodes ()
    ctx.eq (table, WINDOWS, 'scan codes')
    # press keys
    mods = [m for l in data['layout'] for m in l['modifier']]
    isMod = {x for m in mods for x in m}
    vks = {}
    for b, c in codes.items ():
        if b in isMod or c not in table:
            continue
        vk = table[c] & 0xff
        for l in data['layout']:
            for m in l['modifier']:
                held = {GENERIC.get (table[codes[x]] & 0xff, table[codes[x]] & 0xff) for x in m}
                want = l['layer'].get (b)
                if want == '\n':
                    want = '\r'
                ctx.eq (drv.char (vk, held), want, f'character of {b} with {m}')
        texts = [l['layer'].get (b) for l in data['layout']]
        if any (texts):
            vks[vk] = (0, ['\r' if x == '\n' else x for x in texts])
    checkTables (ctx, drv, WINDOWS, vks)
    ctx.nontrivial (len (vks) > 1)
    ctx.tag ('more than four layers', len (data['layout']) > 4)

def bmp (d):
    x = gen.char (d)
    return x if ord (x) <= 0xffff and ord (x) != NONE else 'x'

def genTables (d):
    from lulua.winkbd import VirtualKey, VirtualKeyFlag
    vks = [x.name for x in VirtualKey]
    flags = [x.name for x in VirtualKeyFlag]
    def scancode (d):
        k = d.draw (3)
        c = [d.int (0, 0x7f)] if k == 0 else [0xe0 if k == 1 else 0xe1, d.pick ([0, 1, 0x7f, 0x80, 0xff]) if d.chance (1, 4) else d.int (1, 0xff)]
        return [c, [d.pick (vks)] + d.sub (flags, 0, 2)]
    sc = d.unique (scancode, 0, d.pick ([3, 20, 80]), key=lambda x: tuple (x[0]))
    n = d.pick ([3, 20, 60])
    keys = d.sub ([x for x in vks if x != 'NULL'], 0, n)
    top = d.pick ([8, 4, 2])
    cm = [[k, d.pick ([0, 0, 1, 4]), d.list (lambda d: None if d.chance (1, 4) else bmp (d), 1, top)] for k in keys]
    return dict (scancodes=sc, charmap=cm)

def genLayout (d):
    mods = [l['modifier'] for l in model.packaged ()['ar-lulua']['layout']]
    isMod = {x for l in mods for m in l for x in m}
    keys = [x for x in model.LETTERS if x not in isMod] + ['Fl_space', 'CD_ret', 'Cl_tab', 'Br_bs']
    n = d.int (1, len (mods))
    if d.chance (1, 4):
        # all columns there are
        mods = mods + [[['El_shift', 'Dl_caps'], ['Er_shift', 'Dr1']], [['Fr_altgr', 'Dl_caps']], [['Fl_ctrl'], ['Fr_ctrl']], [['El_shift', 'Fr_ctrl']]]
        n = d.int (1, len (mods))
    layers = []
    for m in mods[:n]:
        layer = {b: d.pick (['\n', '\t', ' ', '\b', 'x']) if d.chance (1, 5) else bmp (d) for b in d.sub (keys, 0, d.pick ([3, 10, 50]))}
        layer = {k: 'x' if v in gen.BAD else v for k, v in layer.items ()}
        if 'Fl_space' in layer:
            layer['Fr_space'] = layer['Fl_space']
        layers.append (dict (modifier=m, layer=layer))
    return dict (layout=dict (name='ar-lulua', layout=layers))

CHECKS = [
    Check ('layout', runLayout, genLayout, enumerate=lambda tier: [dict (layout=None)], quick=800, round=10),
    Check ('tables', runTables, genTables, quick=1300, round=20),
    ]
