""" xmodmap, Keyman and Klavaro exports describe exactly the given layout """

import re, unicodedata, copy
from collections import Counter
from itertools import combinations

from harness import fastyaml, gen, model, real
from harness.core import Check
from harness.export import render

fastyaml.install ()

RULE = 'random layouts within the range of each format (and packaged ones), on the packaged keyboard and on keyboards with random ' \
    'rows, kinds and key codes, exported by lulua-render; the output is parsed and compared with the definition. ' \
    'Non-trivial: at least two texts in at least two layers'
ASSUMPTIONS = ['xmodmap: up to four layers (seven if these cannot be switched to), single-key modifiers and single printable characters, tab, newline, space and backspace',
    'both halves of the space bar have the same text if both have one', 'klavaro: no newline on a letter key']

SYMBOLS = {'Tab': '\t', 'Return': '\n', 'space': ' ', 'BackSpace': '\b'}
SWITCH = {1: ['Shift_L', 'Shift_Lock'],
    2: ['ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_First_Group', 'NoSymbol'],
    3: ['ISO_Level3_Shift', 'ISO_Level3_Shift', 'ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_Level3_Lock', 'NoSymbol']}

def strip (l):
    l = list (l)
    while l and l[-1] is None:
        l.pop ()
    return l

def mark (ctx, data, kb):
    ctx.tag (f'{len (data["layout"])} layers')
    ctx.tag ('other keyboard', kb is not None)
    n = [len (l['layer']) for l in data['layout']]
    ctx.nontrivial (sum (n) > 1 and len ([x for x in n if x]) > 1)

def runXmodmap (case, ctx):
    data, kb = case['layout'], case['keyboard']
    out = render (ctx, 'xmodmap', data, kb).decode ('utf-8')
    codes = gen.codes (kb, 'xorg')
    layers = [l['layer'] for l in data['layout']]
    want = {}
    for b, c in codes.items ():
        w = want.setdefault (c, [None]*8)
        for i, l in zip ((0, 1, 2, 4, 3, 6, 7), layers):
            if l.get (b) is not None:
                w[i] = l[b]
    want = {k: strip (v) for k, v in want.items ()}
    for i, l in enumerate (data['layout']):
        for m in l['modifier']:
            for b in m:
                want[codes[b]] = SWITCH[i]
    got = {}
    other = []
    for l in out.splitlines ():
        l = l.strip ()
        if not l or l.startswith ('!'):
            continue
        m = re.fullmatch (r'keycode\s+(\d+)\s*=\s*(.*)', l)
        if not m:
            other.append (' '.join (l.split ()))
            continue
        c, syms = int (m.group (1)), m.group (2).split ()
        ctx.true (c not in got, 'key code used twice', l)
        if syms in SWITCH.values ():
            got[c] = syms
            continue
        texts = []
        for s in syms:
            if s == 'NoSymbol':
                texts.append (None)
            elif s in SYMBOLS:
                texts.append (SYMBOLS[s])
            else:
                ctx.true (re.fullmatch ('U[0-9A-Fa-f]{4,6}', s), 'unknown symbol', l)
                n = int (s[1:], 16)
                # X knows no such symbol
                ctx.true (n >= 0x20 and not 0x7f <= n < 0xa0, 'control character', l)
                texts.append (chr (n))
        got[c] = strip (texts)
    ctx.eq (sorted (got), sorted (want), 'key codes')
    for c in want:
        ctx.eq (got[c], want[c], f'key code {c}')
    ctx.eq (sorted (other), sorted (['clear Lock', 'clear Mod2', 'clear Mod3', 'clear Mod5', 'add Mod3 = ISO_First_Group', 'add Mod5 = ISO_Level3_Shift']), 'other commands')
    mark (ctx, data, kb)

def runKeyman (case, ctx):
    data, kb = case['layout'], case['keyboard']
    out = render (ctx, 'keyman', data, kb).decode ('utf-8')
    codes = gen.codes (kb, 'keyman')
    want = Counter ()
    for l in data['layout']:
        for m in l['modifier']:
            for b, t in l['layer'].items ():
                want[(tuple (sorted (codes[x] for x in m)), codes[b], t)] += 1
    got = Counter ()
    main = False
    for l in out.splitlines ():
        if l.strip () == 'group(main) using keys':
            main = True
        if not l.startswith ('+'):
            continue
        m = re.fullmatch (r'\+\s*\[([^\]]*)\]\s*>\s*((?:U\+[0-9A-F]{4,6}\s*)+)', l)
        ctx.true (m, 'cannot parse rule', l)
        ctx.true (main, 'rule outside of group', l)
        k = m.group (1).split ()
        got[(tuple (sorted (k[:-1])), k[-1], ''.join (chr (int (x[2:], 16)) for x in m.group (2).split ()))] += 1
    # the halves of the space bar are one key
    shared = {c for c, n in Counter (codes.values ()).items () if n > 1}
    def clean (c):
        return {k: 1 if k[1] in shared else n for k, n in c.items ()}
    ctx.eq (clean (got), clean (want), 'rules')
    ctx.true (re.search (r'^begin Unicode > use\(main\)$', out, re.M), 'no entry point')
    mark (ctx, data, kb)

def runKlavaro (case, ctx):
    data, kb = case['layout'], case['keyboard']
    out = render (ctx, 'klavaro', data, kb).decode ('utf-8')
    layers = [l['layer'] for l in data['layout']]
    want = []
    for i in (0, 1):
        l = layers[i] if i < len (layers) else {}
        for left, right in (kb['rows'] if kb else model.KEYBOARD):
            row = [b['name'] for b in left+right if b.get ('kind') == 'letter']
            if row:
                want.append (''.join (unicodedata.normalize ('NFC', l[b]) if b in l else ' ' for b in row))
    ctx.eq (out.rstrip ('\n').split ('\n'), want or [''], 'rows')
    mark (ctx, data, kb)

def runCodes (case, ctx):
    kb = real.keyboard (case['keyboard'])
    btns = list (kb.keys ())
    for kind in ('xorg', 'keyman', 'macos', 'windows'):
        c = {b.name: b.scancode[kind] for b in btns if kind in b.scancode}
        for a, b in combinations (c, 2):
            space = a.endswith ('_space') and b.endswith ('_space')
            shift = kind == 'keyman' and a.endswith ('_shift') and b.endswith ('_shift')
            ctx.true (c[a] != c[b] or space or shift, f'same {kind} code', a, b, c[a])
        if case['keyboard'] == 'ibmpc105':
            for b in model.BUTTONS:
                if kind in b['scancode']:
                    got = c.get (b['name'])
                    ctx.eq (list (got) if kind == 'windows' and got is not None else got, b['scancode'][kind], f'{kind} code of {b["name"]}')
    ctx.nontrivial ()

def single (d):
    while True:
        x = gen.typable (d)
        if x in '\t\n \b' or unicodedata.category (x)[0] != 'C' or unicodedata.category (x) == 'Cf':
            return x
        return 'x'

def genXmodmap (d):
    kb = gen.keyboard (d) if d.bool () else None
    alphabet = ['\t', '\n', ' ', '\b', 'ا', '\u064b', 'x']
    data = gen.layout (d, multi=False, multichar=False, text=lambda d: d.pick (alphabet) if d.chance (1, 3) else single (d), packaged=True)
    data = copy.deepcopy (data)
    if len (data['layout']) >= 4 and d.bool ():
        # further layers, but there are no switches for them
        names = [b for l in data['layout'] for b in l['layer']]
        for i in range (d.int (1, 3)):
            data['layout'].append (dict (modifier=[], layer={b: single (d) for b in d.sub (names, 0, 6)} if names else {}))
    return dict (layout=gen.sameSpace (data, gen.codes (kb, 'xorg')), keyboard=kb)

def genKeyman (d):
    kb = gen.keyboard (d) if d.bool () else None
    data = gen.layout (d, maxLayers=5)
    return dict (layout=gen.sameSpace (copy.deepcopy (data), gen.codes (kb, 'keyman')), keyboard=kb)

COMPOSE = ['\u0627\u0653', '\u0627\u0654', '\u0648\u0654', '\u0627\u0655', '\u064a\u0654', 'e\u0301', 'a\u0308', '\u0644\u0627', '\u212b', '\uac00', '\u1100\u1161', '\u0654', 'ab']

def genKlavaro (d):
    kb = gen.keyboard (d) if d.bool () else None
    data = gen.layout (d, text=lambda d: d.pick (COMPOSE) if d.bool () else gen.typable (d))
    data = copy.deepcopy (data)
    letters = {b['name'] for l, r in (kb['rows'] if kb else model.KEYBOARD) for b in l+r if b.get ('kind') == 'letter'}
    for l in data['layout']:
        for k, v in l['layer'].items ():
            if k in letters:
                l['layer'][k] = v.replace ('\n', 'n')
    return dict (layout=data, keyboard=kb)

def packaged (tier):
    for k, v in model.packaged ().items ():
        yield dict (layout=gen.sameSpace (copy.deepcopy (v), gen.codes (None, 'xorg')), keyboard=None)

def packagedSingle (tier):
    for x in packaged (tier):
        if all (len (t) == 1 for l in x['layout']['layout'] for t in l['layer'].values ()):
            yield x

def keyboards (tier):
    from lulua.keyboard import defaultKeyboards
    for x in defaultKeyboards:
        yield dict (keyboard=x.name)

CHECKS = [
    Check ('codes', runCodes, enumerate=keyboards),
    Check ('xmodmap', runXmodmap, genXmodmap, enumerate=packagedSingle, quick=3600, round=50),
    Check ('keyman', runKeyman, genKeyman, enumerate=packaged, quick=3600, round=50),
    Check ('klavaro', runKlavaro, genKlavaro, enumerate=packaged, quick=3600, round=50),
    ]
