""" macOS and Android exports are well-formed and describe exactly the layout """

import re, unicodedata, copy
from collections import Counter
from xml.etree import ElementTree as ET

from harness import fastyaml, gen, model
from harness.core import Check
from harness.export import render

fastyaml.install ()

RULE = 'random layouts whose texts contain control, combining, markup, line breaking and astral characters (and packaged layouts), on the ' \
    'packaged keyboard and on keyboards with random rows, kinds and key codes, exported by lulua-render; the documents are parsed by an ' \
    'independent parser according to their declared XML version. Non-trivial: at least two texts in at least two layers'
ASSUMPTIONS = ['layouts have a name', 'up to four layers, at least one for Android', 'macOS: text on keys with a macOS key code only, both halves of the space bar have the same text if both have one',
    'Android: no characters on letter keys that cannot be part of an XML 1.0 document', 'no U+0000, U+FFFE, U+FFFF and surrogates']

RESTRICTED = re.compile ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]')

def parse (ctx, data):
    """ Parse XML 1.0 or 1.1 document """
    m = re.match (rb'<\?xml version=["\'](1\.[01])["\']( encoding=["\']([A-Za-z0-9-]+)["\'])?\s*\?>', data)
    ctx.true (m, 'no XML declaration', data[:100])
    if m.group (1) == b'1.0':
        try:
            return ET.fromstring (data), lambda x: x
        except ET.ParseError as e:
            ctx.fail (f'not well-formed: {e}')
    ctx.true (m.group (3) is None or m.group (3).lower () == b'utf-8', 'encoding', m.group ())
    text = data.decode ('utf-8')
    x = RESTRICTED.search (text)
    ctx.true (not x, 'literal control character in XML 1.1 document', x)
    # line breaks
    text = re.sub ('\r\n|\r\x85|\x85|\u2028|\r', '\n', text)
    text = text[:2] + text[2:].replace ('1.1', '1.0', 1)
    # References to control characters are not supported by the parser
    base = 0xf0000
    while any (chr (base+i) in text for i in range (0x20)):
        base += 0x20
    def replace (m):
        v = int (m.group (1)[1:], 16) if m.group (1)[0] in 'xX' else int (m.group (1))
        return chr (base+v) if 0 < v < 0x20 and v not in (9, 10, 13) else m.group ()
    text = re.sub ('&#(x[0-9a-fA-F]+|[0-9]+);', replace, text)
    try:
        root = ET.fromstring (text.encode ('utf-8'))
    except ET.ParseError as e:
        ctx.fail (f'not well-formed: {e}')
    def back (s):
        return ''.join (chr (ord (x)-base) if 0 <= ord (x)-base < 0x20 else x for x in s)
    return root, back

def mark (ctx, data, kb):
    ctx.tag (f'{len (data["layout"])} layers')
    ctx.tag ('other keyboard', kb is not None)
    t = ''.join (x for l in data['layout'] for x in l['layer'].values ())
    ctx.tag ('control characters', RESTRICTED.search (t))
    ctx.tag ('markup', re.search ('[<>&"\']', t))
    ctx.tag ('line breaks', re.search ('[\n\r\x85\u2028]', t))
    ctx.tag ('astral', any (ord (x) > 0xffff for x in t))
    ctx.tag ('combining', any (unicodedata.combining (x) for x in t))
    n = [len (l['layer']) for l in data['layout']]
    ctx.nontrivial (sum (n) > 1 and len ([x for x in n if x]) > 1)

def runKeylayout (case, ctx):
    data, kb = case['layout'], case['keyboard']
    out = render (ctx, 'keylayout', data, kb)
    codes = gen.codes (kb, 'macos')
    root, back = parse (ctx, out)
    ctx.eq (root.tag, 'keyboard', 'root element')
    ctx.eq (back (root.get ('name')), data['name'], 'name')
    ids = [x.get ('id') for x in root if x.get ('id') is not None]
    ctx.eq (len (ids), len (set (ids)), 'unique ids')
    (l, ) = root.findall ('layouts/layout')
    (modmap, ) = [x for x in root.findall ('modifierMap') if x.get ('id') == l.get ('modifiers')]
    (mapset, ) = [x for x in root.findall ('keyMapSet') if x.get ('id') == l.get ('mapSet')]
    ctx.eq ({int (x.get ('mapIndex')): [m.get ('keys') for m in x.findall ('modifier')] for x in modmap.findall ('keyMapSelect')},
        {0: [''], 1: ['anyShift caps?'], 2: ['caps'], 3: ['anyOption']}, 'modifiers')
    maps = mapset.findall ('keyMap')
    ctx.eq ([int (x.get ('index')) for x in maps], list (range (len (data['layout']))), 'key maps')
    for i, (m, l) in enumerate (zip (maps, data['layout'])):
        got = {}
        for k in m.findall ('key'):
            v = back (k.get ('output'))
            ctx.eq (got.setdefault (int (k.get ('code')), v), v, f'code {k.get ("code")}, layer {i}, twice')
        ctx.eq (got, {codes[b]: t for b, t in l['layer'].items ()}, f'layer {i}')
    mark (ctx, data, kb)

ANDROID = '{http://schemas.android.com/apk/res/android}'
ASK = '{http://schemas.android.com/apk/res-auto}'

def runAsk (case, ctx):
    data, kb = case['layout'], case['keyboard']
    out = render (ctx, 'ask', data, kb)
    root, back = parse (ctx, out)
    ctx.eq (root.tag, 'Keyboard', 'root element')
    rows = list (root)
    ctx.true (rows and all (x.tag == 'Row' for x in rows), 'rows', rows)
    mods = {m[0] for l in data['layout'] for m in l['modifier'] if len (m) == 1}
    want = []
    keyrows = kb['rows'] if kb else model.KEYBOARD
    for i, (l, r) in enumerate (keyrows[:-1]):
        names = [b['name'] for b in l+r if b.get ('kind') == 'letter' and b['name'] not in mods]
        if names:
            want.append ((i, names))
    ctx.eq (len (rows)-1, len (want), 'number of rows')
    for row, (i, names) in zip (rows, want):
        ctx.eq (row.get (ANDROID + 'rowEdgeFlags'), 'top' if i == 0 else None, f'edge of row {i}')
        ctx.eq (row.get (ANDROID + 'keyHeight'), '@integer/key_short_height' if i == 0 else None, f'height of row {i}')
        w = re.fullmatch (r'([0-9.]+)%p', row.get (ANDROID + 'keyWidth') or '')
        ctx.true (w and abs (float (w.group (1))-100/len (names)) <= 0.0051, f'key width of row {i}', row.attrib, len (names))
        ctx.eq ([x.tag for x in row], ['Key']*len (names), f'keys of row {i}')
        for key, n in zip (row, names):
            t = [unicodedata.normalize ('NFC', l['layer'].get (n, '')) for l in data['layout']]
            ctx.eq (dict (key.attrib), {
                ANDROID + 'codes': ','.join (str (ord (x)) for x in t[0]),
                ANDROID + 'keyLabel': t[0],
                ANDROID + 'popupCharacters': ''.join (t[1:]),
                ASK + 'hintLabel': ''.join (t[1:3]),
                }, f'key {n}')
    bottom = rows[-1]
    ctx.eq (bottom.get (ANDROID + 'rowEdgeFlags'), 'bottom', 'edge of bottom row')
    ctx.eq ([x.get (ANDROID + 'codes') for x in bottom], ['10', '32', '-5'], 'bottom row')
    ctx.eq ([x.get (ASK + 'isFunctional') for x in bottom], ['true']*3, 'functional keys')
    ctx.eq ([x.get (ANDROID + 'isRepeatable') for x in bottom], [None, None, 'true'], 'repeatable keys')
    ctx.eq ([x.get (ANDROID + 'keyEdgeFlags') for x in bottom], ['left', None, 'right'], 'edges')
    ctx.eq ([x.get (ANDROID + 'keyWidth') for x in bottom], ['25%p', '50%p', '25%p'], 'widths')
    mark (ctx, data, kb)

NASTY = list ('<>&"\'') + [']]>', '&amp;', '&#x41;', '<!--', '\n', '\t', ' ', '\b', '\x7f', '\x1b', '\x01', '\x1f', '\x0b', '\x80', '\x9f', '\x85', '\u2028', '\u2029',
    '\u0627\u0653', '\u0627\u0654', '\u0648\u0654', 'e\u0301', '\u0301', '\u0644\u0627', '\u212b', '\U0001f600', '\U000f0001', '\u200d', '\ufeff', '\u00a0', 'ab', '\ufefb', '\ufb1d', '\u0958', '\u0344']

def text (d):
    return d.pick (NASTY) if d.bool () else gen.string (d, 1, 3) if d.chance (1, 4) else gen.typable (d)

def clean (s, ok10):
    s = ''.join (x for x in s if x not in '\0\ufffe\uffff' and (ord (x) & 0xfffe) != 0xfffe)
    if ok10:
        s = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f]', '', s)
    return s or 'x'

def genKeylayout (d):
    kb = gen.keyboard (d) if d.bool () else None
    codes = gen.codes (kb, 'macos')
    data = copy.deepcopy (gen.layout (d, text=text, buttons=sorted (codes), packaged=False))
    for l in data['layout']:
        l['layer'] = {k: clean (v, False) for k, v in l['layer'].items ()}
    if d.chance (1, 3):
        data['name'] = d.pick (['a & b', '<x>', '"', 'لؤلؤة', "'"])
    return dict (layout=gen.sameSpace (data, codes), keyboard=kb)

def genAsk (d):
    kb = gen.keyboard (d) if d.bool () else None
    data = copy.deepcopy (gen.layout (d, text=text))
    for l in data['layout']:
        l['layer'] = {k: clean (v, True) for k, v in l['layer'].items ()}
    return dict (layout=data, keyboard=kb)

def packaged (tier):
    codes = gen.codes (None, 'macos')
    for k, v in model.packaged ().items ():
        if v['name'] is not None and all (b in codes for l in v['layout'] for b in l['layer']):
            yield dict (layout=gen.sameSpace (copy.deepcopy (v), codes), keyboard=None)

def packagedAsk (tier):
    for k, v in model.packaged ().items ():
        if v['layout']:
            yield dict (layout=v, keyboard=None)

CHECKS = [
    Check ('keylayout', runKeylayout, genKeylayout, enumerate=packaged, quick=4000, round=50),
    Check ('ask', runAsk, genAsk, enumerate=packagedAsk, quick=4500, round=50),
    ]
