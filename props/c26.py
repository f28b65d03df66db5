""" The packaged layouts are consistent and type Arabic """

import io, json, os

from harness import core, model, real
from harness.core import Check

RULE = 'every packaged layout is loaded by name, adapted to the packaged keyboard and compared with the published arrangement recorded in harness/layouts.json; ' \
    'random Arabic texts, written the way corpora are (composed, decomposed, with ligatures, European digits and punctuation), are normalised and typed ' \
    'on it. Non-trivial: at least three different characters typed'
ASSUMPTIONS = ['the recorded arrangements are the published ones']

with open (os.path.join (core.VERIF, 'harness', 'layouts.json')) as fd:
    PUBLISHED = json.load (fd)

# on every layout
BASIC = [chr (x) for x in range (0x627, 0x63b)] + [chr (x) for x in range (0x641, 0x649)] + ['\u064a', '\u0621', ' ', '\n']
# on this one
LULUA = BASIC + ['\u0649', 'أ', 'إ', 'آ', 'ؤ', 'ئ', '\ufefb', '\ufef7', '\ufef9'] + [chr (x) for x in range (0x64b, 0x656)] + \
    list ('0123456789٠١٢٣٤٥٦٧٨٩،؛؟٪,;?%.:!()«»-') + ['\u00a0', '\t']

def plain (l):
    """ Layout object to plain data """
    return [dict (modifier=[sorted (m) for m in x.modifier], layer=dict (x.layout)) for x in l.layers]

def runLayout (case, ctx):
    from lulua.layout import defaultLayouts
    name = case['name']
    want = PUBLISHED[name]
    l = defaultLayouts[name]
    ctx.eq (l.name, want['name'], 'name')
    got = plain (l)
    ctx.eq ([x['modifier'] for x in got], [[sorted (m) for m in x['modifier']] for x in want['layout']], 'modifiers')
    for i, (a, b) in enumerate (zip (got, want['layout'])):
        ctx.eq (a['layer'], b['layer'], f'texts of layer {i}')
    # consistency
    mods = [frozenset (m) for x in got for m in x['modifier']]
    ctx.eq (len (mods), len (set (mods)), 'modifier selects more than one layer')
    keys = {k for m in mods for k in m}
    for x in got:
        ctx.true (x['modifier'], 'layer without modifier')
        for b, t in x['layer'].items ():
            ctx.true (isinstance (t, str) and t != '', f'text of {b}', t)
            ctx.true (b not in keys, f'text on modifier key {b}')
            ctx.true (b in model.NAMES, f'unknown button {b}')
    s = l.specialize (real.sharedKeyboard ())
    ctx.eq ({k: {real.combKey (c) for c in v} for k, v in s}, {k: set (v) for k, v in model.Layout (want).texts.items ()}, 'combinations')
    ctx.nontrivial (len (got) > 1)

def runType (case, ctx):
    from lulua.layout import defaultLayouts
    from lulua.text import mapChars, charMap
    from lulua.writer import Writer
    name = case['name']
    m = model.Layout (PUBLISHED[name])
    text = ''.join (case['text'])
    given = mapChars (text, charMap)
    ctx.eq (given, model.normalise (text), 'normalised text')
    w = Writer (defaultLayouts[name].specialize (real.sharedKeyboard ()))
    got = []
    for match, ev in w.type (io.StringIO (given)):
        ctx.true (match is not None, f'{given!r} cannot be typed completely on {name}', getattr (ev, 'char', None))
        got.append ((match, real.combKey (ev)))
    ctx.eq (got, list (m.type (given)), 'typed')
    ctx.tag (name)
    ctx.nontrivial (len (set (given)) > 2)

def genType (d):
    name = d.pick ([x for x in PUBLISHED if x != 'null'] + ['ar-lulua']*4)
    chars = LULUA if name == 'ar-lulua' and d.chance (2, 3) else BASIC
    few = d.sub (chars, 1, 10)
    return dict (name=name, text=d.list (lambda d: d.pick (few) if d.bool () else d.pick (chars), 0, d.pick ([5, 40, 300])))

CHECKS = [
    Check ('layout', runLayout, None, enumerate=lambda tier: [dict (name=x) for x in PUBLISHED]),
    Check ('type', runType, genType, quick=12000, round=100),
    ]
