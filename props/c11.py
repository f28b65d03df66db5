""" Character normalisation is per character, complete and idempotent """

import io, json

from harness import gen, model, real
from harness.core import Check
from harness.golden import CHARMAP
from props.c05 import compare
from props.c08 import lululaWrite, openFifo

RULE = 'every code point on its own and in the context of its neighbours (exhaustive), random strings split at random ' \
    'positions, random custom maps, and texts with all kinds of line endings typed by lulua-write on a layout which ' \
    'distinguishes normalised and original characters. Non-trivial: at least one mapped and one kept character'
ASSUMPTIONS = ['texts contain no lone surrogates']

def runAll (case, ctx):
    from lulua.text import mapChars, charMap
    chars = [chr (x) for x in range (case[0], case[1]) if not 0xd800 <= x < 0xe000]
    for c in chars:
        got = mapChars (c, charMap)
        want = CHARMAP.get (c, c)
        if got != want:
            ctx.eq (got, want, f'{c!r} alone')
        # the result contains nothing that would be mapped
        ctx.true (all (x not in charMap for x in got), f'{c!r} maps to something mapped', got)
    s = ''.join (chars)
    want = ''.join (CHARMAP.get (c, c) for c in chars)
    ctx.eq (mapChars (s, charMap), want, 'in a row')
    ctx.eq (mapChars (s[::-1], charMap), ''.join (CHARMAP.get (c, c) for c in reversed (chars)), 'reversed')
    ctx.nontrivial (any (c in CHARMAP for c in chars))

def allChars (tier):
    for i in range (0, 0x110000, 0x800):
        yield [i, i+0x800]

MAPPED = sorted (CHARMAP)
IMAGE = sorted (set (''.join (CHARMAP.values ())))

def piece (d):
    k = d.draw (6)
    if k < 2:
        return d.pick (MAPPED)
    if k < 3:
        return d.pick (IMAGE)
    if k < 4:
        # looks like a mapped one
        return d.pick (['ﻼ', 'ﻵ', 'ﻶ', 'ﻺ', 'ﻸ', 'ٱ', 'ٲ', 'ٳ', '۰', '۵', '۹', '٫', '٬', '‚', '；', '？', '⁊', '‰', '\u202f', '\u2007', '\u3000', '０', '５', '\u0653', '\u0654', '\u0655', 'ا', 'ل', 'لا', 'ي', 'ى', 'و'])
    return gen.char (d) if d.chance (7, 8) else gen.literal (d)

def runStrings (case, ctx):
    from lulua.text import mapChars, charMap
    s = gen.expand (case['text'])
    want = ''.join (CHARMAP.get (c, c) for c in s)
    got = mapChars (s, charMap)
    ctx.eq (got, want, 'normalised text')
    ctx.eq (mapChars (got, charMap), want, 'normalised twice')
    cuts = sorted (x % (len (s)+1) for x in case['cuts'])
    parts = [s[a:b] for a, b in zip ([0]+cuts, cuts+[len (s)])]
    ctx.eq (''.join (mapChars (x, charMap) for x in parts), want, f'normalised in parts, {cuts}')
    ctx.nontrivial (any (c in CHARMAP for c in s) and any (c not in CHARMAP for c in s))

def strings (d):
    return dict (text=d.list (lambda d: [piece (d), gen.length (d, 3000) if d.chance (1, 10) else 1], 0, 30), cuts=d.list (lambda d: d.int (0, 60), 0, 3))

def longStrings (d):
    return dict (text=d.list (lambda d: [piece (d), gen.length (d, 300000) if d.chance (1, 3) else 1], 0, 30), cuts=d.list (lambda d: d.int (0, 300000), 0, 3))

def runCustom (case, ctx):
    from lulua.text import mapChars
    m = dict (case['map'])
    before = dict (m)
    s = case['text']
    ctx.eq (mapChars (s, m), ''.join (m[c] if c in m else c for c in s), 'custom map')
    ctx.eq (m, before, 'map changed')
    ctx.nontrivial (any (c in m for c in s))

def custom (d):
    alphabet = d.list (gen.char, 1, 6)
    return dict (map=d.list (lambda d: [d.pick (alphabet), gen.string (d, 0, 3)], 0, 6), text=''.join (d.list (lambda d: d.pick (alphabet), 0, 20)))

# everything that may come in or out has a key of its own
KEYS = MAPPED + IMAGE + ['\n', '\r', '\u00a0', ' ', '\u202f', 'ٱ']
KEYS = sorted (set (KEYS))
LAYOUT = dict (name='all', layout=[])
for _i, _m in enumerate ([[[]], [['El_shift']], [['Fr_altgr']]]):
    _part = KEYS[_i*40:_i*40+40]
    LAYOUT['layout'].append (dict (modifier=_m, layer=dict (zip (model.LETTERS, _part))))
assert len (KEYS) <= 120

def runPipeline (case, ctx):
    import yaml
    texts = [gen.expand (x) for x in case['texts']]
    with open (ctx.path ('layout.yaml'), 'w', encoding='utf-8') as fd:
        yaml.safe_dump (LAYOUT, fd, sort_keys=False)
    def feed (path, stop):
        fd = openFifo (path, stop)
        try:
            with fd:
                for t in texts:
                    fd.write (json.dumps (t).encode ('ascii') + b'\n')
        except BrokenPipeError:
            pass
    status, out, err = lululaWrite (['-j', str (case['jobs']), ctx.path ('layout.yaml'), 'json'], ctx, feed, [])
    ctx.true (status == 0, f'exit status {status}', err[-2000:])
    got = model.addStats (*(real.stats (s) for s in real.unpickle (out)))
    w = [real.stats (real.typeStats (real.writer (LAYOUT), model.normalise (t))) for t in texts]
    compare (ctx, got, model.addStats (*w))
    s = ''.join (texts)
    ctx.tag ('CRLF', '\r\n' in s)
    ctx.nontrivial (any (c in CHARMAP for c in s) and '\r' in s)

def pipeline (d):
    def p (d):
        k = d.draw (4)
        if k == 0:
            return [d.pick (['\r\n', '\n', '\r', '\n\r', '\r\r\n']), d.int (1, 3)]
        if k == 1:
            return [d.pick (KEYS), 1]
        return [piece (d), 1]
    return dict (texts=d.list (lambda d: d.list (p, 1, 40), 1, 12), jobs=d.pick ([1, 2]))

CHECKS = [
    Check ('allChars', runAll, enumerate=allChars),
    Check ('strings', runStrings, strings, quick=90000),
    Check ('longStrings', runStrings, longStrings, quick=150, round=10),
    Check ('custom', runCustom, custom, quick=60000),
    Check ('pipeline', runPipeline, pipeline, quick=240, thorough=2000, cpu=600, round=20, shrink=25),
    ]
