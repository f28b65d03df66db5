""" The rendered keyboard shows every key at its place with the right labels """

import os, re, math, unicodedata, copy
from collections import Counter
from xml.etree import ElementTree as ET

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli, REPO
from harness.golden import FINGERS

fastyaml.install ()

RULE = 'random keyboards (rows, widths, gaps, markings), layouts with up to four layers, heat maps and renderer settings, drawn through the Renderer class and ' \
    'lulua-render; every cap, shadow, marker, highlight and label of the drawing is compared with the geometry computed from the definition. Labels: every ' \
    'code point on its own (exhaustive) and random texts. Non-trivial: at least two keys with and one without label; a label that differs from its text'
ASSUMPTIONS = ['widths are positive, margins and gaps not negative', 'button names known to the finger map', 'heat maps have a positive maximum',
    'files: texts consist of visible characters allowed in XML 1.0']

ARROWS = {1: '\u2b61', 2: '\u2b67', 3: '\u2b68'}
CORNER = [(-0.25, 0.3), (-0.25, -0.15), (0.25, -0.15), (0.25, 0.3)]
SYMBOLS = {'\t': '\u2b7e', '\n': '\u21b3', ' ': '\u2423', '\b': '\u2326', '\u202f': '[NNBSP]'}

def label (t):
    """ What is shown for a text """
    if t is None:
        return None
    if all (unicodedata.combining (x) for x in t):
        return '\u25cc' + t
    if t in SYMBOLS:
        return SYMBOLS[t]
    if len (t) == 1 and unicodedata.category (t) == 'Cf' and unicodedata.name (t, None):
        words = re.split ('[ -]', unicodedata.name (t))
        words = [x for i, x in enumerate (words) if x != 'TO' or i in (0, len (words)-1)]
        return '[' + ''.join (x[0] for x in words) + ']'
    return t

### labels ###

def runText (case, ctx):
    from lulua.util import displayText
    changed = False
    for t in case['texts']:
        got = displayText (t)
        ctx.eq (got, label (t), f'label of {t!r}')
        changed |= got != t
    if 'range' in case:
        a, b = case['range']
        for i in range (a, b):
            t = chr (i)
            got = displayText (t)
            ctx.eq (got, label (t), f'label of {i:x}')
            changed |= got != t
    ctx.nontrivial (changed)

def genText (d):
    def text (d):
        k = d.draw (3)
        if k == 0:
            return gen.string (d, 1, 4 if d.chance (3, 4) else 60)
        if k == 1:
            return ''.join (d.list (lambda d: d.pick (gen.MARKS), 1, 3))
        return ''.join (d.list (lambda d: d.pick (gen.MARKS+gen.SPACE+gen.FORMAT+['x', '\u0627', '\b']), 1, 3))
    return dict (texts=d.list (text, 1, 6))

def blocks (tier):
    for a in range (0, 0x110000, 0x1000):
        if not 0xd800 <= a < 0xe000:
            yield dict (texts=[None] if a == 0 else [], range=[a, a+0x1000])

### drawings ###

def expected (kb, data, s, heat, visibleOnly=False):
    """ (size, caps, shadows, markers, highlights, labels) """
    margin, gap, bw, rounded, off, stroke = (s[x] for x in ('buttonMargin', 'middleGap', 'buttonWidth', 'rounded', 'shadowOffset', 'markerStroke'))
    caps, shadows, markers, highlights, labels = Counter (), Counter (), Counter (), Counter (), Counter ()
    mods = {m[0]: i for i, l in enumerate (data['layout']) for m in l['modifier'] if len (m) == 1}
    width, y = 0, 0
    used = unused = 0
    for row in kb['rows']:
        x = 0
        for j, side in enumerate (row):
            for b in side:
                w = b.get ('width', 1)*bw
                n = b['name']
                if n in mods:
                    t = raw = [ARROWS[mods[n]]]
                else:
                    raw = [l['layer'].get (n) for l in data['layout']]
                    t = [label (x) for x in raw]
                isUsed = any (t)
                used += isUsed
                unused += not isUsed
                caps[num (x, y, w, bw, rounded, rounded) + ('' if isUsed else 'unused', )] += 1
                if isUsed:
                    hand, finger = FINGERS[n]
                    shadows[num (x+off, y+off, w, bw, rounded, rounded) + (frozenset ([f'finger-{finger.lower ()}', f'hand-{hand.lower ()}']), )] += 1
                if b.get ('isMarked'):
                    a = (x+w*0.3, y+bw*0.9, x+w*0.7, y+bw*0.9)
                    markers[frozenset ([num (*[v+off for v in a], stroke) + ('shadow', ), num (*a, stroke) + ('', )])] += 1
                if heat.get (n, 0) > 0:
                    highlights[num (x+w/2, y+bw/2, min (w, bw)/2*0.9, heat[n]*1000)] += 1
                parts = Counter ()
                for cls, o in ((['shadow'], off), ([], 0)):
                    for i, (v, (cx, cy)) in enumerate (zip (t, CORNER)):
                        if v is None:
                            continue
                        px, py = x+w/2+cx*bw+o, y+bw/2+cy*bw+o
                        if v != raw[i] and v.startswith ('[') and v.endswith (']'):
                            parts[('text', ) + num (px, py) + (frozenset (['label']+cls), frozenset (['controlchar']), v[1:-1])] += 1
                            parts[('rect', ) + num (px-40, py-40, 80, 50) + (frozenset (['controllabel']+cls), )] += 1
                        else:
                            parts[('text', ) + num (px, py) + (frozenset (['label']+cls), frozenset ([f'layer-{i+1}']), v)] += 1
                labels[('modifier' if n in mods else '', frozenset (parts.items ()))] += 1
                x += w+margin
            if j == 0:
                x += gap
        width = max (width, x)
        y += bw+margin
    return (width, y), caps, shadows, markers, highlights, labels, used, unused

def num (*args):
    """
    Numbers which can be compared. Values are multiples of 10⁻⁶ at worst, thus
    none is close to the border between two steps.
    """
    return tuple (math.floor (float (x)*1000 + 0.37123456789) for x in args)

def tag (e):
    return e.tag.rsplit ('}', 1)[-1]

def attrs (e, *names):
    return num (*[e.get (x, 0) for x in names])

def drawn (ctx, g):
    """ Counterpart of expected for an element """
    groups = {}
    for e in g:
        ctx.eq (tag (e), 'g', 'element')
        ctx.true (e.get ('class') not in groups, 'group used twice', e.get ('class'))
        groups[e.get ('class')] = list (e)
    ctx.eq (sorted (groups), ['cap', 'cap-shadow', 'highlight', 'label'], 'groups')
    caps, shadows, markers, highlights, labels = Counter (), Counter (), Counter (), Counter (), Counter ()
    rect = ('x', 'y', 'width', 'height', 'rx', 'ry')
    for e in groups['cap']:
        if tag (e) == 'rect':
            caps[attrs (e, *rect) + (e.get ('class', ''), )] += 1
        else:
            ctx.eq ((tag (e), e.get ('class')), ('g', 'marker'), 'element of cap group')
            markers[frozenset (attrs (x, 'x1', 'y1', 'x2', 'y2', 'stroke-width') + (x.get ('class', ''), ) for x in e)] += 1
            ctx.eq ([tag (x) for x in e], ['line', 'line'], 'elements of a marker')
    for e in groups['cap-shadow']:
        shadows[attrs (e, *rect) + (frozenset (e.get ('class').split ()), )] += 1
    for e in groups['highlight']:
        m = re.fullmatch (r'\s*opacity:\s*([0-9.e+-]+)\s*;?\s*', e.get ('style'))
        ctx.true (m, 'style of highlight', e.get ('style'))
        highlights[attrs (e, 'cx', 'cy', 'r') + num (float (m.group (1))*1000)] += 1
    for e in groups['label']:
        parts = Counter ()
        for x in e:
            c = frozenset (x.get ('class', '').split ())
            if tag (x) == 'rect':
                parts[('rect', ) + attrs (x, 'x', 'y', 'width', 'height') + (c, )] += 1
            else:
                ctx.eq (tag (x), 'text', 'element of a label')
                ctx.eq (x.get ('text-anchor'), 'middle', 'anchor')
                spans = list (x)
                ctx.eq ([tag (y) for y in spans], ['tspan'], 'elements of a text')
                y = spans[0]
                parts[('text', ) + attrs (x, 'x', 'y') + (c, frozenset (y.get ('class', '').split ()), y.text or '')] += 1
        labels[(e.get ('class', ''), frozenset (parts.items ()))] += 1
    return caps, shadows, markers, highlights, labels

def compare (ctx, g, size, want):
    # floats come with the precision of the file
    ctx.close (size[0], want[0][0], 'width', rel=1e-6, abs_=0.01)
    ctx.close (size[1], want[0][1], 'height', rel=1e-6, abs_=0.01)
    for what, a, b in zip (('caps', 'shadows', 'markers', 'highlights', 'labels'), drawn (ctx, g), want[1:6]):
        if a != b:
            ctx.eq (dict (a-b), dict (b-a), what)
    # caps do not overlap and are inside the drawing
    rects = [[y/1000 for y in x[:4]] for x in want[1].elements ()]
    for i, (x, y, w, h) in enumerate (rects):
        ctx.true (x >= -0.01 and y >= -0.01 and x+w <= size[0]+0.02 and y+h <= size[1]+0.02, 'outside of the drawing', (x, y, w, h), size)
        for x2, y2, w2, h2 in rects[:i]:
            ctx.true (x+w <= x2+0.02 or x2+w2 <= x+0.02 or y+h <= y2+0.02 or y2+h2 <= y+0.02, 'overlap', (x, y, w, h), (x2, y2, w2, h2))
    used, unused = want[6:]
    ctx.tag ('unused keys', unused)
    ctx.tag ('highlights', want[4])
    ctx.tag ('markers', want[3])
    ctx.nontrivial (used > 1 and unused > 0)

def runDraw (case, ctx):
    from lulua.render import Renderer, RendererSettings
    from lulua.keyboard import PhysicalKeyboard
    from lulua.writer import Writer
    kbdata = case['keyboard'] or dict (name='x', description='', rows=model.KEYBOARD)
    kb = PhysicalKeyboard.deserialize (copy.deepcopy (kbdata)) if case['keyboard'] else real.sharedKeyboard ()
    l = real.layout (case['layout'], kb)
    s = case['settings']
    heat = dict (case['heat'])
    r = Renderer (kb, layout=l, writer=Writer (l), settings=RendererSettings (**s) if s else None, keyHighlight=heat)
    g, size = r.render ()
    compare (ctx, g.get_xml (), size, expected (kbdata, case['layout'], s or DEFAULT, heat))
    ctx.tag ('other keyboard', case['keyboard'])
    ctx.tag ('settings', s)

DEFAULT = dict (buttonMargin=20, middleGap=10, buttonWidth=200, rounded=10, shadowOffset=5, markerStroke=7)

FONTS = '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2/'

def runFile (case, ctx):
    from lulua import render
    import base64
    os.makedirs (ctx.path (FONTS))
    for x in ('Thin', 'Regular'):
        with open (ctx.path (FONTS + f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (b'font ' + x.encode ())
    argv = []
    data = case['layout']
    with open (ctx.path ('layout.yaml'), 'w', encoding='utf-8') as fd:
        fastyaml.dump (data, fd, sort_keys=False)
    argv += ['-l', 'layout.yaml']
    if case['keyboard']:
        with open (ctx.path ('keyboard.yaml'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (case['keyboard'], fd, sort_keys=False)
        argv += ['-k', 'keyboard.yaml']
    argv.append ('svg')
    heat = dict (case['heat'])
    if heat:
        with open (ctx.path ('heat.yaml'), 'w') as fd:
            fastyaml.dump (dict (total=sum (heat.values ()), buttons=heat), fd)
        argv += ['--heatmap', 'heat.yaml']
        heat = {k: v/max (heat.values ()) for k, v in heat.items ()}
    if case['style']:
        with open (ctx.path ('style.css'), 'w') as fd:
            fd.write ('svg .special { color: red; }')
        argv += ['--style', 'style.css']
    cwd = os.getcwd ()
    os.chdir (ctx.path (''))
    try:
        r = cli (render.render, argv + ['out.svg'])
    finally:
        os.chdir (cwd)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    root = ET.parse (ctx.path ('out.svg')).getroot ()
    size = float (root.get ('width')), float (root.get ('height'))
    (g, ) = [x for x in root if tag (x) == 'g']
    kb = case['keyboard'] or dict (rows=model.KEYBOARD)
    compare (ctx, g, size, expected (kb, data, DEFAULT, heat))
    style = ''.join (x.text for x in root.iter () if tag (x) == 'style')
    for x in ('Thin', 'Regular'):
        ctx.true (base64.b64encode (b'font ' + x.encode ()).decode () in style, f'font {x} missing')
    if case['style']:
        ctx.true ('svg .special { color: red; }' in style, 'style sheet missing')
    else:
        with open (os.path.join (REPO, 'lulua/data/render-svg.css'), encoding='utf-8') as fd:
            ctx.true (fd.read ().strip () in style, 'default style sheet missing')

def genKeyboard (d):
    names = d.sub (sorted (FINGERS), 0, d.pick ([4, 12, 61]))
    # modifiers must be there
    for x in gen.ALLMODS:
        if x not in names:
            names.append (x)
    names = d.shuffle (names)
    rows = []
    while names:
        n = d.int (1, 16)
        part, names = names[:n], names[n:]
        k = d.int (0, len (part))
        def button (x):
            b = dict (name=x, kind=d.pick (['letter', 'standard', 'multi']))
            if b['kind'] == 'multi':
                b['span'] = 2
            if d.bool ():
                b['width'] = d.pick ([1, 1.25, 1.75, 2.35, 0.5, 3, 0.01])
            if d.chance (1, 5):
                b['isMarked'] = True
            return b
        rows.append ([[button (x) for x in part[:k]], [button (x) for x in part[k:]]])
        if d.chance (1, 12):
            rows.append ([[], []])
    return dict (name='test', description='', rows=rows)

LABELS = list (SYMBOLS) + ['\u064b', '\u0651\u064e', '\u0651x', '\u200c', '\u200e', '\u2066', '\U000e0061', '\u0627', '[', ']', '[x]', '[]', '[', 'ab', '\u0644\u0627', '&', '<', '\u061c']

def genDrawing (d):
    kb = genKeyboard (d) if d.bool () else None
    names = [b['name'] for l, r in (kb['rows'] if kb else model.KEYBOARD) for b in l+r]
    data = gen.layout (d, buttons=names, packaged=kb is None, text=lambda d: d.pick (LABELS) if d.bool () else gen.typable (d) if d.bool () else gen.string (d, 1, 3 if d.chance (3, 4) else 40))
    s = None
    if d.chance (2, 3):
        s = dict (buttonMargin=d.pick ([20, 0, 1, 7.5]), middleGap=d.pick ([10, 0, 100, 2.5]), buttonWidth=d.pick ([200, 1, 50, 33.3]), rounded=d.pick ([10, 0, 3]),
            shadowOffset=d.pick ([5, 0, 2, 10]), markerStroke=d.pick ([7, 1, 3.5]))
    heat = [[x, d.pick ([1, 0, 0.5, 0.01, 0.99]) if d.bool () else d.draw (1000)/1000] for x in d.sub (names + ['Xyz'], 0, d.pick ([0, 5, 30]))]
    return dict (layout=data, keyboard=kb, settings=s, heat=heat)

def genFile (d):
    kb = genKeyboard (d) if d.bool () else None
    names = [b['name'] for l, r in (kb['rows'] if kb else model.KEYBOARD) for b in l+r]
    def text (d):
        if d.bool ():
            return d.pick (LABELS)
        x = gen.typable (d)
        c = unicodedata.category (x)
        # white space may be re-arranged, control characters are not allowed
        return x if c[0] not in 'CZ' or c == 'Cf' else 'y'
    data = gen.layout (d, buttons=names, packaged=kb is None, text=text)
    heat = [[x, d.pick ([1, 0, 2]) if d.bool () else d.int (0, 100000)] for x in d.sub (names + ['Xyz'], 0, d.pick ([0, 5, 30]))]
    if heat:
        heat[0][1] += 1
    return dict (layout=data, keyboard=kb, heat=heat, style=d.chance (1, 3))

CHECKS = [
    Check ('labels', runText, genText, enumerate=blocks, quick=16000),
    Check ('drawing', runDraw, genDrawing, quick=6000, round=50),
    Check ('file', runFile, genFile, quick=800, round=20),
    ]
