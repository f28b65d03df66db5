"""
Generators: functions of an engine.D object which yield JSON-able values.
"""

import os, ast, json, functools, unicodedata

from . import model, core

### constants of the code under test ###

MAXINT = 1 << 24

def _fold (node):
    """ Value of a constant integer expression like 100*1024 """
    if isinstance (node, ast.Constant):
        return node.value if type (node.value) is int else None
    if isinstance (node, ast.BinOp):
        a, b = _fold (node.left), _fold (node.right)
        if a is None or b is None:
            return None
        if isinstance (node.op, ast.Mult):
            return a*b
        if isinstance (node.op, ast.Add):
            return a+b
        if isinstance (node.op, ast.Sub):
            return a-b
        if isinstance (node.op, ast.LShift) and 0 <= b < 30:
            return a << b
        if isinstance (node.op, ast.Pow) and 0 <= b < 30 and 0 <= a <= 1024:
            return a**b
    return None

@functools.lru_cache (None)
def harvested ():
    """
    Integers, characters and strings which appear as literals in the sources.
    Used as additional input values only: code tends to behave differently
    around its own constants.
    """
    ints, chars, strs, floats = scan ()
    return sorted (ints), sorted (chars), sorted (x for x in strs if len (x) <= 6)

@functools.lru_cache (None)
def novel ():
    """
    The same, but those which have not been there when this was written
    (harness/literals.json) only. Most likely empty.
    """
    with open (os.path.join (os.path.dirname (__file__), 'literals.json')) as fd:
        known = json.load (fd)
    ret = [sorted (x-set (k)) for x, k in zip (scan (), known)]
    # code points may be written as number
    ret[1] = sorted (set (ret[1]) | {chr (x) for x in ret[0] if 0x20 <= x < 0x110000 and not 0xd800 <= x < 0xe000} | {c for x in ret[2] for c in x})
    return ret

@functools.lru_cache (None)
def scan ():
    ints, chars, strs, floats = set (), set (), set (), set ()
    d = os.path.join (core.REPO, 'lulua')
    for x in sorted (os.listdir (d)):
        if not x.endswith ('.py') or x.startswith ('test_'):
            continue
        # thousands of uninteresting key codes
        if x == 'winkbd.py':
            continue
        try:
            with open (os.path.join (d, x), encoding='utf-8') as fd:
                tree = ast.parse (fd.read ())
        except (SyntaxError, UnicodeDecodeError):
            continue
        for node in ast.walk (tree):
            if isinstance (node, ast.BinOp):
                v = _fold (node)
                if isinstance (v, int) and 1 < v <= MAXINT:
                    ints.add (v)
            if isinstance (node, ast.Constant):
                v = node.value
                if isinstance (v, bool):
                    continue
                if isinstance (v, int) and 1 < v <= MAXINT:
                    ints.add (v)
                elif isinstance (v, float):
                    floats.add (v)
                    continue
                if isinstance (v, bytes):
                    v = v.decode ('latin-1')
                if isinstance (v, str) and 0 < len (v) <= 40:
                    strs.add (v)
                    if len (v) <= 3:
                        chars.update (v)
    chars = {x for x in chars if unicodedata.category (x) != 'Cs'}
    strs = {x for x in strs if not any (unicodedata.category (c) == 'Cs' for c in x)}
    return ints, chars, strs, floats

def literal (d):
    """ A string of the sources """
    l = novel ()[2]
    if l and d.chance (3, 4):
        return d.pick (l)
    return d.pick (STRINGS)

def literalChar (d):
    l = novel ()[1]
    if l and d.bool ():
        return d.pick (l)
    return d.pick (harvested ()[1])

def near (d, top):
    l = [y for x in novel ()[0] for y in (x-1, x, x+1) if 0 < y <= top]
    if l and d.bool ():
        return d.pick (l)
    return d.pick (_near (top))

@functools.lru_cache (None)
def _near (top):
    ints = [x for x in harvested ()[0] if x <= top]
    return sorted ({y for x in ints + [16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 4096, 65536] for y in (x-1, x, x+1) if 0 < y <= top}) or [1]

def length (d, top=300):
    """ Repetition count: mostly small, sometimes around a constant of the code """
    k = d.draw (8)
    if k < 4:
        return d.int (1, min (4, top))
    if k < 6:
        return d.int (1, min (40, top))
    if k < 7:
        return near (d, top)
    return d.int (1, top)

### characters ###

# usual suspects
STRINGS = ['.', '..', '._x', '.hidden', '__MACOSX/', 'x.txt', 'x.html', 'x.xml', 'README', 'index', 'text', 'None', 'null', 'True', '0', '-1', 'NaN', 'ar', 'en', 'a=b', 'x,y', 'http://x.y/', '@x', '#x', 'ـــ', 'الله', 'قال']

ARABIC = list ('ابتثجحخدذرزسشصضطظعغفقكلمنهويءىةآأإؤئٱپـ')
MARKS = ['\u064b', '\u064c', '\u064d', '\u064e', '\u064f', '\u0650', '\u0651', '\u0652', '\u0653', '\u0654', '\u0655', '\u0670', '\u0300', '\u0301']
DIGITS = list ('0123456789') + [chr (0x660+i) for i in range (10)]
PUNCT = list ('.,;:!?%&<>"\'-_/()[]{}*@#\\^`~|+=$') + list ('،؛؟٪«»…')
LATIN = list ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') + ['ä', 'ß', 'Å', 'ṩ']
SPACE = [' ', '\n', '\t', '\u00a0', '\u202f', '\r', '\u2009', '\u3000', '\u2028', '\u0085', '\u000b', '\u000c']
FORMAT = ['\u200b', '\u200c', '\u200d', '\u200e', '\u200f', '\u202a', '\u202b', '\u202c', '\u2066', '\u061c', '\ufeff', '\u00ad']
OTHER = ['\b', '\u0000', '\u001b', '\u007f', '\ufefb', '\ufef7', '\ufef9', '\ufef5', '\ufefc', '\ufdfa', '\ufdf2',
    '\U0001f600', '\U0001e900', '\U000e0061', '\U00010fff', '\u4e2d', '\uffff', '\ufffe', '\ue000', '\u00bd', '\u2167', '\u01c5', '\u02b0', '\u0345', '\u0903', '\u20dd']
POOLS = [ARABIC, ARABIC, LATIN, MARKS, DIGITS, PUNCT, SPACE, FORMAT, OTHER]

def anychar (d):
    """ Any code point, no surrogates """
    k = d.draw (4)
    if k == 0:
        return chr (d.int (0x20, 0x7e))
    if k == 1:
        return chr (d.int (0x600, 0x6ff))
    if k == 2:
        x = d.int (0, 0xffff-0x800)
        return chr (x if x < 0xd800 else x+0x800)
    return chr (d.int (0x10000, 0x10ffff))

def char (d, wide=True):
    k = d.draw (len (POOLS)+3)
    if k < len (POOLS):
        return d.pick (POOLS[k])
    if k == len (POOLS):
        return literalChar (d)
    return anychar (d) if wide else d.pick (ARABIC)

def string (d, lo, hi, wide=True):
    return ''.join (d.list (lambda d: char (d, wide), lo, hi))

BAD = {'\u0000', '\r', '\uffff', '\ufffe'}

def typable (d, wide=True):
    """ A character somebody might put on a key """
    x = char (d, wide)
    return 'x' if x in BAD else x

### layouts ###

# single modifier keys which have an effort
EFFORTMODS = ['El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'Fr_altgr', 'El1']
ALLMODS = EFFORTMODS + ['Fl_ctrl', 'Fr_ctrl', 'Fl_alt', 'Fl_win', 'Fr_win', 'Fr_menu']

def modifiers (d, layers, effort=False, multi=True):
    """ Distinct modifier lists for layers 0…layers-1 """
    if layers == 0:
        return []
    style = d.int (0, 3 if multi else 1)
    if style == 0 and layers <= 4:
        # the usual ones
        l = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps'], ['Dr1']], [['Fr_altgr'], ['El1']]]
        return l[:layers]
    if style == 2 and layers <= 4:
        l = [[[]], [['El_shift'], ['Er_shift']], [['Fr_altgr']], [['Fr_altgr', 'El_shift'], ['Fr_altgr', 'Er_shift']]]
        return l[:layers]
    pool = EFFORTMODS if effort else ALLMODS
    ret = [[[]]]
    keys = d.shuffle (pool)
    if style < 3:
        # disjoint single keys
        for i in range (1, layers):
            n = 1
            top = 12 if d.chance (1, 8) else 4
            while len (keys)-n >= layers-i and n < top and (top > 4 or d.bool ()):
                n += 1
            ret.append ([[keys.pop ()] for _ in range (n)])
        return ret
    # arbitrary distinct sets of keys
    keys = keys[:5 if layers < 6 else 8]
    top = 12 if d.chance (1, 8) else 2
    ret += [[] for _ in range (layers-1)]
    seen = {frozenset ()}
    i = 0
    while layers > 1 and not (i >= top*layers and all (ret)):
        s = d.sub (keys, 1, 3)
        i += 1
        if frozenset (s) in seen:
            # take any that is left
            s = next ([a, b] for a in keys for b in keys if a < b and frozenset ([a, b]) not in seen) if not all (ret) and i > 30 else None
        if s is None:
            continue
        seen.add (frozenset (s))
        empty = [x for x in ret if not x]
        if empty:
            empty[0].append (s)
        elif d.bool ():
            ret[d.int (1, layers-1)].append (s)
    return ret

def layout (d, maxLayers=4, minLayers=1, effort=False, multi=True, multichar=True,
        text=None, buttons=None, minButtons=0, packaged=True, dense=False, wide=True, odd=False):
    """
    A layout definition. Modifier keys carry no text.

    effort: only keys which have an effort (plus the ignored ones) are used
    multi: allow modifiers consisting of several keys
    odd: the first layer may have (other) modifiers
    text: function of d
    """
    if packaged and d.chance (1, 8):
        names = [k for k, v in model.packaged ().items () if minLayers <= len (v['layout']) <= maxLayers
            and (multi or all (len (m) <= 1 for l in v['layout'] for m in l['modifier']))
            and (multichar or all (len (x) == 1 for l in v['layout'] for x in l['layer'].values ()))]
        if names:
            return model.packaged ()[d.pick (names)]
    n = d.int (minLayers, maxLayers)
    mods = modifiers (d, n, effort, multi)
    if odd and mods and d.chance (1, 8):
        mods = [list (x) for x in mods]
        free = [x for x in (EFFORTMODS if effort else ALLMODS) if not any (x in m for l in mods for m in l)]
        if free:
            m = [d.pick (free)]
            k = d.int (0, 3)
            mods[0] = [[], m] if k == 0 else [m, []] if k == 1 else [m] if k == 2 else [[]]
        if len (mods) > 1 and d.bool ():
            i = d.int (1, len (mods)-1)
            mods[0], mods[i] = mods[i], mods[0]
    used = {x for l in mods for m in l for x in m}
    pool = buttons or (model.EFFORTKEYS + sorted (model.IGNORED) if effort else model.NAMES)
    pool = [x for x in pool if x not in used]
    if text is None:
        # a small alphabet gives repeated texts and common prefixes
        alphabet = d.list (lambda d: typable (d, wide), 1, d.pick ([3, 8, 40]))
        def text (d):
            k = d.draw (10)
            if k < 5:
                return d.pick (alphabet)
            if k < 7 or not multichar:
                return typable (d, wide)
            if k == 9 and d.chance (1, 4):
                return ''.join ('x' if x in BAD else x for x in literal (d))
            if k == 9 and d.chance (1, 6):
                # far longer than usual
                t = ''.join (d.list (lambda d: d.pick (alphabet), 1, 4))
                return (t*200)[:near (d, 200)]
            return ''.join (d.list (lambda d: d.pick (alphabet), 1, 3 if k < 9 else 6))
    layers = []
    size = d.pick ([3, 8, 20, 60] if not dense else [30, 60])
    for m in mods:
        btns = d.sub (pool, minButtons, size)
        layers.append (dict (modifier=m, layer={b: text (d) for b in btns}))
    return dict (name=d.pick (['test', 'ar-x', 'x y']), layout=layers)

def texts (d, data, maxPieces=40, top=60, wide=True):
    """ List of [piece, repeat] for a layout definition """
    own = [x for l in data['layout'] for x in l['layer'].values ()]
    chars = sorted (set (''.join (own)))
    part = sorted ({x[:i] for x in own for i in range (1, len (x))})
    def piece (d):
        k = d.draw (10)
        if k < 5 and own:
            t = d.pick (own)
        elif k < 6 and chars:
            t = d.pick (chars)
        elif k < 7 and part:
            t = d.pick (part)
        elif k < 8:
            t = d.pick ([' ', '\n', ' ', 'ا', '\u200c'])
        elif k < 9 and d.chance (1, 4):
            t = literal (d)
        else:
            t = char (d, wide)
        return [t, length (d, top) if d.chance (1, 4) else 1]
    return d.list (piece, 0, d.pick ([4, 15, maxPieces]))

def expand (pieces):
    return ''.join (t*n for t, n in pieces)

def layoutAndText (d, top=60, maxPieces=40, **kwargs):
    data = layout (d, **kwargs)
    return dict (layout=data, text=texts (d, data, maxPieces, top))

def session (d, top=6, **kwargs):
    """
    Several writers, some of them for the same layout, and texts each of them
    types one after another, in turns
    """
    layouts = [layout (d, odd=True, **kwargs) for _ in range (d.int (1, 2))]
    if d.chance (1, 4):
        # same name, almost the same contents
        layouts.append (similar (d, layouts[0]))
    writers = d.list (lambda d: d.draw (len (layouts)), 1, 4)
    jobs = d.list (lambda d: (lambda w: [w, texts (d, layouts[writers[w]], 12, top)]) (d.draw (len (writers))), 1, 8)
    return dict (layouts=layouts, writers=writers, jobs=jobs, turns=d.list (lambda d: [d.draw (8), d.pick ([1, 1, 2, 3, 10])], 0, 40))

def similar (d, data):
    """ A layout which has two keys swapped or one more """
    layers = [dict (modifier=l['modifier'], layer=dict (l['layer'])) for l in data['layout']]
    l = d.pick (layers)['layer']
    k = d.sub (sorted (l), 2, 2) if len (l) > 1 else []
    if k:
        l[k[0]], l[k[1]] = l[k[1]], l[k[0]]
    else:
        l['Dl1'] = 'x'
    return dict (name=data['name'], layout=layers)

### keyboards ###

def keyboard (d, share=True):
    """
    A keyboard with the usual button names, but arbitrary rows, kinds and key
    codes. Codes are unique, except for the space bar, if share is set.
    """
    names = d.shuffle (model.NAMES) if d.bool () else list (model.NAMES)
    rows = []
    while names:
        n = d.int (1, 20)
        part, names = names[:n], names[n:]
        k = d.int (0, len (part))
        rows.append ([part[:k], part[k:]])
    xorg = iter (d.shuffle (range (8, 8+len (model.NAMES))))
    macos = iter (d.shuffle (range (len (model.NAMES))))
    keyman = iter (d.shuffle (range (len (model.NAMES))))
    win = iter (d.shuffle (range (1, 1+len (model.NAMES))))
    share = share and d.bool ()
    codes = {}
    for x in model.NAMES:
        if x == 'Fr_space' and share:
            codes[x] = codes['Fl_space']
        else:
            codes[x] = dict (xorg=next (xorg), macos=next (macos), keyman=f'K_{next (keyman)}', windows=[next (win)])
    def button (x):
        kind = d.pick (['letter', 'letter', 'letter', 'standard', 'multi'])
        b = dict (name=x, kind=kind, scancode=codes[x], width=d.pick ([1, 1.5, 2.25]))
        if kind == 'multi':
            b['span'] = d.int (1, 2)
        return b
    return dict (name='test', description='', rows=[[[button (x) for x in side] for side in row] for row in rows])

def codes (kb, kind):
    """ Button name to code. kb is the return value of keyboard() or None for the packaged one """
    return {b['name']: b['scancode'][kind] for l, r in (kb['rows'] if kb else model.KEYBOARD) for b in l+r if kind in b['scancode']}

def sameSpace (data, code):
    """ Buttons with the same code must not have different text """
    for l in data['layout']:
        seen = {}
        for b in list (l['layer']):
            c = code.get (b)
            if c is not None and seen.setdefault (c, l['layer'][b]) != l['layer'][b]:
                l['layer'][b] = seen[c]
    return data

def effortKeyboard (d):
    """
    A keyboard with the usual button names, but some of the buttons are in
    other rows or of another kind. The rows expected by the effort model exist.
    """
    rows = [[[dict (b) for b in side] for side in row] for row in model.KEYBOARD]
    fixed = ('Bl1', 'Cl1', 'Dl1', 'El1')
    for name in d.sub ([x for x in model.NAMES if x not in fixed], 0, d.pick ([3, 12, 60])):
        k = d.draw (3)
        if k < 2:
            # somewhere else
            for row in rows:
                for side in row:
                    for b in side:
                        if b['name'] == name:
                            break
                    else:
                        continue
                    side.remove (b)
                    break
                else:
                    continue
                break
            side = rows[d.draw (len (rows))][d.draw (2)]
            side.insert (d.int (0, len (side)), b)
        if k > 0 and name in model.EFFORTKEYS:
            b = next (b for row in rows for side in row for b in side if b['name'] == name)
            b.pop ('span', None)
            if b.pop ('kind', None) != 'letter':
                b['kind'] = 'letter'
    return dict (name='test', description='', rows=rows)

def rowOf (kb):
    """ Button name to row. kb is the return value of effortKeyboard() or None for the packaged one """
    return {b['name']: i for i, row in enumerate (kb['rows']) for side in row for b in side} if kb else None

def letterKeys (kb):
    return [b['name'] for row in kb['rows'] for side in row for b in side if b.get ('kind') == 'letter'] if kb else model.LETTERS
