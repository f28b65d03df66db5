"""
Reference models. Written from the documented behaviour, working on plain data
(dictionaries, strings, button names); nothing here calls the code under test.
"""

import os, unicodedata, functools
from collections import Counter
from itertools import product

import yaml

from .golden import KEYBOARD, FINGERS, MODELS, CHARMAP

### keyboard ###
BUTTONS = [b for l, r in KEYBOARD for b in l+r]
BYNAME = {b['name']: b for b in BUTTONS}
ROWOF = {b['name']: i for i, (l, r) in enumerate (KEYBOARD) for b in l+r}
NAMES = [b['name'] for b in BUTTONS]
LETTERS = [b['name'] for b in BUTTONS if b.get ('kind') == 'letter']
# not part of triads
IGNORED = {'Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'}
# keys for which an effort is defined
EFFORTKEYS = [x for x in NAMES if x in MODELS['mod01']['baselineEffort']]
SIDE = {'LEFT': 1, 'RIGHT': -1}

def code (name, kind):
    return BYNAME[name]['scancode'][kind]

@functools.lru_cache (None)
def packaged ():
    """ Packaged layout definitions, parsed independently """
    from . import core
    d = os.path.join (core.REPO, 'lulua', 'data', 'layouts')
    ret = {}
    for x in sorted (os.listdir (d)):
        if x.endswith ('.yaml') and not x.startswith ('.'):
            with open (os.path.join (d, x), 'rb') as fd:
                data = yaml.safe_load (fd)
                ret[x[:-5]] = dict (name=data['name'], layout=[dict (modifier=l['modifier'], layer=l['layer']) for l in data['layout']])
    return ret

### layouts ###

class Layout:
    """
    data: {'name': …, 'layout': [{'modifier': [[name, …], …], 'layer': {name: text}}]}

    A combination is (frozenset of modifier names, button name)
    """
    def __init__ (self, data):
        self.data = data
        self.texts = {}
        self.layerOf = {}
        for i, l in enumerate (data['layout']):
            mods = [frozenset (m) for m in l['modifier']]
            for m in mods:
                self.layerOf[m] = i
            for btn, text in l['layer'].items ():
                for m in mods:
                    self.texts.setdefault (text, []).append ((m, btn))
        self.maxLen = max (map (len, self.texts), default=0)

    def text (self, comb):
        m, btn = comb
        return self.data['layout'][self.layerOf[m]]['layer'][btn]

    def buttonTexts (self, btn):
        return [l['layer'].get (btn) for l in self.data['layout']]

    def chunks (self, text):
        """ Split into (chunk, True) typeable, longest first, or (char, False) """
        i = 0
        n = len (text)
        while i < n:
            for k in range (min (self.maxLen, n-i), 0, -1):
                if text[i:i+k] in self.texts:
                    yield text[i:i+k], True
                    i += k
                    break
            else:
                yield text[i], False
                i += 1

    def type (self, text, prev=None):
        """ Events (chunk, combination) or (None, char). prev: last combination pressed before """
        for chunk, ok in self.chunks (text):
            if ok:
                comb = choose (self.texts[chunk], prev)
                yield chunk, comb
                prev = comb
            else:
                yield None, chunk

def hand (name):
    return FINGERS[name][0]

def choose (candidates, prev):
    """
    Fewest keys, most even use of both hands, other hand than before, first one.
    """
    def score (c):
        mods, btn = c
        balance = abs (sum (SIDE[hand (x)] for x in mods) + SIDE[hand (btn)])
        if prev is None:
            alt = 0
        else:
            pmods, pbtn = prev
            alt = abs (sum (SIDE[hand (x)] for x in (pmods or [pbtn])) + SIDE[hand (btn)])
        return len (mods)+1, balance, alt
    best = None
    for c in candidates:
        s = score (c)
        if best is None or s < best[0]:
            best = (s, c)
    return best[1]

### statistics ###

def runs (items):
    """ Completed runs of equal values; None cuts and discards the current one """
    done = Counter ()
    cur, n = None, 0
    for x in items:
        if x is None:
            cur, n = None, 0
        elif cur is None:
            cur, n = x, 1
        elif x == cur:
            n += 1
        else:
            done[(cur, n)] += 1
            cur, n = x, 1
    return done

def segments (items):
    """ Split at None """
    ret = [[]]
    for x in items:
        if x is None:
            ret.append ([])
        else:
            ret[-1].append (x)
    return ret

def statistics (events, textOf):
    """
    events: list of ('c', (mods, button)) and ('s', char)
    Return plain dictionaries.
    """
    buttons, combs, unknown = Counter (), Counter (), Counter ()
    triads, words = Counter (), Counter ()
    for kind, x in events:
        if kind == 's':
            unknown[x] += 1
        else:
            combs[x] += 1
            buttons[x[1]] += 1
            for m in x[0]:
                buttons[m] += 1
    presses = [x[1] if kind == 'c' else None for kind, x in events]
    hands = runs ([None if x is None else FINGERS[x][0] for x in presses])
    fingers = runs ([None if x is None else tuple (FINGERS[x]) for x in presses])
    for seg in segments ([x if kind == 'c' else None for kind, x in events]):
        typed = [x for x in seg if x[1] not in IGNORED]
        for i in range (len (typed)-2):
            triads[tuple (typed[i:i+3])] += 1
        cur = ''
        for t in ''.join (textOf (x) for x in seg):
            if unicodedata.category (t) in ('Lo', 'Mn'):
                cur += t
            else:
                if cur:
                    words[cur] += 1
                cur = ''
    return dict (buttons=dict (buttons), combinations=dict (combs), unknown=dict (unknown),
            hands=dict (hands), fingers=dict (fingers), triads=dict (triads), words=dict (words))

STATKEYS = ('buttons', 'combinations', 'unknown', 'hands', 'fingers', 'triads', 'words')

def addStats (*l):
    ret = {}
    for k in STATKEYS:
        c = Counter ()
        for x in l:
            for a, b in x[k].items ():
                c[a] += b
        ret[k] = dict (c)
    return ret

def typeStats (layout, text):
    ev = [('s', x) if m is None else ('c', x) for m, x in layout.type (text)]
    return statistics (ev, layout.text)

def normalise (text):
    """ What the corpus writer does before typing """
    return ''.join (CHARMAP.get (x, x) for x in text).replace ('\r\n', '\n')

### effort ###

FINGERPOS = {('LEFT', f): i for i, f in enumerate (('LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB'))}
FINGERPOS.update ({('RIGHT', f): 5+i for i, f in enumerate (('THUMB', 'INDEX', 'MIDDLE', 'RING', 'LITTLE'))})

def pathHand (h):
    a, b, c = h
    if a == b == c:
        return 2
    if a == c:
        return 1
    return 0

def pathRow (rows):
    """ rows are counted from top to bottom """
    a, b, c = rows
    if a == b == c:
        return 0
    if a == b or b == c:
        # one repetition: down 1, up 2
        return 1 if c > a else 2
    if max (rows)-min (rows) <= 1:
        # back and forth between adjacent rows
        return 3
    if a < b < c:
        return 4
    if a > b > c:
        return 6
    # not monotonic, more than one row at once. d > 0: downwards
    d1, d2 = b-a, c-b
    return 5 if max (d1, d2) > 1 else 7

def pathFinger (pos, keys):
    a, b, c = pos
    repeat = len (set (keys)) < 3
    different = len (set (pos))
    if different == 1:
        return 5 if repeat else 7
    monotonic = a <= b <= c or a >= b >= c
    if different == 3:
        if monotonic:
            return 0
        # rolling: the last finger lies between the first two
        return 2 if min (a, b) < c < max (a, b) else 3
    if monotonic:
        return 1 if repeat else 6
    return 4

def strokePath (keys, rowOf=None):
    rowOf = rowOf or ROWOF
    f = [tuple (FINGERS[x]) for x in keys]
    return (pathHand ([x[0] for x in f]), pathRow ([rowOf[x] for x in keys]),
            pathFinger ([FINGERPOS[x] for x in f], keys))

def triadEffort (triad, model, rowOf=None):
    """ triad: three combinations (mods, button); model: see MODELS """
    rowOf = rowOf or ROWOF
    k1, k2, k3, kS = model['k123S']
    w0, wH, wR, wF = model['w0HRF']
    def penalty (x):
        h, f = FINGERS[x]
        return w0 + wH*model['pHand'][h] + wR*model['pRow'][rowOf[x]] + wF*model['pFinger'][h][f]
    def total (fn):
        v = []
        for mods, btn in triad:
            keys = list (mods)+[btn]
            v.append (sum (map (fn, keys)) + kS*(len (keys)-1))
        return k1*v[0]*(1 + k2*v[1]*(1 + k3*v[2]))
    b = total (lambda x: model['baselineEffort'][x])
    p = total (penalty)
    s = min (sum (f*x for f, x in zip (model['fHRF'], strokePath (keys, rowOf)))
            for keys in product (*[list (m)+[btn] for m, btn in triad]))
    kB, kP, kS_ = model['kBPS']
    return kB*b + kP*p + kS_*s

def meanEffort (triads, model, rowOf=None):
    n = sum (triads.values ())
    if n == 0:
        return 0
    return sum (triadEffort (t, model, rowOf)*v for t, v in triads.items ())/n
