"""
Adapters between plain data and objects of the code under test (public
interface only).
"""

import copy, io, pickle

from . import model

def keyboard (name='ibmpc105'):
    from lulua.keyboard import defaultKeyboards
    return defaultKeyboards[name]

_kb = []
def sharedKeyboard ():
    if not _kb:
        _kb.append (keyboard ())
    return _kb[0]

def otherKeyboard (data):
    """ Keyboard from its definition; the packaged one if there is none """
    from lulua.keyboard import PhysicalKeyboard
    return PhysicalKeyboard.deserialize (copy.deepcopy (data)) if data else sharedKeyboard ()

def layout (data, kb=None):
    from lulua.layout import GenericLayout
    return GenericLayout.deserialize (copy.deepcopy (data)).specialize (kb or sharedKeyboard ())

def writer (data, kb=None):
    from lulua.writer import Writer
    return Writer (layout (data, kb))

def combKey (comb):
    """ ButtonCombination to (frozenset of names, name) """
    btns = [b.name for b in comb.buttons]
    assert len (btns) == 1, btns
    return frozenset (b.name for b in comb.modifier), btns[0]

def comb (mods, btn, kb=None):
    from lulua.layout import ButtonCombination
    kb = kb or sharedKeyboard ()
    return ButtonCombination (frozenset (kb[x] for x in mods), frozenset ([kb[btn]]))

def event (kind, x, kb=None):
    from lulua.writer import SkipEvent
    if kind == 's':
        return SkipEvent (x)
    return comb (x[0], x[1], kb)

def stats (s):
    """ dict of statistics objects to plain data. Zero counts are no counts. """
    def nz (d):
        return {k: v for k, v in d.items () if v != 0}
    simple, runlen, triads, words = s['simple'], s['runlen'], s['triads'], s['words']
    return dict (
        buttons=nz ({k.name: v for k, v in simple.buttons.items ()}),
        combinations=nz ({combKey (k): v for k, v in simple.combinations.items ()}),
        unknown=nz (dict (simple.unknown)),
        hands=nz ({(h.name, n): v for h, d in runlen.perHandRunlenDist.items () for n, v in d.items ()}),
        fingers=nz ({((h.name, f.name), n): v for (h, f), d in runlen.fingerRunlenDist.items () for n, v in d.items ()}),
        triads=nz ({tuple (map (combKey, t)): v for t, v in triads.triads.items ()}),
        words=nz (dict (words.words)),
        )

def unpickle (data):
    """ All objects of concatenated pickles """
    fd = io.BytesIO (data)
    while fd.tell () < len (data):
        yield pickle.load (fd)

def newStats (w):
    from lulua.stats import allStats
    return {cls.name: cls (w) for cls in allStats}

def typeStats (w, text):
    """ All statistics for one text """
    ret = newStats (w)
    for match, ev in w.type (io.StringIO (text)):
        for s in ret.values ():
            s.process (ev)
    return ret
