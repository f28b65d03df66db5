""" Typing statistics are an exact function of the typed history """

import io

from harness import gen, model, real
from harness.core import Check

RULE = 'histories: sequences of key combinations of a random layout and skipped characters, with repetitions up to and ' \
    'beyond the constants in the code, fed to every statistics class; typed: texts typed on random layouts, on the packaged and on ' \
    'keyboards with other kinds of buttons. ' \
    'Non-trivial: at least one completed run, triad or word and at least one skipped character or ignored key'
ASSUMPTIONS = ['runs, triads and words still open at the end of the history are not counted',
    'combinations belong to the layout of the statistics object']

def compare (ctx, got, want):
    for k in model.STATKEYS:
        g, w = got[k], want[k]
        if g != w:
            diff = {x: (g.get (x), w.get (x)) for x in set (g) | set (w) if g.get (x) != w.get (x)}
            ctx.fail (f'{k} differ (got, expected): {dict (list (diff.items ())[:5])}')

def note (ctx, events, want):
    skipped = any (k == 's' for k, _ in events)
    ignored = any (k == 'c' and x[1] in model.IGNORED for k, x in events)
    done = want['hands'] or want['triads'] or want['words']
    ctx.tag ('skipped', skipped)
    ctx.tag ('ignored key', ignored)
    ctx.tag ('words', want['words'])
    ctx.tag ('triads', want['triads'])
    ctx.tag ('finger runs longer than 2', any (n > 2 for _, n in want['fingers']))
    ctx.tag ('modifiers', any (k == 'c' and x[0] for k, x in events))
    ctx.nontrivial (done and (skipped or ignored))

def runHistory (case, ctx):
    data = case['layout']
    m = model.Layout (data)
    kb = real.otherKeyboard (case.get ('keyboard'))
    w = real.writer (data, kb)
    s = real.newStats (w)
    events = []
    for kind, x, n in case['events']:
        ev = ('s', x) if kind == 's' else ('c', (frozenset (x[0]), x[1]))
        events.extend ([ev]*n)
    # feed in two parts, looking at the state in between must not matter
    cut = case['look']
    for i, (kind, x) in enumerate (events):
        if i == cut:
            compare (ctx, real.stats (s), model.statistics (events[:i], m.text))
        e = real.event (kind, x, kb)
        for o in s.values ():
            o.process (e)
    want = model.statistics (events, m.text)
    compare (ctx, real.stats (s), want)
    note (ctx, events, want)
    ctx.tag ('other keyboard', case.get ('keyboard'))

def runTyped (case, ctx):
    data = case['layout']
    text = gen.expand (case['text'])
    m = model.Layout (data)
    w = real.writer (data, real.otherKeyboard (case.get ('keyboard')))
    got = real.stats (real.typeStats (w, text))
    ev = [('s', x) if k is None else ('c', x) for k, x in m.type (text)]
    want = model.statistics (ev, m.text)
    compare (ctx, got, want)
    # the number of characters is conserved
    ctx.eq (sum (len (m.text (k))*v for k, v in got['combinations'].items ()) + sum (got['unknown'].values ()),
            len (text), 'characters typed plus skipped')
    note (ctx, ev, want)

def otherKeyboard (d):
    kb = gen.effortKeyboard (d)
    for b in [b for row in kb['rows'] for side in row for b in side]:
        if b['name'] in model.IGNORED and d.bool ():
            b.pop ('span', None)
            b['kind'] = 'letter'
    return kb

def history (d, top=40):
    data = gen.layout (d, wide=False, odd=True)
    combs = [[m, b] for l in data['layout'] for b in l['layer'] for m in l['modifier']]
    # some of them only: gives repeated triads
    if combs and d.bool ():
        combs = d.sub (combs, 1, 6)
    spaces = [c for c in combs if c[1] in model.IGNORED]
    skips = ['x', '\u200c', 'ا', ' ']
    def one (d):
        k = d.draw (12)
        n = gen.length (d, top) if d.chance (1, 3) else 1
        if k == 0 or not combs:
            return ['s', d.pick (skips), n]
        if k <= 2 and spaces:
            return ['c', d.pick (spaces), n]
        return ['c', d.pick (combs), n]
    ev = d.list (one, 0, d.pick ([6, 20, 60]))
    # where the buttons are and what they look like does not matter
    kb = otherKeyboard (d) if d.chance (1, 8) else None
    return dict (layout=data, events=ev, look=d.int (-1, sum (x[2] for x in ev)), keyboard=kb)

def longHistory (d):
    return history (d, 5000)

def typed (d):
    return dict (gen.layoutAndText (d, top=30, odd=True), keyboard=otherKeyboard (d) if d.chance (1, 8) else None)

def words (d):
    """ Words made of letters, marks and everything that is not quite a letter """
    def one (d):
        if d.chance (1, 10):
            return gen.literalChar (d)
        if d.chance (1, 10):
            return gen.anychar (d)
        return d.pick (d.pick ([gen.ARABIC, gen.MARKS, gen.FORMAT, gen.DIGITS, gen.PUNCT, gen.OTHER, gen.LATIN, gen.ARABIC]))
    alphabet = d.list (one, 1, 12)
    alphabet = ['x' if x in gen.BAD else x for x in alphabet]
    def text (d):
        return ''.join (d.list (lambda d: d.pick (alphabet), 1, 3))
    data = gen.layout (d, text=text, packaged=False)
    return dict (layout=data, text=gen.texts (d, data, maxPieces=60, top=5))

def runSession (case, ctx):
    """ Several writers and statistics at the same time, several texts each """
    models = [model.Layout (x) for x in case['layouts']]
    state = []
    for i in case['writers']:
        w = real.writer (case['layouts'][i])
        # the second one starts late
        state.append (dict (w=w, m=models[i], s=real.newStats (w), late=None, queue=[], events=[], since=0))
    for w, t in case['jobs']:
        state[w]['queue'].append (gen.expand (t))
    def everything (x):
        for i, t in enumerate (x['queue']):
            if i == 1:
                x['late'] = real.newStats (x['w'])
                x['since'] = len (x['events'])
            for match, ev in x['w'].type (io.StringIO (t)):
                for s in x['s'].values ():
                    s.process (ev)
                if x['late']:
                    for s in x['late'].values ():
                        s.process (ev)
                x['events'].append (('s', ev.char) if match is None else ('c', real.combKey (ev)))
                yield
    its = [everything (x) for x in state]
    for i, n in case['turns']:
        for _ in range (n):
            next (its[i % len (its)], None)
    for it in its:
        for _ in it:
            pass
    for x in state:
        want = model.statistics (x['events'], x['m'].text)
        compare (ctx, real.stats (x['s']), want)
        if x['late']:
            compare (ctx, real.stats (x['late']), model.statistics (x['events'][x['since']:], x['m'].text))
        note (ctx, x['events'], want)
    ctx.tag ('several writers', len (state) > 1)

def session (d):
    return gen.session (d, wide=False)

CHECKS = [
    Check ('history', runHistory, history, quick=12000),
    Check ('longHistory', runHistory, longHistory, quick=300, thorough=6000, round=40),
    Check ('typed', runTyped, typed, quick=5500),
    Check ('words', runTyped, words, quick=5500),
    Check ('session', runSession, session, quick=2500, round=100),
    ]
