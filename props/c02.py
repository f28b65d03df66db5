""" Among equivalent key combinations the documented best one is pressed """

import io
from itertools import product

from harness import gen, model, real
from harness.core import Check

RULE = 'choice: candidate lists over all buttons and up to four modifier keys plus an arbitrary previous combination, ' \
    'and all lists of two and three candidates over all hand signatures (exhaustive); typed: texts on layouts which ' \
    'offer the same text several times. Non-trivial: at least two candidates with different scores'
ASSUMPTIONS = ['combinations have exactly one letter key']

EMPTY = dict (name='null', layout=[dict (modifier=[[]], layer={})])

def score (c):
    return len (c[0]), model.hand (c[1])

def runChoice (case, ctx):
    w = real.writer (EMPTY)
    for prev in case['history']:
        w.press (real.comb (*prev))
    cands = [(frozenset (m), b) for m, b in case['candidates']]
    combs = [real.comb (*c) for c in case['candidates']]
    prev = case['history'][-1] if case['history'] else None
    want = model.choose (cands, prev and (frozenset (prev[0]), prev[1]))
    got = w.chooseCombination (combs)
    ctx.true (any (got is c for c in combs) or got in combs, 'not one of the candidates', got)
    ctx.eq (real.combKey (got), want, f'wrong choice after {prev}')
    # asking again changes nothing
    ctx.eq (real.combKey (w.chooseCombination (combs)), want, 'choice is not repeatable')
    ctx.tag ('with history', prev)
    ctx.tag ('first one is chosen', want == cands[0])
    ctx.nontrivial (len (set (map (score, cands))) > 1)

def combination (d):
    if d.chance (1, 3):
        keys = d.sub (model.NAMES, 1, 5)
    else:
        keys = [d.pick (model.LETTERS + ['Fl_space', 'Fr_space'])]
        keys += [x for x in d.sub (gen.ALLMODS, 0, 2) if x != keys[0]]
    return [keys[1:], keys[0]]

def choice (d):
    return dict (candidates=d.list (combination, 1, d.pick ([2, 3, 10])), history=d.list (combination, 0, 3))

SIGN = [([], ''), (['El_shift'], 'L'), (['Er_shift'], 'R'), (['El_shift', 'Fl_ctrl'], 'LL'), (['El_shift', 'Fr_ctrl'], 'LR'), (['Er_shift', 'Fr_altgr'], 'RR')]

def exhaustive (tier):
    one = [[m, b] for m, _ in SIGN for b in ('Dl2', 'Dr4')]
    prev = [[]] + [[x] for x in one]
    for h in prev:
        for n in (2, 3):
            for c in product (one, repeat=n):
                # same signature, different button
                c = [list (x) for x in c]
                yield dict (candidates=c, history=h)

def runBatch (case, ctx):
    for c in case:
        runChoice (c, ctx)
    ctx.nontrivial ()

def batched (tier):
    l = list (exhaustive (tier))
    for i in range (0, len (l), 200):
        yield l[i:i+200]

def everyButton (tier):
    """ Each button against a left and a right one, for each kind of history """
    for h in ([], [[[], 'Dl1']], [[[], 'Dr4']], [[['El_shift'], 'Dr4']], [[['Er_shift'], 'Dl1']]):
        for ref in ('Dl3', 'Dr5'):
            for m in ([], ['El_shift'], ['Er_shift']):
                yield [dict (candidates=x, history=h) for b in model.NAMES if b not in m
                    for x in ([[m, b], [m, ref]], [[m, ref], [m, b]])]
    for m in model.NAMES:
        yield [dict (candidates=x, history=h) for b in ('Dl3', 'Dr5') if b != m for h in ([], [[[m], b]], [[[], m]])
            for x in ([[[m], b], [['El_shift'], 'Dl2']], [[['Er_shift'], 'Dl2'], [[m], b]], [[[m], 'Cl2'], [[m], 'Cr4']])
            if m not in ('Cl2', 'Cr4')]

def runTyped (case, ctx):
    data = case['layout']
    text = gen.expand (case['text'])
    m = model.Layout (data)
    w = real.writer (data)
    n = 0
    want = list (m.type (text))
    got = []
    for match, ev in w.type (io.StringIO (text)):
        if match is None:
            got.append ((None, ev.char))
        else:
            got.append ((match, real.combKey (ev)))
            n += len (set (map (score, m.texts[match]))) > 1
    for i, (a, b) in enumerate (zip (got, want)):
        ctx.eq (a, b, f'event {i}, before {got[max (i-2, 0):i]}, candidates {m.texts.get (b[0])}')
    ctx.eq (len (got), len (want), 'number of events')
    ctx.tag ('choices', n)
    ctx.nontrivial (n)

def redundant (d):
    """ Few texts on many buttons """
    alphabet = d.list (gen.typable, 1, 5)
    data = gen.layout (d, text=lambda d: d.pick (alphabet), odd=True)
    return dict (layout=data, text=gen.texts (d, data, maxPieces=30, top=8))

def runSession (case, ctx):
    """ What was pressed before is what this writer pressed before """
    models = [model.Layout (x) for x in case['layouts']]
    queues = [[] for _ in case['writers']]
    for w, t in case['jobs']:
        queues[w].append (gen.expand (t))
    state = []
    def everything (w, q):
        for i, t in enumerate (q):
            for match, ev in w.type (io.StringIO (t)):
                yield i, match, ev.char if match is None else real.combKey (ev)
    def expected (m, q):
        prev = None
        for i, t in enumerate (q):
            for match, x in m.type (t, prev):
                if match is not None:
                    prev = x
                yield i, match, x
    for i, q in zip (case['writers'], queues):
        state.append ((everything (real.writer (case['layouts'][i]), q), expected (models[i], q)))
    choices = 0
    def step (i):
        nonlocal choices
        got, want = next (state[i][0], None), next (state[i][1], None)
        ctx.eq (got, want, f'writer {i} (text, chunk, combination)')
        if want is not None and want[1] is not None:
            choices += len (set (map (score, models[case['writers'][i]].texts[want[1]]))) > 1
        return want is not None
    for i, n in case['turns']:
        for _ in range (n):
            step (i % len (state))
    for i in range (len (state)):
        while step (i):
            pass
    ctx.tag ('several writers', len (state) > 1)
    ctx.nontrivial (choices and len (state) > 1)

def session (d):
    alphabet = d.list (gen.typable, 1, 5)
    return gen.session (d, text=lambda d: d.pick (alphabet))

CHECKS = [
    Check ('exhaustive', runBatch, enumerate=batched),
    Check ('buttons', runBatch, enumerate=everyButton),
    Check ('choice', runChoice, choice, quick=60000),
    Check ('typed', runTyped, redundant, quick=20000),
    Check ('session', runSession, session, quick=4000, round=100),
    ]
