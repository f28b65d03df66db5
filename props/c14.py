""" Simulated annealing returns the best state it accepted """

from fractions import Fraction

from harness import gen
from harness.core import Check, quiet

RULE = 'scripted problems: a list of energy changes (exact binary fractions) of up to 300, some of thousands of steps, one to three runs of the same annealer, equal, zero, tiny, huge, ' \
    'first-step and cancelling changes; every state remembers the accepted steps that led to it. Non-trivial: at least one ' \
    'improvement and at least one accepted or rejected change that does not improve, and the best state is not the last one'
ASSUMPTIONS = ['runs in which a change is within 1e-12 of, but not exactly at (without cooling), the threshold are not judged (rounding), ' \
    'neither are those in which an accepted change cannot be added exactly']

class Abandon (Exception):
    pass

class State:
    def __init__ (self, trace):
        self.trace = trace
    def copy (self):
        return State (list (self.trace))

def run (case, ctx):
    from lulua.optimize import Annealer
    diffs, seen = [], []
    class Scripted (Annealer):
        def mutate (self):
            i = len (seen)
            seen.append (list (self.state.trace))
            if case['replace']:
                # a new state instead of changing it in place
                self.state = State (self.state.trace + [i])
            else:
                self.state.trace.append (i)
            return diffs[i]
    a = Scripted (State ([]))
    if case['factor'] is not None:
        a.coolingFactor = case['factor']
    # earlier runs do not matter
    for script in case['runs']:
        diffs.clear ()
        seen.clear ()
        a.state = State ([])
        for x, n in script:
            diffs.extend ([x]*n)
        if not judge (case, ctx, a, diffs, seen):
            return
    ctx.tag ('several runs', len (case['runs']) > 1)

def judge (case, ctx, a, diffs, seen):
    steps = len (diffs)
    with quiet ():
        ret = a.run (steps)
    factor = 6 if case['factor'] is None else case['factor']
    state, energy = ret
    ctx.eq (len (seen), steps, 'number of mutations')
    # reference
    trace, cur, top, best = [], 0, 0, 0
    bad = rejected = 0
    # the energy of a state is known from the steps accepted
    energies = {(): 0}
    for i, x in enumerate (diffs):
        ctx.eq (seen[i], trace, f'state before step {i} of {steps}')
        top = max (top, abs (x))
        rel = abs (x)/top if top else 1
        limit = 10**-(i/steps*factor)
        if x >= 0 and i > 0 and abs (rel-limit) < 1e-12 and not (factor == 0 and rel == 1):
            ctx.tag ('not judged')
            return False
        if x < 0 or (rel < limit and top > 0):
            trace.append (i)
            if Fraction (cur) + Fraction (x) != Fraction (cur+x):
                # depends on rounding
                ctx.tag ('not judged')
                return False
            cur += x
            energies[(len (trace), i)] = cur
            best = min (best, cur)
            bad += x >= 0
        elif top == 0:
            # nothing ever changed: either is fine
            nxt = seen[i+1] if i+1 < steps else a.state.trace
            if nxt == trace+[i]:
                trace.append (i)
                energies[(len (trace), i)] = cur
        else:
            rejected += 1
    ctx.eq (a.state.trace, trace, 'final state')
    ctx.eq (energy, best, 'energy of the best state')
    # states are extended only, never cut
    n = len (state.trace)
    ctx.true (state.trace == trace[:n], 'returned state was never accepted', state.trace)
    ctx.eq (energies[(n, trace[n-1]) if n else ()], best, f'energy of the returned state {state.trace}')
    ctx.true (energy <= 0, 'worse than the initial state')
    # not the same object
    snapshot = list (state.trace)
    a.state.trace.append (-1)
    ctx.eq (state.trace, snapshot, 'returned state changes with the current one')
    ctx.tag ('worsening accepted', bad)
    ctx.tag ('rejected', rejected)
    ctx.tag ('best is initial', best == 0)
    ctx.tag ('no steps', steps == 0)
    ctx.tag ('more than 1000 steps', steps > 1000)
    ctx.nontrivial (best < 0 and (bad or rejected) and state.trace != trace)
    return True

def script (d, length=None):
    unit = d.pick ([1, 0.125, 1024, 2.0**-20, 2.0**-60])
    huge = d.chance (1, 5)
    small = [d.int (-8, 8)*unit for _ in range (4)]
    def one (d):
        k = d.draw (10)
        if huge and d.chance (1, 8):
            return [d.pick ([1, 1, 1, -1])*2.0**d.int (50, 80), 1]
        if k < 4:
            x = d.pick (small)
        elif k < 6:
            x = d.int (-64, 64)*unit
        elif k < 7:
            x = 0
        elif k < 8:
            x = d.pick ([-1, 1])*unit*2.0**d.int (-10, 10)
        else:
            x = d.int (0, 3)*unit/16
        return [x, length (d) if length else gen.length (d, 20) if d.chance (1, 6) else 1]
    return d.list (one, 0, 20 if length else d.pick ([5, 20, 100]))

def case (d):
    return dict (runs=[script (d) for _ in range (d.pick ([1, 1, 1, 2, 3]))], factor=d.pick ([None, None, None, 1, 0, 12, 3]), replace=d.bool ())

def long (d):
    """ Few different changes, many of each """
    return dict (runs=[script (d, lambda d: gen.length (d, 3000) if d.chance (1, 4) else 1)], factor=d.pick ([None, None, 1, 0, 12]), replace=False)

CHECKS = [
    Check ('scripted', run, case, quick=100000),
    Check ('long', run, long, quick=400, round=20),
    ]
