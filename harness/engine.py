"""
Random case generation with recorded choices, internal shrinking and coverage
feedback.

A generator is a function of a D object. It makes all its random choices
through that object, which draws integers from a seeded PRNG and records them.
The record is the genotype of the case: shrinking and mutation edit the record
and re-run the generator, so every case they produce is valid by construction.
A choice of zero is always the simplest one.
"""

import sys, os, random, time

class D:
    """ Source of choices """

    __slots__ = ('rng', 'prefix', 'choices', 'spans', 'limit')

    def __init__ (self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        # (index of length choice, start, end) of every list item
        self.spans = []

    def draw (self, n):
        """ Integer in [0, n) """
        i = len (self.choices)
        if i < len (self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n if self.rng is not None else n-1
        elif self.rng is not None:
            v = int (self.rng.random ()*n)
        else:
            v = 0
        self.choices.append (v)
        return v

    def int (self, lo, hi):
        return lo+self.draw (hi-lo+1)

    def bool (self):
        return self.draw (2) == 1

    def chance (self, num, den):
        """ True in num out of den cases, False is simpler """
        return self.draw (den) >= den-num

    def pick (self, seq):
        return seq[self.draw (len (seq))]

    def float (self, lo, hi, steps=1 << 20):
        return lo+(hi-lo)*self.draw (steps+1)/steps

    def list (self, fn, lo, hi):
        at = len (self.choices)
        n = self.int (lo, hi)
        ret = []
        for _ in range (n):
            start = len (self.choices)
            ret.append (fn (self))
            if n > lo:
                self.spans.append ((at, start, len (self.choices)))
        return ret

    def sub (self, seq, lo, hi):
        """ List of distinct items """
        seq = list (seq)
        hi = min (hi, len (seq))
        lo = min (lo, hi)
        def one (d):
            return seq.pop (d.draw (len (seq)))
        return self.list (one, lo, hi)

    def shuffle (self, seq):
        seq = list (seq)
        ret = []
        while seq:
            ret.append (seq.pop (self.draw (len (seq))))
        return ret

    def unique (self, fn, lo, hi, key=lambda x: x, tries=20):
        """ Distinct values of fn, possibly fewer than lo if these are hard to find """
        ret, seen = [], set ()
        n = self.int (lo, hi)
        for _ in range (n+tries):
            if len (ret) >= n:
                break
            x = fn (self)
            if key (x) not in seen:
                seen.add (key (x))
                ret.append (x)
        return ret

class Coverage:
    """
    Branches taken inside the repository. Reported once each, so there is
    practically no overhead.
    """
    TOOL = 3

    def __init__ (self, root):
        self.root = os.path.realpath (root) + os.sep
        self.new = 0
        self.total = 0
        self.active = False
        m = getattr (sys, 'monitoring', None)
        if m is None:
            return
        try:
            m.use_tool_id (self.TOOL, 'verif')
        except ValueError:
            return
        self.active = True
        def hit (code, *args):
            if code.co_filename.startswith (self.root):
                self.new += 1
            return m.DISABLE
        m.register_callback (self.TOOL, m.events.LINE, hit)
        m.set_events (self.TOOL, m.events.LINE)
        # a conditional jump is worth another look in each direction
        seen = set ()
        def branch (code, src, dst):
            if not code.co_filename.startswith (self.root):
                return m.DISABLE
            k = (code, src, dst)
            if k not in seen:
                seen.add (k)
                self.new += 1
            elif (code, src) in both:
                return m.DISABLE
            first = firsts.setdefault ((code, src), dst)
            if first != dst:
                both.add ((code, src))
                return m.DISABLE
        firsts, both = {}, set ()
        m.register_callback (self.TOOL, m.events.BRANCH, branch)
        m.set_events (self.TOOL, m.events.LINE | m.events.BRANCH)

    def take (self):
        n = self.new
        self.new = 0
        self.total += n
        return n

def mutate (rng, choices, other):
    """ Choices of a similar case """
    c = list (choices)
    for _ in range (1+int (rng.random ()*3)):
        if not c:
            break
        i = int (rng.random ()*len (c))
        op = int (rng.random ()*6)
        if op == 0:
            c[i] = 0
        elif op == 1:
            c[i] = max (0, c[i] + int (rng.random ()*7)-3)
        elif op == 2:
            c[i] = int (rng.random ()*300)
        elif op == 3:
            j = min (len (c), i+1+int (rng.random ()*8))
            del c[i:j]
        elif op == 4:
            j = min (len (c), i+1+int (rng.random ()*16))
            c[i:i] = c[i:j]
        elif other:
            j = int (rng.random ()*len (other))
            c[i:] = other[j:]
    return c

class Shrinker:
    """ Find simpler choices for which test() still is True """

    def __init__ (self, gen, choices, test, seconds):
        self.gen = gen
        self.test = test
        self.end = time.monotonic ()+seconds
        self.tried = set ()
        self.set (choices)

    def set (self, choices):
        d = D (prefix=choices)
        self.gen (d)
        self.choices = d.choices
        self.spans = d.spans

    def attempt (self, choices):
        if time.monotonic () > self.end:
            return False
        d = D (prefix=choices)
        try:
            case = self.gen (d)
        except Exception:
            return False
        k = tuple (d.choices)
        if (len (k), k) >= (len (self.choices), tuple (self.choices)) or k in self.tried:
            return False
        self.tried.add (k)
        if self.test (case):
            self.choices = d.choices
            self.spans = d.spans
            return True
        return False

    def run (self):
        again = True
        while again and time.monotonic () < self.end:
            again = False
            again |= self.items ()
            again |= self.chunks ()
            again |= self.lower ()
        return self.choices

    def items (self):
        """ Remove list items """
        any_ = False
        progress = True
        while progress:
            progress = False
            for at, start, end in sorted (self.spans, key=lambda x: x[1]-x[2]):
                c = list (self.choices)
                c[at] -= 1
                del c[start:end]
                if c[at] >= 0 and self.attempt (c):
                    any_ = progress = True
                    break
            # half of a list at once
            if not progress:
                for at in {x[0] for x in self.spans}:
                    l = [x for x in self.spans if x[0] == at]
                    for half in (l[:len (l)//2], l[len (l)//2:]):
                        if len (half) < 2:
                            continue
                        c = list (self.choices)
                        c[at] -= len (half)
                        if c[at] < 0:
                            continue
                        del c[half[0][1]:half[-1][2]]
                        if self.attempt (c):
                            any_ = progress = True
                            break
                    if progress:
                        break
        return any_

    def chunks (self):
        """ Delete or zero blocks """
        any_ = False
        for n in (32, 16, 8, 4, 2, 1):
            i = len (self.choices)-n
            while i >= 0:
                c = self.choices
                if any (c[i:i+n]) and self.attempt (c[:i]+[0]*len (c[i:i+n])+c[i+n:]):
                    any_ = True
                elif self.attempt (c[:i]+c[i+n:]):
                    any_ = True
                i -= n
                i = min (i, len (self.choices)-n)
        return any_

    def lower (self):
        any_ = False
        for i in range (len (self.choices)):
            if i >= len (self.choices):
                break
            lo, hi = 0, self.choices[i]
            if hi == 0:
                continue
            # smallest value, assuming it behaves
            while lo < hi:
                if i >= len (self.choices):
                    break
                mid = (lo+hi)//2
                c = list (self.choices)
                if c[i] <= mid:
                    break
                c[i] = mid
                if self.attempt (c):
                    any_ = True
                    hi = mid
                else:
                    lo = mid+1
            if i < len (self.choices) and self.choices[i] > 0:
                c = list (self.choices)
                c[i] -= 1
                any_ |= self.attempt (c)
        return any_
