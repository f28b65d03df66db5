""" Triad analysis ranks and accumulates triads correctly """

import json, pickle
from collections import Counter

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli
from harness.golden import MODELS
from props.c19 import label
from props.c20 import sources, models, array

fastyaml.install ()

RULE = 'statistics with random triads (few groups with equal weights up to several hundred with weights from 1 to 10⁹; several combinations for the same text) ' \
    'on random layouts, passed to lulua-analyze triadfreq with every combination of options, triadeffortdata, and its output to triadeffortplot. ' \
    'Non-trivial: at least three groups of triads with two different weights'
ASSUMPTIONS = ['at least one triad', 'groups of equal rank may come in any order', 'texts contain no blanks or line breaks', 'layouts plotted together have different names']

def layouts (d, name='test'):
    data = dict (gen.layout (d, effort=True, minButtons=1, packaged=False, text=lambda d: d.pick (TEXTS) if d.bool () else d.pick (gen.ARABIC+gen.DIGITS)), name=name)
    return data

TEXTS = ['\u0627', '\u0628', '\u064a', '\u0644\u0627', '\u064e', '\u0651\u064e', '\u200c', 'ab', 'a', 'b', '\t', '\b']

def triads (d, data):
    """ List of [three (modifier, button), weight] """
    combs = [[m, b] for l in data['layout'] for m in l['modifier'] for b in l['layer'] if b not in model.IGNORED]
    if not combs:
        data['layout'][0]['layer']['Dl1'] = 'x'
        combs = [[[], 'Dl1']]
    few = d.sub (combs, 1, d.pick ([2, 5, 30]))
    top = d.pick ([3, 12, 60, 400])
    weights = d.pick ([0, 1, 2, 3])
    def weight (d):
        if weights == 0:
            return d.pick ([1, 2, 3])
        if weights == 1:
            return d.int (1, 100)
        if weights == 2:
            return d.int (1, 10**9)
        return max (1, int (10**d.float (0, 7)))
    l = d.unique (lambda d: [[d.pick (few), d.pick (few), d.pick (few)], 0], 1, top, key=lambda x: str (x[0]))
    for x in l:
        x[1] = weight (d)
    return l

def build (ctx, case, name='layout.yaml'):
    data = case['layout']
    w = real.writer (data)
    s = real.newStats (w)
    lay = model.Layout (data)
    groups = {}
    for t, n in case['triads']:
        t = tuple ((frozenset (m), b) for m, b in t)
        s['triads'].triads[tuple (real.comb (*c) for c in t)] = n
        k = tuple (map (lay.text, t))
        g = groups.setdefault (k, [0, 0])
        g[0] += n
        g[1] += n*model.triadEffort (t, MODELS['mod01'])
    with open (ctx.path (name), 'w', encoding='utf-8') as fd:
        fastyaml.dump (data, fd, sort_keys=False)
    # text → weight, mean effort
    groups = {k: (w, e/w) for k, (w, e) in groups.items ()}
    ctx.nontrivial (len (groups) > 2 and len ({x[0] for x in groups.values ()}) > 1)
    ctx.tag ('several triads per group', len (groups) < len (case['triads']))
    ctx.tag ('more than 200 groups', len (groups) > 200)
    return pickle.dumps (s, pickle.HIGHEST_PROTOCOL), groups

def same (a, b):
    return abs (a-b) <= 1e-7*max (abs (a), abs (b), 1e-9)

def runFreq (case, ctx):
    from lulua import stats
    data, groups = build (ctx, case)
    argv = ['-l', ctx.path ('layout.yaml'), 'triadfreq']
    cutoff = 0.5
    if case['cutoff'] is not None:
        cutoff = case['cutoff']
        argv += ['-c', repr (cutoff)]
    if case['reverse']:
        argv += ['-r']
    sort = case['sort'] or 'weight'
    if case['sort']:
        argv += ['-s', sort]
    if case['limit'] is not None:
        argv += ['-n', str (case['limit'])]
    r = cli (stats.main, argv, data)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    lines = r.text.split ('\n')
    ctx.eq (lines.pop (), '', 'end of output')

    total = sum (w for w, _ in groups.values ())
    ranked = sorted (groups.items (), key=lambda x: -x[1][0])
    kept, n = [], 0
    for k, (w, e) in ranked:
        if n >= total*cutoff:
            break
        kept.append ((k, w, e))
        n += w
    lowest = kept[-1][1] if kept else None
    # groups as frequent as the last one could have been kept instead
    tie = kept and len (kept) < len (ranked) and ranked[len (kept)][1][0] == lowest
    candidates = [(k, w, e) for k, (w, e) in groups.items () if kept and w >= lowest]
    count = len (kept)
    if case['limit']:
        count = min (count, case['limit'])
    ctx.eq (len (lines), count, 'number of triads')
    key = dict (weight=lambda x: x[1], effort=lambda x: x[2], combined=lambda x: x[1]/total*x[2]**2)[sort]
    left = {}
    for x in candidates:
        left.setdefault ((''.join (map (label, x[0])), x[1]), []).append (x)
    got = []
    for l in lines:
        text, w, e = l.rsplit (' ', 2)
        m = [x for x in left.get ((text, int (w)), []) if same (x[2], float (e))]
        ctx.true (m, 'not among the most frequent triads, wrong weight or effort', l, [x for x in candidates if ''.join (map (label, x[0])) == text])
        left[(text, int (w))].remove (m[0])
        got.append (m[0])
    keys = list (map (key, got))
    sign = -1 if case['reverse'] else 1
    for a, b in zip (keys, keys[1:]):
        ctx.true (same (a, b) or (a < b) == (sign > 0), 'order', a, b)
    if not tie:
        want = sorted (map (key, kept), reverse=case['reverse'])[:count]
        ctx.true (all (same (a, b) for a, b in zip (keys, want)), 'sort keys', keys[:20], want[:20])
    if not case['limit']:
        # nothing more frequent is missing
        missing = [x for l in left.values () for x in l if x[1] > (lowest or 0)]
        ctx.eq (missing if kept else [], [], 'missing triads')
    ctx.tag ('cut off', len (kept) < len (groups))
    ctx.tag (f'sorted by {sort}')

def curve (ctx, groups, x, y):
    """ Verify points """
    ranked = sorted (groups.values (), key=lambda x: -x[0])
    total = sum (w for w, _ in ranked)
    effort = sum (w*e for w, e in ranked)
    width = total//200
    # points to expect
    want = []
    cum = 0
    for i, (w, e) in enumerate (ranked):
        cum += w
        if not want or want[-1][1]+width <= cum:
            want.append ((i+1, cum))
    want.append ((len (ranked), cum))
    ctx.eq (len (x), len (y), 'number of values')
    ctx.true (len (x) > 0 and x[-1] == 1 and y[-1] == 1, 'does not end at 1, 1', x[-3:], y[-3:])
    # the curve may end with one or two equal points
    if len (want) > 1 and want[-1] == want[-2]:
        want.pop ()
        if len (x) > 1 and x[-2] == x[-1]:
            x, y = x[:-1], y[:-1]
    ctx.eq (len (x), len (want), 'number of points')
    for i, (a, b, (n, cum)) in enumerate (zip (x, y, want)):
        ctx.true (abs (a-cum/total) <= 1e-9, f'weight of point {i}', a, cum/total)
        # groups of equal weight come in any order
        w = ranked[n-1][0]
        above = [v*e for v, e in ranked if v > w]
        block = sorted (v*e for v, e in ranked if v == w)
        k = n-len (above)
        lo = (sum (above)+sum (block[:k]))/effort
        hi = (sum (above)+sum (block[len (block)-k:]))/effort
        ctx.true (lo-1e-7 <= b <= hi+1e-7, f'effort of point {i}', b, lo, hi)
        ctx.true (i == 0 or x[i-1] <= a and y[i-1] <= b, 'not monotonic', x[i-1:i+1], y[i-1:i+1])

def effortData (ctx, case, name='layout.yaml'):
    from lulua import stats
    data, groups = build (ctx, case, name)
    r = cli (stats.main, ['-l', ctx.path (name), 'triadeffortdata'], data)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    return r.out, groups

def runData (case, ctx):
    out, groups = effortData (ctx, case)
    got = pickle.loads (out)
    ctx.eq (got['layout'].name, case['layout']['name'], 'layout')
    curve (ctx, groups, [float (v) for v in got['x']], [float (v) for v in got['y']])

def runPlot (case, ctx):
    from lulua import stats
    parts = []
    for i, c in enumerate (case['parts']):
        parts.append (effortData (ctx, c, f'l{i}.yaml'))
    order = [parts[i] for i in case['order'] if i < len (parts)]
    names = [case['parts'][i]['layout']['name'] for i in case['order'] if i < len (parts)]
    r = cli (stats.main, ['-l', 'ar-lulua', 'triadeffortplot'], b''.join (x[0] for x in order))
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    doc = json.loads (r.text)
    # renderers refer to their data
    ids = {}
    def walk (x):
        if isinstance (x, dict):
            if 'id' in x and 'attributes' in x:
                ids[x['id']] = x
            for v in x.values ():
                walk (v)
        elif isinstance (x, list):
            for v in x:
                walk (v)
    walk (doc)
    def deref (x):
        return ids[x['id']] if isinstance (x, dict) and 'attributes' not in x and 'id' in x else x
    got = {}
    for a in ids.values ():
        if a.get ('name') != 'GlyphRenderer':
            continue
        a = a['attributes']
        src = {k: array (v) for k, v in deref (a['data_source'])['attributes']['data']['entries']}
        line = deref (a['glyph'])['attributes']
        ctx.true (a.get ('name') not in got, 'curve twice', a.get ('name'))
        got[a.get ('name')] = (src[line['x']['field']], src[line['y']['field']])
        ctx.true (a.get ('visible', True), 'invisible', a.get ('name'))
    ctx.eq (sorted (got), sorted (names), 'curves')
    for (out, groups), n in zip (order, names):
        want = pickle.loads (out)
        for i, k in enumerate ('xy'):
            ctx.true (len (got[n][i]) == len (want[k]) and all (abs (a-b) <= 1e-12 for a, b in zip (got[n][i], want[k])), f'curve {n}, {k}', got[n][i], list (want[k]))
    legend = []
    for a in ids.values ():
        if a.get ('name') == 'LegendItem':
            a = a['attributes']
            legend.append ((a['label'].get ('value'), [deref (x)['attributes'].get ('name') for x in a['renderers']]))
    ctx.eq (sorted (legend), sorted ((n, [n]) for n in names), 'legend')
    ctx.tag (f'{len (names)} curves')

def genCase (d, name='test'):
    data = layouts (d, name)
    return dict (layout=data, triads=triads (d, data))

def genFreq (d):
    c = genCase (d)
    cutoff = d.pick ([None, 1, 0, 0.25, 0.75, 2, 1e-9, 1e-7, 1e-5]) if d.bool () else d.draw (1025)/1024
    return dict (c, cutoff=cutoff, reverse=d.bool (), sort=d.pick ([None, 'weight', 'effort', 'combined']),
        limit=d.pick ([None, 0, 1, 2, 5, 1000]))

def genPlot (d):
    names = d.sub (['ar-lulua', 'ar-linux', 'a', 'A', 'c c', 'لؤلؤة', 'ar_osx', 'Ar-Lulua 2', ' e', 'f ', '<g>&amp;', 'h'*80, 'x.yaml', 'a/b', 'ar-osx'], 1, d.pick ([1, 2, 4, 14]))
    parts = []
    for n in names:
        # the curves are what matters
        data = dict (name=n, layout=[dict (modifier=[[]], layer={'Dl1': 'a', 'Dl2': 'b', 'Cr3': 'c', 'El4': 'd'})])
        k = d.list (lambda d: [[[[], d.pick (['Dl1', 'Dl2', 'Cr3', 'El4'])] for _ in range (3)], d.int (1, 1000)], 1, 5)
        k = list ({str (x[0]): x for x in k}.values ())
        parts.append (dict (layout=data, triads=k))
    return dict (parts=parts, order=d.shuffle (range (len (parts))))

CHECKS = [
    Check ('triadfreq', runFreq, genFreq, quick=2200, round=40),
    Check ('triadeffortdata', runData, genCase, quick=1800, round=40),
    Check ('triadeffortplot', runPlot, genPlot, quick=400, round=10),
    ]
