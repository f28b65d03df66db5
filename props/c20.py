""" Analysis commands report numbers that follow from the statistics """

import os, json, re, math, pickle, unicodedata
from collections import Counter

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli
from harness.golden import FINGERS, MODELS

fastyaml.install ()

RULE = 'statistics obtained by typing random texts on random layouts (which have the Arabic letters needed), with additional random counts up to ' \
    '10¹² for their keys, triads, words and skipped characters, are passed to the lulua-analyze commands and the output is parsed. ' \
    'Non-trivial: at least two buttons with different counts were pressed'
ASSUMPTIONS = ['text on keys with an effort and the keys excluded from triads', 'layoutstats, letterfreq: alef was typed at least once',
    'pretty: texts consist of letters, marks, digits and blanks']

NUMERALS = {0x30+i: 0x628+i for i in range (10)}

def build (ctx, case):
    """ Statistics object and its plain contents """
    data = case['layout']
    kb = real.otherKeyboard (case['keyboard'])
    w = real.writer (data, kb)
    s = real.typeStats (w, gen.expand (case['text']))
    lay = model.Layout (data)
    combs = [c for l in lay.texts.values () for c in l]
    def comb (i):
        return real.comb (*combs[i % len (combs)], kb)
    simple = s['simple']
    for i, n in case['combs']:
        c = comb (i)
        simple.combinations[c] += n
        for b in c:
            simple.buttons[b] += n
    for x, n in case['unknown']:
        simple.unknown[x] += n
    for x, n in case['words']:
        s['words'].words[x] += n
    for i in range (case['many']):
        s['words'].words[f'{i:05d}'.translate (NUMERALS)] += 1 + i*i % 7
        if i < 3000:
            # nobody has more characters than that
            simple.unknown[chr (0x4e00+i)] += 1 + i*i % 5
    effort = [i for i, c in enumerate (combs) if all (x in MODELS['mod01']['baselineEffort'] for x in list (c[0])+[c[1]]) and c[1] not in model.IGNORED]
    if effort:
        for a, b, c, n in case['triads']:
            s['triads'].triads[tuple (comb (effort[x % len (effort)]) for x in (a, b, c))] += n
    with open (ctx.path ('layout.yaml'), 'w', encoding='utf-8') as fd:
        fastyaml.dump (data, fd, sort_keys=False)
    if case['keyboard']:
        with open (ctx.path ('keyboard.yaml'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (case['keyboard'], fd, sort_keys=False)
    ctx.tag ('other keyboard', case['keyboard'])
    plain = real.stats (s)
    ctx.nontrivial (len (set (plain['buttons'].values ())) > 1)
    return lay, pickle.dumps (s, pickle.HIGHEST_PROTOCOL), plain

def analyze (ctx, cmd, data, *args):
    from lulua import stats
    kb = ['-k', ctx.path ('keyboard.yaml')] if os.path.exists (ctx.path ('keyboard.yaml')) else []
    r = cli (stats.main, ['-l', ctx.path ('layout.yaml')] + kb + [cmd] + list (args), data)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    return r

def runHeatmap (case, ctx):
    lay, data, s = build (ctx, case)
    verifyHeatmap (ctx, analyze (ctx, 'keyheatmap', data).text, s)

def verifyHeatmap (ctx, text, s):
    got = yaml.safe_load (text)
    ctx.eq (got, dict (total=sum (s['buttons'].values ()), buttons=s['buttons']), 'heat map')

ALEF, YAH, WAW, ABOVE, BELOW = '\u0627', '\u064a', '\u0648', '\u0654', '\u0655'

def hasAlef (lay, s):
    """ Alef may have become part of something else, madda for instance """
    return any (s['combinations'].get (c, 0) for t in (ALEF, ALEF+ABOVE, ALEF+BELOW) for c in lay.texts.get (t, []))

def runLayoutstats (case, ctx):
    lay, data, s = build (ctx, case)
    if not hasAlef (lay, s):
        ctx.tag ('not judged')
        return
    verifyLayoutstats (ctx, analyze (ctx, 'layoutstats', data).out, ctx.path ('layout.yaml'), lay, s)

def verifyLayoutstats (ctx, out, name, lay, s):
    got = pickle.loads (out)
    ctx.eq (got['layout'], name, 'layout')
    total = sum (s['buttons'].values ())
    ctx.eq (got['buttonPresses'], total, 'button presses')
    hands, fingers = Counter (), Counter ()
    for b, n in s['buttons'].items ():
        h, f = FINGERS[b]
        hands[h] += n
        fingers[(h, f)] += n
    ctx.eq ({k.name: v for k, v in got['hands'].items () if v}, dict (hands), 'hands')
    ctx.eq ({(h.name, f.name): v for (h, f), v in got['fingers'].items () if v}, dict (fingers), 'fingers')
    ctx.close (got['asymmetry'], (hands['LEFT']-hands['RIGHT'])/total, 'asymmetry', rel=1e-9, abs_=1e-12)
    def count (t):
        return sum (s['combinations'].get (c, 0) for c in lay.texts.get (t, []))
    hamza = [count (x) for x in (ALEF+ABOVE, ALEF+BELOW, YAH+ABOVE, WAW+ABOVE)]
    ctx.close (got['hamzaImpact'], sum (hamza)/sum (s['combinations'].values ()), 'share of letters with hamza', rel=1e-9, abs_=1e-12)
    ctx.close (got['hamzaOnAlef'], sum (hamza[:2])/(sum (hamza[:2])+count (ALEF)), 'share of alef with hamza', rel=1e-9, abs_=1e-12)
    ctx.tag ('hamza', sum (hamza))

def runCorpus (case, ctx):
    lay, data, s = build (ctx, case)
    out = ''
    want = []
    for i, m in enumerate (case['metadata']):
        with open (ctx.path ('meta.yaml'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (m, fd)
        out += analyze (ctx, 'corpusstats', data, ctx.path ('meta.yaml')).text
        want.append (dict (m, stats=dict (characters=sum (s['combinations'].values ()), words=sum (s['words'].values ()))))
    got = [x for x in yaml.safe_load_all (out) if x is not None]
    ctx.eq (got, want, 'concatenated metadata')

def runLatin (case, ctx):
    lay, data, s = build (ctx, case)
    verifyLatin (ctx, analyze (ctx, 'latinime', data).text, s)

def verifyLatin (ctx, text, s):
    lines = text.split ('\n')
    ctx.eq (lines.pop (), '', 'end of file')
    lines = [x for x in lines if not x.startswith ('#')]
    ctx.true (lines and re.fullmatch (r'dictionary=main:ar,locale=ar,description=[^,]*,date=\d+,version=\d+', lines[0]), 'header', lines[:1])
    total = sum (s['words'].values ())
    seen = set ()
    last = math.inf
    for l in lines[1:]:
        m = re.fullmatch (r' word=([^,]*),f=(-?\d+)', l)
        ctx.true (m, 'line', l)
        w, f = m.group (1), int (m.group (2))
        ctx.true (w in s['words'] and w not in seen, 'word unknown or listed twice', l)
        seen.add (w)
        n = s['words'][w]
        ctx.true (n <= last, 'order', l, n, last)
        last = n
        ctx.true (abs (f-255-math.log (n/total)/math.log (1.15)) <= 0.5+1e-6, 'score', l, n, total)
    ctx.eq (seen, set (s['words']), 'words')
    ctx.tag ('words', len (seen) > 1)

def sources (x):
    """ Data of all column data sources of a JSON document of bokeh """
    if isinstance (x, dict):
        if x.get ('name') == 'ColumnDataSource':
            d = x['attributes']['data']
            yield {k: array (v) for k, v in d['entries']}
        for v in x.values ():
            yield from sources (v)
    elif isinstance (x, list):
        for v in x:
            yield from sources (v)

def array (v):
    if isinstance (v, dict):
        import base64, gzip
        import numpy as np
        assert v['type'] == 'ndarray', v
        if isinstance (v['array'], list):
            return v['array']
        raw = base64.b64decode (v['array']['data'])
        if raw[:3] == b'\x1f\x8b\x08':
            raw = gzip.decompress (raw)
        return np.frombuffer (raw, dtype=np.dtype (v['dtype']).newbyteorder ('<' if v['order'] == 'little' else '>')).reshape (v['shape']).tolist ()
    return v

def models (x, name):
    if isinstance (x, dict):
        if x.get ('name') == name and x.get ('type') == 'object':
            yield x['attributes']
        for v in x.values ():
            yield from models (v, name)
    elif isinstance (x, list):
        for v in x:
            yield from models (v, name)

def runLetters (case, ctx):
    lay, data, s = build (ctx, case)
    doc = json.loads (analyze (ctx, 'letterfreq', data).text)
    want = Counter ()
    for c, n in s['combinations'].items ():
        t = lay.text (c)
        if unicodedata.category (t[0]) == 'Lo':
            want[t] += n
    total = sum (want.values ())
    l = [x for x in sources (doc) if 'letters' in x]
    ctx.true (len (l) > 0, 'no data')
    for x in l:
        ctx.eq (sorted (x['letters']), sorted (want), 'letters')
        ctx.eq (x['abs'], sorted (x['abs']), 'order')
        for i, t in enumerate (x['letters']):
            ctx.eq (x['abs'][i], want[t], f'count of {t}')
            ctx.close (x['rel'][i], want[t]/total, f'share of {t}')
            rest = sum (x['abs'][i:])
            ctx.eq (x['cum'][i], rest, f'cumulative count of {t}')
            ctx.close (x['cumRel'][i], rest/total, f'cumulative share of {t}')
    ctx.eq ([array (x['factors']) for x in models (doc, 'FactorRange')], [l[0]['letters']], 'letters on the axis')
    ctx.eq ({json.dumps ([x['x']['field'], x['y']['field']]) for x in models (doc, 'Line')}, {json.dumps (['letters', 'cumRel'])}, 'line')
    ctx.eq ({json.dumps ([x['x']['field'], x['top']['field']]) for x in models (doc, 'VBar')}, {json.dumps (['letters', 'rel'])}, 'bars')
    ctx.tag ('several letters', len (want) > 1)

def runPretty (case, ctx):
    lay, data, s = build (ctx, case)
    text = analyze (ctx, 'pretty', data).text
    ctx.true (text.endswith ('\n'), 'end of file')
    lines = text.split ('\n')[:-1]
    pos = 0
    def section (header):
        """ Look for a header line, in order """
        nonlocal pos
        m = re.fullmatch (header, lines[pos]) if pos < len (lines) else None
        ctx.true (m, f'expected {header}', lines[pos:pos+3])
        pos += 1
        return [int (x) for x in m.groups ()]
    def rows (n, pattern):
        nonlocal pos
        ret = []
        for l in lines[pos:pos+n]:
            m = re.fullmatch (pattern, l)
            ctx.true (m, f'expected {pattern}', l)
            ret.append (m.groups ())
        ctx.eq (len (ret), n, 'number of lines')
        pos += n
        counts = [int (x[1]) for x in ret]
        return ret, counts
    def percent (p, n, total, digits, what):
        ctx.close (float (p), n/total*100, f'share of {what}', rel=0, abs_=0.5001*10**-digits)
    names = lambda x: re.findall (r"'(\w+)'", x)

    total = sum (s['buttons'].values ())
    ctx.eq (section (r'button presses (\d+)'), [total], 'button presses')
    r, counts = rows (len (s['buttons']), r'(.*?)\s+(\d+)\s+([\d.]+)%')
    ctx.eq (counts, sorted (counts), 'order of buttons')
    ctx.eq ({names (x[0])[0]: int (x[1]) for x in r}, s['buttons'], 'buttons')
    for x in r:
        percent (x[2], int (x[1]), total, 1, x[0])

    total = sum (s['combinations'].values ())
    ctx.eq (section (r'combinations (\d+)'), [total], 'combinations')
    r, counts = rows (len (s['combinations']), r'\s*\d+\.\s(.*?)\s+(\d+)\s+([\d.]+)%')
    ctx.eq (counts, sorted (counts), 'order of combinations')
    want = Counter ()
    from props.c19 import label
    for (m, b), n in s['combinations'].items ():
        want[(frozenset (m) | {b}, label (lay.text ((m, b))), n)] += 1
    got = Counter ()
    for x in r:
        keys = frozenset (names (x[0]))
        n = int (x[1])
        # the text is what is shown before the combination
        t = [k[1] for k in want if k[0] == keys and k[2] == n and x[0].startswith (k[1])]
        ctx.true (t, 'combination', x)
        got[(keys, t[0], n)] += 1
        percent (x[2], n, total, 3, x[0])
    ctx.eq (got, want, 'combinations')

    section ('unknown')
    r, counts = rows (len (s['unknown']), r'(.*?)\s+(\d+)')
    ctx.eq (counts, sorted (counts), 'order of unknown characters')
    ctx.eq (Counter ((x[0], int (x[1])) for x in r), Counter ((repr (k), v) for k, v in s['unknown'].items ()), 'unknown characters')

    hands = {}
    both = Counter ()
    for (h, n), v in s['hands'].items ():
        hands.setdefault (h, {})[n] = v
        both[n] += v
    while pos < len (lines) and lines[pos] != 'combined':
        m = re.search ('LEFT|RIGHT|[12]', lines[pos])
        ctx.true (m, 'hand', lines[pos])
        h = {'1': 'LEFT', '2': 'RIGHT'}.get (m.group (), m.group ())
        pos += 1
        d = hands.pop (h, {})
        r, counts = rows (len (d), r'\s*(\d+)\s+(\d+)\s+([\d.]+)%')
        ctx.eq ([(int (x[0]), int (x[1])) for x in r], sorted (d.items ()), f'runs of {h}')
        for x in r:
            percent (x[2], int (x[1]), sum (d.values ()), 1, x[0])
    ctx.eq (hands, {}, 'missing hands')
    section ('combined')
    r, counts = rows (len (both), r'\s*(\d+)\s+(\d+)\s+([\d.]+)%')
    ctx.eq ({int (x[0]): int (x[1]) for x in r}, dict (both), 'runs of both hands')
    for x in r:
        percent (x[2], int (x[1]), sum (both.values ()), 1, x[0])

    section ('triads')
    r, counts = rows (len (s['triads']), r'(.*?)\s+(\d+)')
    ctx.eq (counts, sorted (counts), 'order of triads')
    want = Counter ((tuple (sorted (y for m, b in k for y in list (m)+[b])), n) for k, n in s['triads'].items ())
    ctx.eq (Counter ((tuple (sorted (names (x[0]))), int (x[1])) for x in r), want, 'triads')

    total = sum (s['words'].values ())
    ctx.eq (section (r'words (\d+)'), [total], 'words')
    r = []
    for l in lines[pos:pos+len (s['words'])]:
        m = re.fullmatch (r'(\S+)\s+([\d.]+)\s+(\d+)', l)
        ctx.true (m, 'word', l)
        r.append (m.groups ())
        percent (m.group (2), int (m.group (3)), total, 5, m.group (1))
    pos += len (r)
    ctx.eq (Counter ((x[0], int (x[2])) for x in r), Counter (s['words'].items ()), 'words')
    counts = [int (x[2]) for x in r]
    ctx.eq (counts, sorted (counts), 'order of words')

    m = re.fullmatch (r'total effort \(carpalx\) (\S+)', lines[pos])
    ctx.true (m, 'effort', lines[pos:])
    ctx.close (float (m.group (1)), model.meanEffort (s['triads'], MODELS['mod01'], gen.rowOf (case['keyboard'])), 'effort', rel=1e-7)
    ctx.eq (pos, len (lines)-1, 'end of output')

LETTERS = [ALEF, YAH, WAW, ALEF+ABOVE, ALEF+BELOW, YAH+ABOVE, WAW+ABOVE, ABOVE, BELOW, '\u0644\u0627', ' ', '\u064e', '\u0628', '\u0645']

def base (d, plain=False):
    def text (d):
        if d.bool ():
            return d.pick (LETTERS)
        if plain:
            return d.pick (gen.ARABIC + gen.MARKS[:10] + gen.DIGITS)
        x = gen.typable (d)
        return x
    mods = gen.modifiers (d, d.int (1, 4), effort=True)
    isMod = {x for l in mods for m in l for x in m}
    pool = [x for x in model.EFFORTKEYS + sorted (model.IGNORED) if x not in isMod]
    layers = []
    # letters every Arabic layout has
    keys = d.shuffle (pool)
    first = dict (zip (keys, [ALEF, YAH, WAW]))
    for i, m in enumerate (mods):
        layer = dict (first) if i == 0 else {}
        for b in d.sub ([x for x in pool if x not in layer], 0, d.pick ([3, 10, 30])):
            layer[b] = text (d)
        layers.append (dict (modifier=m, layer=layer))
    data = dict (name='test', layout=layers)
    if d.chance (1, 8):
        data = model.packaged ()[d.pick ([k for k, v in model.packaged ().items () if v['layout']])]
    if plain:
        pieces = d.list (lambda d: [d.pick ([x for l in data['layout'] for x in l['layer'].values ()]) if d.chance (4, 5) else d.pick (gen.ARABIC + LETTERS + ['x', ' ', '\u200c']), 1], 0, d.pick ([10, 40]))
    else:
        pieces = gen.texts (d, data)
    pieces.insert (0, [ALEF, 1])
    num = lambda d: d.pick ([1, 2, 10]) if d.bool () else d.int (1, 1000) if d.bool () else d.int (1, 10**12)
    def word (d):
        if d.chance (1, 10):
            # letters only
            x = ''.join (x for x in gen.literal (d) if x.isalpha ())
            if x:
                return [x, num (d)]
        return [''.join (d.list (lambda d: d.pick (gen.ARABIC + gen.MARKS), 1, 5))*(gen.length (d, 300) if d.chance (1, 10) else 1), num (d) if d.chance (9, 10) else d.int (1, 10**19)]
    return dict (layout=data, keyboard=gen.effortKeyboard (d) if d.chance (1, 5) else None, text=pieces, many=gen.length (d, 8000) if d.chance (1, 20) else 0,
        combs=d.list (lambda d: [d.draw (1000), num (d)], 0, d.pick ([0, 20])),
        unknown=d.list (lambda d: [d.pick (['x', 'é', "'", '"', '\n', '\u200c', ' ', '1', '\U0001f600']), num (d)], 0, 4),
        words=d.list (word, 0, d.pick ([0, 3, 20])),
        triads=d.list (lambda d: [d.draw (1000), d.draw (1000), d.draw (1000), num (d)], 0, d.pick ([0, 10])))

def genPretty (d):
    return base (d, True)

def genCorpus (d):
    def value (d, depth=0):
        k = d.draw (6 if depth < 2 else 4)
        if k == 0:
            return d.int (0, 10**6)
        if k == 1:
            return gen.string (d, 0, 6).replace ('\0', '') if d.bool () else d.pick (['', '---', '# x', 'yes', '1', 'a: b', '\n', "'"])
        if k == 2:
            return d.pick ([True, False, None, 1.5])
        if k == 3:
            return d.pick (['text', 'مثال'])
        if k == 4:
            return d.list (lambda d: value (d, depth+1), 0, 3)
        return {x: value (d, depth+1) for x in d.sub (['a', 'name', 'b c', '1', 'ع'], 0, 3)}
    return dict (base (d), metadata=d.list (lambda d: {k: value (d) for k in d.sub (['name', 'source', 'license', 'stats', 'description', 'x'], 0, 5)}, 1, 3))

CHECKS = [
    Check ('heatmap', runHeatmap, base, quick=1500, round=40),
    Check ('layoutstats', runLayoutstats, base, quick=2000, round=40),
    Check ('corpusstats', runCorpus, genCorpus, quick=1200, round=40),
    Check ('latinime', runLatin, base, quick=1600, round=40),
    Check ('letterfreq', runLetters, base, quick=700, round=20),
    Check ('pretty', runPretty, genPretty, quick=1200, round=40),
    ]
