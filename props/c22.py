""" Numbers in the report are faithful to the statistics """

import math, pickle, re
from decimal import Decimal
from fractions import Fraction

import yaml

from harness import fastyaml, gen
from harness.core import Check, Violation, cli

fastyaml.install ()

RULE = 'non-negative numbers (integers, floats, decimals) around every power of ten and rounding boundary up to 10¹⁸; floats and denominators; ' \
    'random strings; random corpus metadata spread over several files and layout summaries with random (also no) presses per finger, rendered by ' \
    'lulua-report, whose output is parsed as HTML. Non-trivial: a number of at least 1000, a string with at least one replaced and one kept character, ' \
    'a fraction that is not exact, or a report with at least two corpora'
ASSUMPTIONS = ['names in metadata contain no markup', 'every layout has at least one press', 'one summary for each layout the report shows']

UNITS = dict (en=['', 'thousand', 'million', 'billion'], ar=['', 'ألف', 'مليون', 'مليار'])

def verifyApprox (ctx, n, shown, unit, lang):
    """ n is exact, shown a decimal fraction """
    units = UNITS[lang]
    ctx.true (unit in units, 'unknown unit', unit)
    k = units.index (unit)
    exact = Fraction (n)/1000**k
    shown = Fraction (shown)
    ctx.true (abs (shown-exact) <= Fraction (1, 20)+Fraction (1, 10**12), f'{n}: not within rounding', float (shown), unit)
    ctx.true (k == 0 or shown >= 1, f'{n}: below one', float (shown), unit)
    ctx.true (k+1 == len (units) or shown < 1000, f'{n}: a larger unit exists', float (shown), unit)

def number (d):
    """ [type, text] """
    k = d.draw (5)
    if k == 0:
        return ['int', str (d.int (0, 10**d.int (0, 18)))]
    if k == 1:
        # around boundaries
        base = d.pick ([0, 1, 10, 999, 1000, 9999, 10**4, 10**6, 10**6-50, 999949, 999950, 999951, 10**9, 10**9-50*1000, 999949999, 999950000, 10**12, 10**15, 10**18])
        return ['int', str (max (0, base+d.int (-60, 60)))]
    if k == 2:
        return ['float', repr (10**d.float (-3, 17))]
    if k == 3:
        return ['float', repr (abs (d.pick ([0., 0.04, 0.05, 0.95, 999.9, 999.94, 999.95, 999.96, 999.99, 1e6, 1e9, 1e12])*d.pick ([1, 1000, 1e6])+d.float (-0.2, 0.2)))]
    m = d.int (0, 10**d.int (1, 15))
    return ['decimal', str (Decimal (m).scaleb (-d.int (0, 6)))]

def runApprox (case, ctx):
    from lulua.report import approx
    kind, text = case['n']
    n = dict (int=int, float=float, decimal=Decimal)[kind] (text)
    exact = Fraction (n)
    res = approx (n, case['lang']) if case['lang'] else approx (n)
    ctx.eq (len (res), 2, 'result')
    verifyApprox (ctx, exact, res[0], res[1], case['lang'] or 'en')
    # equal numbers are shown the same way, a larger one is never shown as smaller
    more = exact*case['factor']
    def size (res):
        return Fraction (res[0])*1000**UNITS[case['lang'] or 'en'].index (res[1])
    if more.denominator == 1:
        res2 = approx (int (more), case['lang'] or 'en')
        verifyApprox (ctx, more, res2[0], res2[1], case['lang'] or 'en')
        ctx.true (size (res2) >= size (res), 'not monotonic', res, res2)
    ctx.nontrivial (exact >= 1000)
    ctx.tag (kind)
    ctx.tag ('unit ' + res[1])

def genApprox (d):
    return dict (n=number (d), lang=d.pick ([None, 'en', 'ar']), factor=d.int (1, 3))

def runFraction (case, ctx):
    from lulua.report import fraction
    n = float (case['n']) if case['float'] else Fraction (case['n'])
    denom = case['denom']
    got = fraction (n) if denom is None else fraction (n, denom)
    m = re.fullmatch ('(-?[0-9]+)\u2044([0-9]+)', got)
    ctx.true (m, 'not a fraction', got)
    a, b = int (m.group (1)), int (m.group (2))
    exact = Fraction (n)
    top = denom or 10
    ctx.true (1 <= b <= top, 'denominator', got, top)
    ctx.eq (math.gcd (a, b), 1, f'{got} can be simplified, divisor')
    best = min (abs (exact-Fraction (round (exact*q), q)) for q in range (1, top+1))
    ctx.true (abs (exact-Fraction (a, b)) <= best, 'not the best approximation', float (exact), got, float (best))
    ctx.nontrivial (best > 0)
    ctx.tag ('negative', exact < 0)

def genFraction (d):
    if d.bool ():
        q = d.int (1, 400)
        return dict (n=f'{d.int (-q, 3*q)}/{q}', float=False, denom=d.pick ([None, 1, 2, 5, 10, 12, 100]))
    return dict (n=repr (d.float (-1 if d.chance (1, 4) else 0, d.pick ([1, 1, 30]))), float=True, denom=d.pick ([None, 1, 3, 10, 50]))

ARABIC = dict (zip ('0123456789,.', '٠١٢٣٤٥٦٧٨٩٬٫'))

def runStrings (case, ctx):
    from lulua.report import arabnum, numspace
    s = ''.join (case['text'])
    ctx.eq (arabnum (s), ''.join (ARABIC.get (c, c) for c in s), 'arabic numerals')
    ctx.eq (numspace (s), ''.join ('\u2007' if c == ' ' else c for c in s), 'figure space')
    n = sum (c in ARABIC or c == ' ' for c in s)
    ctx.nontrivial (0 < n < len (s))

def genStrings (d):
    if d.bool ():
        n = d.pick ([d.int (0, 10**d.int (1, 15)), d.float (-1000, 1e6)])
        return dict (text=[d.pick (['{:7,d}', '{:d}', '{:15d}']).format (n) if isinstance (n, int) else d.pick (['{:5.1f}', '{:12,.3f}']).format (n)])
    return dict (text=d.list (lambda d: d.pick (list ('0123456789,. ')+['٠', '٫', '۵', '\u00a0', '\u2007', '%', '-', '⁄', 'e', 'x', '１', '٬']) if d.chance (3, 4) else gen.char (d), 0, 25))

### the report

SHOWN = ['ar-lulua', 'ar-asmo663', 'ar-osx', 'ar-linux', 'ar-alramly', 'ar-idlebi', 'ar-malas', 'ar-khorshid', 'ar-osman', 'ar-qtaish', 'ar-ergoarabic', 'ar-phonetic']
HANDS = ['LEFT', 'RIGHT']
FINGERS = ['LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB']

def summary (case, name):
    """ What layoutstats would have written """
    from lulua.layout import Direction, FingerType
    fingers = case['fingers']
    hands = {h: sum (fingers[i*5:i*5+5]) for i, h in enumerate (HANDS)}
    total = sum (fingers)
    d = dict (layout=name,
        hands={Direction[h]: n for h, n in hands.items () if n},
        fingers={(Direction[h], FingerType[f]): fingers[i*5+j] for i, h in enumerate (HANDS) for j, f in enumerate (FINGERS) if fingers[i*5+j]},
        buttonPresses=total, asymmetry=hands['LEFT']/total-hands['RIGHT']/total,
        hamzaImpact=case['impact'], hamzaOnAlef=case['alef'])
    return d

def text (e):
    return ''.join (e.itertext ())

def squash (s):
    return re.sub (r'[\s\u2000-\u200b]+', ' ', s).strip ()

def width (e):
    m = re.fullmatch (r'\s*width:\s*([0-9.]+)%;?\s*', e.get ('style', ''))
    return float (m.group (1)) if m else None

def report (ctx, argv):
    from lulua import report
    r = cli (report.render, argv)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    import html5lib
    return html5lib.parse (r.text, namespaceHTMLElements=False)

def verifyTable (ctx, table, lang, corpora):
    names = dict (en=('Words', 'Characters', 'Total'), ar=('كلام', 'حروف', 'مجموع'))[lang]
    head = [squash (text (x)) for x in table.iter ('th')]
    wordCol, charCol = head.index (names[0]), head.index (names[1])
    back = {v: k for k, v in ARABIC.items ()}
    def numeral (s):
        if lang == 'ar':
            ctx.true (not re.search ('[0-9,.]', s), 'European digit', s)
            return ''.join (back.get (c, c) for c in s)
        return s
    def approx (cell, n):
        s = squash (text (cell)).split (' ')
        ctx.true (1 <= len (s) <= 2, 'cell', s)
        verifyApprox (ctx, n, numeral (s[0]), (s+[''])[1], lang)
    rows = [list (x.iter ('td')) for x in table.iter ('tr')]
    rows = [x for x in rows if x]
    ctx.eq (len (list (table.iter ('tr'))), len (corpora)+2, 'number of rows')
    ctx.eq (sorted (squash (text (x[0])) for x in rows), sorted ([c['source']['name'][lang] for c in corpora]+[names[2]]), 'rows')
    def verify (c, row):
        ctx.eq ([x.get ('href') for x in row[0].iter ('a')], [c['source']['url']], 'link')
        n = c.get ('count')
        got = squash (text (row[1]))
        if n:
            ctx.eq (numeral (got), '{:,} {}'.format (n['num'], n['kind'][lang]), 'number of items')
        else:
            ctx.eq (got, '', 'number of items')
        approx (row[wordCol], c['stats']['words'])
        approx (row[charCol], c['stats']['characters'])
    todo = list (rows)
    for c in corpora:
        cand = [x for x in todo if squash (text (x[0])) == c['source']['name'][lang]]
        for row in cand:
            try:
                verify (c, row)
            except Violation:
                # corpora with the same name
                if row is cand[-1]:
                    raise
            else:
                todo.remove (row)
                break
    ctx.eq (len (todo), 1, 'remaining rows')
    rows = {names[2]: todo[0]}
    ctx.eq (squash (text (todo[0][0])), names[2], 'total')
    row = rows[names[2]]
    approx (row[wordCol], sum (c['stats']['words'] for c in corpora))
    approx (row[charCol], sum (c['stats']['characters'] for c in corpora))

def verifyHands (ctx, e, c, name):
    total = sum (c['fingers'])
    got = {x.get ('class'): x for x in e if x.tag == 'div'}
    ctx.eq (sorted (got), ['asymm', 'left', 'right'], f'{name}: elements')
    hands = {h: sum (c['fingers'][i*5:i*5+5]) for i, h in enumerate (HANDS)}
    for i, h in enumerate (HANDS):
        div = got[h.lower ()]
        want = hands[h]/total*100
        ctx.true (abs (width (div)-want) <= 0.00051, f'{name}: width of {h}', width (div), want)
        label, fingers = [x for x in div if x.tag == 'div']
        m = re.fullmatch (r'([0-9.]+)%', squash (text (label)))
        ctx.true (m and abs (float (m.group (1))-want) <= 0.0051, f'{name}: share of {h}', text (label), want)
        order = FINGERS if h == 'LEFT' else FINGERS[::-1]
        fingers = [x for x in fingers if x.tag == 'div']
        ctx.eq ([x.get ('class') for x in fingers], [x.lower () for x in order], f'{name}: fingers of {h}')
        for x, f in zip (fingers, order):
            n = c['fingers'][i*5+FINGERS.index (f)]
            ctx.true (abs (float (squash (text (x)))-n/total*100) <= 0.0051, f'{name}: share of {h} {f}', text (x), n/total*100)
            w = n/hands[h]*100 if hands[h] else 0
            ctx.true (abs (width (x)-w) <= 0.00051, f'{name}: width of {h} {f}', width (x), w)
    m = re.fullmatch (r'Asymmetry: (-?[0-9.]+)', squash (text (got['asymm'])))
    want = (hands['LEFT']-hands['RIGHT'])/total
    ctx.true (m and abs (float (m.group (1))-want) <= 0.00051, f'{name}: asymmetry', text (got['asymm']), want)

def verifyDocument (ctx, doc, corpora, layouts):
    tables = list (doc.iter ('table'))
    tables = [(lang, [t for t in tables if [squash (text (x)) for x in t.iter ('th')][-1:] == [head]]) for lang, head in (('en', 'Characters'), ('ar', 'حروف'))]
    for lang, t in tables:
        ctx.eq (len (t), 1, f'number of {lang} corpus tables')
        verifyTable (ctx, t[0], lang, corpora)

    seen = []
    for parent in doc.iter ('div'):
        stats = [x for x in parent if x.get ('class') == 'fingerhandstats']
        if not stats:
            continue
        ctx.eq (len (stats), 1, 'statistics per heat map')
        src = [x.get ('src') for x in parent.iter ('img')]
        ctx.true (len (src) == 1 and src[0].endswith ('-heat.svg'), 'heat map', src)
        name = src[0][:-len ('-heat.svg')]
        seen.append (name)
        verifyHands (ctx, stats[0], layouts[name], name)
    ctx.eq (sorted (seen), sorted (SHOWN), 'layouts shown')

def runReport (case, ctx):
    argv = ['-c']
    corpora = []
    for i, docs in enumerate (case['files']):
        name = ctx.path (f'corpus{i}.yaml')
        with open (name, 'w', encoding='utf-8') as fd:
            # corpusstats output is concatenated, including empty documents
            for c in docs:
                if c is None:
                    fd.write ('---\n')
                else:
                    yaml.safe_dump (c, fd, explicit_start=True, allow_unicode=True)
                    corpora.append (c)
            fd.write ('---\n')
        argv.append (name)
    argv.append ('-l')
    layouts = dict (zip (SHOWN, case['layouts']))
    for i in case['order']:
        n = SHOWN[i]
        name = ctx.path (f'stats{i}.pickle')
        with open (name, 'wb') as fd:
            pickle.dump (summary (case['layouts'][i], n), fd)
        argv.append (name)
    doc = report (ctx, argv)
    verifyDocument (ctx, doc, corpora, layouts)

    body = squash (text (doc))
    m = re.search (r'variants account for ([0-9.]+)% of button combinations', body)
    want = layouts['ar-osx']['impact']*100
    ctx.true (m and abs (float (m.group (1))-want) <= 0.051, 'share of hamza', m and m.group (1), want)
    m = re.search ('since ([0-9]+)\u2044([0-9]+)th of all', body)
    ctx.true (m, 'share of alef with hamza missing')
    want = Fraction (layouts['ar-osx']['alef'])
    best = min (abs (want-Fraction (round (want*q), q)) for q in range (1, 11))
    ctx.true (abs (want-Fraction (int (m.group (1)), int (m.group (2)))) <= best, 'share of alef with hamza', m.group (0), float (want))
    ctx.nontrivial (len (corpora) > 1)
    ctx.tag ('several files', len (case['files']) > 1)
    ctx.tag ('finger without presses', any (0 in x['fingers'] for x in case['layouts']))
    ctx.tag ('hand without presses', any (not any (x['fingers'][:5]) or not any (x['fingers'][5:]) for x in case['layouts']))

def genReport (d):
    used = [0]
    def count (d):
        if d.bool ():
            return d.int (0, 10**d.int (0, 11))
        return max (0, d.pick ([0, 1000, 999950, 10**6, 10**9, 10**12])+d.int (-60, 60))
    all = []
    def corpus (d):
        if all and d.chance (1, 12):
            # a second time
            return d.pick (all)
        used.append (d.pick (used) if d.chance (1, 4) else len (used))
        i = used[-1]
        c = dict (source=dict (name=dict (en=d.pick (['Al-Jazeera', 'bbc', 'Wiki', 'Über', '9'])+f' {i}', ar=d.pick (['الجزيرة', 'ويكيبيديا', 'بي بي سي'])+f' {i}'), url=f'https://example.com/{i}'))
        if d.chance (3, 4):
            c['count'] = dict (num=d.int (0, 10**d.int (0, 10)), kind=dict (en='articles', ar='مقالة'))
        c['stats'] = dict (words=count (d), characters=count (d))
        all.append (c)
        return c
    files = d.list (lambda d: d.list (lambda d: None if d.chance (1, 6) else corpus (d), 0, 4), 1, 4)
    if d.chance (1, 12):
        # lots of them
        files.append ([corpus (d) for _ in range (gen.near (d, 200))])
    def layout (d):
        k = d.draw (4)
        top = 10**d.int (0, 10)
        f = [0 if k == 0 and d.bool () or k == 1 and d.chance (4, 5) else d.int (0, top) for _ in range (10)]
        if k == 2 and d.chance (1, 3):
            i = d.pick ([0, 5])
            f[i:i+5] = [0]*5
        if not any (f):
            f[d.int (0, 9)] = d.int (1, 100)
        return dict (fingers=f, impact=d.float (0, 1), alef=d.float (0, 1))
    return dict (files=files, layouts=[layout (d) for _ in SHOWN], order=d.shuffle (range (len (SHOWN))))

CHECKS = [
    Check ('approx', runApprox, genApprox, quick=60000),
    Check ('fraction', runFraction, genFraction, quick=20000),
    Check ('strings', runStrings, genStrings, quick=20000),
    Check ('report', runReport, genReport, quick=1200, round=20),
    ]
