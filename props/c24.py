""" The tools work together: every number follows from the corpus """

import io, json, os, pickle
from collections import Counter
from fractions import Fraction
from xml.etree import ElementTree as ET

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli
from harness.golden import MODELS, FINGERS
from props.c05 import compare
from props.c08 import lululaWrite, openFifo
from props import c19, c20, c22

fastyaml.install ()

RULE = 'one to three corpora of random texts are written with lulua-write (real processes), combined, analysed, drawn and put into ' \
    'the report by the command line tools, one after the other, like the project’s build does: chain: random layouts, heat map drawing, ' \
    'word list and dump; report: all layouts of the report. The numbers of the last tool are compared with those the model gets for ' \
    'the texts. Non-trivial: at least two corpora with at least two texts'
ASSUMPTIONS = ['at least one alef is typed', 'text on keys with an effort and the keys excluded from triads']

def line (t):
    return t.replace ('\r', ' ').replace ('\n', ' ')+'\n'

def write (ctx, layout, corpus, tag):
    """ Statistics files of one corpus, one per run of lulua-write """
    ret = b''
    for i, part in enumerate (corpus['runs']):
        sub = ctx.path (f'{tag}-{i}')
        os.mkdir (sub)
        class Sub:
            path = staticmethod (lambda x: os.path.join (sub, x))
        lines = []
        for j, t in enumerate (part):
            t = gen.expand (t)
            if corpus['filter'] == ['lines']:
                lines.append (line (t)[:-1])
            elif corpus['filter'] == ['json']:
                lines.append (json.dumps (t))
            else:
                with open (Sub.path (f'text{j}'), 'wb') as fd:
                    fd.write (t.encode ('utf-8'))
                lines.append (Sub.path (f'text{j}'))
        def feed (path, stop):
            fd = openFifo (path, stop)
            try:
                with fd:
                    fd.write (''.join (x + '\n' for x in lines).encode ('utf-8'))
            except BrokenPipeError:
                pass
        status, out, err = lululaWrite (['-j', str (corpus['jobs']), layout] + corpus['filter'], Sub, feed, [])
        ctx.true (status == 0, f'exit status {status}', err[-2000:].decode ('utf-8', 'replace'))
        ret += out
    return ret

def analyze (ctx, layout, cmd, data, *args):
    from lulua import stats
    r = cli (stats.main, ([] if layout is None else ['-l', layout]) + [cmd] + list (args), data)
    ctx.true (r.ret in (None, 0), 'exit status', cmd, r.ret)
    return r

def expected (data, corpora):
    """ Statistics of each corpus """
    lay = model.Layout (data)
    def text (c, t):
        t = gen.expand (t)
        return model.normalise (line (t) if c['filter'] == ['lines'] else t)
    return [model.addStats (*(model.typeStats (lay, text (c, t)) for part in c['runs'] for t in part)) for c in corpora]

def nz (s):
    return {k: {x: n for x, n in v.items () if n} for k, v in s.items ()}

def gather (ctx, case, name, data, tag):
    """ Combined statistics of each corpus and all of them; expected ones """
    want = [nz (x) for x in expected (data, case['corpora'])]
    files = []
    for i, c in enumerate (case['corpora']):
        files.append (analyze (ctx, None, 'combine', write (ctx, name, c, f'{tag}-{i}')).out)
        compare (ctx, real.stats (pickle.loads (files[-1])), want[i])
    total = analyze (ctx, None, 'combine', b''.join (files)).out
    sums = nz (model.addStats (*want))
    compare (ctx, real.stats (pickle.loads (total)), sums)
    return files, want, total, sums

def metadata (ctx, case, name, files, want):
    """ corpusstats of each corpus """
    paths, corpora = [], []
    for i, (c, f, w) in enumerate (zip (case['corpora'], files, want)):
        with open (ctx.path (f'meta{i}.yaml'), 'w', encoding='utf-8') as fd:
            yaml.safe_dump (c['meta'], fd, allow_unicode=True)
        out = analyze (ctx, name, 'corpusstats', f, ctx.path (f'meta{i}.yaml')).out
        paths.append (ctx.path (f'corpus{i}.yaml'))
        with open (paths[-1], 'wb') as fd:
            fd.write (out)
        corpora.append (dict (c['meta'], stats=dict (characters=sum (w['combinations'].values ()), words=sum (w['words'].values ()))))
    return paths, corpora

def note (ctx, case):
    ctx.nontrivial (len (case['corpora']) > 1 and sum (len (x) for c in case['corpora'] for x in c['runs']) > 1)
    ctx.tag ('corpus written in several runs', any (len (c['runs']) > 1 for c in case['corpora']))

def runChain (case, ctx):
    from lulua import render
    data = case['layout']
    name = ctx.path ('layout.yaml')
    with open (name, 'w', encoding='utf-8') as fd:
        fastyaml.dump (data, fd, sort_keys=False)
    lay = model.Layout (data)
    files, want, total, sums = gather (ctx, case, name, data, 'w')

    heat = analyze (ctx, name, 'keyheatmap', total)
    c20.verifyHeatmap (ctx, heat.text, sums)
    if c20.hasAlef (lay, sums):
        c20.verifyLayoutstats (ctx, analyze (ctx, name, 'layoutstats', total).out, name, lay, sums)
    c20.verifyLatin (ctx, analyze (ctx, name, 'latinime', total).text, sums)
    paths, corpora = metadata (ctx, case, name, files, want)
    ctx.eq ([x for p in paths for x in yaml.safe_load_all (open (p, encoding='utf-8')) if x is not None], corpora, 'metadata')
    if sums['triads']:
        got = analyze (ctx, name, 'pretty', total).text.rstrip ('\n').split ('\n')[-1]
        ctx.true (got.startswith ('total effort (carpalx) '), 'total effort', got)
        ctx.close (float (got.split ()[-1]), model.meanEffort (sums['triads'], MODELS['mod01']), 'total effort', rel=1e-7)

    # heat map drawing
    os.makedirs (ctx.path (c19.FONTS))
    for x in ('Thin', 'Regular'):
        with open (ctx.path (c19.FONTS + f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (b'font')
    with open (ctx.path ('heat.yaml'), 'wb') as fd:
        fd.write (heat.out)
    cwd = os.getcwd ()
    os.chdir (ctx.path (''))
    try:
        r = cli (render.render, ['-l', name, 'svg', '--heatmap=heat.yaml', 'out.svg'])
    finally:
        os.chdir (cwd)
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    root = ET.parse (ctx.path ('out.svg')).getroot ()
    (g, ) = [x for x in root if c19.tag (x) == 'g']
    top = max (sums['buttons'].values ())
    c19.compare (ctx, g, (float (root.get ('width')), float (root.get ('height'))),
        c19.expected (dict (rows=model.KEYBOARD), data, c19.DEFAULT, {k: v/top for k, v in sums['buttons'].items ()}))
    note (ctx, case)

def runReport (case, ctx):
    argv = []
    shown = {}
    for n in c22.SHOWN:
        data = model.packaged ()[n]
        files, want, total, sums = gather (ctx, case, n, data, n)
        if not c20.hasAlef (model.Layout (data), sums):
            ctx.tag ('not judged')
            return
        out = analyze (ctx, n, 'layoutstats', total).out
        c20.verifyLayoutstats (ctx, out, n, model.Layout (data), sums)
        with open (ctx.path (f'{n}.pickle'), 'wb') as fd:
            fd.write (out)
        argv.append (ctx.path (f'{n}.pickle'))
        f = Counter ()
        for b, k in sums['buttons'].items ():
            f[tuple (FINGERS[b])] += k
        shown[n] = dict (fingers=[f[(h, x)] for h in c22.HANDS for x in c22.FINGERS])
        if n == 'ar-lulua':
            paths, corpora = metadata (ctx, case, n, files, want)
    doc = c22.report (ctx, ['-c'] + paths + ['-l'] + argv)
    c22.verifyDocument (ctx, doc, corpora, shown)
    note (ctx, case)

def genCorpora (d, words, top):
    used = [0]
    def corpus (d):
        used[0] += 1
        i = used[0]
        def text (d):
            start = [['ا', 1]]
            if used[0] > 1 and d.chance (1, 8):
                # nothing can be typed
                return d.list (lambda d: [d.pick (['❄', '\u4e2d', '\U0001f600', '\u0bb5']), d.int (1, 3)], 1, 4)
            if d.chance (1, 4):
                # looks like something else
                start.insert (0, [d.pick (gen.PUNCT + gen.SPACE + ['\ufeff']) if d.bool () else gen.literal (d), 1])
            return start + d.list (lambda d: [d.pick (words) if d.chance (5, 6) else gen.char (d, False), 1], 0, d.pick ([5, top]))
        meta = dict (source=dict (name=dict (en=f'Corpus {i}', ar=f'نص {i}'), url=f'https://example.com/{i}'))
        if d.bool ():
            meta['count'] = dict (num=d.int (0, 10**6), kind=dict (en='articles', ar='مقالة'))
        return dict (runs=d.list (lambda d: d.list (text, 1, 4), 1, 2), jobs=d.int (1, 3), filter=d.pick ([['json'], ['file', 'text'], ['lines']]), meta=meta)
    ret = d.list (corpus, 1, 3)
    if d.chance (1, 4):
        # one of them several times
        ret[-1] = ret[0]
    return ret

def genChain (d):
    # the dump is easier to parse with plain text; drawings cannot contain control characters
    data = c20.base (d, True)['layout']
    own = [x for l in data['layout'] for x in l['layer'].values ()]
    return dict (layout=data, corpora=genCorpora (d, own+[' ', '\n', ' '], 40))

def genReport (d):
    words = ['كلمة', ' ', ' ', '\n', 'أ', 'إ', 'ؤ', 'ئ', 'لا', 'ﻻ', 'ا', 'و', 'ي', '،', '.', '؟', '1', '٢', 'الْعَرَبِيَّةُ', 'من', 'في', '\u00a0', '%', 'x']
    return dict (corpora=genCorpora (d, words, 30)[:2])

CHECKS = [
    Check ('chain', runChain, genChain, quick=200, thorough=4000, round=10, cpu=600, shrink=25),
    Check ('report', runReport, genReport, quick=24, thorough=400, round=2, cpu=600, shrink=25),
    ]
