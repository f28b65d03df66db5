""" Typing a text accounts for every character exactly once, longest match first """

import io

from harness import gen, model, real
from harness.core import Check

RULE = 'layout definitions (random alphabets, multi-character texts with common prefixes, 1-4 layers, packaged ones) ' \
    'with texts assembled from the layout’s own texts, their parts and foreign characters; non-trivial: at least one ' \
    'chunk typed and (a character skipped, or a chunk of more than one character, or a chunk that is a proper prefix ' \
    'of another layout text)'
ASSUMPTIONS = ['texts contain no lone surrogates', 'layouts assign no empty text (pygtrie cannot hold one)',
    'modifier keys carry no text']

def run (case, ctx):
    data = case['layout']
    text = gen.expand (case['text'])
    m = model.Layout (data)
    w = real.writer (data)
    if case.get ('bytes'):
        fd = io.TextIOWrapper (io.BytesIO (text.encode ('utf-8')), encoding='utf-8', newline='')
    else:
        fd = io.StringIO (text)
    pos = 0
    want = m.chunks (text)
    skipped = multi = prefix = typed = 0
    for match, ev in w.type (fd):
        x = next (want, None)
        ctx.true (x is not None, 'typing goes on after the end of the text', match, ev)
        chunk, ok = x
        if ok:
            ctx.eq (match, chunk, f'wrong chunk at {pos}, next is {text[pos:pos+10]!r}')
            key = real.combKey (ev)
            ctx.true (key in m.texts[chunk], f'combination does not type {chunk!r}', key)
            ctx.eq (w.layout.getText (ev), chunk, 'combination does not give back the chunk')
            typed += 1
            multi += len (chunk) > 1
            prefix += any (len (t) > len (chunk) and t.startswith (chunk) for t in m.texts) if len (m.texts) < 60 else 0
        else:
            ctx.eq (match, None, f'untypeable character {chunk!r} typed')
            ctx.eq (ev.char, chunk, 'wrong character skipped')
            skipped += 1
        pos += len (chunk)
    ctx.eq (pos, len (text), 'typing stopped early')
    ctx.true (next (want, None) is None, 'text left')
    # the layout still is what it was
    ctx.eq ({k: [real.combKey (c) for c in v] for k, v in w.layout}, m.texts, 'layout changed')
    ctx.tag ('skipped', skipped)
    ctx.tag ('multi-character chunk', multi)
    ctx.tag ('chunk is prefix of another', prefix)
    ctx.tag ('longer than 1000', len (text) > 1000)
    ctx.tag ('empty layout', not m.texts)
    ctx.nontrivial (typed and (skipped or multi or prefix))

def runSession (case, ctx):
    """ Texts are independent of each other, even if one writer types all of them at the same time or is interrupted """
    models = [model.Layout (x) for x in case['layouts']]
    writers = [real.writer (case['layouts'][i]) for i in case['writers']]
    jobs = []
    for w, t in case['jobs']:
        text = gen.expand (t)
        m = models[case['writers'][w]]
        jobs.append ((writers[w].type (io.StringIO (text)), m.chunks (text), m))
    def step (i):
        it, want, m = jobs[i]
        got, x = next (it, None), next (want, None)
        if x is None:
            ctx.eq (got, None, f'text {i} goes on after its end')
            return False
        ctx.true (got is not None, f'text {i} ends early', x)
        (match, ev), (chunk, ok) = got, x
        if ok:
            ctx.eq (match, chunk, f'wrong chunk of text {i}')
            ctx.true (real.combKey (ev) in m.texts[chunk], f'combination does not type {chunk!r}', ev)
        else:
            ctx.eq ((match, ev.char), (None, chunk), f'skipped character of text {i}')
        return True
    n = 0
    for i, k in case['turns']:
        for _ in range (k):
            n += step (i % len (jobs))
    for i in range (len (jobs)):
        # others are never finished
        if i not in case['abandoned']:
            while step (i):
                n += 1
    ctx.tag ('same writer', len ({w for w, t in case['jobs']}) < len (jobs))
    ctx.nontrivial (len (jobs) > 1 and n > 2)

def session (d):
    return dict (gen.session (d), abandoned=d.list (lambda d: d.draw (8), 0, 3))

def case (d, top=60, maxPieces=40):
    c = gen.layoutAndText (d, top=top, maxPieces=maxPieces, odd=True)
    c['bytes'] = d.bool ()
    return c

def overlapping (d):
    """ Texts which are prefixes, suffixes and infixes of one another """
    alphabet = [gen.typable (d) for _ in range (d.int (1, 2))]
    def text (d):
        return ''.join (d.list (lambda d: d.pick (alphabet), 1, 7))
    l = d.unique (text, 1, 8)
    data = dict (name='x', layout=[dict (modifier=[[]], layer={model.LETTERS[i]: t for i, t in enumerate (l)})])
    text = d.list (lambda d: [d.pick (l+alphabet+['x']), d.int (1, 3)], 0, 20)
    return dict (layout=data, text=text, bytes=False)

def long (d):
    return case (d, top=70000, maxPieces=5)

CHECKS = [
    Check ('type', run, case, quick=28000),
    Check ('overlap', run, overlapping, quick=28000),
    Check ('session', runSession, session, quick=4000, round=100),
    Check ('long', run, long, quick=300, thorough=3000, round=20),
    ]
