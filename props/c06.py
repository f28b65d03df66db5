""" Combining statistics loses nothing and does not depend on order or grouping """

import io, copy, pickle, pickletools

from harness import gen, model, real
from harness.core import Check, cli
from props.c05 import compare

RULE = 'two to eight texts typed on one or two random layouts; the parts are merged along a random binary tree in random ' \
    'order, into empty, packaged-combined or part objects; the combine command gets concatenated pickles (0-6), also cut off at every kind of position. ' \
    'Non-trivial: at least two non-empty parts sharing at least one counted key'
ASSUMPTIONS = ['statistics objects are merged with objects of the same class']

def mergeInto (a, b):
    for k in a:
        a[k].update (b[k])

def parts (case):
    """ Statistics objects and what they contain """
    l = []
    for i, pieces in enumerate (case['texts']):
        data = case['layouts'][i % len (case['layouts'])]
        w = real.writer (data)
        text = gen.expand (pieces)
        s = real.typeStats (w, text)
        for c, n in case['looked']:
            # somebody looked for something that is not there
            if n % len (case['texts']) == i:
                s['simple'].unknown[c]
                s['words'].words[c]
                for dist in s['runlen'].perHandRunlenDist.values ():
                    dist[n]
        for k, n in case['large']:
            # as after years of typing
            if k % len (case['texts']) == i:
                for dist in (s['simple'].buttons, s['simple'].combinations, s['simple'].unknown, s['words'].words, s['triads'].triads, *s['runlen'].perHandRunlenDist.values ()):
                    for x in dist:
                        dist[x] += n
        l.append ((w, s, real.stats (s)))
    return l

def equal (a, b):
    return all (a[k] == b[k] for k in a)

def differs (ctx, a, b, pa, pb):
    """ == of statistics agrees with their contents """
    groups = dict (simple=('buttons', 'combinations', 'unknown'), runlen=('hands', 'fingers'), triads=('triads',), words=('words',))
    for k, keys in groups.items ():
        if any (pa[x] != pb[x] for x in keys):
            ctx.true (not (a[k] == b[k]), f'different {k} statistics compare equal')

def note (ctx, plain):
    nonempty = [p for p in plain if p['combinations']]
    shared = False
    for i, a in enumerate (nonempty):
        for b in nonempty[i+1:]:
            shared = shared or any (set (a[k]) & set (b[k]) for k in ('combinations', 'triads', 'words'))
    ctx.tag ('parts', len (nonempty))
    ctx.tag ('shared finger runs', any (set (a['fingers']) & set (b['fingers']) for i, a in enumerate (nonempty) for b in nonempty[i+1:]))
    ctx.tag ('empty part', len (nonempty) != len (plain))
    ctx.nontrivial (shared)

def runTree (case, ctx):
    from lulua.stats import makeCombined
    l = parts (case)
    want = [x[2] for x in l]
    def empty (kind):
        return makeCombined (real.sharedKeyboard ()) if kind == 0 else real.newStats (l[0][0])

    # one by one into an empty object
    a = empty (0)
    for i, (w, s, p) in enumerate (l):
        mergeInto (a, s)
        compare (ctx, real.stats (a), model.addStats (*want[:i+1]))
        # unchanged, even after merging more
        for j in range (i+1):
            compare (ctx, real.stats (l[j][1]), want[j])
    total = model.addStats (*want)
    for i, (w, s, p) in enumerate (l):
        differs (ctx, a, s, total, p)

    # random tree; every node is a pair (object, contents)
    nodes = [(empty (case['kind']), model.addStats ()) if fresh else None for fresh in case['fresh']]
    pool = []
    for i, (w, s, p) in enumerate (l):
        n = nodes[i] if i < len (nodes) else None
        if n is not None:
            mergeInto (n[0], s)
            pool.append ((n[0], p))
        else:
            # as loaded from a file
            pool.append ((pickle.loads (pickle.dumps (s, pickle.HIGHEST_PROTOCOL)) if case['pickled'] else s, p))
    for i, j in case['tree']:
        if len (pool) < 2:
            break
        a1, p1 = pool.pop (i % len (pool))
        a2, p2 = pool.pop (j % len (pool))
        mergeInto (a1, a2)
        s = model.addStats (p1, p2)
        compare (ctx, real.stats (a1), s)
        compare (ctx, real.stats (a2), p2)
        if case['neutral']:
            mergeInto (a1, empty (case['kind']))
            compare (ctx, real.stats (a1), s)
        pool.append ((a1, s))
    root, p = pool[0]
    if len (pool) == 1:
        compare (ctx, p, total)
        # zero or no count is the same, but not necessarily considered equal
        ctx.true (case['looked'] or equal (root, a) and equal (a, root), 'different order of merging gives different statistics')
        if case['neutral']:
            # once more with itself
            mergeInto (root, root)
            compare (ctx, real.stats (root), model.addStats (p, p))
    note (ctx, want)

def runCombine (case, ctx):
    from lulua import stats
    l = parts (case)
    data = b''.join (pickle.dumps (s, case['protocol']) for w, s, p in l)
    r = cli (stats.main, ['combine'], data)
    fd = io.BytesIO (r.out)
    got = pickle.load (fd)
    ctx.eq (fd.read (), b'', 'more than one object')
    want = [x[2] for x in l]
    compare (ctx, real.stats (got), model.addStats (*want))
    # and again with the result
    r2 = cli (stats.main, ['combine'], r.out+data)
    compare (ctx, real.stats (pickle.loads (r2.out)), model.addStats (*want, *want))
    ctx.tag ('none', not l)
    note (ctx, want)

def boundaries (data):
    """ Positions of the opcodes of a pickle """
    return [pos for op, arg, pos in pickletools.genops (data)]

def runTruncated (case, ctx):
    """ A file cut off anywhere but between two objects cannot be combined """
    from lulua import stats
    l = parts (case)
    extra = {}
    if case['frames']:
        # the pickle needs several frames
        for i in range (case['frames']):
            extra[f'w{i:06}'] = i+1
        for k, v in extra.items ():
            l[-1][1]['words'].words[k] = v
        l[-1] = (l[-1][0], l[-1][1], real.stats (l[-1][1]))
    blobs = [pickle.dumps (s, case['protocol']) for w, s, p in l]
    data = b''.join (blobs)
    starts = [sum (map (len, blobs[:i])) for i in range (len (blobs)+1)]
    cuts = set ()
    for i in case['cuts']:
        k, n = i
        b = k % len (blobs)
        cuts.add (starts[b] + (n % (len (blobs[b])+1)))
        # after an opcode, the first ones, including the header, are always used
        ops = boundaries (blobs[b])
        cuts.add (starts[b] + ops[n % len (ops)])
        cuts.add (starts[b] + ops[1 + n % 2])
        # after a frame
        frames = [pos for op, arg, pos in pickletools.genops (blobs[b]) if op.name == 'FRAME']
        if len (frames) > 1:
            cuts.add (starts[b] + frames[1 + n % (len (frames)-1)])
            ctx.tag ('frames')
    inside = 0
    for c in sorted (cuts):
        try:
            r = cli (stats.main, ['combine'], data[:c])
            failed = r.ret not in (None, 0)
        except Exception:
            failed = True
        if c in starts:
            ctx.true (not failed, f'{starts.index (c)} complete objects cannot be combined')
            compare (ctx, real.stats (pickle.loads (r.out)), model.addStats (*[x[2] for x in l[:starts.index (c)]]))
        else:
            inside += 1
            ctx.true (failed, f'input cut off at byte {c} of {len (data)} (objects start at {starts}) is accepted')
    ctx.nontrivial (inside >= 2 and len (l) > 1)

def collection (d, lo=2):
    layouts = [gen.layout (d, wide=False, odd=True)]
    if d.bool ():
        layouts.append (gen.layout (d, wide=False, odd=True))
    n = d.int (lo, d.pick ([3, 5, 8]))
    texts = []
    for i in range (n):
        k = d.draw (8)
        if texts and k == 0:
            # same again
            texts.append (texts[i-len (layouts)] if i >= len (layouts) else texts[0])
        else:
            texts.append (gen.texts (d, layouts[i % len (layouts)], maxPieces=20, top=12, wide=False))
    looked = d.list (lambda d: [d.pick (gen.ARABIC), d.draw (12)], 1, 4) if d.chance (1, 6) else []
    return dict (layouts=layouts, texts=texts, looked=looked, large=d.list (lambda d: [d.draw (12), d.pick ([1 << 31, 1 << 32, 1 << 53, 10**18]) + d.draw (100)], 1, 4) if d.chance (1, 6) else [])

def tree (d):
    c = collection (d)
    n = len (c['texts'])
    c['tree'] = [[d.int (0, n), d.int (0, n)] for _ in range (n-1)]
    c['fresh'] = [d.bool () for _ in range (n)]
    c['kind'] = d.int (0, 1)
    c['pickled'] = d.bool ()
    c['neutral'] = d.bool ()
    return c

def files (d):
    c = collection (d, 0)
    c['protocol'] = d.pick ([5, 4, 2])
    return c

def truncated (d):
    c = collection (d, 1)
    c['protocol'] = d.pick ([5, 4, 2])
    c['frames'] = d.int (5000, 9000) if d.chance (1, 6) else 0
    c['cuts'] = d.list (lambda d: [d.draw (8), d.draw (1 << 20)], 1, 4)
    return c

CHECKS = [
    Check ('tree', runTree, tree, quick=4000, round=100),
    Check ('combine', runCombine, files, quick=1600, round=50),
    Check ('truncated', runTruncated, truncated, quick=400, round=20),
    ]
