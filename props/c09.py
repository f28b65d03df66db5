""" Archived and compressed corpora are unpacked byte for byte """

import io, os, random, tarfile

from harness import gen, core
from harness.core import Check

RULE = 'tar: GNU archives of up to 30 entries of all kinds (files, directories, links, devices, long names and link names), ' \
    'sizes around multiples of the block size, with and without end marker, read from memory, a file or a brotli stream; ' \
    'brotli: data of very different compressibility, compression settings, read chunk and sequences of read sizes; ' \
    'truncated: every kind of cut; chain: files read with filter chains. Non-trivial: at least one non-empty regular file, or ' \
    'more than one read, or a truncated stream'
ASSUMPTIONS = ['archives are in GNU format (the code rejects others)', 'the compressed stream is valid up to the cut']

# beginnings of other kinds of files
MAGIC = [b'\x1f\x8b\x08\0\0\0\0\0', b'BZh91AY&SY', b'\xfd7zXZ\0', b'PK\3\4', b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\x28\xb5\x2f\xfd', b'%PDF-1.4', b'<?xml version="1.0"?>',
    b'\0'*512, b'!<arch>\n', b'\x1b', b'\r\n', b'\n', b' ', b'\x1a', b'\4']

def content (x):
    """ Bytes described by a case: [kind, seed, size] """
    kind, seed, size = x
    r = random.Random (seed)
    if kind == 4:
        m = MAGIC[seed % len (MAGIC)]
        return (m + r.randbytes (size))[:max (size, len (m))]
    if kind == 0:
        return r.randbytes (size)
    if kind == 1:
        return bytes ([seed % 256])*size
    if kind == 2:
        # looks like structure
        pat = b'\0'*100 + b'ustar  \0' + b'00000000012\0' + b'\0'*512
        return (pat*(size//len (pat)+1))[:size]
    t = 'كلمة عربية\r\nabc\n'.encode ('utf-8')
    return (t*(size//len (t)+1))[:size]

def size (d, top=70000):
    k = d.draw (8)
    if k < 3:
        return d.int (0, 40)
    if k < 6:
        return max (0, d.pick ([512, 1024, 1536, 10240, 5120])+d.int (-2, 2))
    if k < 7:
        return d.int (0, 3000)
    if d.chance (1, 3):
        return gen.near (d, top)
    return d.int (0, top)

def data (d, top=70000):
    return [d.draw (5), d.draw (1000), size (d, top)]

TYPES = dict (file=tarfile.REGTYPE, areg=tarfile.AREGTYPE, dir=tarfile.DIRTYPE, sym=tarfile.SYMTYPE, link=tarfile.LNKTYPE,
    fifo=tarfile.FIFOTYPE, chr=tarfile.CHRTYPE)

def makeTar (entries, end):
    b = io.BytesIO ()
    t = tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT)
    want = []
    for i, e in enumerate (entries):
        info = tarfile.TarInfo ()
        # at the start, at the end or all over it
        info.name = (e['name']*(e['nameLen']//len (e['name'])+1))[:e['nameLen']] + str (i)
        if e.get ('prefix'):
            info.name = e['prefix'] + str (i)
        info.name += e.get ('suffix', '')
        for k in ('mode', 'uid', 'gid'):
            setattr (info, k, e.get (k, 0))
        info.type = TYPES[e['type']]
        info.mtime = e.get ('mtime', 0)
        info.uname = info.gname = e.get ('owner', 'ustar')
        if e['type'] in ('sym', 'link'):
            info.linkname = 'x'*e['linkLen']
        if e['type'] in ('file', 'areg'):
            c = content (e['data'])
            info.size = len (c)
            t.addfile (info, io.BytesIO (c))
            if c:
                want.append (c)
        else:
            t.addfile (info)
    if end == 0:
        t.close ()
        return b.getvalue (), want
    ret = b.getvalue ()
    # incomplete end markers are common
    return ret + b'\0'*(512*(end-1)), want

class Source:
    """ Nothing but read() """
    def __init__ (self, b):
        self.fd = io.BytesIO (b)
    def read (self, n=-1):
        return self.fd.read (n)

def source (case, b, ctx):
    from lulua.text import BrotliFile
    import brotli
    via = case['via']
    if via == 'bytes':
        return io.BytesIO (b)
    if via == 'source':
        return Source (b)
    if via == 'file':
        with open (ctx.path ('x.tar'), 'wb') as fd:
            fd.write (b)
        return open (ctx.path ('x.tar'), 'rb')
    c = brotli.compress (b, quality=case['quality'])
    if case['readchunk']:
        return BrotliFile (io.BytesIO (c), case['readchunk'])
    return BrotliFile (io.BytesIO (c))

def runTar (case, ctx):
    from lulua.text import filterAvail
    b, want = makeTar (case['entries'], case['end'])
    n = 0
    with source (case, b, ctx) if case['via'] == 'file' else io.BytesIO () as f:
        fd = f if case['via'] == 'file' else source (case, b, ctx)
        for x in filterAvail['tar'] (fd):
            ctx.true (n < len (want), 'more texts than regular files', n, len (want))
            # some consumers read in pieces
            got = x.read () if case['pieces'] == 0 else b''.join (iter (lambda: x.read (case['pieces']), b''))
            if got != want[n]:
                ctx.fail (f'contents of file {n} differ, {len (got)} instead of {len (want[n])} bytes')
            n += 1
    ctx.eq (n, len (want), 'number of texts')
    for e in case['entries']:
        ctx.tag ('entry ' + e['type'])
    ctx.tag ('long name', any (e['nameLen'] > 99 for e in case['entries']))
    ctx.tag ('via ' + case['via'])
    ctx.nontrivial (want)

def entry (d):
    return dict (type=d.pick (['file', 'file', 'file', 'areg', 'dir', 'sym', 'link', 'fifo', 'chr']), data=data (d),
        name=d.pick (['a', 'dir/', 'ملف', 'ustar  ']), nameLen=d.pick ([1, 5, 90, 99, 100, 101, 155, 300, 600]),
        linkLen=d.pick ([1, 100, 101, 600]), mtime=d.pick ([0, 1, 1700000000, 8**11-1]),
        prefix=fname (d) if d.chance (1, 3) else '', suffix=d.pick (['.txt', '.html', '.xml', '~', '.TXT', '.json', '.yaml', '.', ' ', '/x', '.tar', '.br', fname (d)]) if d.chance (1, 3) else '',
        mode=d.pick ([0o644, 0, 0o755, 0o7777]), uid=d.pick ([0, 1000, 8**7-1]), gid=d.pick ([0, 1000, 8**7-1]), owner=d.pick (['ustar', '', 'root', 'x'*31]))

def fname (d):
    return gen.literal (d).replace ('\0', 'x')

def tar (d):
    return dict (entries=d.list (entry, 0, d.pick ([3, 8, 30])), end=d.int (0, 3), via=d.pick (['bytes', 'source', 'file', 'brotli', 'brotli']),
        quality=d.pick ([1, 5, 0]), readchunk=d.pick ([0, 1, 100, 511, 5000]), pieces=d.pick ([0, 0, 1, 512, 700]))

def compress (case):
    import brotli
    b = b''.join (content (x) for x in case['data'])
    return b, brotli.compress (b, quality=case['quality'], lgwin=case['lgwin'])

def runBrotli (case, ctx):
    from lulua.text import filterAvail, BrotliFile
    b, c = compress (case)
    src = Source (c + b'trailing'*(case['trailing']))
    if case['readchunk']:
        fd = BrotliFile (src, case['readchunk'])
    else:
        l = list (filterAvail['brotli'] (src))
        ctx.eq (len (l), 1, 'number of items')
        fd = l[0]
    pos = 0
    reads = case['reads']
    for n in reads:
        got = fd.read () if n is None else fd.read (n)
        want = b[pos:] if n is None else b[pos:pos+n]
        if got != want:
            ctx.fail (f'read ({n}) at {pos} gives {len (got)} instead of {len (want)} bytes or the wrong ones')
        pos += len (want)
    rest = b''
    while True:
        x = fd.read (case['rest']) if case['rest'] else fd.read ()
        if not x:
            break
        rest += x
    ctx.true (rest == b[pos:], 'remaining data differs')
    ctx.eq (fd.read (), b'', 'data after the end')
    ctx.tag ('compressed size above default chunk', len (c) > 100*1024)
    ctx.tag ('highly compressible', len (b) > 100*len (c))
    ctx.tag ('reads beyond the end', pos == len (b) and reads)
    ctx.nontrivial (b and (len (reads) > 1 or case['rest']))

def stream (d, top=70000, big=(250000, 100*1024)):
    def piece (d):
        return data (d, top)
    l = d.list (piece, 0, 4)
    if d.chance (1, 6):
        l.append ([d.pick ([0, 1, 3]), d.draw (1000), d.pick (big)+d.int (-3, 3) if d.bool () else gen.near (d, 1 << 21)])
    return dict (data=l, quality=d.pick ([1, 0, 5, 9]), lgwin=d.pick ([22, 10, 16, 24]))

def brotli (d):
    c = stream (d)
    c['trailing'] = 0
    def n (d):
        k = d.draw (8)
        if k == 0:
            return None if d.chance (1, 4) else 0
        if k < 4:
            return d.int (0, 20)
        if k < 6:
            return d.pick ([511, 512, 513, 1024, 4096])
        return d.int (0, 100000) if d.chance (2, 3) else gen.near (d, 1 << 22)
    c['reads'] = d.list (n, 0, 20)
    total = sum (x[2] for x in c['data'])
    c['rest'] = d.pick ([0, 100, 65536])
    c['readchunk'] = d.pick ([0, 0, 1, 2, 100, 4096] if total < 20000 else [0, 0, 1000, 4096])
    return c

def runTruncated (case, ctx):
    from lulua.text import filterAvail, BrotliFile, apply
    b, c = compress (case)
    cut = len (c)-1-case['cut'] if case['fromEnd'] else min (case['cut'], len (c)-1)
    cut = max (cut, 0)
    c = c[:cut]
    def texts ():
        if case['via'] == 'file':
            with open (ctx.path ('x.br'), 'wb') as fd:
                fd.write (c)
            yield from apply ([filterAvail[x] for x in ('file', 'brotli', 'text')], [ctx.path ('x.br') + '\n'])
        elif case['via'] == 'tar':
            yield from (x.read () for x in filterAvail['tar'] (BrotliFile (Source (c))))
        elif case['via'] == 'reads':
            fd = BrotliFile (Source (c), case['readchunk'])
            while True:
                x = fd.read (case['n'])
                if not x:
                    break
                yield x
        elif case['via'] == 'with':
            with BrotliFile (Source (c), case['readchunk']) as fd:
                yield fd.read ()
        else:
            yield BrotliFile (Source (c), case['readchunk']).read ()
    got = []
    try:
        for x in texts ():
            got.append (x)
    except Exception as e:
        ctx.tag ('error: ' + type (e).__name__)
    else:
        if case['via'] == 'tar':
            # everything up to the end marker may have been there
            ctx.true (got == case.get ('want'), f'truncated stream gives {len (got)} texts and no error')
        else:
            ctx.fail (f'truncated stream gives {sum (map (len, got))} of {len (b)} bytes and no error')
    ctx.tag ('via ' + case['via'])
    ctx.nontrivial ()

def truncated (d):
    c = stream (d, 5000)
    # valid text, so decoding is not the error
    c['data'] = [[3, x[1], x[2]//25*25] if x[0] != 1 else [1, 97, x[2]] for x in c['data']]
    c['fromEnd'] = d.bool ()
    c['cut'] = d.pick ([d.int (0, 10), d.int (0, 5000)])
    c['via'] = d.pick (['file', 'reads', 'all', 'with'])
    c['n'] = d.pick ([1, 100, 512, 100000]) if sum (x[2] for x in c['data']) < 50000 else 5000
    c['readchunk'] = d.pick ([1, 100, 102400]) if c['n'] < 5000 else 102400
    return c

def runTruncatedTar (case, ctx):
    """ Archive cut inside the last file """
    from lulua.text import filterAvail, BrotliFile
    import brotli
    b, want = makeTar (case['entries'], 0)
    c = brotli.compress (b, quality=case['quality'])
    # find a cut where not all files are available yet
    cut = int (len (c)*case['cut'])
    avail = brotli.Decompressor ().process (c[:cut]) if cut else b''
    end = b.rstrip (b'\0')
    if len (avail) >= len (end)-1:
        return
    got = []
    try:
        for x in filterAvail['tar'] (BrotliFile (Source (c[:cut]), case['readchunk'])):
            got.append (x.read ())
    except Exception:
        pass
    else:
        ctx.fail (f'truncated archive gives {len (got)} of {len (want)} texts and no error')
    ctx.true (got == want[:len (got)], 'wrong texts before the error')
    ctx.nontrivial (want)

def runCutTar (case, ctx):
    """ Archive, not compressed, cut anywhere """
    from lulua.text import filterAvail
    b, want = makeTar (case['entries'], 0)
    # parts of the archive
    pos = 0
    regions = []
    while b[pos:pos+512].strip (b'\0'):
        size = int (b[pos+124:pos+136].rstrip (b'\0 '), 8)
        regions.append (('header', pos, pos+512))
        regions.append (('body', pos+512, pos+512+size))
        end = pos+512+(size+511)//512*512
        regions.append (('padding', pos+512+size, end))
        pos = end
    what, start, end = regions[case['region'] % len (regions)]
    cut = min (start + case['offset'] % (end-start+1), end)
    inside = what != 'padding' and start < cut < end or what == 'body' and start <= cut < end
    got = []
    failed = False
    try:
        if case['file']:
            with open (ctx.path ('x.tar'), 'wb') as fd:
                fd.write (b[:cut])
            for fd in filterAvail['file'] (ctx.path ('x.tar')):
                for x in filterAvail['tar'] (fd):
                    got.append (x.read ())
        else:
            for x in filterAvail['tar'] (Source (b[:cut])):
                got.append (x.read ())
    except Exception:
        failed = True
    ctx.true (got == want[:len (got)], 'wrong texts before the end')
    ctx.true (failed or not inside, f'archive cut inside of a {what} gives {len (got)} of {len (want)} texts and no error')
    ctx.tag ('cut inside ' + what if inside else 'cut elsewhere')
    ctx.nontrivial (inside and len (want) > 1)

def cutTar (d):
    return dict (entries=d.list (lambda d: dict (type='file', data=[0, d.draw (1000), d.int (1, d.pick ([10, 600, 5000]))], name='a', nameLen=d.pick ([1, 200])), 1, 8),
        region=d.draw (64), offset=d.pick ([0, 1, 511, d.draw (5000)]), file=d.bool ())

def truncatedTar (d):
    return dict (entries=d.list (lambda d: dict (type='file', data=[0, d.draw (1000), d.int (1, 5000)], name='a', nameLen=d.pick ([1, 200])), 1, 8),
        quality=d.pick ([1, 5]), cut=d.float (0, 1, 1000), readchunk=d.pick ([102400, 100, 1000]))

def runChain (case, ctx):
    cwd = os.getcwd ()
    if case.get ('relative'):
        os.chdir (ctx.path (''))
    try:
        chained (case, ctx)
    finally:
        os.chdir (cwd)

def chained (case, ctx):
    from lulua.text import filterAvail, apply
    import brotli
    items, want, used = [], [], set ()
    for i, x in enumerate (case['files']):
        fname = x['name'] + ('' if x.get ('bare') and i == 0 and x['name'].rstrip () == x['name'] not in ('', '.', '..') else str (i))
        while fname in used:
            fname += 'x'
        used.add (fname)
        path = fname if case.get ('relative') else ctx.path (fname)
        texts = [gen.expand (t) for t in x['texts']]
        chain = case['chain']
        if 'tar' in chain:
            b = io.BytesIO ()
            with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
                for j, y in enumerate (texts):
                    y = y.encode ('utf-8')
                    info = tarfile.TarInfo (f'{j}.txt')
                    info.size = len (y)
                    t.addfile (info, io.BytesIO (y))
            b = b.getvalue ()
            want.extend (y for y in texts if y)
        else:
            b = texts[0].encode ('utf-8')
            want.append (texts[0])
        if 'brotli' in chain:
            b = brotli.compress (b, quality=1)
        with open (path, 'wb') as fd:
            fd.write (b)
        items.append (path + x['eol'])
    got = list (apply ([filterAvail[x] for x in case['chain']], items))
    ctx.eq (got, want, 'texts')
    ctx.tag ('relative path', case.get ('relative'))
    ctx.tag ('nothing but the name', case['files'] and case['files'][0].get ('bare'))
    ctx.tag (' '.join (case['chain']))
    ctx.nontrivial (any (want))

# mean something to shells, other tools or libraries
BARE = ['-', '--', '-r', '$HOME', '${HOME}', '$', '~', '~root', '%s', '*', '[a]', '{}', 'stdin', 'file:x', 'http:x', 'con', '%20', '@x', '#x', 'x.gz', 'x.xz', 'x.bz2', 'x.br', 'x.tar', 'x.zip', 'x.txt', '0', '1', '|x', '\\x', '"x"', "'x'"]

def chain (d):
    def text (d):
        return d.list (lambda d: [gen.string (d, 1, 6), gen.length (d, 200)], 0, 6)
    def file (d):
        return dict (bare=d.chance (1, 3), name=(d.pick (BARE) if d.chance (1, 4) else d.pick (['a', 'x y', 'ملف', '#%', ' ', '\t', ' -', '~', '*', '.', '"', '-']) if d.chance (3, 4) else fname (d).replace ('/', '_').replace ('\n', ' ').replace ('\r', ' ')[:40]), texts=d.list (text, 1, 5), eol=d.pick (['\n', '', '\r\n']))
    return dict (files=d.list (file, 0, 5), relative=d.bool (), chain=d.pick ([['file', 'text'], ['file', 'brotli', 'text'], ['file', 'tar', 'text'], ['file', 'brotli', 'tar', 'text']]))

def big (tier):
    """ Sizes where the octal notation gets another digit """
    for n in range (4, 9):
        for i in (-1, 0, 1):
            for via in ('bytes', 'brotli'):
                e = [dict (type='file', data=[1, 97, 8**n+i], name='a', nameLen=1, linkLen=1), dict (type='file', data=[3, 1, 25], name='b', nameLen=1, linkLen=1)]
                yield dict (entries=e, end=0, via=via, quality=1, readchunk=0, pieces=0)
    # much more than is read at once, cannot be compressed
    for n in (300000, 1 << 20, (1 << 21)+1, 5000000):
        e = [dict (type='file', data=[0, 97, n], name='a', nameLen=1, linkLen=1), dict (type='file', data=[3, 1, 25], name='b', nameLen=1, linkLen=1)]
        yield dict (entries=e, end=0, via='brotli', quality=1, readchunk=0, pieces=0)

def runFile (case, ctx):
    """ The file as it is, opened as such or as archive of one file """
    from lulua.text import filterAvail
    b = b''.join (content (x) for x in case['data'])
    cwd = os.getcwd ()
    os.chdir (ctx.path (''))
    try:
        with open (case['name'], 'wb') as fd:
            fd.write (b)
        path = case['name'] if case['relative'] else os.path.join (os.getcwd (), case['name'])
        n = 0
        for fd in filterAvail['file'] (path + case['eol']):
            got = fd.read () if case['pieces'] == 0 else b''.join (iter (lambda: fd.read (case['pieces']), b''))
            if got != b:
                ctx.fail (f'contents differ, {len (got)} instead of {len (b)} bytes')
            n += 1
        ctx.eq (n, 1, 'number of items')
    finally:
        os.chdir (cwd)
    ctx.tag ('starts like another kind of file', case['data'][0][0] == 4)
    ctx.nontrivial (b)

def file (d):
    name = d.pick (BARE) if d.bool () else fname (d).replace ('/', '_').replace ('\n', ' ').replace ('\r', ' ')[:40].rstrip ()
    return dict (name='x' if name in ('', '.', '..') else name, data=d.list (data, 1, 3), relative=d.chance (2, 3), eol=d.pick (['\n', '', '\r\n']), pieces=d.pick ([0, 0, 1000]))

class Failing (Source):
    """ Fails, like a bad medium does """
    def __init__ (self, b, at):
        super ().__init__ (b)
        self.at = at
        self.failed = False
    def read (self, n=-1):
        ret = super ().read (n)
        if self.fd.tell () > self.at or not ret:
            self.failed = True
            raise OSError (5, 'Input/output error')
        return ret

DOCUMENT = dict (tei2='<TEI.2><text><body><p>%s</p></body></text></TEI.2>', opensubtitles='<document>%s</document>', text='%s', html='<html><body>%s</body></html>')

def runFault (case, ctx):
    """ Reading or decompressing fails in the middle: never a shorter list of texts """
    from lulua.text import filterAvail, apply
    import brotli
    text = ''.join (f'<s>{x}</s>' for x in case['sentences'])
    b = (DOCUMENT[case['document']] % text).encode ('utf-8')
    chain = dict (tei2=['xml', 'tei2'], opensubtitles=['xml', 'opensubtitles'], text=['text'], html=['aljazeera'])[case['document']]
    if case['tar']:
        chain = ['tar'] + chain
        a = io.BytesIO ()
        with tarfile.open (fileobj=a, mode='w', format=tarfile.GNU_FORMAT) as t:
            for i in range (2):
                info = tarfile.TarInfo (str (i))
                info.size = len (b)
                t.addfile (info, io.BytesIO (b))
        b = a.getvalue ()
    if case['brotli']:
        chain = ['brotli'] + chain
        b = brotli.compress (b, quality=1)
    def texts (fd):
        return list (apply ([filterAvail[x] for x in chain], [fd]))
    with core.quiet ():
        want = texts (Source (b))
        at = case['at'] % max (len (b), 1)
        if case['cut'] and case['brotli']:
            try:
                got = texts (Source (b[:at]))
            except Exception as e:
                ctx.tag ('cut: ' + type (e).__name__)
            else:
                # everything up to the end marker may have been there
                ctx.true (case['tar'] and got == want, f'{chain}: truncated stream gives {len (got)} of {len (want)} texts and no error')
        else:
            src = Failing (b, at)
            try:
                got = texts (src)
            except Exception as e:
                ctx.tag ('fault: ' + type (e).__name__)
            else:
                ctx.true (not src.failed, f'{chain}: reading failed, but there are {len (got)} of {len (want)} texts and no error')
                ctx.true (got == want, f'{chain}: texts differ')
    ctx.tag (' '.join (chain))
    ctx.nontrivial (len (want) > 0)

def fault (d):
    return dict (sentences=d.list (lambda d: d.pick (['سلام', 'a', '']) * d.pick ([1, 3, 500]), 0, 5), document=d.pick (sorted (DOCUMENT)), tar=d.bool (), brotli=d.bool (), cut=d.bool (),
        at=d.pick ([0, 1, d.draw (600), d.draw (20000)]))

CHECKS = [
    Check ('fault', runFault, fault, quick=6000),
    Check ('file', runFile, file, quick=8000),
    Check ('big', runTar, enumerate=big),
    Check ('tar', runTar, tar, quick=30000, round=500),
    Check ('brotli', runBrotli, brotli, quick=24000, round=500),
    Check ('truncated', runTruncated, truncated, quick=14000, cpu=20),
    Check ('truncatedTar', runTruncatedTar, truncatedTar, quick=6000, cpu=20),
    Check ('cutTar', runCutTar, cutTar, quick=6000, cpu=20),
    Check ('chain', runChain, chain, quick=12000),
    ]
