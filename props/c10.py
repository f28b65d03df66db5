""" Text extraction keeps exactly the relevant text of a document, in order """

import unicodedata, io, os, re, bz2, json, zipfile
from functools import partial
from xml.sax.saxutils import escape, quoteattr

from harness import gen, core
from harness.core import Check, cli

RULE = 'html: generated documents with nested, repeated and look-alike article containers, scripts, style sheets, comments, ' \
    'void elements, foreign content and tag soup; epub: books with up to 6 documents and other items; tei/subtitles: XML ' \
    'documents with decoys, comments, CDATA, entities and different encodings, mixed with malformed ones; wiki: bzip2 dumps; markdown: a stand-in for pandoc. ' \
    'The oracle walks the parsed tree recursively. Non-trivial: kept text and dropped text in the same case'
ASSUMPTIONS = ['html5lib, minidom, ebooklib and lxml parse correctly', 'white space at either end of a text run is ' \
    'one space, as the serializer has always done', 'e-book documents contain no scripts or style elements', 'paragraphs are not nested']

### text ###

CHARS = gen.ARABIC + gen.MARKS + gen.DIGITS + gen.LATIN + list ('.,;:!?%-_/()[]{}*@#^~|+=$«»…&<>"\'') + [x for x in gen.FORMAT if x != '\ufeff'] + ['\u00a0', '\u2009', '\u2028', '\u3000', '\U0001f600', '\u4e2d', '\ufefb', '\ufdfa']
WS = [' ', ' ', '\n', '\t', '  ', '\n\t ', '\u00a0']

def text (d):
    def piece (d):
        k = d.draw (6)
        if k < 3:
            return ''.join (d.list (lambda d: d.pick (CHARS), 1, 4))
        if k < 5:
            return d.pick (WS)
        if d.bool ():
            x = gen.literalChar (d) if d.bool () else gen.anychar (d)
            return x if unicodedata.category (x)[0] != 'C' else 'x'
        if d.bool ():
            return ''.join (x for x in gen.literal (d) if unicodedata.category (x)[0] != 'C')
        return d.pick (['كلمة', '&amp;', ']]', '--', '</p', '<div id="DynamicContentContainer">', '#REDIRECT [[x]]', '#تحويل [[x]]', 'http://x.y'])
    return ''.join (d.list (piece, 0, 5))

### html ###

INLINE = ['span', 'b', 'em', 'a', 'i', 'u', 's', 'sup', 'sub', 'small', 'strong', 'q', 'cite', 'code', 'abbr', 'mark', 'time', 'bdo', 'bdi', 'dfn', 'kbd', 'var', 'samp',
    'del', 'ins', 'label', 'font', 'tt', 'data', 'output', 'x-y']
FLOW = ['div', 'section', 'blockquote', 'article', 'ul', 'table', 'p']

IDS = [('id', 'DynamicContentContainer'), ('property', 'articleBody')]
NEAR = [('id', 'other'), ('id', 'dynamiccontentcontainer'), ('id', 'DynamicContentContainer2'), ('id', ' DynamicContentContainer'), ('class', 'DynamicContentContainer'), ('property', 'DynamicContentContainer'),
    ('id', 'articleBody'), ('property', 'articleBody '), ('property', 'articlebody'), ('property', 'ArticleBody'), ('property', 'ARTICLEBODY'), ('id', 'DYNAMICCONTENTCONTAINER'), ('property', 'x articleBody'), ('property', 'articleBody2'), ('id', 'DynamicContentContainer x'), ('property', 'name'), ('name', 'articleBody'), ('data-id', 'DynamicContentContainer')]

def attrs (d, which, container):
    l = []
    if container:
        l.append (list (IDS[which]))
    k = d.draw (8)
    if k == 0:
        l.append (list (d.pick (NEAR)))
    elif k == 1:
        l.append (list (IDS[1-which]))
    elif k == 2:
        l.append (['class', 'x'])
    elif k < 5:
        l += d.list (attribute, 1, 3)
    # no duplicates
    return [x for i, x in enumerate (l) if x[0] not in [y[0] for y in l[:i]]]

BLOCK = ['main', 'aside', 'header', 'footer', 'nav', 'figure', 'figcaption', 'dl', 'address', 'fieldset', 'details', 'summary', 'center', 'dir', 'menu', 'hgroup', 'h2', 'h3', 'h6', 'x-box']

# the parser treats what is inside of these in a different way
SPECIAL = {'script', 'style', 'title', 'textarea', 'xmp', 'iframe', 'noembed', 'noframes', 'noscript', 'plaintext', 'template', 'select', 'option', 'optgroup',
    'html', 'head', 'body', 'base', 'link', 'meta', 'frameset', 'frame', 'svg', 'math', 'pre', 'listing', 'image', 'isindex'}

def element (d, l):
    x = gen.literal (d).lower () if d.chance (1, 6) else ''
    if d.chance (1, 12):
        return d.pick (RARE)
    return x if NAME.fullmatch (x) and x not in SPECIAL else d.pick (l)

RARE = ['noscript', 'textarea', 'pre', 'iframe', 'template', 'select', 'option', 'title', 'noembed', 'xmp', 'math', 'listing', 'button', 'object', 'video', 'audio', 'canvas', 'form', 'marquee', 'caption', 'td', 'rt', 'rp']

NAME = re.compile (r'[a-z][a-z0-9-]*')

def attribute (d):
    def value (d):
        return ''.join (x for x in gen.literal (d) if x.isprintable ()) if d.bool () else d.pick (['', 'x', 'none', 'true', 'display: none', 'ar', 'rtl', 'عنوان', 'text/plain', 'caption', 'advertisement', '1'])
    name = d.pick (['class', 'title', 'style', 'hidden', 'lang', 'dir', 'role', 'aria-hidden', 'itemprop', 'data-x', 'name', 'href', 'alt'])
    x = gen.literal (d).lower ()
    if d.chance (1, 8) and NAME.fullmatch (x) and x not in ('id', 'property'):
        name = x
    return [name, value (d)]

def node (d, depth, which, inline=False):
    k = d.draw (20)
    if k < 6 or depth <= 0:
        return ['t', text (d)]
    if k < 7:
        return ['c', d.pick ([' x ', 'تعليق', '<div>', ''])]
    if k < 8:
        return ['raw', d.pick (['script', 'style']), d.pick (['', 'var x = "<div>";', 'p { }', 'كود', '<p>x</p>', '<!-- -->'])]
    if k < 9:
        return ['v', d.pick (['br', 'img', 'wbr', 'hr', 'input'] if not inline else ['br', 'img', 'wbr'])]
    if k < 10 and not inline:
        return ['svg', d.list (lambda d: svg (d, depth-1, which), 0, 3)]
    if k < 13 or inline:
        tag = element (d, INLINE)
        # look-alike: not a div
        return ['e', tag, attrs (d, which, d.chance (1, 8)), d.list (lambda d: node (d, depth-1, which, inline), 0, 3)]
    tag = element (d, BLOCK) if d.bool () else d.pick (['div', 'div', 'div', 'p', 'section', 'blockquote', 'article', 'ul', 'table', 'h1'])
    a = attrs (d, which, d.chance (1, 3))
    if tag in ('p', 'h1', 'h2', 'h3', 'h6'):
        c = d.list (lambda d: node (d, depth-1, which, True), 0, 3)
    else:
        c = d.list (lambda d: node (d, depth-1, which, False), 0, 4)
    return ['e', tag, a, c]

def svg (d, depth, which):
    k = d.draw (6)
    if k == 0 or depth <= 0:
        return ['t', text (d)]
    if k < 3:
        # markup inside of these is parsed
        return ['e', d.pick (['script', 'style']), [], d.list (lambda d: svg (d, depth-1, which), 0, 3)]
    if k < 4:
        return ['e', 'foreignObject', [], d.list (lambda d: node (d, depth-1, which), 0, 2)]
    return ['e', d.pick (['g', 'text']), [], d.list (lambda d: svg (d, depth-1, which), 0, 2)]

def serialize (x, soup):
    """ soup: set of node numbers whose end tag is forgotten """
    n = [0]
    def one (x):
        n[0] += 1
        me = n[0]
        kind = x[0]
        if kind == 't':
            return escape (x[1]).replace ('\u00a0', '&nbsp;' if me % 2 else '\u00a0')
        if kind == 'c':
            return f'<!--{x[1]}-->'
        if kind == 'raw':
            return f'<{x[1]}>{x[2]}</{x[1]}>'
        if kind == 'v':
            return f'<{x[1]}>'
        if kind == 'svg':
            return '<svg>' + ''.join (map (one, x[1])) + '</svg>'
        if kind == 'nest':
            tag, k = x[1], x[2]
            return f'<{tag}>'*k + ''.join (map (one, x[3])) + f'</{tag}>'*k
        inner = ''.join (map (one, x[3]))
        if x[1] == 'ul':
            inner = f'<li>{inner}</li>'
        elif x[1] == 'table':
            inner = f'<tbody><tr><td>{inner}</td></tr></tbody>'
        a = ''.join (f' {k}={quoteattr (v)}' for k, v in x[2])
        if me % 5 == 0:
            a = a.replace ('id=', 'ID=')
        return f'<{x[1]}{a}>{inner}' + ('' if me in soup else f'</{x[1]}>')
    return ''.join (map (one, x))

HTMLSPACE = '\t\n\x0c \r'

def run (s):
    """ A run of text, as serialized """
    if not s:
        return ''
    mid = s.lstrip (HTMLSPACE)
    ret = ' ' if len (mid) != len (s) else ''
    end = mid.rstrip (HTMLSPACE)
    ret += end
    if len (end) != len (mid):
        ret += ' '
    return ret

VOID = {'area', 'base', 'br', 'col', 'command', 'embed', 'event-source', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}

def extract (el, match, out, dropped, inside=False, skipped=False):
    """ Recursive walk, independent of the token stream """
    if not isinstance (el.tag, str) or el.tag.startswith ('<'):
        # comment, doctype
        return
    name = el.tag.rsplit ('}', 1)[-1]
    skipped = skipped or (match is not None and name in ('script', 'style'))
    inside = inside or match is None or (not skipped and name == 'div' and el.attrib.get (match[0]) == match[1])
    keep = inside and not skipped
    def emit (s):
        if keep:
            out.append (run (s))
        elif s and s.strip ():
            dropped.append (s)
    emit (el.text)
    for child in el:
        extract (child, match, out, dropped, inside, skipped)
        emit (child.tail)
    if keep and name in ('p', 'div'):
        out.append ('\n\n')

def runHtml (case, ctx):
    import html5lib
    from lulua.text import filterAvail, apply
    which = case['which']
    docs, want = [], []
    kept = dropped = 0
    for x in case['docs']:
        s = serialize (x['body'], set (x['soup']))
        if x['head'] is not None:
            s = f'<!DOCTYPE html><html><head><meta charset="utf-8"><title>{x["head"]}</title><style>a b</style></head><body>{s}</body></html>'
        else:
            s = f'<meta charset="utf-8">{s}'
        docs.append (s)
        out, drop = [], []
        extract (html5lib.parse (s), IDS[which], out, drop)
        want.append (''.join (out))
        kept += bool (want[-1].strip ())
        dropped += bool (drop)
    f = ['aljazeera', 'bbcarabic'][which]
    if case['via'] == 'file':
        items = []
        for i, s in enumerate (docs):
            with open (ctx.path (f'doc{i}'), 'wb') as fd:
                fd.write (s.encode ('utf-8'))
            items.append (ctx.path (f'doc{i}') + '\n')
        got = list (apply ([filterAvail['file'], filterAvail[f]], items))
    else:
        got = list (apply ([filterAvail[f]], [io.BytesIO (s.encode ('utf-8')) for s in docs]))
    ctx.eq (len (got), len (want), 'number of texts')
    for i, (a, b) in enumerate (zip (got, want)):
        ctx.eq (a, b, f'text of document {i}: {docs[i][:2000]}')
    ctx.tag ('kept', kept)
    ctx.tag ('dropped', dropped)
    ctx.tag ('tag soup', any (x['soup'] for x in case['docs']))
    ctx.nontrivial (kept and dropped)

def htmlDoc (d, which):
    body = d.list (lambda d: node (d, 5, which), 1, 5)
    if d.bool ():
        # most interesting if there is one
        body.append (['e', 'div', attrs (d, which, True), d.list (lambda d: node (d, 4, which), 1, 5)])
        body.append (['t', text (d)])
    if d.chance (1, 5):
        x = d.pick (body)
        if x[0] == 'e' and x[1] in ('div', 'section', 'article'):
            x[3].append (['nest', d.pick (['div', 'section']), gen.length (d, 150), d.list (lambda d: node (d, 2, which), 1, 3)])
        else:
            body.append (['nest', 'div', gen.length (d, 150), body[-1:]])
    return dict (body=body, soup=sorted (set (d.list (lambda d: d.int (1, 30), 1, 3))) if d.chance (1, 5) else [], head=d.pick (['x', 'عنوان', None]))

def html (d):
    which = d.draw (2)
    return dict (which=which, docs=d.list (lambda d: htmlDoc (d, which), 1, 3), via=d.pick (['bytes', 'bytes', 'file']))

def runTokens (case, ctx):
    """ Select on its own, arbitrary predicate """
    from lulua.text import Select
    tokens, want = [], []
    def walk (l, inside, skipped):
        for x in l:
            if x[0] == 't':
                t = dict (type=x[2], data=x[1])
                tokens.append (t)
                if inside and not skipped:
                    want.append (t)
            elif x[0] == 'v':
                t = dict (type='EmptyTag', name=x[1], data={}, namespace=None)
                tokens.append (t)
                if inside and not skipped:
                    want.append (t)
            else:
                name, hit, children = x[1], x[2], x[3]
                s = skipped or name in ('script', 'style')
                i = inside or (hit and not s)
                start = dict (type='StartTag', name=name, data={(None, 'hit'): 'y'} if hit else {}, namespace=None)
                end = dict (type='EndTag', name=name, data={}, namespace=None)
                tokens.append (start)
                if i and not s:
                    want.append (start)
                walk (children, i, s)
                tokens.append (end)
                if i and not s:
                    want.append (end)
    walk (case, False, False)
    got = list (Select (iter (tokens), lambda x: x['data'].get ((None, 'hit')) == 'y'))
    ctx.eq (len (got), len (want), 'number of tokens')
    for i, (a, b) in enumerate (zip (got, want)):
        ctx.true (a is b or a == b, f'token {i}', a, b)
    ctx.nontrivial (want and len (want) < len (tokens))

def tokens (d):
    count = [0]
    def one (d, depth):
        count[0] += 1
        k = d.draw (6)
        if k < 2 or depth <= 0:
            return ['t', str (count[0]), d.pick (['Characters', 'SpaceCharacters', 'Comment'])]
        if k < 3:
            return ['v', d.pick (['br', 'img'])]
        # a matching script would be neither
        name = d.pick (['a', 'div', 'p', 'script', 'style'])
        return ['e', name, d.chance (1, 3) and name not in ('script', 'style'), d.list (lambda d: one (d, depth-1), 0, 4)]
    return d.list (lambda d: one (d, 5), 1, 6)

### epub ###

def xhtml (x):
    """ Well-formed """
    def one (x):
        if x[0] == 't':
            return escape (x[1])
        if x[0] == 'c':
            return '<!-- x -->'
        if x[0] == 'v':
            return f'<{x[1]}/>'
        return f'<{x[1]}>' + ''.join (map (one, x[2])) + f'</{x[1]}>'
    return ''.join (map (one, x))

def runEpub (case, ctx):
    import ebooklib, html5lib
    from ebooklib import epub
    from lulua.text import filterAvail, apply
    items, want = [], []
    for i, book in enumerate (case['books']):
        path = ctx.path (f'book{i}.epub')
        with zipfile.ZipFile (path, 'w') as z:
            z.writestr ('mimetype', 'application/epub+zip')
            z.writestr ('META-INF/container.xml', '<?xml version="1.0"?><container version="1.0" xmlns="urn:oasis:names:tc:opendocument:xmlns:container">'
                '<rootfiles><rootfile full-path="OEBPS/content.opf" media-type="application/oebps-package+xml"/></rootfiles></container>')
            manifest, spine = '', ''
            for j, x in enumerate (book):
                if x['kind'] == 'doc':
                    name = x['name'].replace ('N', str (j))
                    z.writestr (f'OEBPS/{name}', '<?xml version="1.0" encoding="utf-8"?><html xmlns="http://www.w3.org/1999/xhtml"><head>'
                        f'<title>t{j}</title></head><body>{xhtml (x["body"])}</body></html>')
                    manifest += f'<item id="i{j}" href="{name}" media-type="application/xhtml+xml"/>'
                    if x['spine']:
                        spine += f'<itemref idref="i{j}"' + (f' linear="{x["linear"]}"' if x.get ('linear') else '') + '/>'
                else:
                    z.writestr (f'OEBPS/d{j}.css', 'p { x: نص }')
                    manifest += f'<item id="i{j}" href="d{j}.css" media-type="text/css"/>'
            z.writestr ('OEBPS/content.opf', '<?xml version="1.0" encoding="utf-8"?><package xmlns="http://www.idpf.org/2007/opf" version="2.0" unique-identifier="b">'
                '<metadata xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>x</dc:title><dc:identifier id="b">x</dc:identifier><dc:language>ar</dc:language></metadata>'
                f'<manifest>{manifest}</manifest><spine>{spine}</spine></package>')
        items.append (path + case['eol'])
        for item in epub.read_epub (path).get_items_of_type (ebooklib.ITEM_DOCUMENT):
            out = []
            extract (html5lib.parse (item.get_content ().decode ('utf-8')), None, out, [])
            want.append (''.join (out))
    got = list (apply ([filterAvail['epub']], items))
    ctx.eq (len (got), sum (x['kind'] == 'doc' for b in case['books'] for x in b), 'number of texts')
    ctx.eq (got, want, 'texts')
    # independent of the e-book library: nothing but white space is added or lost
    def letters (x):
        return x[1] if x[0] == 't' else ''.join (map (letters, x[2])) if x[0] == 'e' else ''
    docs = [x for b in case['books'] for x in b if x['kind'] == 'doc']
    for a, x in zip (got, docs):
        # the e-book library strips some control and format characters
        if case['wide']:
            break
        ctx.eq (''.join (a.split ()), ''.join (''.join (map (letters, x['body'])).split ()), 'characters of the text')
    ctx.nontrivial (len (docs) > 1 and any (a.strip () for a in got))

def bookNode (d, depth, wide):
    k = d.draw (8)
    if k < 3 or depth <= 0:
        if wide:
            return ['t', text (d)]
        return ['t', ''.join (d.list (lambda d: d.pick (gen.ARABIC+gen.MARKS[:8]+gen.DIGITS+gen.LATIN[:10]+[' ', '\n', '&', '<']), 0, 12))]
    if k == 3:
        return ['v', 'br']
    if k == 4:
        return ['c']
    return ['e', d.pick (['span', 'em', 'b', 'i', 'a', 'sup', 'small', 'strong', 'code', 'u']), d.list (lambda d: bookNode (d, depth-1, wide), 0, 3)]

def book (d, wide):
    def block (d):
        tag = d.pick (['p', 'div', 'h1', 'blockquote'])
        if tag in ('div', 'blockquote') and d.bool ():
            return ['e', tag, [['e', 'p', d.list (lambda d: bookNode (d, 2, wide), 0, 3)] for _ in range (d.int (1, 3))]]
        return ['e', tag, d.list (lambda d: bookNode (d, 2, wide), 0, 4)]
    def item (d):
        if d.chance (1, 5):
            return dict (kind='css')
        return dict (kind='doc', body=d.list (block, 1, 4), spine=d.bool (), linear=d.pick (['', '', 'yes', 'no']), name=d.pick (DOCNAMES) if d.bool () else 'dN.xhtml')
    return d.list (item, 0, 6)

DOCNAMES = ['navN.xhtml', 'toc-N.xhtml', 'tocN.html', 'coverN.xhtml', 'cover_N.html', 'N.htm', 'text/N.xhtml', 'Text/navN.xhtml',
    'titlepageN.xhtml', 'N_split_000.html', '.N.xhtml', 'a-N.htm', 'CN.XHTML', 'indexN.html', 'فصلN.xhtml', 'notesN.xhtml', 'copyright-N.xhtml', 'coN.xml']

def epub (d):
    wide = d.bool ()
    return dict (wide=wide, books=d.list (lambda d: book (d, wide), 1, 2), eol=d.pick (['\n', '']))

### XML formats ###

def xmlText (d, cdata=True):
    """ List of [kind, text] """
    def piece (d):
        k = d.draw (8)
        if k < 5:
            return ['t', text (d)]
        if k < 6:
            return ['c', 'x']
        if k < 7 and cdata:
            return ['cdata', text (d).replace (']]>', '').replace (']]', '')]
        return ['ref', d.pick (CHARS)]
    return d.list (piece, 0, 4)

def xmlString (l):
    ret = ''
    for kind, t in l:
        if kind == 't':
            ret += escape (t)
        elif kind == 'c':
            ret += '<!--x-->'
        elif kind == 'cdata':
            ret += f'<![CDATA[{t}]]>'
        elif kind == 'ref':
            ret += f'&#{ord (t)};'
        elif kind == 'time':
            ret += '<time id="T1S" value="00:00:01,000" />'
    return ret

def plain (l):
    return ''.join (t for kind, t in l if kind in ('t', 'cdata', 'ref'))

def encode (s, x):
    enc = x['encoding']
    head = f'<?xml version="1.0" encoding="{enc}"?>\n' if x['declare'] or enc != 'utf-8' else ''
    return (head+s).encode (enc)

def breakXml (b, kind):
    if kind == 0:
        return b''
    if kind == 1:
        return b[:max (1, len (b)//2)]
    if kind == 2:
        return b + b'<'
    if kind == 3:
        return b.replace (b'<s', b'<s <', 1) if b'<s' in b else b'<a><b></a>'
    return b'no xml'

def runXml (case, ctx):
    from lulua.text import filterAvail, apply
    fmt = case['format']
    docs, want = [], []
    bad = 0
    def attr (what):
        l = [y for w, y in case['attrs'] if w == what]
        return ''.join (f' {k}={quoteattr (v)}' for k, v in dict (l).items ())
    with core.quiet ():
        for x in case['docs']:
            if fmt == 'tei2':
                s = '<TEI.2><teiHeader><p><s>header</s></p><text>no body</text></teiHeader>' if x['header'] else '<TEI.2>'
                lines = []
                for t in x['texts']:
                    s += f'<text{attr ("text")}>' + ('<front><p><s>front</s></p></front>' if x['header'] else '')
                    s += '<body>' + ('<s>no paragraph</s>' if x['header'] else '') + ('<div>' if x.get ('div') else '')
                    for i, p in enumerate (t):
                        k = x.get ('split', 0)
                        if k and i and i % k == 0:
                            s += '</div><div>' if x.get ('div') else '</body><body>'
                        s += f'<p{attr ("p")}>\n'
                        for j, y in enumerate (p):
                            # not always a child
                            w = x.get ('wrap', [])
                            w = w[(i+j) % len (w)] if w else ''
                            s += (f'<{w}>' if w else '') + f'<s{attr ("s")}>{xmlString (y)}</s>' + (f'</{w}>' if w else '') + '\n'
                            lines.append (plain (y))
                        s += '</p>'
                        lines.append ('')
                    s += ('</div>' if x.get ('div') else '') + '</body></text>'
                s += '</TEI.2>'
            else:
                s = '<document id="1"><meta><x>meta</x></meta>\n'
                lines = []
                for t in x['texts']:
                    for p in t:
                        for j, y in enumerate (p):
                            w = x.get ('wrap', [])
                            w = w[j % len (w)] if w else ''
                            s += (f'<{w}>' if w else '') + f'  <s{attr ("s")}>\n    {xmlString (y)}\n  </s>\n' + (f'</{w}>' if w else '')
                            lines.append (plain (y).strip ())
                s += '</document>'
            b = encode (s, x)
            if x['bad'] is not None:
                b = breakXml (b, x['bad'])
                bad += 1
            else:
                want.append ('\n'.join (lines))
            docs.append (b)
        if case['via'] == 'file':
            items = []
            for i, b in enumerate (docs):
                with open (ctx.path (f'doc{i}'), 'wb') as fd:
                    fd.write (b)
                items.append (ctx.path (f'doc{i}') + '\n')
            got = list (apply ([filterAvail[k] for k in ('file', 'xml', fmt)], items))
        else:
            got = list (apply ([filterAvail[k] for k in ('xml', fmt)], list (map (io.BytesIO, docs))))
    ctx.eq (len (got), len (want), 'number of texts')
    for a, b in zip (got, want):
        ctx.eq (a, b, 'text')
    ctx.tag (fmt)
    ctx.tag ('malformed', bad)
    ctx.nontrivial (any (x.strip () for x in want))

def xmlAttr (d):
    x = gen.literal (d)
    name = x if XMLNAME.fullmatch (x) and not x.lower ().startswith ('xml') and d.bool () else d.pick (['id', 'lang', 'n', 'type', 'rend', 'corresp', 'xml:lang', 'xml:id', 'nform', 'emphasis'])
    return [name, ''.join (x for x in gen.literal (d) if x.isprintable ()) if d.bool () else d.pick (['1', '1:1', 'ar', 'en', '', 'x', 'note', 'arb'])]

XMLNAME = re.compile (r'[A-Za-z][A-Za-z0-9_-]*')

def xmlDocs (d):
    fmt = d.pick (['tei2', 'opensubtitles'])
    def sentence (d):
        l = xmlText (d)
        if fmt == 'opensubtitles' and d.bool ():
            l.insert (0, ['time', ''])
            if d.bool ():
                l.append (['time', ''])
        return l
    def doc (d):
        return dict (texts=d.list (lambda d: d.list (lambda d: d.list (sentence, 0, 4), 0, 4), 0, 3), header=d.bool (),
            encoding=d.pick (['utf-8', 'utf-8', 'utf-16']), declare=d.bool (), split=d.int (0, 2), div=d.bool (), wrap=d.list (lambda d: d.pick (['', 'q', 'hi', 'div', 'seg', 'note', 'head', 'list', 'x']), 0, 4) if d.bool () else [], bad=d.draw (5) if d.chance (1, 5) else None)
    return dict (format=fmt, docs=d.list (doc, 1, 5), via=d.pick (['bytes', 'file']), attrs=d.list (lambda d: [d.pick (['p', 's', 'text']), xmlAttr (d)], 0, 4))

def runWiki (case, ctx):
    from lulua import text as lt
    ns = 'http://www.mediawiki.org/xml/export-0.10/'
    s = f'<mediawiki xmlns="{ns}" xmlns:o="urn:other" version="0.10" xml:lang="ar"><siteinfo><sitename>text</sitename></siteinfo>\n'
    want = []
    for p in case['pages']:
        title, number, redirect = p['head']
        s += f'<page><title>{escape (title)}</title><ns>{number}</ns><id>7</id>' + ('<redirect title="x" />' if redirect else '')
        p = p['revisions']
        for t, n in p:
            s += '<revision><id>1</id><comment>x</comment><o:text>other</o:text>' if case['decoy'] else '<revision>'
            s += f'<text xml:space="preserve" bytes="1">{xmlString (t)*n}</text></revision>\n' if t else '<text/></revision>'
            want.append (plain (t)*n if t else '')
        s += '</page>\n'
    s += '</mediawiki>'
    with bz2.open (ctx.path ('dump.bz2'), 'w') as fd:
        fd.write (s.encode ('utf-8'))
    r = cli (lt.extractMediawiki, [ctx.path ('dump.bz2')])
    ctx.true (r.ret in (None, 0), f'exit status {r.ret}')
    lines = r.text.split ('\n')
    ctx.eq (lines.pop (), '', 'last line is incomplete')
    ctx.eq (len (lines), len (want), 'number of lines')
    for a, b in zip (lines, want):
        ctx.eq (json.loads (a), b, 'text')
        # and what the writer makes of it
        ctx.eq (list (lt.filterAvail['json'] (a + '\n')), [b], 'item')
    ctx.tag ('large', any (len (x) > 70000 for x in want))
    ctx.nontrivial (any (want))

def wiki (d):
    def revision (d):
        return [xmlText (d), gen.length (d, 20000) if d.chance (1, 8) else 1]
    def page (d):
        title = ''.join (x for x in gen.literal (d) if x.isprintable ()) if d.bool () else d.pick (['عنوان', 'ويكيبيديا:x', 'قالب:x', 'Main Page', 'x/y', 'ملف:x.jpg'])
        return dict (head=[title, d.pick ([0, 0, 1, 4, 10, 14]), d.chance (1, 4)], revisions=d.list (revision, 1, 2))
    return dict (pages=d.list (page, 0, 6), decoy=d.bool ())

PANDOC = '''#!/bin/sh
# stand-in for pandoc, which reads its entire input before writing anything
dir=$(dirname "$0")
case "$*" in
*mediawiki*markdown*) ;;
*) exit 3 ;;
esac
cat > "$dir/input.$$"
if grep -q REJECT "$dir/input.$$"; then
    echo rubbish
    exit 64
fi
printf 'markdown: '
cat "$dir/input.$$"
'''

def runMarkdown (case, ctx):
    from lulua.text import filterAvail, apply
    os.mkdir (ctx.path ('bin'))
    with open (ctx.path ('bin/pandoc'), 'w') as fd:
        fd.write (PANDOC)
    os.chmod (ctx.path ('bin/pandoc'), 0o755)
    old = os.environ['PATH']
    os.environ['PATH'] = ctx.path ('bin') + os.pathsep + old
    texts = [gen.expand (t) for t in case['texts']]
    try:
        with core.quiet ():
            if case['json']:
                got = list (apply ([filterAvail['json'], filterAvail['mediawikimarkdown']], [json.dumps (x)+'\n' for x in texts]))
            else:
                got = list (apply ([filterAvail['mediawikimarkdown']], texts))
    finally:
        os.environ['PATH'] = old
    want = ['markdown: ' + x for x in texts if 'REJECT' not in x]
    ctx.eq (len (got), len (want), 'number of documents')
    for a, b in zip (got, want):
        ctx.eq (a, b, 'text')
    ctx.tag ('rejected', len (want) < len (texts))
    ctx.tag ('large', any (len (x) > 70000 for x in texts))
    ctx.nontrivial (any (texts))

def markdown (d):
    def piece (d):
        t = d.pick (["'''كلمة'''", '[[وصلة|نص]]', '{{قالب}}\n', '== عنوان ==\n', '\n', ' ', 'كلمة', '\U0001f600', '\u00a0', 'é']) if d.bool () else text (d).replace ('\r', '')
        return [t, d.int (10000, 40000) if d.chance (1, 40) else 1]
    def doc (d):
        l = d.list (piece, 0, 8)
        if d.chance (1, 6):
            l.insert (d.int (0, len (l)), ['REJECT', 1])
        return l
    return dict (texts=d.list (doc, 1, 4), json=d.bool ())

CHECKS = [
    Check ('markdown', runMarkdown, markdown, quick=400, thorough=8000, round=20),
    Check ('html', runHtml, html, quick=9000, round=100),
    Check ('tokens', runTokens, tokens, quick=30000),
    Check ('epub', runEpub, epub, quick=3200, round=50),
    Check ('xml', runXml, xmlDocs, quick=16000, round=200),
    Check ('wiki', runWiki, wiki, quick=2500, round=100),
    ]
