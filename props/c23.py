""" Importing a Keyboard Layout Creator file keeps every assignment """

import io, unicodedata

import yaml

from harness import fastyaml, gen, model, real
from harness.core import Check, cli

fastyaml.install ()

RULE = 'generated project files: any subset and order of keys and shift states, characters in literal or hexadecimal notation, unassigned states, ' \
    'comments in both styles, blank lines, tabs or blanks, optional sections, both byte orders, LF or CR LF. The output of lulua-import is loaded, ' \
    'adapted to ibmpc105 and typed on. Non-trivial: at least two keys and two shift states with a character'
ASSUMPTIONS = ['scan codes and virtual keys paired as on an US keyboard', 'no dead keys, ligatures or SGCaps', 'shift states 0, 1, 2, 3, 6 and 7']

# scan code, virtual key, button
KEYS = [('29', 'OEM_3', 'Bl1')] + \
    [(f'{i+2:02x}', c, b) for i, (c, b) in enumerate (zip ('1234567890', ['Bl2', 'Bl3', 'Bl4', 'Bl5', 'Bl6', 'Bl7', 'Br6', 'Br5', 'Br4', 'Br3']))] + \
    [('0c', 'OEM_MINUS', 'Br2'), ('0d', 'OEM_PLUS', 'Br1')] + \
    [(f'{i+0x10:02x}', c, b) for i, (c, b) in enumerate (zip ('QWERTYUIOP', ['Cl1', 'Cl2', 'Cl3', 'Cl4', 'Cl5', 'Cr7', 'Cr6', 'Cr5', 'Cr4', 'Cr3']))] + \
    [('1a', 'OEM_4', 'Cr2'), ('1b', 'OEM_6', 'Cr1')] + \
    [(f'{i+0x1e:02x}', c, b) for i, (c, b) in enumerate (zip ('ASDFGHJKL', ['Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dl5', 'Dr7', 'Dr6', 'Dr5', 'Dr4']))] + \
    [('27', 'OEM_1', 'Dr3'), ('28', 'OEM_7', 'Dr2'), ('2b', 'OEM_5', 'Dr1'), ('56', 'OEM_102', 'El1')] + \
    [(f'{i+0x2c:02x}', c, b) for i, (c, b) in enumerate (zip ('ZXCVBNM', ['El2', 'El3', 'El4', 'El5', 'El6', 'Er5', 'Er4']))] + \
    [('33', 'OEM_COMMA', 'Er3'), ('34', 'OEM_PERIOD', 'Er2'), ('35', 'OEM_2', 'Er1'), ('39', 'SPACE', 'Fl_space')]
BUTTON = {vk: b for _, vk, b in KEYS}

# shift state to one of its modifiers
SHIFT, CTRL, ALTGR = 'El_shift', 'Fl_ctrl', 'Fr_altgr'
CLASS = {'El_shift': SHIFT, 'Er_shift': SHIFT, 'Fl_ctrl': CTRL, 'Fr_ctrl': CTRL, 'Fr_altgr': ALTGR}
STATES = {0: [], 1: [SHIFT], 2: [CTRL], 3: [SHIFT, CTRL], 6: [ALTGR], 7: [SHIFT, ALTGR]}

def source (case):
    lines = ['KBD\tTest\t"Test layout"', '', 'COPYRIGHT\t"(c) 2020 Company; no // comment"', 'COMPANY\t"Company"', 'LOCALENAME\t"ar-SA"', 'LOCALEID\t"00000401"', 'VERSION\t1.0']
    if 'ATTRIBUTES' in case['sections']:
        lines += ['ATTRIBUTES', 'LRM_RLM']
    lines += ['', 'SHIFTSTATE', '']
    for i, s in enumerate (case['states']):
        lines.append (f'{s}' + ['', '\t//Column 4', '\t//Column 5 : Shft', ' ; Ctrl', '  '][case['comments'][i % len (case['comments'])] % 5])
    lines += ['', "LAYOUT\t\t;an extra '@' at the end is a dead key", '', '//SC\tVK_\t\tCap\t0\t1\t2', '//--\t----\t\t----\t----\t----\t----', '']
    sep = case['sep']
    for i, (k, cells) in enumerate (case['keys']):
        sc, vk = next ((sc, vk) for sc, vk, _ in KEYS if vk == k)
        cells = [{'lit': c, 'hex': f'{ord (c or " "):04x}', 'HEX': f'{ord (c or " "):04X}', '-1': '-1', '%%': '%%'}[how] for how, c in cells]
        extra = ['', '\t\t// LATIN SMALL LETTER A, LATIN CAPITAL LETTER A', ' ; note', '\t// first ; second', '\t; first // second', '  \t', '\t//', ';'][case['comments'][i % len (case['comments'])]]
        lines.append (sep.join ([sc, vk, str (i % 6)] + cells) + extra)
        if case['comments'][i % len (case['comments'])] == 4:
            lines += ['', '// comment', ';comment', '   ']
    if case['decimal']:
        lines.insert (len (lines)-(case['decimal'] % max (1, len (case['keys']))), sep.join (['53', 'DECIMAL', '0'] + ['002e']*len (case['states'])))
    for s in case['sections']:
        lines += [''] + {
            'LIGATURE': ['LIGATURE', '', '//VK_\tMod#\tChar0\tChar1', '', 'A\t\t1\t0644\t0627\t// x', 'B\t\t0\t0644\t0622'],
            'KEYNAME': ['KEYNAME', '', '01\tEsc', '1e\tA', '0e\tBackspace', '2a\tShift'],
            'KEYNAME_EXT': ['KEYNAME_EXT', '', '1c\t"Num Enter"', '35\t"Num /"'],
            'DESCRIPTIONS': ['DESCRIPTIONS', '', '0401\tTest layout', '1e A 0 x y z'],
            'LANGUAGENAMES': ['LANGUAGENAMES', '', '0401\tArabic (Saudi Arabia)'],
            'ATTRIBUTES': [],
            }[s]
    if case['end']:
        lines += ['', 'ENDKBD', '']
    return case['newline'].join (lines)

def run (case, ctx):
    from lulua import layout
    from lulua.layout import GenericLayout
    text = source (case)
    with open (ctx.path ('test.klc'), 'wb') as fd:
        fd.write ((b'\xff\xfe' if case['little'] else b'\xfe\xff') + text.encode ('utf-16-le' if case['little'] else 'utf-16-be'))
    r = cli (layout.importFrom, [ctx.path ('test.klc'), 'klc'])
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    data = yaml.safe_load (r.text)
    want = {}
    for vk, cells in case['keys']:
        for s, (how, c) in zip (case['states'], cells):
            if how in ('lit', 'hex', 'HEX'):
                want[(s, BUTTON[vk])] = unicodedata.normalize ('NFD', c)
    # which layer of the definition is the one of this shift state?
    got = {}
    used = set ()
    for s, mod in STATES.items ():
        l = [i for i, l in enumerate (data['layout']) if set (mod) in map (set, l['modifier'])]
        ctx.true (len (l) <= 1, 'several layers for the same state', s, l)
        for i in l:
            used.add (i)
            for m in data['layout'][i]['modifier']:
                ctx.eq ({CLASS.get (x, x) for x in m}, set (mod), f'modifier {m} of state {s}')
            for b, t in data['layout'][i]['layer'].items ():
                got[(s, b)] = t
    ctx.eq (got, want, 'assignments')
    ctx.true (all (not l['layer'] for i, l in enumerate (data['layout']) if i not in used), 'layer without state', data)

    lay = real.layout (data)
    for (s, b), t in want.items ():
        ctx.eq (lay.getText (real.comb (STATES[s], b)), t, f'text of {b}, state {s}')
        match, combs = lay (t)
        ctx.eq (match, t, 'match')
        ctx.true ((frozenset (STATES[s]), b) in set (map (real.combKey, combs)), f'{t!r} cannot be typed with {b}, state {s}', combs)
    from lulua.writer import Writer
    w = Writer (lay)
    s = ''.join (want.values ())
    ctx.eq (''.join (m for m, c in w.type (io.StringIO (s))), s, 'typed')
    ctx.nontrivial (len ({s for s, _ in want}) > 1 and len ({b for _, b in want}) > 1)
    ctx.tag ('shift states not in order', case['states'] != sorted (case['states']))
    ctx.tag ('unassigned', any (how in ('-1', '%%') for _, x in case['keys'] for how, _ in x))
    ctx.tag ('composed character', any (unicodedata.normalize ('NFD', c) != c for _, x in case['keys'] for _, c in x if c))

def genCase (d):
    states = list (d.sub (list (STATES), 1, 6))
    if d.chance (2, 3):
        states = sorted (states) if d.bool () else list (d.shuffle (states))
    def literal (c):
        return not c.isspace () and c not in ';/%@' and c.isprintable () and unicodedata.category (c)[0] in 'LNPS'
    def cell (d):
        k = d.draw (8)
        if k == 0:
            return ['-1', None]
        if k == 1 and d.bool ():
            return ['%%', None]
        c = d.pick (['a', 'Z', '1', '0', 'f', 'é', 'Ж', 'أ', 'ا', 'ي', 'ß']) if k < 4 else \
            d.pick (['\u0622', '\u0627', ' ', ';', '/', '@', '%', '\u00e9', '\u1e69', '\u0651', '\u200c', '\u202b', '\u00a0', '\uac00', '\ufefb', '\u212b', '-', '"', "'", '\\', '#', '#', '!', '*', '$', '=', '+', '<', '&', '|', '\t', '\u0001', '\ud7a3', '\u2028', '\ufeff']) if k < 7 else \
            chr (d.pick ([d.int (0x20, 0xff), d.int (0x600, 0x6ff), d.int (0x300, 0x24ff), d.int (0xf900, 0xfffd), d.int (0x10000, 0x10ffff) if d.bool () else d.int (0x1ee00, 0x1eeff)]))
        return [d.pick (['lit', 'hex', 'HEX']) if literal (c) else d.pick (['hex', 'HEX']), c]
    n = d.pick ([3, 10, 48])
    keys = [[k, [cell (d) for _ in states]] for k in d.shuffle (d.sub ([k for _, k, _ in KEYS], 0, n))]
    if d.bool ():
        order = [k for _, k, _ in KEYS]
        keys.sort (key=lambda x: order.index (x[0]))
    return dict (states=states, keys=keys, comments=d.list (lambda d: d.draw (8) if d.bool () else 0, 1, 10),
        sep=d.pick (['\t', '\t\t', ' ', '  \t']), decimal=d.pick ([0, 1, 2, 7]),
        sections=list (d.sub (['ATTRIBUTES', 'LIGATURE', 'KEYNAME', 'KEYNAME_EXT', 'DESCRIPTIONS', 'LANGUAGENAMES'], 0, 6)),
        end=d.bool (), newline=d.pick (['\r\n', '\n']), little=d.chance (3, 4))

CHECKS = [
    Check ('klc', run, genCase, quick=10000, round=40),
    ]
