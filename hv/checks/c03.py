"""C03 Attributes of an element survive rendering exactly."""
import html
from html.parser import HTMLParser
from hv import model, real
from hv.engine import Violation, Case
from hv.gen import TAGS, VOIDS, PLAIN, MARKUPY, UNI, text_lit
from hv.model import Ex, Blk, Body, TagUse, Script
from hv.printer import Printer
from hv.families import both, doc_family, parse_html, all_elements, Bad, INDS, make_context, TYPES

TECHNIQUE = 'property-based testing: random attribute lists, read back from the output by two HTML parsers'
ORACLE = 'a strict element parser in hv/families.py, html.parser, and hv/model.py for whole documents'
RULE = ('cases: tags with 1-8 random attributes (all syntactic forms, XML names, any characters in values); non-trivial: at least two attributes, or a value '
        'with a character that needs care, and rendering succeeded; distinct by script and values')

NAMES = ['id', 'class', 'href', 'data-x', 'xml:lang', 'checked', 'a.b', 'on-click.prevent', '_u', 'A', 'É', 'x:y:z', 'a1', 'ñu', '漢字', 'v-bind:k', 'x--y', 'a·b', 'if', 'for', 'try', 'None', 'Title', 'style']
ODD = '\'"&<>=/ {}$\\`|:#.-!?@%'

def any_value(src):
    k = src.int(12)
    if k < 6: return src.text(src.pick([PLAIN, ODD, MARKUPY, UNI, ODD + PLAIN]), 0, 12, 0.85)
    if k == 6: return src.text('\n\t\r ' + ODD, 0, 5)
    if k == 7: return src.pick(['&amp;', '&#10;', '&lt;p&gt;', '"\'', "''", '""', '&', '-->', '</p>', ']]>', '&quot', 'a&b;c', ''])
    if k == 8: return src.pick([0, 1, -5, 2.5, 10 ** 20])
    if k == 9: return src.pick([True, False])
    if k == 10: return src.pick([[1, '<'], ('a',), {'k': '"'}, None])
    return ''.join(chr(src.pick([0x21, 0xe9, 0x3b1, 0x4e2d, 0x1f600, 0xad, 0x200b, 0xfe0f])) for _ in range(src.range(1, 4)))


def expect_value(v): return v if isinstance(v, bool) else str(v)

class Collect(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs = True)
        self.found = []
    def handle_starttag(self, tag, attrs): self.found.append((tag, attrs))
    def handle_startendtag(self, tag, attrs): self.found.append((tag, attrs))


def attributes(src):
    ctx = {}
    want = {}
    pieces = []
    seen_kinds = set()
    repeated = set()
    for i in range(src.range(1, 7)):
        k = src.int(10)
        if k < 2:                                            # shortcuts
            mark, name = src.pick([('.', 'class'), ('#', 'id')])
            form = src.int(3)
            v = src.pick(['x', 'a-b', '1st', '-', '_q', 'X9', 'if'])
            if form == 0: lit = v
            else:
                if form == 1: v = any_value(src)
                if isinstance(v, bool) or v is None: v = 's'
                ctx['c%d' % i] = v
                lit = '{c%d}' % i if form == 1 else '$c%d' % i
            piece = mark + lit
            glue = form == 0 and (not pieces or pieces[-1][0] == 'short') and src.bool()
            if piece[:1] == '.' and piece[1:2].isdigit() and not glue: piece = '.y'; v = 'y'      # ` .5` is a number
            pieces.append(('short' if form == 0 else 'shortx', ('' if glue else ' ') + piece))
        else:
            name = src.pick(NAMES)
            v = any_value(src)
            form = src.int(7)
            if name in want and (not isinstance(v, (str, int, float)) or isinstance(v, bool)): continue
            if form <= 1 or not isinstance(v, str):
                ctx['c%d' % i] = v
                val = ['c%d', '$c%d', '{c%d}', '(c%d)', '{ $c%d }', '(c%d if True else 1)', '{c%d or c%d}'.replace(' or c%d', '')][form] % i
            else:
                val = Printer().ex(text_lit(v, src.pick('"\'')))
                if form == 5 and not any(c in v for c in '"\'\n\r') and v.isprintable(): val = "r'%s'" % v
                elif form == 6: val = '(%s)' % val
            eq = src.weighted([(5, '='), (1, ' = '), (1, '= '), (1, ' =')])
            pieces.append(('kw', src.pick([' ', '  ']) + name + eq + val))
        if name in want:
            if isinstance(want[name], bool) or want[name] is None or isinstance(v, bool):
                pieces.pop()
                continue
            repeated.add(name)
            want[name] = '%s %s' % (want[name], v)
        else: want[name] = v
    tag = src.pick(TAGS + VOIDS)
    void = tag in VOIDS
    line = tag + ''.join(p for _, p in pieces)
    tail = '' if void else src.pick([' | t', ' : b | t', '\n    i | t', ' / t', ' ! t', ':', '', ' : | t'])
    place = src.pick(['', 'main\n  ', 'for q in "a"\n  ', 'try\n  '])
    script = place + line + (tail if not place else tail.replace('\n', '\n  '))
    if ctx: script = 'context ' + ', '.join('$' + n for n in ctx) + '\n' + script
    res = real.render(script, ctx)
    if not res.ok: raise Violation('unexpected error', script = script, context = ctx, got = res.show())
    expect = [(n, expect_value(v)) for n, v in want.items() if v is not False]
    try: tree = parse_html(res.value)
    except Bad as ex: raise Violation('malformed output', script = script, context = ctx, got = res.value, why = str(ex))
    got = [e for e in all_elements(tree) if e[0] == tag]
    if not got: raise Violation('element is missing', script = script, context = ctx, output = res.value)
    got = got[0]
    if got[1] != expect: raise Violation('attributes differ', script = script, context = ctx, expected = expect, got = got[1], output = res.value)
    if got[3] != void: raise Violation('void form differs', script = script, output = res.value)
    # the second, independent parser knows names in lower case only
    c = Collect()
    c.feed(res.value)
    c.close()
    theirs = [a for t, a in c.found if t == tag.lower()][0]
    lowered = [(n.lower(), '' if v is None else v) for n, v in theirs]
    mine = [(n.lower(), '' if v is True else v) for n, v in expect]
    if lowered != mine: raise Violation('attributes differ', script = script, context = ctx, expected = mine, got = lowered, output = res.value)
    care = any(ch in str(v) for v in want.values() for ch in '\'"&<>\n\t\r')
    return Case((script, sorted(map(repr, ctx.items()))), len(want) > 1 or care, ['attrs:%d' % min(len(want), 4)] + (['repeated'] if repeated else []) + (['void'] if void else []),
                dict(script = script, context = ctx, output = res.value))


def shortcut_equal(src):
    """.x is class="x", #x is id="x"."""
    a, b, order = '', '', src.range(1, 4)
    for _ in range(order):
        mark, name = src.pick([('.', 'class'), ('#', 'id')])
        v = src.text('abzAZ019_-', 1, 6)
        if mark == '.' and v[0].isdigit(): v = 'n' + v                    # ` .5` is a number
        a += src.pick([' ', '']) + mark + v
        b += ' %s="%s"' % (name, v)
    x, y = real.render('p' + a + ' | t'), real.render('p' + b + ' | t')
    if not x.ok or not y.ok or x.value != y.value: raise Violation('shortcut is not equivalent', scripts = ['p' + a, 'p' + b], got = [x.show(), y.show()])
    return Case(a, order > 1, ['shortcut'], dict(script = 'p' + a, output = x.value))


def xml_names(src):
    """Any XML name that neither begins nor ends with a colon is an attribute name."""
    def char(start):
        k = src.int(9 if not start else 6)
        if k == 0: return chr(src.range(ord('a'), ord('z')))
        if k == 1: return chr(src.range(ord('A'), ord('Z')))
        if k == 2: return '_'
        if k == 3: return chr(src.range(0xf8, 0x2ff))
        if k == 4: return chr(src.range(0x370, 0x37d))
        if k == 5: return chr(src.pick([0xc0, 0xd6, 0xd8, 0xf6, 0x37f, 0x1fff, 0x200c, 0x200d, 0x2070, 0x218f, 0x2c00, 0x2fef, 0x3001, 0xd7ff, 0xf900, 0xfdcf, 0xfdf0, 0xfffd, 0x4e2d]))
        if k == 6: return src.pick('-.0123456789')
        if k == 7: return src.pick(':-.')
        return chr(src.pick([0xb7, 0x300, 0x36f, 0x203f, 0x2040]))
    name = char(True) + ''.join(char(False) for _ in range(src.int(6)))
    while name.endswith(':'): name = name[:-1]
    script = 'p %s="v" : b' % name + src.pick(['', ' | t'])
    res = real.render(script)
    if not res.ok: raise Violation('attribute name is rejected', script = script, name = name, got = res.show())
    if not res.value.startswith('<p %s="v">' % name): raise Violation('attribute name differs', script = script, got = res.value)
    return Case(name, len(name) > 1, ['name'], dict(script = script, output = res.value))


docs = doc_family(lambda f, st: st == 'ok' and 'attrs' in f, ctx = True, bad_p = 0.0, wild = 0.0, attrs_p = 0.95, size = 8,
                  W = dict(struct = 14, while_ = 0, inplace = 0, expr = 0, comment = 0))

FAMILIES = [('attributes', attributes, 8000), ('shortcuts', shortcut_equal, 1000), ('names', xml_names, 2000), ('documents', docs, 2000)]
