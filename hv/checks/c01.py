"""C01 Text content reaches the output exactly, escaped exactly once per block kind."""
import html
from hv import model, real
from hv.engine import Violation, Case
from hv.gen import DocGen, PLAIN, MARKUPY, UNI, DOLLAR, merge_parts
from hv.model import Ex, Blk, Body, TagUse, Script
from hv.printer import Printer
from hv.compare import check_same
from hv.families import both, doc_family, make_context, TYPES, context_block, parse_html, text_of, INDS, Obj

RULE = ('non-trivial: the document contains a character that needs escaping or care (one of & < > $ { } quotes, non-ASCII, an indentation symbol of '
        'the parser), or an embedded expression, and rendering succeeded; distinct by script text')

CHARS = [(4, PLAIN), (4, MARKUPY), (3, UNI)]

def care(text): return any(c in '&<>${}"\'' or ord(c) > 126 for c in text)

docs = doc_family(lambda f, st: st == 'ok' and 'embedding' in f, ctx = True, chars = CHARS, bad_p = 0.0, wild = 0.0, size = 10,
                  W = dict(text = 14, struct = 5, while_ = 0, inplace = 0, expr = 0, def_ = 1, use = 2, try_ = 1))


def any_char(src):
    """Any character other than newline."""
    k = src.int(8)
    if k == 0: return src.pick('&<>${}"\'`\\')
    if k < 4: return chr(src.range(32, 126))
    if k == 4: return src.pick(UNI)
    if k == 5: return chr(src.range(160, 0x2ff))
    if k == 6: return chr(src.range(0x2760, 0x2775))
    c = chr(src.pick([1, 2, 7, 8, 0x0b, 0x0c, 0x0e, 0x1b, 0x7f, 0x85, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xe000, 0x1f468, 0x10ffff]))
    return c

def word(src, lo = 1, hi = 10): return ''.join(src.list(lambda: any_char(src), lo, hi, 0.8))

def verbatim_value(src):
    """A string value with anything inside, newlines included."""
    return ''.join(src.list(lambda: '\n' if src.bool(0.05) else any_char(src), 0, 8, 0.7))


class V:
    """A value with its own str()."""
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def meth(self, i): return self.s[i:]
    def __getitem__(self, i): return self.s * i
    @property
    def a(self): return [self, self.s]


def direct(src):
    """One text block at a certain place; the expected text is assembled here, without any model: pieces of text, escapes
    and embeddings of context values, concatenated and escaped when the block is a plain-text one."""
    mark = src.pick('|/!')
    ctx, pieces, expect = {}, [], []
    for i in range(src.range(1, 6)):
        k = src.int(6)
        if mark == '!':
            w = word(src) + src.pick(['', '$$', '{{', '}}', '$x', '{x}', '{'])
            pieces.append(w); expect.append(w)
        elif k < 3:
            w = ''.join(c for c in word(src) if c not in '${}')
            if pieces and pieces[-1][:1] in ('$', '{') and pieces[-1] not in ('$$', '{{', '}}'):
                w = w.lstrip('?!')
                if pieces[-1][0] == '$': w = ' ' + w
                if pieces[-1][0] == '$' and w.lstrip()[:1] in '.[(': w = ' ,' + w
            pieces.append(w); expect.append(w)
        elif k == 3:
            c = src.pick(DOLLAR)
            pieces.append(c * 2); expect.append(c)
        else:
            name = 'v%d' % i
            s = verbatim_value(src)
            form = src.int(9)
            ctx[name] = V(s) if form in (5, 6, 7) else s
            if form == 1: ctx[name] = src.pick([3, 2.5, True, False, 0, [1, '<'], ('&',), {'k': '"'}])
            val = str(ctx[name])
            text = '$' + name if form in (0, 1) else '{%s}' % name if form in (2, 3) else '{ $%s }' % name
            if form == 5: text, val = '$%s.a[1]' % name, s
            if form == 6: text, val = '$%s.meth(1)' % name, s[1:]
            if form == 7: text, val = '{%s[2]}' % name, s * 2
            pieces.append(text); expect.append(val)
    # a name in the $... form ends where the next piece begins
    for i in range(len(pieces) - 1):
        if pieces[i][0:1] == '$' and pieces[i] != '$$' and mark != '!' and (pieces[i + 1][:1].isalnum() or pieces[i + 1][:1] in ('_', '')):
            pieces[i] = '{' + pieces[i][1:] + '}'
    if mark != '!':
        for i in range(len(pieces)):
            if pieces[i][:1] == '$' and pieces[i] != '$$':
                rest = ''.join(pieces[i + 1:])
                if rest[:1] and (rest[0].isalnum() or rest[0] in '_.[(?!'): pieces[i] = '{' + pieces[i][1:] + '}'
            if pieces[i][:1] == '{' and pieces[i] != '{{':
                if ''.join(pieces[i + 1:])[:1] in ('?', '!'): pieces.insert(i + 1, ','); expect.insert(i + 1, ',')
    line, want = ''.join(pieces), ''.join(expect)
    if line != line.strip() or not line or line[-1].isspace() or '\x1c' <= line[-1] <= '\x1f':
        line, want = '.' + line + '.', '.' + want + '.'
    if mark == '|': want = want.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    # an element whose body begins with a new line has the closing tag on a line of its own
    element = lambda tag, body: '<%s>%s%s</%s>' % (tag, body, '\n' * (body[:1] == '\n'), tag)
    # places; every line of a value is shifted together with the block
    place = src.int(7)
    head = 'context ' + ', '.join('$' + n for n in ctx) + '\n' if ctx else ''
    shift = lambda s, ind: model.re.sub('\n(?=[^\n])', '\n' + ind, s)
    if place == 0: script, out = '%s %s' % (mark, line), want
    elif place == 1: script, out = 'p %s %s' % (mark, line), element('p', want)
    elif place == 2: script, out = 'p\n    %s %s' % (mark, line), element('p', shift('\n' + want, '    '))
    elif place == 3: script, out = 'div : p : %s %s\n  b' % (mark, line), element('div', element('p', want + '\n  <b></b>'))
    elif place == 4: script, out = 'if True %s %s' % (mark, line), want
    elif place == 5: script, out = 'for i in [1, 2]\n\t%s %s' % (mark, line), want + '\n' + want
    else: script, out = '%%H @b | -\n\t@ b\nH %s %s' % (mark, line), None
    script = head + script
    res = real.render(script, ctx)
    if place == 6:
        script = head + '%%H @b\n    @ b\nH %s %s' % (mark, line)
        res = real.render(script, ctx)
        out = want
    if not res.ok: raise Violation('unexpected error', script = script, context = ctx, got = res.show())
    got = res.value
    if place in (5, 6): got, out = got.lstrip('\n'), out.lstrip('\n')
    if got != out: raise Violation('text is altered', script = script, context = ctx, expected = out, got = got)
    return Case(script, care(line) or bool(ctx), ['mark' + mark, 'place%d' % place], dict(script = script, output = got))


def parsed(src):
    """An HTML parser recovers the plain text of an element."""
    s = ''.join(src.list(lambda: any_char(src), 1, 20, 0.9))
    s = ''.join(c for c in s if c not in '\r\x00').strip() or 'x'
    if '\x1c' <= s[-1] <= '\x1f': s += '.'
    how = src.int(3)
    if how == 0: script, ctx = 'p | ' + s.replace('$', '$$').replace('{', '{{').replace('}', '}}'), {}
    elif how == 1: script, ctx = 'context $v\np | $v', {'v': s}
    else: script, ctx = "context $v\np\n  | {'$v'}{v}", {'v': s}
    res = real.render(script, ctx)
    if not res.ok: raise Violation('unexpected error', script = script, context = ctx, got = res.show())
    tree = parse_html(res.value)
    text = html.unescape(text_of(tree[-1][2]))
    want = s if how < 2 else '\n  ' + s + s + '\n'
    if text != want: raise Violation('parsed text differs', script = script, context = ctx, expected = want, got = text)
    return Case((script, s), care(s), ['parsed'], dict(script = script, value = s))


FAMILIES = [('direct', direct, 6000), ('parsed', parsed, 3000), ('documents', docs, 3000)]
