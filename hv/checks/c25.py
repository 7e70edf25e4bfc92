"""C25 Comments, trailing whitespace, pass and indentation width do not matter."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen, PLAIN, MARKUPY, UNI
from hv.model import Blk
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, INDS
from hv.checks.c21 import places

TECHNIQUE = 'metamorphic property-based testing: a random script and the same script after a random sequence of edits without meaning (comments, trailing whitespace, pass, colons, spaces, widths of indentation, blank lines) are rendered and compared'
ORACLE = 'the output of the unedited script; for re-indentation the same output with every level of leading whitespace replaced'
RULE = ('cases: random valid and failing scripts with 1 to about 20 edits at random places; scripts printed twice in different styles or indentation schemes; '
        'non-trivial: the two scripts differ and the output is not empty; distinct by edited text')


class Styled(Printer):
    """Printer with arbitrary comments."""
    def note(self):
        if not self.comments or self.src is None or not self.src.bool(self.rate): return ''
        src = self.src
        return src.pick([' # ', '  # ', ' --', '  -- ', '\t#\t', ' # ']) + comment_text(src)      # '#x' would be an attribute

def comment_text(src):
    return src.pick(['', 'x', ' note', ' | text', ' : p', ' {x} $y %z @w', ' # -- |', '}', ' "', " '", '{', ' else', '\t', ' é漢\u2028', ' ...', '!', '-', '[('] + [' ' + src.text(PLAIN + MARKUPY + '${}', 1, 10, 0.8).replace('\n', ' ')])


def document(src, ctx, **opts):
    g = DocGen(src, TYPES if ctx else None, size = src.pick([5, 10, 16, 24]), bad_p = src.pick([0.0, 0.0, 0.03]), margin_p = 0.35, **opts)
    doc = g.document()
    if ctx: doc.blocks.insert(0, context_block(TYPES))
    return g, doc

def result(out):
    return ('ok', out.value) if out.ok else ('err', type(out.exc).__name__)

def check(a, b, first, second, what):
    if a != b: raise Violation('the output changes with ' + what, script = first, edited = second, expected = a, got = b)


def style(src):
    """The same syntax tree printed in two ways."""
    ctx = src.bool(0.4)
    g, doc = document(src, ctx)
    for b in inline_texts(doc.blocks): b.tail = []      # further lines are aligned with the column of the marker
    unit = src.pick(INDS)
    one = Printer(inds = (unit,)).script(doc)
    two = Styled(src, rate = src.pick([0.2, 0.5, 0.8]), inds = (unit,)).script(doc)
    mk = make_context if ctx else dict
    a, b = result(real.render(one, mk())), result(real.render(two, mk()))
    if a[0] == 'ok' and '0x' in a[1]: raise Skip('addresses')
    check(a, b, one, two, 'style')
    return Case(two, one != two and bool(a[1]), ['style:' + a[0]] + sorted(g.features), dict(script = one, edited = two, result = a))


def lead(l): return l[:len(l) - len(l.lstrip(' \t'))]

def edits(src):
    """Lines are changed and added in the text of a script."""
    ctx = src.bool(0.3)
    g, doc = document(src, ctx)
    text = Printer(src, rate = 0.1, inds = INDS).script(doc)
    lines = text.split('\n')
    n = len(lines)
    outlined = [b for i, (b, control, run, top) in enumerate(places(doc.blocks)) if b.kind != 'context']
    before = {}         # line number (1-based) -> new lines in front of it
    tail = {}
    done = []
    blank = False
    appends = any(b.mod == '...' for b in outlined)     # blank lines do separate an appended block
    ends = n
    while ends > 1 and not lines[ends - 1].strip(): ends -= 1
    where = src.subset(outlined, src.pick([0.1, 0.3, 0.7])) if src.bool(0.8) else []
    for b in where:
        ind = lead(lines[b.line - 1])
        add = []
        for _ in range(src.weighted([(5, 1), (2, 2), (1, 3)])):
            k = src.weighted([(5, 'comment'), (2, 'pass'), (2, 'comments'), (0 if appends else 1, 'blank')])
            if k == 'comment': add.append(ind + src.pick(['#', '--']) + comment_text(src))
            elif k == 'pass': add.append(ind + 'pass')
            elif k == 'comments':
                add.append(ind + src.pick(['#', '--']) + comment_text(src))
                step = src.pick(INDS)
                for _ in range(src.range(1, 3)): add.append(ind + step + src.pick(['', '  ']) + src.pick(['more', '| {', 'p', '-- x', '$x = ', '}']))
            else:
                add += [src.pick(['', '  ', '\t', ind])] * src.range(1, 2)
                blank = True
            done.append(k)
        before[b.line] = add
    for i in src.subset(list(range(n)), src.pick([0.0, 0.2, 0.6])):
        if i >= ends: continue
        tail[i] = src.pick([' ', '  ', '\t', ' \t ', '     '])
        done.append('trailing')
    if not done: raise Skip('no edits')
    out = []
    for i, l in enumerate(lines):
        out += before.get(i + 1, [])
        out.append(l + tail.get(i, ''))
    if src.bool(0.2):
        out[ends + len(out) - n:ends + len(out) - n] = [src.pick(['# end', '-- end', 'pass', '# end {'])]
        done.append('end')
    second = '\n'.join(out)
    mk = make_context if ctx else dict
    a, b = result(real.render(text, mk())), result(real.render(second, mk()))
    if a[0] == 'ok' and '0x' in a[1]: raise Skip('addresses')
    if blank and a[0] == b[0] == 'ok':
        squeeze = lambda s: ''.join(s.split())          # a blank line moves the end tag of an empty body to a new line
        check(squeeze(a[1]), squeeze(b[1]), text, second, 'edits')
    else: check(a, b, text, second, 'edits')
    return Case(second, bool(a[1]), ['edits:' + a[0]] + sorted('edit:' + d for d in set(done)), dict(script = text, edited = second, result = a))


def reindent(src):
    """Another unit of indentation."""
    ctx = src.bool(0.3)
    g, doc = document(src, ctx, chars = [(6, PLAIN), (2, MARKUPY), (1, UNI.replace('\x0b', '').replace('\x0c', ''))])
    for b in all_texts(doc.blocks):
        b.tail = [(' ' * len(l[0]), l[1]) if l else None for l in b.tail]
    one = Printer(inds = ('\t',), comments = False).script(doc)
    if re.search(r'\S[^\n]*\t', one): raise Skip('tabs in the text')
    unit = src.pick([' ', '  ', '    ', '   ', ' \t', '\t ', '\t\t', '  \t  ', '        '])
    two = Printer(inds = (unit,), comments = False).script(doc)
    mk = make_context if ctx else dict
    a, b = result(real.render(one, mk())), result(real.render(two, mk()))
    if a[0] == 'ok' and ('0x' in a[1] or '\\t' in one): raise Skip('tabs or addresses in the text')
    want = a
    if a[0] == 'ok': want = ('ok', '\n'.join(unit * (len(l) - len(l.lstrip('\t'))) + l.lstrip('\t') for l in a[1].split('\n')))
    if b != want: raise Violation('re-indenting changes more than leading whitespace', script = one, edited = two, unit = unit, expected = want, got = b)
    return Case(two, bool(a[1]) and '\t' in one, ['reindent:' + a[0]], dict(script = one, edited = two, result = b))


def mixed(src):
    """Every body has its own indentation: the content of lines stays."""
    ctx = src.bool(0.3)
    g, doc = document(src, ctx)
    for b in all_texts(doc.blocks): b.tail = []
    one = Printer(inds = (src.pick(INDS),), comments = False).script(doc)
    two = Printer(src, rate = 0.0, inds = INDS, comments = False).script(doc)
    mk = make_context if ctx else dict
    a, b = result(real.render(one, mk())), result(real.render(two, mk()))
    if a[0] == 'ok' and '0x' in a[1]: raise Skip('addresses')
    strip = lambda r: [l.lstrip(' \t') for l in r[1].split('\n')] if r[0] == 'ok' else r
    check(strip(a), strip(b), one, two, 'widths of indentation')
    return Case(two, one != two and bool(a[1]), ['mixed:' + a[0]], dict(script = one, edited = two, result = b))


def inline_texts(blocks):
    own = {id(b) for b, *_ in places(blocks)}
    return [b for b in all_texts(blocks) if id(b) not in own or b.mod]

def all_texts(blocks):
    """All text blocks, inline ones included."""
    def body(x):
        if x is None: return
        if getattr(x, 'inline', None) is not None: yield from one(x.inline)
        yield from all_texts(x.blocks or [])
    def one(b):
        k = b.kind
        if k == 'text': yield b
        elif k in ('struct', 'def'):
            if b.inline is not None: yield from one(b.inline)
            yield from all_texts(b.body or [])
        elif k == 'if':
            for _, c in b.clauses: yield from body(c)
            yield from body(b.els)
        elif k in ('for', 'while'):
            yield from body(b.body)
            yield from body(b.els)
        elif k == 'try':
            for x in b.branches: yield from body(x)
    for b in blocks: yield from one(b)


FAMILIES = [('style', style, 2200), ('edits', edits, 2800), ('reindent', reindent, 1600), ('mixed', mixed, 1600)]
