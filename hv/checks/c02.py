"""C02 Multi-line text blocks keep their relative line structure."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.gen import DocGen, PLAIN, MARKUPY, UNI, DOLLAR, tidy, merge_parts
from hv.model import Ex, Blk, Body, TagUse, Script
from hv.families import both, doc_family, make_context, TYPES, context_block, INDS

TECHNIQUE = 'property-based testing: generated multi-line text blocks against a reference model, and metamorphic relations (values, nesting)'
RULE = ('cases: random text blocks with 1-6 continuation lines (tabs, spaces, blank lines, embeddings whose values contain spaces and newlines) at random places; '
        'non-trivial: at least two non-blank lines with different indentation, or a blank line or an embedding inside, and rendering succeeded; distinct by script text')

docs = doc_family(lambda f, st: st == 'ok' and 'tail' in f, ctx = True, bad_p = 0.0, wild = 0.0, size = 10,
                  W = dict(text = 16, struct = 6, while_ = 0, inplace = 0, expr = 0, assign = 1))

RULERS = ['            ', '\t\t\t\t\t\t', '  \t  \t   \t ', '\t    \t   \t  ', ' \t \t \t \t ']


def lines_of(src, values):
    """Lines as lists of pieces: ('t', str) or ('v', name)."""
    n = src.range(1, 6)
    ruler = src.pick(RULERS)
    out = []
    for i in range(n + 1):
        if i > 1 and src.bool(0.2): out.append(None)
        if i > 1 and src.bool(0.05): out.append(None)
        word = 'L%d%s' % (i, src.pick(['', ' x', '  y', ' & <b>', ' é', '\tq', ' | z', ': !', ' # c', ' -- d']))
        pieces = [('t', word)]
        if src.bool(0.3):
            name = 'v%d' % len(values)
            values[name] = src.pick(['', ' ', 'val', '  lead', 'two\n  lines', '\n', '\n\n', '\t', 'a\n\nb', 'trail  ', '\nX', '   \n   ', 'x\n'])
            pieces.insert(src.int(2), ('v', name))
        out.append((ruler[:src.range(1, 10)] if i else None, pieces))
    if src.bool(0.15): out[0] = (None, [])
    while out[-1] is None: out.pop()
    return out

def source_line(pieces, mark):
    return ''.join(x if k == 't' else '{%s}' % x for k, x in pieces)

def value_line(pieces, mark, values):
    s = ''.join(x if k == 't' else ('{%s}' % x if mark == '!' else values[x]) for k, x in pieces)
    return model.html_escape(s) if mark == '|' else s


def block_source(lines, mark, gap, prefix, ind):
    """Source lines of a block whose first line starts (after `ind`) with prefix + mark."""
    out = []
    for i, l in enumerate(lines):
        if l is None: out.append('')
        elif i == 0: out.append(ind + prefix + mark + (gap if l[1] else '') + source_line(l[1], mark))
        else: out.append(ind + l[0] + source_line(l[1], mark))
    return out

def expected_lines(lines, mark, gap, prefix, values):
    """The rule, stated directly: each line is a pair of leading whitespace and content; the first line's marker and what precedes it count as
    spaces; whitespace common to all non-blank lines (up to one column after the marker) is removed."""
    lead = len(prefix + mark)
    pairs = []
    for i, l in enumerate(lines):
        if l is None or not l[1]: pairs.append(None)
        elif i == 0: pairs.append((' ' * lead + gap, value_line(l[1], mark, values)))
        else: pairs.append((l[0], value_line(l[1], mark, values)))
    spaces = [p[0] for p in pairs if p]
    cut = 0
    while all(len(s) > cut for s in spaces) and len({s[cut] for s in spaces}) == 1 and cut <= lead: cut += 1
    out = []
    for i, p in enumerate(pairs):
        if p is None: out.append(''); continue
        sp, txt = p
        if i == 0 and cut < lead: sp = gap[1:]
        else: sp = sp[cut:]
        out.append(sp + txt)
    return out


def direct(src):
    values = {}
    lines = lines_of(src, values)
    mark = src.pick('|/!')
    gap = src.weighted([(6, ' '), (2, ''), (1, '  '), (1, '    ')])
    prefix = src.weighted([(4, ''), (3, 'p '), (2, 'div : p '), (1, 'if True '), (1, 'section .c #i ')])
    wrap = src.pick(['', '    ', '\t', ' '])
    body = block_source(lines, mark, gap, prefix, wrap)
    if any(b and b[-1].isspace() for b in body): body = [b.rstrip() if False else b + '.' if b and b[-1].isspace() else b for b in body]
    head = ['context ' + ', '.join('$' + n for n in values)] if values else []
    script = '\n'.join(head + (['ul'] if wrap else []) + body)
    res = real.render(script, values)
    if not res.ok: raise Violation('unexpected error', script = script, context = values, got = res.show())
    text = '\n'.join(expected_lines(lines, mark, gap, prefix, values))
    elem = lambda tag, at, s: '<%s%s>%s%s</%s>' % (tag, at, s, '\n' * (s[:1] == '\n'), tag)
    if prefix == 'p ': text = elem('p', '', text)
    elif prefix == 'div : p ': text = elem('div', '', elem('p', '', text))
    elif prefix.startswith('section'): text = elem('section', ' class="c" id="i"', text)
    if wrap: text = elem('ul', '', re.sub('\n(?=[^\n])', '\n' + wrap, '\n' + text))
    if res.value != text: raise Violation('lines differ', script = script, context = values, expected = text, got = res.value)
    inds = {l[0] for l in lines[1:] if l}
    return Case(script, len(inds) > 1 or None in lines or bool(values), ['mark' + mark, 'wrapped' if wrap else 'top', 'prefix:' + prefix.strip()], dict(script = script, output = res.value))


def nested_same(src):
    """Moving a block one level deeper only adds the indentation."""
    values = {}
    lines = lines_of(src, values)
    mark, gap = src.pick('|/!'), src.pick([' ', '', '   '])
    prefix = src.pick(['', 'p ', 'b : i '])
    ind = src.pick(['  ', '\t', '    ', ' \t'])
    head = ['context ' + ', '.join('$' + n for n in values)] if values else []
    flat = '\n'.join(head + block_source(lines, mark, gap, prefix, ''))
    deep = '\n'.join(head + ['div', ind + 'div'] + block_source(lines, mark, gap, prefix, ind + ind))
    a, b = real.render(flat, values), real.render(deep, values)
    if not a.ok or not b.ok: raise Violation('unexpected error', script = [flat, deep], context = values, got = [a.show(), b.show()])
    shift = lambda s: re.sub('\n(?=[^\n])', '\n' + ind, s)
    want = '<div>%s\n</div>' % shift('\n<div>%s\n</div>' % shift('\n' + a.value))
    if b.value != want: raise Violation('nesting changes the lines', script = [flat, deep], context = values, expected = want, got = b.value)
    return Case(flat, len(lines) > 2, ['nested'], dict(script = deep, output = b.value))


def values_independent(src):
    """Replacing the values of embeddings (without newlines) changes nothing but their own characters."""
    values = {}
    lines = lines_of(src, values)
    if not values: values['v0'] = ''; lines[-1][1].append(('v', 'v0'))
    mark, gap, prefix = src.pick('|/'), src.pick([' ', '', '  ']), src.pick(['', 'p '])
    script = '\n'.join(['context ' + ', '.join('$' + n for n in values)] + block_source(lines, mark, gap, prefix, ''))
    tokens = {n: '\ue000%s\ue001' % n for n in values}
    vals = {n: src.pick(['', '    ', 'x', '\t\t', ' y', '  ']) for n in values}
    a, b = real.render(script, tokens), real.render(script, vals)
    if not a.ok or not b.ok: raise Violation('unexpected error', script = script, context = vals, got = [a.show(), b.show()])
    want = a.value
    for n in values: want = want.replace(tokens[n], vals[n])
    first = re.sub('^<p>', '', want)
    if prefix == 'p ' and first[:1] == '\n' and not want.endswith('\n</p>'): want = want[:-4] + '\n</p>'
    if b.value != want: raise Violation('values influence the layout', script = script, context = vals, expected = want, got = b.value)
    return Case(script, True, ['values'], dict(script = script, values = vals, output = b.value))


FAMILIES = [('direct', direct, 5000), ('nested', nested_same, 2000), ('values', values_independent, 2000), ('documents', docs, 2500)]
