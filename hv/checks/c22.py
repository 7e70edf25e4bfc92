"""C22 Standard text tags and functions do what they document."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen, PLAIN, MARKUPY, UNI
from hv.model import Blk, TagUse, Ex
from hv.printer import Printer
from hv.families import INDS

TECHNIQUE = 'property-based testing: functions called on random strings and options against independent definitions of the documented transformations; tags applied to random bodies against the definitions applied to the rendered body'
ORACLE = 'independent definitions of dedent, merge, inline, unique, lower, upper, crop and doctype; a capturing tag in the same place for the rendered body; composition of the documented markup for custom and comment'
RULE = ('cases: calls with random strings of 0 to about 60 characters (spaces, line breaks, Unicode) and random options, and scripts with standard tags at random places of random '
        'documents; non-trivial: the result differs from the argument; distinct by call or script')

# definitions of the transformations

def d_dedent(text, full = True):
    lines = text.split('\n')
    if full: return [l.lstrip() for l in lines]
    used = [l for l in lines if l.strip()]
    if not used: return lines
    n = 0
    while all(len(l) > n and l[n].isspace() and l[n] == used[0][n] for l in used): n += 1
    return [l[n:] if l.strip() else l for l in lines]

def d_unique(text, strip = True):
    lines = text.splitlines()
    out = []
    for l in lines:
        if strip:
            l = l.strip()
            if not l: continue
        if l not in out: out.append(l)
    return '\n'.join(out)

def d_merge(text): return ' '.join(text.split())
def d_inline(text): return ''.join('&#10;' if c == '\n' else c for c in text)
def d_lower(text): return text.lower()
def d_upper(text): return text.upper()
def d_doctype(text, value = 'html'): return '<!DOCTYPE ' + value + '>'

def d_crop(s, length = 255, end = '...', killwords = False, maxdrop = 10, leeway = 0):
    if len(s) <= length + leeway: return s
    room = length - len(end)
    cut = s[:room]
    if not killwords:
        i = cut.rfind(' ')
        if i >= 0 and room - i <= maxdrop: cut = cut[:i]
    return cut + end

PLAINF = dict(unique = d_unique, merge = d_merge, inline = d_inline, lower = d_lower, upper = d_upper, doctype = d_doctype)

def solid(lines): return [l for l in lines if l.strip()]

def check_result(name, s, kw, got, **detail):
    """Compares with the definition. Blank lines are not determined for dedent."""
    if name == 'dedent':
        want = d_dedent(s, **kw)
        g = got.split('\n')
        if solid(g) != solid(want): raise Violation('wrong result of dedent', text = s, options = kw, expected = solid(want), got = got, **detail)
        if len(g) > len(want): raise Violation('dedent adds lines', text = s, options = kw, got = got, **detail)
        if kw.get('full', True) and any(l[:1].isspace() for l in g): raise Violation('dedent(full) leaves indentation', text = s, got = got, **detail)
        if not kw.get('full', True) and [bool(l.strip()) for l in g] != [bool(l.strip()) for l in want]: raise Violation('dedent(full=False) removes lines', text = s, got = got, **detail)
        return want
    want = (d_crop if name in ('crop', 'truncate') else PLAINF[name])(s, **kw)
    if got != want: raise Violation('wrong result of ' + name, text = s, options = kw, expected = want, got = got, **detail)
    return want


WS = [' ', ' ', ' ', '  ', '\n', '\n', '\n    ', '\n  ', '\n\n', '\t', '\n\t', '    ']

def a_text(src):
    k = src.int(5)
    out = []
    for _ in range(src.weighted([(1, 0), (3, 2), (4, 5), (3, 10)])):
        if src.bool(0.45): out.append(src.pick(WS) if not src.bool(0.06) else src.pick(['\xa0', '\u3000', '\x0c', '\x0b', '\x85', '\u2028', '\r', '\r\n']))
        elif src.bool(0.35) and out: out.append(src.pick(out))
        else: out.append(src.text(src.weighted([(5, 'abcXYZ'), (1, MARKUPY), (1, UNI), (1, 'ΣσςßİıŞǅﬁ')]), 1, 7, 0.6))
    return ''.join(out)

ORDER = dict(crop = ['length', 'end', 'killwords', 'maxdrop', 'leeway'], truncate = ['length', 'end', 'killwords', 'maxdrop', 'leeway'], unique = ['strip'], dedent = ['full'], doctype = ['value'])

def options(src, name, s = ''):
    if name in ('crop', 'truncate'):
        kw = {}
        if src.bool(0.9): kw['length'] = src.pick([3, 5, 8, 12, 20, max(3, len(s)), max(3, len(s) - 1), max(3, len(s) - 3)]) if src.bool(0.8) else src.range(3, 60)
        if src.bool(0.3):
            e = src.pick(['', '…', '--', '...', ' ', '<&>', ' [more]'])
            if len(e) <= kw.get('length', 255): kw['end'] = e
        if src.bool(0.3): kw['killwords'] = src.bool()
        if src.bool(0.4): kw['maxdrop'] = src.pick([0, 1, 2, 3, 5, 100])
        if src.bool(0.3): kw['leeway'] = src.pick([0, 1, 2, 5])
        return kw
    if name == 'unique': return src.pick([{}, {}, dict(strip = True), dict(strip = False)])
    if name == 'dedent': return src.pick([{}, dict(full = True), dict(full = False), dict(full = False)])
    if name == 'doctype': return src.pick([{}, dict(value = src.pick(['html', 'svg', 'html PUBLIC "x"', '']))])
    return {}

NAMES = ['dedent', 'unique', 'merge', 'inline', 'lower', 'upper', 'crop', 'truncate', 'doctype']


def functions(src):
    """The functions, called in all ways."""
    name = src.weighted([(3, 'dedent'), (3, 'unique'), (2, 'merge'), (1, 'inline'), (1, 'lower'), (1, 'upper'), (4, 'crop'), (1, 'truncate'), (1, 'doctype')])
    s = a_text(src)
    kw = options(src, name, s)
    names = ORDER.get(name, [])
    npos = 0
    while npos < len(names) and names[npos] in kw and src.bool(): npos += 1
    args = [repr_(kw[n]) for n in names[:npos]] + ['%s=%s' % (n, repr_(kw[n])) for n in src.shuffle([n for n in kw if n not in names[:npos]])]
    form = src.int(4)
    imp = src.pick(['', '', 'from hypertag.builtins import $%s' % name])
    if form == 0: e = '%s(s%s)' % (name, ''.join(', ' + a for a in args))
    elif form == 1: e = 's : %s%s' % (name, '(%s)' % ', '.join(args) if args or src.bool() else '')
    elif form == 2: e = '%%%s(%s)' % (name, ', '.join(['s'] + args))
    else: e = "(s : %s(%s))" % (name, ', '.join(args))
    if form == 2 and name in ('crop', 'truncate'): e = e.lstrip('%')
    got = []
    head = 'context $s, $take'
    script = '\n'.join([head] + ([imp] if imp else []) + ['$ take(%s)' % e])
    out = real.render(script, dict(s = s, take = got.append))
    if not out.ok or len(got) != 1 or not isinstance(got[0], str): raise Violation('failed call', script = script, text = s, got = out.show() if not out.ok else repr(got))
    check_result(name, s, kw, got[0], script = script)
    # and the escaped text
    s2 = '\n'.join([head] + ['| {%s}' % e])
    out = real.render(s2, dict(s = s, take = None))
    t = got[0].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if form != 2 and (not out.ok or out.value != t): raise Violation('another text in the document', script = s2, text = s, expected = t, got = out.show())
    return Case((e, s), got[0] != s, [name + ('+options' if kw else ''), 'form:%d' % form], dict(call = e, text = s, result = got[0]))

def repr_(v): return '"%s"' % v.replace('"', '\\x22') if isinstance(v, str) else repr(v)


def refused(src):
    """Calls with wrong arguments are rejected."""
    name = src.pick(['dedent', 'unique', 'merge', 'inline', 'lower', 'upper', 'crop', 'doctype'])
    call = src.pick(['%s()', '%s(s, zz=1)', '%s(s, 1, 2, 3, 4, 5, 6)', '%s(3)', '%s(None)'])
    if name == 'crop' and src.bool(): call = src.pick(['%s(s, 2)', '%s(s, 5, leeway=-1)', '%s(s, 5, "123456")'])
    if name == 'doctype' and call in ('%s(3)', '%s(None)'): raise Skip('any text is ignored')
    script = 'context $s\n| x\n$ zz = ' + call % name
    out = real.render(script, dict(s = a_text(src)))
    if out.ok: raise Violation('a wrong call is accepted', script = script, got = out.show())
    return Case(script, True, ['refused:' + name], dict(script = script, error = out.show()))


class Cap(real.Tag):
    """Takes the rendered body of a tag and gives the defined result."""
    def __init__(self, name, fun): self.name, self.fun, self.calls = name, fun, 0
    def expand(self, body, attrs, kwattrs):
        self.calls += 1
        return self.fun(body.render(), *attrs, **kwattrs)

def e_dedent(text, full = True):
    """Exact form of dedent for whole documents: blank lines vanish with the indentation when all of it is removed."""
    if full: return re.sub(r'(?:(?<=\n)|\A)\s+', '', text)
    return '\n'.join(l if l.strip() else l for l in d_dedent(text, False))

TAGDEFS = dict(PLAINF, dedent = e_dedent)
TAGNAMES = ['dedent', 'unique', 'merge', 'inline', 'lower', 'upper', 'doctype']

def structs(blocks):
    for b in blocks:
        if b.kind == 'struct': yield b
        k = b.kind
        if k in ('struct', 'def') and b.body: yield from structs(b.body)
        elif k == 'if': 
            for _, c in b.clauses: yield from structs(c.blocks or [])
            if b.els: yield from structs(b.els.blocks or [])
        elif k in ('for', 'while'):
            for x in (b.body, b.els):
                if x: yield from structs(x.blocks or [])
        elif k == 'try':
            for x in b.branches: yield from structs(x.blocks or [])

VOID = 'area base br col command embed hr img input link meta param source track wbr'.split()

def lit(v):
    from hv.gen import text_lit
    return Ex('bool', v) if isinstance(v, bool) else text_lit(v)

def tags(src):
    """Standard tags at random places of a document."""
    g = DocGen(src, None, size = src.pick([6, 12, 20]), bad_p = 0.0, W = dict(struct = 10, text = 8, expr = 0))
    doc = g.document()
    all_ = [b for b in structs(doc.blocks) if b.tags[-1].name not in VOID]
    if not all_: raise Skip('no tags')
    n = 0
    used = []
    for b in src.subset(all_, 0.4) or [src.pick(all_)]:
        if any(t.name == '.' for t in b.tags): continue
        name = src.pick(TAGNAMES)
        kw = options(src, name)
        mark = name[:-1] + '7'
        attrs = [('kw', k, lit(v)) if src.bool(0.6) else ('pos', lit(v)) for k, v in kw.items()]
        use = TagUse(mark, attrs)
        i = src.int(len(b.tags) + 1)
        if src.bool(0.4): b.tags[i if i < len(b.tags) else -1] = use
        else: b.tags.insert(i, use)
        used.append(name)
    if not used: raise Skip('no tags')
    text = Printer(src, rate = 0.12, inds = INDS).script(doc)
    real_text = text
    caps = {}
    names = sorted(set(used))
    for name in names: real_text = real_text.replace(name[:-1] + '7', name)
    for name in names: caps['%' + name[:-1] + '7'] = Cap(name[:-1] + '7', TAGDEFS[name])
    cap_text = 'context %s\n' % ', '.join(caps) + text
    if src.bool(0.3): real_text = 'from hypertag.builtins import %s\n' % ', '.join('%' + n for n in names) + real_text
    want = real.render(cap_text, caps)
    got = real.render(real_text)
    if got.ok and want.ok and 'dedent' in used and norm(got.value) == norm(want.value): pass         # blank lines are not determined
    elif got.ok != want.ok or (got.ok and got.value != want.value) or (not got.ok and type(got.exc) is not type(want.exc)):
        raise Violation('the tag differs from the function', script = real_text, expected = want.show(), got = got.show())
    return Case(real_text, got.ok and sum(c.calls for c in caps.values()) > 0, ['tag:' + n for n in names] + ['result:%s' % ('ok' if got.ok else type(got.exc).__name__)], dict(script = real_text, result = got.show()))

def norm(s): return [l for l in s.split('\n') if l.strip()]


def quote(v): return model.quote_attr(str(v))

def custom(src):
    """custom and comment: the documented markup."""
    what = src.pick(['custom', 'custom', 'comment'])
    name = src.pick(['my-tag', 'x-y', 'a', 'DIV', 'svg:rect', 'my_fancy-widget-2', 'é-x'])
    attrs = []
    vals = {}
    for _ in range(src.weighted([(2, 0), (3, 1), (2, 3)]) if what == 'custom' else 0):
        k = src.pick(['id', 'class', 'data-x', 'on', 'a.b'])
        if k in vals: continue
        v = src.weighted([(3, 'str'), (1, 'true'), (1, 'false'), (1, 'int')])
        v = {'true': True, 'false': False, 'int': src.range(0, 99)}.get(v) if v != 'str' else src.text('ab <>&"\'', 0, 6, 0.7)
        vals[k] = v
    form = src.pick(['inline', 'outline', 'verbatim', 'empty', 'blocks', 'head'])
    txt = lambda: 'x' + src.text('ab -<>&"1', 0, 8, 0.7).rstrip() + 'y'
    esc = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    t1, t2 = txt(), txt()
    if form == 'inline': tail, body = [' | ' + t1], esc(t1)
    elif form == 'verbatim': tail, body = [' ! ' + t1 + ' ${'], t1 + ' ${'
    elif form == 'outline': tail, body = ['', '  | ' + t1, '  / ' + t2], '\n  ' + esc(t1) + '\n  ' + t2
    elif form == 'blocks': tail, body = ['', '  p', '    | ' + t1, '', '  b : | ' + t2], '\n  <p>\n    ' + esc(t1) + '\n  </p>\n\n  <b>' + esc(t2) + '</b>'
    elif form == 'head': tail, body = [': | ' + t1, '  b | ' + t2], esc(t1) + '\n  <b>' + esc(t2) + '</b>'
    else: tail, body = [''], ''
    items = ['%s=%s' % (k, repr_(v)) for k, v in vals.items()]
    shown = ''.join(' ' + k if v is True else ' %s=%s' % (k, quote(v)) for k, v in vals.items() if v is not False)
    if what == 'custom':
        first = 'custom ' + ' '.join(['"%s"' % name] + items)
        want = '<%s%s>%s%s</%s>' % (name, shown, body, '\n' * body.startswith('\n'), name)
    else:
        first = 'comment'
        want = '<!--%s%s-->' % (body, '\n' * body.startswith('\n'))
    lines = [first + tail[0]] + tail[1:]
    pre = src.pick(['', 'section\n', 'upper\n', 'div : '])
    script = '\n'.join(lines)
    if pre == 'section\n':
        script = 'section\n' + '\n'.join('    ' + l if l else l for l in lines)
        want = '<section>\n' + '\n'.join('    ' + l if l else l for l in want.split('\n')) + '\n</section>'
    elif pre == 'upper\n':
        script = 'upper\n' + '\n'.join('    ' + l if l else l for l in lines)
        want = '\n'.join(l for l in want.split('\n')).upper()
        want = '\n'.join(['    ' + l if l else l for l in want.split('\n')])
    elif pre == 'div : ':
        script = 'div : ' + script
        want = '<div>' + want + ('\n' if want.startswith('\n') else '') + '</div>'
    out = real.render(script)
    if not out.ok or out.value.strip('\n') != want and pre != 'upper\n': raise Violation('wrong markup of ' + what, script = script, expected = want, got = out.show())
    if pre == 'upper\n' and norm(out.value.upper()) != norm(out.value): raise Violation('upper does not change a tag', script = script, got = out.show())
    # wrong attributes
    bad = src.pick(['custom', 'custom a="1"', 'custom "x" "y"', 'comment 1', 'comment a="1"', 'comment .c'])
    o = real.render(bad + src.pick(['', ' | x', '\n  p']))
    if o.ok or 'TypeErrorEx' not in o.mro(): raise Violation('wrong attributes are accepted', script = bad, got = o.show())
    # as functions
    if what == 'custom' and form == 'inline':
        e = '%%custom(%s)' % ', '.join([repr_(t1), repr_(name)] + [i for i in items if i.split('=')[0].isidentifier()])
        if all(i.split('=')[0].isidentifier() for i in items):
            got = []
            o = real.render('context $take\n$ take(%s)' % e, dict(take = got.append))
            w = '<%s%s>%s</%s>' % (name, shown, t1, name)
            if not o.ok or got != [w]: raise Violation('wrong markup of custom in an expression', expression = e, expected = w, got = got or o.show())
    return Case(script, bool(body) or bool(vals), [what + ':' + form], dict(script = script, result = out.value))


FAMILIES = [('functions', functions, 8000), ('refused', refused, 400), ('tags', tags, 4000), ('custom', custom, 2500)]
