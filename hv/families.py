"""Families of cases shared by several checks."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen, Gen
from hv.model import Ex, Blk, Body, TagUse, Script
from hv.printer import Printer
from hv.compare import check_same

INDS = ('    ', '  ', '\t', ' ', '   ', ' \t', '\t\t')


class Obj:
    """Object with attributes and methods, for scripts."""
    def __init__(self): self.n, self.k, self.name, self.lst = 7, 12, 'o&<b>', [1, 2, 3]
    def meth(self, *args, **kw): return 'meth%s%s' % (args, sorted(kw.items()))
    def __str__(self): return 'Obj<1>'
    def __repr__(self): return 'Obj<1>'

class Rec:
    """Identity function that keeps a log of its calls."""
    def __init__(self, log): self.log = log
    def __call__(self, x = None, *args, **kw):
        self.log.append(same_repr((x, args, sorted(kw.items()))))
        return x
    def __repr__(self): return '<Rec>'

def make_context():
    """A new context on each call: the two sides never share mutable values."""
    return dict(f = Rec([]), n = 7, m = -3, zero = 0, s = 'a<b>&"c"', t = "it's", e = '', xs = [3, 1, 2], ys = [], ws = ['q', 'é', '<'],
                d = {'a': 1, 'b': 2, 'c': 0}, o = Obj(), r = 2.5, yes = True, no = False, nil = None, tup = (4, 5, 6))

TYPES = dict(int = ['n', 'm', 'zero'], str = ['s', 't', 'e'], list = ['xs', 'ys'], strs = ['ws'], dict = ['d'], float = ['r'],
             bool = ['yes', 'no'], none = ['nil'], tuple = ['tup'], obj = ['o'], fn = ['f'])

def context_block(types, src = None):
    names = [n for v in types.values() for n in v]
    return Blk('context', items = [('$', n, None) for n in names])


def both(script, src, ctx = None, inds = INDS, rate = 0.15, runtime = None, printer = None, comments = True):
    """Prints the script, runs the model and the real code. Returns (text, expected, out)."""
    p = printer or Printer(src, rate = rate, inds = inds, comments = comments)
    text = p.script(script)
    a = ctx() if ctx else {}
    b = ctx() if ctx else {}
    exp = model.render(script, {k if k[0] in '$%' else '$' + k: v for k, v in a.items()})
    out = real.render(text, b, runtime)
    return text, exp, out


def doc_family(nontrivial, ctx = False, size = 14, inds = INDS, rate = 0.15, rule = None, post = None, **opts):
    """Differential family over generated documents. nontrivial(features, status) -> bool"""
    def family(src):
        types = TYPES if ctx else None
        g = DocGen(src, types, size = src.pick([size, size, size // 2, size * 2]), **opts)
        doc = g.document()
        if ctx: doc.blocks.insert(0, context_block(types))
        text, exp, out = both(doc, src, make_context if ctx else None, inds, rate)
        check_same(exp, out, text)
        if post: post(src, doc, text, exp, out)
        status = exp[0]
        return Case(text, bool(nontrivial(g.features, status)), sorted(g.features) + ['result:' + status],
                    dict(script = text, result = exp[1] if status == 'ok' else sorted(exp[1])))
    return family


def expr_case(src, e, types = TYPES, ctx = make_context, place = None, rate = 0.2):
    """Evaluates expression `e` through a collecting function: the values of both sides are compared with their types.
    Returns (text, ('ok', repr) | ('err', names))"""
    got, want = [], []
    place = place or src.pick(['text', 'assign', 'attr', 'expr', 'def'])
    def ctx_with(store):
        c = ctx()
        c['take'] = store.append
        return c
    take = lambda x: Ex('call', Ex('var', 'take'), [(None, x)])
    v = lambda: Ex('var', 'val')
    blocks = [context_block(dict(types, fun2 = ['take']))]
    if place == 'expr': blocks += [Blk('expr', expr = take(e))]
    elif place == 'assign': blocks += [Blk('assign', targets = 'val', op = None, expr = e), Blk('expr', expr = take(v()))]
    elif place == 'text': blocks += [Blk('text', mark = '|', head = [('t', ' '), ('x', Ex('qual', take(e), '?'), '{')], tail = [])]
    elif place == 'attr':
        blocks += [Blk('def', name = 'H', attr_body = None, attrs = [('val', None)], head = None, hmark = None, inline = None, body = [Blk('expr', expr = take(v()))]),
                   Blk('struct', tags = [TagUse('H', [('pos', e)])], head = None, hmark = None, inline = None, body = None)]
    else:
        blocks += [Blk('def', name = 'H', attr_body = None, attrs = [('val', e)], head = None, hmark = None, inline = None, body = [Blk('expr', expr = take(v()))]),
                   Blk('struct', tags = [TagUse('H', [])], head = None, hmark = None, inline = None, body = None)]
    script = Script(blocks)
    text = Printer(src, rate = rate, comments = False).script(script)
    a, b = ctx_with(want), ctx_with(got)
    exp = model.render(script, {'$' + k: x for k, x in a.items()})
    out = real.render(text, b)
    exp_r = ('ok', [same_repr(x) for x in want]) if exp[0] == 'ok' else exp
    if out.ok: out_r = real.Out(True, [same_repr(x) for x in got], None)
    else: out_r = out
    check_same(exp_r, out_r, text)
    # functions called while evaluating: the same ones, in the same order, with the same arguments
    log = lambda c: c['f'].log if isinstance(c.get('f'), Rec) else []
    if log(a) != log(b): raise Violation('different calls of functions', script = text, expected = log(a), got = log(b))
    return text, exp_r


def same_repr(x):
    if isinstance(x, (set, frozenset)): return 'set' + repr(sorted(map(same_repr, x)))
    if isinstance(x, dict): return '{%s}' % ', '.join('%s: %s' % (same_repr(k), same_repr(v)) for k, v in x.items())
    if isinstance(x, list): return '[%s]' % ', '.join(map(same_repr, x))
    if isinstance(x, tuple): return '(%s,)' % ', '.join(map(same_repr, x))
    r = repr(x)
    if ' at 0x' in r: return '<%s>' % type(x).__name__
    return type(x).__name__ + ':' + r


# parsing of the output

import html as _html, re

class Bad(Exception): pass

_tag   = re.compile(r'<(/?)([^\s<>/=!][^\s<>/=]*)((?:\s+[^\s=<>/"\']+(?:=(?:"[^"]*"|\'[^\']*\'))?)*)\s*(/?)>')
_attr  = re.compile(r'\s+([^\s=<>/"\']+)(?:=("[^"]*"|\'[^\']*\'))?')

def parse_html(text):
    """Strict parser of elements: returns a list of items: str (text) or [name, [(attr, value or True)], children, void]."""
    top = []
    stack = [(None, top)]
    pos = 0
    while pos < len(text):
        i = text.find('<', pos)
        if i < 0: i = len(text)
        if i > pos: stack[-1][1].append(text[pos:i])
        if i == len(text): break
        if text.startswith('<!--', i):
            j = text.index('-->', i) + 3
            stack[-1][1].append(text[i:j])
            pos = j
            continue
        m = _tag.match(text, i)
        if not m: raise Bad('malformed markup at %r' % text[i:i + 40])
        close, name, attrs, void = m.groups()
        pos = m.end()
        if close:
            if attrs or void or stack[-1][0] != name: raise Bad('unexpected </%s>' % name)
            stack.pop()
            continue
        lst, p = [], 0
        while p < len(attrs):
            a = _attr.match(attrs, p)
            if not a: raise Bad('malformed attributes %r' % attrs)
            lst.append((a.group(1), True if a.group(2) is None else _html.unescape(a.group(2)[1:-1])))
            p = a.end()
        item = [name, lst, [], bool(void)]
        stack[-1][1].append(item)
        if not void: stack.append((name, item[2]))
    if len(stack) > 1: raise Bad('element <%s> is not closed' % stack[-1][0])
    return top

def elements(items):
    """Structure without text and attributes."""
    return [(x[0], elements(x[2])) for x in items if not isinstance(x, str)]

def text_of(items):
    return ''.join(x if isinstance(x, str) else text_of(x[2]) for x in items)

def all_elements(items):
    for x in items:
        if not isinstance(x, str):
            yield x
            yield from all_elements(x[2])


# exceptions of expressions

class Own(Exception): pass
class OwnType(TypeError): pass
class OwnKey(KeyError): pass
class OwnStop(StopIteration): pass
class OwnBase(BaseException): pass
OWN = [Own, OwnType, OwnKey, OwnStop, OwnBase, TypeError, ValueError, KeyError, IndexError, AttributeError, NameError, UnboundLocalError, StopIteration, ZeroDivisionError, AssertionError, RuntimeError, RecursionError, LookupError, ImportError,
       OSError, FileNotFoundError, SyntaxError, IndentationError, NotImplementedError, UnicodeDecodeError, OverflowError, ArithmeticError, EOFError, Exception, GeneratorExit, MemoryError, Warning]

class Faulty:
    """Every documented use of this value raises the exception."""
    def __init__(self, boom, only): self.__dict__.update(_boom = boom, _only = only)
    def __str__(self): return self._boom() if self._only == 'str' else 'S'
    def __bool__(self): return self._boom() if self._only == 'bool' else True
    def __iter__(self): return self._boom() if self._only == 'iter' else iter(self._items())
    def _items(self):
        yield 1
        if self._only == 'next': self._boom()
    def __getattr__(self, name): self._boom()
    def __getitem__(self, i): self._boom()
    def __call__(self, *a, **k): self._boom()
    def __add__(self, x): self._boom()
    __radd__ = __mul__ = __rmul__ = __sub__ = __lt__ = __gt__ = __eq__ = __ne__ = __contains__ = __floordiv__ = __add__
    __hash__ = None

def own(src):
    """An exception raised by an expression of the script surfaces as it is (the very same object), wherever the expression is."""
    cls = src.pick(OWN)
    exc = cls('utf-8', b'x', 0, 1, 'z') if cls is UnicodeDecodeError else cls(*src.pick([(), ('message',), ('a', 1)])) if cls not in (SyntaxError, IndentationError) else cls('message')
    calls = []
    def boom(*a, **k):
        calls.append(1)
        raise exc
    only = src.pick(['str', 'bool', 'iter', 'next'])
    if issubclass(cls, StopIteration) and only == 'next': only = 'str'
    ctx = dict(boom = boom, V = Faulty(boom, only), ident = lambda x, *a: x, one = 1)
    # an expression that raises when evaluated
    e = src.pick(['boom()', 'boom(1, k=one)', 'one:boom', 'one : boom(2)', 'V.attr', 'V[0]', 'V()', 'V + 1', '1 + V', 'V == 1', '1 in V', 'V < 2', '[1, boom()]', '(boom(), 2)', '{"k": boom()}', '{boom(), 1}', 'ident(boom())', 'ident(1, boom())', 'one:ident(boom())',
                  'not boom()', 'one and boom()', '0 or boom()', 'boom() if one else 2', '3 if boom() else 4', '2 if 0 else boom()', '"a" boom()', '"x{boom()}y"', "'$boom()'", '[1,2][boom()]', '"abc"[boom():2]', 'str(boom())', '-boom()', 'boom() ** 2', '%p(boom())', '%p("b", title=boom())', 'ident(%b(boom())) ', 'boom()!'])
    e = '(%s)' % e if ':' in e or e[0] == '{' or src.bool(0.2) else e
    form = src.weighted([(6, 'expr'), (1, 'str'), (1, 'bool'), (1, 'iter'), (1 if not issubclass(cls, StopIteration) else 0, 'next'), (1, 'python tag')])
    if form == 'expr':
        lines = src.pick([['| a {%s} b'], ['/ a {%s}'], ['! a', '$ take(%s)'], ['$ %s'], ['$ x = %s'], ['$x = 1', '$x += (%s)'], ['$ x, y = %s'], ['p title=(%s)'], ['p title=(%s) class="x"'], ['p title={%s}'], ['b #{%s} | x'], ['if %s', '    | x'], ['if 0 | y', 'elif %s', '    | x'],
                          ['while %s', '    | x'], ['for i in %s', '    | x'], ['for i in [1, 2]', '    | {i} {%s}'], ['K {%s}'], ['K a={%s}'], ['K (%s)'], ['D'], ['@ %s'], ['| a', '  b {%s}', '  c'], ['p : b : | {%s}'], ['K 1 | {%s}'], ['L | x'], ['custom {%s} | x'], ['p | x {%%i("y", title=%s)}'], ['P {%s} | body'], ['| x {%%P("y", %s)}']])
    else:
        lines = {'str': ['| a {V} b', '/ $V', 'p title=$V', '$ x = "<{V}>"', 'b .x class=$V | x'], 'bool': ['if V | x', 'while V | x', '| {1 if V else 2}', '| {not V}', '| {V and 1}', '| {V!}'], 'iter': ['for i in V | x', '$ a, b = V', '$ x = list(V)'], 'next': ['for i in V | x', '$ a, b = V', '$ x = list(V)'],
                 'python tag': ['Q', 'Q | x', 'Q 1 a=2 : p', 'p : Q | x', 'p | {%Q("x")}', '| a {%Q("x", 1)}', 'i title={%Q("")}', '$ x = %Q("y")', 'P | {%Q("")}']}[form]
        lines = [src.pick(lines)]
        ctx['V'] = Faulty(boom, form)
        if form == 'bool' and lines[0] == 'while V | x' : ctx['V'] = Faulty(boom, 'bool')
    text = [l.replace('%s', e).replace('%%', '%') if '%s' in l else l for l in lines]
    step = src.pick(INDS)
    def nest(text, depth):
        for _ in range(depth):
            k = src.pick(['tag', 'chain', 'if', 'else', 'for', 'while', 'def', 'body', 'inline', 'sib', 'py', 'markup', 'null'])
            sub = [step + l for l in text]
            if k == 'tag': text = [src.pick(['div', 'p .c', 'ul title="t"'])] + sub
            elif k == 'chain': text = ['div : p'] + sub
            elif k == 'null': text = ['.'] + sub
            elif k == 'if': text = ['if one'] + sub
            elif k == 'else': text = ['if 0', step + '| no', 'else'] + sub
            elif k == 'for': text = ['for _i in [1, 2]'] + sub
            elif k == 'while': text = ['$_w%d = 2' % len(text), 'while _w%d' % len(text), step + '$_w%d -= 1' % len(text)] + sub
            elif k == 'body': text = ['B'] + sub
            elif k == 'inline': text = ['B : B'] + sub
            elif k == 'py': text = ['P'] + sub
            elif k == 'markup': text = ['dedent'] + sub
            elif k == 'sib': text = ['| before', ''] + text + ['', 'p | after']
        return text
    text = nest(text, src.int(4))
    defs = ['% K a @none'.replace(' @none', ''), step + '| {a}'] if not any(l.strip().startswith('K') and '|' in l for l in text) else ['% K @body a', step + '@ body']
    defs += ['% D a=(' + e + ')', step + '| {a}', '% L @body', step + 'div', step * 2 + '| {' + e + '}', step * 2 + '@ body', '% B @body', step + 'section', step * 2 + '@ body']
    if src.bool(0.25):
        defs += ['% Outer'] + [step + l for l in text]
        text = ['Outer']
    class P(real.Tag):
        def expand(self, body, attrs, kwattrs): return str(attrs) + (body if isinstance(body, str) else body.render())
    class Q(real.Tag):
        def expand(self, body, attrs, kwattrs): boom()
    script = '\n'.join(['context $boom, $V, $ident, $one, $take, %P, %Q'] + defs + text)
    try: out = real.render(script, dict(ctx, take = lambda x: None, **{'%P': P(), '%Q': Q()}))
    except BaseException as ex: out = real.Out(False, None, ex)
    detail = dict(script = script, exception = repr(exc), V = form)
    if out.ok: raise Violation('an exception of an expression is lost', output = out.value, **detail)
    if out.exc is not exc: raise Violation('another exception than the one raised by the expression', got = out.show(), raised = len(calls), **detail)
    return Case((script, cls.__name__), True, ['own:' + cls.__name__, 'form:' + form], dict(script = script, exception = repr(exc)))
