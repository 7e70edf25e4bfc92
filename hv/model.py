"""Reference model of the Hypertag language, written from its documentation: an abstract syntax of scripts, static name
resolution, an expression evaluator and a two-phase interpreter (translation to a tree of nodes, then rendering to text).
It shares no code with the implementation. Scripts in concrete syntax are produced by printer.py.
"""
import re, operator, builtins as _builtins

from hv.src import Skip


########################################################################################################################
###  ERRORS

class MErr(Exception):
    """A Hypertag error that the model predicts; `names`: acceptable exception classes."""
    def __init__(self, *names):
        Exception.__init__(self, '/'.join(names))
        self.names = names
        self.line = None


class StaticErr(Exception):
    """Errors detected before anything is executed; `names`: set of all acceptable exception classes."""
    def __init__(self, names): self.names = names


def unspecified(why):
    raise Skip('unspecified: ' + why)


########################################################################################################################
###  ABSTRACT SYNTAX

class Ex:
    """Expression. k: kind; a, b, c: operands, depending on the kind."""
    __slots__ = ('k', 'a', 'b', 'c', 'slot')
    def __init__(self, k, a = None, b = None, c = None):
        self.k, self.a, self.b, self.c, self.slot = k, a, b, c, None
    def __repr__(self): return 'Ex(%s)' % ', '.join(repr(x) for x in (self.k, self.a, self.b, self.c) if x is not None)


class Blk:
    """Block. kind + arbitrary fields."""
    margin = 0          # blank lines before the block
    mod    = ''         # '', '<', '...'
    note   = None       # inline comment (text) at the end of the block's first line, where allowed
    def __init__(self, kind, **fields):
        self.kind = kind
        self.__dict__.update(fields)
    def __repr__(self): return 'Blk(%r)' % self.__dict__

# kinds of blocks and their fields:
#   text     mark '|' '/' '!', head: [part] or None, tail: [(indent, [part]) or None for a blank line]
#   embed    expr
#   struct   tags: [TagUse], head: [part] or None with hmark (headline before nested blocks), inline: Blk text/embed or None, body: [Blk] or None
#   assign   targets, op, expr            expr     expr
#   if       clauses: [(cond, Body)], els: Body or None
#   try      branches: [Body], short: bool
#   for      targets, expr, body: Body or None, els: Body or None
#   while    cond, body, els
#   def      name, attr_body, attrs: [(name, Ex or None)], head/hmark/inline/body as in struct
#   import   path, items: [(mark, name, rename or None)] or '*'
#   context  items: [[(mark, name, rename)]]
#   comment  text lines;      pass
# parts of text: ('t', str), ('esc', char), ('x', Ex, form) with form '$' or '{', qualifier included in Ex as 'qual'
# targets: a string, or a list of targets (unpacking)


class Body:
    """Body of a clause of a control block: inline text block, or nested blocks, or both None (empty)."""
    def __init__(self, inline = None, blocks = None):
        self.inline, self.blocks = inline, blocks
    def __repr__(self): return 'Body(%r)' % self.__dict__


class TagUse:
    def __init__(self, name, attrs = ()):
        self.name, self.attrs, self.slot = name, list(attrs), None      # name '.' = the null tag
    def __repr__(self): return 'Tag(%r, %r)' % (self.name, self.attrs)
# attrs: ('pos', Ex) | ('kw', name, Ex) | ('.', text or Ex) | ('#', text or Ex)


########################################################################################################################
###  VALUES

_SIMPLE = {'\\': '\\', "'": "'", '"': '"', 'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}

def decode(s):
    """Python's escape sequences in (a fragment of) a string literal, decoded by hand."""
    out, i, n = [], 0, len(s)
    while i < n:
        ch = s[i]
        if ch != '\\' or i + 1 >= n:
            out.append(ch); i += 1
            continue
        nxt = s[i + 1]
        if nxt in _SIMPLE:
            out.append(_SIMPLE[nxt]); i += 2
        elif nxt in '01234567':
            j = i + 1
            while j < n and j < i + 4 and s[j] in '01234567': j += 1
            out.append(chr(int(s[i + 1:j], 8))); i = j
        elif nxt in 'xuU':
            size = {'x': 2, 'u': 4, 'U': 8}[nxt]
            digits = s[i + 2:i + 2 + size]
            if len(digits) < size or not all(c in '0123456789abcdefABCDEF' for c in digits): unspecified('incomplete escape code')
            code = int(digits, 16)
            if code > 0x10ffff: unspecified('incomplete escape code')
            out.append(chr(code)); i += 2 + size
        else:
            out.append(ch); i += 1
    return ''.join(out)


def to_str(v):
    """str(value), as embedded in text and strings; None is an error."""
    if v is None: raise MErr('NoneStringEx')
    s = str(v)
    if ' at 0x' in s: unspecified('memory address in output')
    return s


def limit(v):
    """Guard against values whose size would explode."""
    if isinstance(v, (int,)) and not isinstance(v, bool) and (v > 10 ** 60 or v < -10 ** 60): unspecified('huge value')
    if isinstance(v, (str, list, tuple, bytes)) and len(v) > 5000: unspecified('huge value')
    return v


def _mul(x, y):
    for p, q in ((x, y), (y, x)):
        if isinstance(p, (str, list, tuple, bytes)) and isinstance(q, int) and len(p) * max(q, 0) > 5000: unspecified('huge value')
    return limit(x * y)

def _pow(x, y):
    if isinstance(y, (int, float)) and (y > 40 or y < -40): unspecified('huge value')
    if isinstance(x, (int, float)) and (x > 10 ** 6 or x < -10 ** 6): unspecified('huge value')
    v = x ** y
    if isinstance(v, complex): unspecified('complex value')
    return limit(v)

def _shl(x, y):
    if isinstance(y, int) and y > 200: unspecified('huge value')
    return limit(x << y)

def _mod(x, y):
    if isinstance(x, (str, bytes)): unspecified('string formatting')
    return x % y

OPS = {'+': operator.add, '-': operator.sub, '*': _mul, '/': operator.truediv, '//': operator.floordiv, '%': _mod, '**': _pow,
       '<<': _shl, '>>': operator.rshift, '&': operator.and_, '|': operator.or_, '^': operator.xor,
       '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge, '==': operator.eq, '!=': operator.ne, '<>': operator.ne,
       'in': lambda x, y: x in y, 'not in': lambda x, y: x not in y, 'is': lambda x, y: _is(x, y), 'is not': lambda x, y: not _is(x, y)}

def _is(x, y):
    # identity of immutable values is an implementation detail of the Python interpreter
    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool): return x is y
    if isinstance(x, (int, float, str, bytes, tuple, complex)) and type(x) is type(y) and x == y: unspecified('identity of equal constants')
    return x is y


########################################################################################################################
###  EXPRESSIONS

def ev(e, st):
    return EVAL[e.k](e, st)

def _num(e, st):
    try: return int(e.a)
    except ValueError: return float(e.a)

def _fstr(e, st):
    """a: quote; b: parts ('t', source) | ('esc', char) | ('x', Ex, form)"""
    out = []
    for p in e.b:
        if p[0] == 't': out.append(decode(p[1]))
        elif p[0] == 'esc': out.append(p[1])
        else: out.append(to_str(ev(p[1], st)))
    return ''.join(out)

def _var(e, st):
    return st.get(e.slot)

def _tag(e, st):
    return st.tag_value(e.slot)

def _dict(e, st):
    items = []
    for k, v in e.a:
        kk = ev(k, st)
        items.append((kk, ev(v, st)))
    return dict(items)

def _call(e, st):
    fun = ev(e.a, st)
    return st.call(fun, *_args(e.b, st))

def _args(items, st):
    pos, kw = [], {}
    for name, x in items:
        v = ev(x, st)
        if name is None: pos.append(v)
        else:
            if name in kw: unspecified('repeated keyword argument')
            kw[name] = v
    return pos, kw

def _slice(e, st):
    obj = ev(e.a, st)
    return obj[slice(*[None if x is None else ev(x, st) for x in e.b])]

def _chain(e, st):
    """a: first, b: [(op, Ex)], c: True if negated at the beginning"""
    v = ev(e.a, st)
    if e.c:
        if v is None: unspecified('-None')
        v = -v
    for op, x in e.b:
        w = ev(x, st)
        v = OPS[op](v, w)
    return limit(v)

def _pipe(e, st):
    v = ev(e.a, st)
    for f, args in e.b:
        fun = ev(f, st)
        pos, kw = _args(args or (), st)
        v = st.call(fun, [v] + pos, kw)
    return v

def _concat(e, st):
    return limit(''.join(to_str(ev(x, st)) for x in e.a))

def _and(e, st):
    v = ev(e.a[0], st)
    for x in e.a[1:]:
        if not v: return v
        v = ev(x, st)
    return v

def _or(e, st):
    v = ev(e.a[0], st)
    for x in e.a[1:]:
        if v: return v
        v = ev(x, st)
    return v

def _ifelse(e, st):
    if ev(e.b, st): return ev(e.a, st)
    return ev(e.c, st) if e.c is not None else ''

def _qual(e, st):
    try: v = ev(e.a, st)
    except Exception as ex:
        if isinstance(ex, Skip): raise
        if e.b == '?': return ''
        raise
    if v: return v
    if e.b == '?': return ''
    raise MErr('FalseValueEx')

EVAL = {
    'num': _num, 'str': _fstr, 'raw': lambda e, st: e.b, 'bool': lambda e, st: e.a, 'none': lambda e, st: None,
    'var': _var, 'tag': _tag,
    'tuple': lambda e, st: tuple([ev(x, st) for x in e.a]), 'list': lambda e, st: [ev(x, st) for x in e.a],
    'set': lambda e, st: set([ev(x, st) for x in e.a]), 'dict': _dict,
    'call': _call, 'index': lambda e, st: ev(e.a, st)[ev(e.b, st)], 'slice': _slice,
    'member': lambda e, st: getattr(ev(e.a, st), e.b),
    'qual': _qual, 'chain': _chain, 'pipe': _pipe, 'concat': _concat,
    'not': lambda e, st: not ev(e.a, st), 'and': _and, 'or': _or, 'if': _ifelse,
    'paren': lambda e, st: ev(e.a, st),
}

def children(e):
    """Direct subexpressions."""
    k = e.k
    if k == 'str': return [p[1] for p in e.b if p[0] == 'x']
    if k in ('tuple', 'list', 'set', 'concat', 'and', 'or'): return list(e.a)
    if k == 'dict': return [x for kv in e.a for x in kv]
    if k == 'call': return [e.a] + [x for _, x in e.b]
    if k == 'index': return [e.a, e.b]
    if k == 'slice': return [e.a] + [x for x in e.b if x is not None]
    if k in ('member', 'qual', 'not', 'paren'): return [e.a]
    if k == 'chain': return [e.a] + [x for _, x in e.b]
    if k == 'pipe': return [e.a] + [y for f, args in e.b for y in [f] + [x for _, x in args or ()]]
    if k == 'if': return [x for x in (e.b, e.a, e.c) if x is not None]
    return []

def walk_ex(e):
    yield e
    for c in children(e): yield from walk_ex(c)

def ex_size(e): return sum(1 for _ in walk_ex(e))


########################################################################################################################
###  NAMES

class Slot:
    __slots__ = ('name', 'outer', 'const')
    def __init__(self, name, outer): self.name, self.outer = name, outer


class Scope:
    def __init__(self, parent = None): self.parent, self.names, self.made = parent, {}, []

    def lookup(self, sym):
        s = self
        while s is not None:
            if sym in s.names: return s.names[sym]
            s = s.parent
        return None

    def define(self, sym):
        """New definition, hides any previous one."""
        slot = Slot(sym, self.lookup(sym))
        self.names[sym] = slot
        self.made.append(slot)
        return slot

    def assign(self, sym):
        """Assignment: the same variable if it's already present in this very scope."""
        return self.names.get(sym) or self.define(sym)


class Analyser:
    """Links names with their definitions; the slots are stored in the syntax tree."""

    def __init__(self, builtins, context = None, modules = None):
        self.root = Scope()
        self.errors = set()
        self.first = None           # (name of the error, node) - the first one in the order of the text
        for sym in builtins: self.root.define(sym)
        self.top = Scope(self.root)
        self.context = context or {}
        self.modules = modules
        self.prolog = True

    def err(self, name, node):
        self.errors.add(name)
        if self.first is None: self.first = (name, node)

    def ex(self, e, sc):
        if e is None: return
        for x in walk_ex(e):
            if x.k == 'var':
                x.slot = sc.lookup('$' + x.a)
                if x.slot is None: self.err('NameErrorEx', x)
            elif x.k == 'tag':
                x.slot = sc.lookup('%' + x.a)
                if x.slot is None: self.err('NameErrorEx', x)

    def parts(self, parts, sc):
        for p in parts or ():
            if p[0] == 'x': self.ex(p[1], sc)

    def tags(self, tags, sc):
        for t in tags:
            for a in t.attrs:
                x = a[-1]
                if isinstance(x, Ex): self.ex(x, sc)
            if t.name != '.':
                t.slot = sc.lookup('%' + t.name)
                if t.slot is None: self.err('UndefinedTagEx', t)

    def targets(self, t, sc, out):
        if isinstance(t, str):
            slot = sc.assign('$' + t)
            out.append(slot)
            return slot
        return [self.targets(x, sc, out) for x in t]

    def inner(self, b, sc, control):
        """Body of a struct or definition."""
        self.parts(getattr(b, 'head', None), sc)
        if b.inline is not None: self.block(b.inline, sc, control)
        self.blocks(b.body, sc, control)

    def blocks(self, blocks, sc, control):
        for b in blocks or (): self.block(b, sc, control)

    def clause(self, body, sc):
        if body is None: return
        if body.inline is not None: self.block(body.inline, sc, True)
        self.blocks(body.blocks, sc, True)

    def block(self, b, sc, control = False):
        k = b.kind
        if k not in ('comment', 'context'): self.prolog = False
        if k == 'text':
            if b.mark == '!': return
            self.parts(b.head, sc)
            for line in b.tail:
                if line: self.parts(line[1], sc)
        elif k == 'embed': self.ex(b.expr, sc)
        elif k == 'struct':
            sub = Scope(sc)
            self.tags(b.tags, sub)
            self.inner(b, sub, control)
            b.local = sub.made
        elif k == 'assign':
            self.ex(b.expr, sc)
            if b.op:
                if not isinstance(b.targets, str): self.err('SyntaxErrorEx', b)
                elif sc.lookup('$' + b.targets) is None: self.err('NameErrorEx', b)
            b.slots = self.targets(b.targets, sc, [])
        elif k == 'expr': self.ex(b.expr, sc)
        elif k == 'if':
            for cond, body in b.clauses:
                self.ex(cond, sc)
                self.clause(body, sc)
            self.clause(b.els, sc)
        elif k == 'try':
            for body in b.branches: self.clause(body, sc)
        elif k == 'for':
            self.ex(b.expr, sc)
            b.slots = self.targets(b.targets, sc, [])
            self.clause(b.body, sc)
            self.clause(b.els, sc)
        elif k == 'while':
            self.ex(b.cond, sc)
            self.clause(b.body, sc)
            self.clause(b.els, sc)
        elif k == 'def':
            if control: self.err('SyntaxErrorEx', b)
            names = [n for n, _ in b.attrs] + ([b.attr_body] if b.attr_body else [])
            if len(set(names)) < len(names): self.err('SyntaxErrorEx', b)
            sub = Scope(sc)
            for n, x in b.attrs: self.ex(x, sub)
            b.attr_slots = {n: sub.define('$' + n) for n in names}
            self.inner(b, sub, False if not control else True)
            b.local = sub.made
            b.slot = sc.define('%' + b.name)
        elif k == 'import':
            if control: self.err('SyntaxErrorEx', b)
            self.import_(b, sc)
        elif k == 'context':
            if not self.prolog: self.err('SyntaxErrorEx', b)
            b.slots = []
            for mark, name, rename in b.items:
                if mark + name not in self.context: self.err('ImportErrorEx', b)
                b.slots.append(sc.define(mark + (rename or name)))

    def import_(self, b, sc):
        b.slots = []
        symbols = self.modules(b.path) if self.modules else None
        if symbols is None:
            self.err('ModuleNotFoundEx', b)
            return
        if b.items == '*': items = [(s[0], s[1:], None) for s in symbols if s[1] != '_']
        else: items = b.items
        for mark, name, rename in items:
            if mark + name not in symbols:
                self.err('ImportErrorEx', b)
                continue
            b.slots.append((sc.define(mark + (rename or name)), symbols[mark + name]))


########################################################################################################################
###  NODES

INLINE = None

class N:
    """Node of the model's document tree. indent: None (inline) | absolute ('\\n' + whitespace) | relative whitespace"""
    __slots__ = ('tag', 'name', 'attrs', 'kw', 'body', 'text', 'outline', 'indent', 'margin')
    def __init__(self, tag = None, name = None, attrs = (), kw = None, body = (), text = None, indent = INLINE, margin = False):
        self.tag, self.name, self.attrs, self.kw = tag, name, list(attrs), dict(kw or {})
        self.body, self.text, self.outline, self.margin = list(body), text, False, margin
        self.indent = None
        self.set_indent(indent)

    def set_indent(self, q):
        self.indent = q
        if q is not None:
            for c in self.body: c.relative(q)

    def relative(self, base):
        if self.indent is None:
            for c in self.body: c.relative(base)
        elif self.indent[:1] == '\n':
            assert self.indent.startswith(base), (self.indent, base)
            self.indent = self.indent[len(base):]

    def copy(self):
        n = N.__new__(N)
        n.tag, n.name, n.attrs, n.kw = self.tag, self.name, list(self.attrs), dict(self.kw)
        n.body, n.text, n.outline, n.indent, n.margin = [c.copy() for c in self.body], self.text, self.outline, self.indent, self.margin
        return n

    def render(self):
        text = '\n' if self.outline else ''
        if self.text is not None: text += self.text
        elif self.tag is not None: text += self.tag.expand(self)
        else: text += render_nodes(self.body)
        if self.indent:
            assert self.indent[:1] != '\n'
            text = re.sub('\n(?=[^\n])', lambda m: '\n' + self.indent, text)
        return text


def render_nodes(nodes):
    return ''.join(n.render() for n in nodes)

def set_indent(nodes, q):
    for n in nodes: n.set_indent(q)

def set_outline(nodes, value = True):
    for n in nodes:
        if not n.margin:
            n.outline = value
            return


def quote_attr(value):
    v = value.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    v = v.replace('\n', '&#10;').replace('\r', '&#13;').replace('\t', '&#9;')
    if '"' in v:
        if "'" in v: return '"' + v.replace('"', '&quot;') + '"'
        return "'" + v + "'"
    return '"' + v + '"'


class MTag:
    """A tag of the model: function of the rendered body and attributes."""
    def __init__(self, name, fun): self.name, self.fun = name, fun
    def expand(self, node): return self.fun(render_nodes(node.body), node.attrs, node.kw)
    def __call__(self, *args, **kw): return self.call(*args, **kw)
    def call(self, *args, **kw):
        body = args[0] if args else None
        return self.fun('' if body is None else str(body), list(args[1:]), kw)


class MarkupTag(MTag):
    def __init__(self, name, void = False):
        self.name, self.void = name, void
    def fun(self, body, attrs, kw):
        return markup(self.name, self.void, body, attrs, kw)


def markup(name, void, body, attrs, kw):
    if attrs: raise MErr('TypeErrorEx')
    head = name
    for k, v in kw.items():
        if v is True: head += ' ' + k
        elif v is False: pass
        else: head += ' ' + k + '=' + quote_attr(str(v))
        if ' at 0x' in str(v): unspecified('memory address in output')
    if void:
        if body: raise MErr('VoidTagEx')
        return '<' + head + ' />'
    return '<' + head + '>' + body + ('\n' if body[:1] == '\n' else '') + '</' + name + '>'


class NullTag:
    name = 'null'
    def expand(self, node): return render_nodes(node.body)

NULL = NullTag()

class NativeTag:
    def __init__(self, name): self.name = name
    def expand(self, node): return render_nodes(node.body)


VOID    = "area base br col command embed hr img input link meta param source track wbr".split()
NONVOID = ("a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body "
           "button canvas caption center cite code colgroup data datalist dd del details dfn dialog dir "
           "div dl dt em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 "
           "head header html i iframe ins kbd label legend li main map mark meter nav noframes noscript "
           "object ol optgroup option output p picture pre progress q rp rt ruby s samp script section "
           "select small span strike strong style sub summary sup svg table tbody td template textarea "
           "tfoot th thead time title tr tt u ul var video").split()

STD_TAGS = {}
for _n in NONVOID:
    STD_TAGS[_n] = MarkupTag(_n)
    STD_TAGS[_n.upper()] = MarkupTag(_n.upper())
for _n in VOID:
    STD_TAGS[_n] = MarkupTag(_n, True)
    STD_TAGS[_n.upper()] = MarkupTag(_n.upper(), True)

def _custom(body, attrs, kw):
    if len(attrs) != 1: raise MErr('TypeErrorEx')
    return markup(attrs[0], False, body, (), kw)
STD_TAGS['custom'] = MTag('custom', _custom)

def _comment(body, attrs, kw):
    if attrs or kw: raise MErr('TypeErrorEx')
    return '<!--' + body + ('\n' if body[:1] == '\n' else '') + '-->'
STD_TAGS['comment'] = MTag('comment', _comment)


def std_lower(text): return text.lower()
def std_upper(text): return text.upper()
def std_inline(text): return text.replace('\n', '&#10;')
def std_merge(text): return ' '.join(text.split())          # the whitespace of str.split() equals regex \s, tested in C22

def _simple_tag(name, fun):
    def expand(body, attrs, kw): return fun(body, *attrs, **kw)
    STD_TAGS[name] = MTag(name, expand)

_simple_tag('lower', std_lower)
_simple_tag('upper', std_upper)
_simple_tag('inline', std_inline)

STD_VARS = {'lower': std_lower, 'upper': std_upper, 'inline': std_inline}
HY_ONLY_VARS = ['doctype', 'dedent', 'unique', 'merge', 'cycle', 'changes', 'crop', 'truncate']
HY_ONLY_TAGS = ['doctype', 'dedent', 'unique', 'merge']

def html_escape(text):
    out = []
    for ch in text:
        out.append('&amp;' if ch == '&' else '&lt;' if ch == '<' else '&gt;' if ch == '>' else ch)
    return ''.join(out)


########################################################################################################################
###  INTERPRETER

class MBody:
    """Value of a body attribute: a list of nodes; the subset of the DOM interface that scripts may use."""
    def __init__(self, nodes): self.nodes = list(nodes)
    def __bool__(self): return bool(self.nodes)
    def __len__(self): return len(self.nodes)
    def __iter__(self): return iter(self.nodes)
    def __str__(self): unspecified('str of a DOM')
    __repr__ = __str__
    def __getitem__(self, pos):
        if isinstance(pos, int): return self.nodes[pos]
        if isinstance(pos, slice): return MBody(self.nodes[pos])
        return self.select(pos)
    def render(self): return render_nodes(self.nodes)
    def walk(self):
        for n in self.nodes: yield from walk_node(n)
    def select(self, tag = None, attr = None, **kw):
        return MBody([n for n in self.walk() if self._match(n, tag, attr, kw)])
    def skip(self, tag = None, attr = None, **kw):
        def prune(nodes):
            out = []
            for n in nodes:
                if self._match(n, tag, attr, kw): continue
                m = n.copy()
                m.body = prune(n.body)
                out.append(m)
            return out
        return MBody(prune(self.nodes))
    @staticmethod
    def _match(n, tag, attr, kw):
        if tag is not None and n.name != tag: return False
        for k in ([attr] if attr is not None else []) + list(kw):
            if k not in n.kw: return False
            if k in kw and n.kw[k] != kw[k]: return False
        return True

N.select = lambda self, *a, **k: MBody([self]).select(*a, **k)


def walk_node(n):
    yield n
    for c in n.body: yield from walk_node(c)


class MHyper:
    """A hypertag: definition + the run (state) it belongs to."""
    def __init__(self, d, st): self.d, self.st, self.name = d, st, d.name
    def __call__(self, *args, **kw): return self.call(*args, **kw)
    def call(self, *args, **kw):
        body = args[0] if args else None
        nodes = [N(text = str(body))] if body is not None else []
        keep = self.st.indentation
        self.st.indentation = '\n'
        try: node = self.st.expand(self.d, nodes, list(args[1:]), kw)
        finally: self.st.indentation = keep
        node.set_indent('')
        return node.render()


POISON = object()

class Run:
    """Execution of one script."""

    def __init__(self, escape = html_escape, shared = None):
        self.values = {}
        self.indentation = '\n'
        self.escape = escape
        self.trace = []
        self.steps = 0

    # variables

    def get(self, slot):
        s = slot
        while s is not None:
            if s in self.values:
                v = self.values[s]
                if v is POISON: unspecified('partially executed assignment')
                return v
            s = s.outer
        raise MErr('UnboundLocalEx')

    def tag_value(self, slot):
        return self.get(slot)

    def call(self, fun, pos, kw):
        self.steps += 1
        if self.steps > 3000: unspecified('too long')
        if isinstance(fun, (MTag, MHyper)): return fun.call(*pos, **kw)
        return limit(fun(*pos, **kw))

    def assign(self, t, slots, value):
        if isinstance(slots, Slot):
            self.values[slots] = value
            return
        it = []
        for v in value:
            it.append(v)
            if len(it) > len(slots): break
        if len(it) != len(slots): raise MErr('ValueErrorEx')
        for s, x, v in zip(slots, t, it): self.assign(x, s, v)

    # text

    def line(self, parts, mark):
        out = []
        for p in parts:
            if p[0] == 't': out.append(p[1])
            elif p[0] == 'esc': out.append(p[1])
            else: out.append(to_str(ev(p[1], self)))
        s = ''.join(out)
        if mark == '|' and self.escape: s = self.escape(s)
        return s

    def text_block(self, b):
        """Lines of the block, as if the marker and everything before it were spaces; common indentation (at most up to
        the first character after the marker) is removed."""
        col = b.col                                     # width of the first line up to the marker, inclusive
        head = None
        if b.head:
            gap, parts = split_gap(b.head)
            head = (' ' * col + gap, parts)
        lines = [head] + [(ind, parts) if line else None for line in b.tail for ind, parts in [line or (None, None)]]
        spaces = [l[0] for l in lines if l is not None]
        common = spaces[0] if spaces else ''
        for s in spaces[1:]:
            n = 0
            while n < len(common) and n < len(s) and common[n] == s[n]: n += 1
            common = common[:n]
        common = common[:col + 1]
        out = []
        for i, l in enumerate(lines):
            if l is None:
                out.append('')
                continue
            space = l[0][len(common):]
            if i == 0 and len(common) < col:
                space = space[col - len(common):]
                if space[:1] == ' ': space = space[1:]
            out.append(space + self.line(l[1], b.mark))
        return '\n'.join(out)

    # blocks

    def blocks(self, blocks):
        """Outlined blocks at the current indentation."""
        out = []
        for b in blocks: out += self.outlined(b)
        return out

    def outlined(self, b):
        out = []
        if b.margin: out.append(N(text = '\n' * b.margin, margin = True))
        nodes = self.block(b)
        if nodes:
            if b.mod != '...': set_outline(nodes)
            if b.mod == '<': set_indent(nodes, '')
            out += nodes
        return out

    def nested(self, ind, blocks):
        keep = self.indentation
        self.indentation = keep + ind
        try: return self.blocks(blocks)
        finally: self.indentation = keep

    def clause(self, body):
        if body is None: return []
        if body.inline is not None: return self.block(body.inline)
        if body.blocks: return self.nested(body.ind, body.blocks)
        return []

    def inner(self, b):
        out = []
        if b.inline is not None: return self.block(b.inline)
        if b.head is not None:
            gap, parts = split_gap(b.head)
            if gap: gap = gap[1:]
            out.append(N(text = gap + self.line(parts, b.hmark)))
        if b.body: out += self.nested(b.ind, b.body)
        return out

    def block(self, b):
        self.steps += 1
        if self.steps > 3000: unspecified('too long')
        return getattr(self, 'do_' + b.kind)(b)

    def do_text(self, b):
        return [N(text = self.text_block(b), indent = self.indentation)]

    def do_embed(self, b):
        v = ev(b.expr, self)
        if isinstance(v, N): nodes = [v]
        elif isinstance(v, MBody): nodes = v.nodes
        else:
            try: nodes = list(v)
            except Exception: raise MErr('TypeErrorEx')
            flat = []
            for n in nodes:
                if n is None: continue
                if isinstance(n, MBody): flat += n.nodes
                elif isinstance(n, N): flat.append(n)
                elif isinstance(n, list): unspecified('nested lists of nodes')
                else: raise MErr('TypeErrorEx')
            nodes = flat
        nodes = [n.copy() for n in nodes]
        set_indent(nodes, self.indentation)
        return nodes

    def do_comment(self, b): return []
    def do_pass(self, b): return []

    def do_struct(self, b):
        for s in b.local: self.values.pop(s, None)
        nodes = self.inner(b)
        for t in reversed(b.tags):
            nodes = [self.apply(t, nodes)]
        set_indent(nodes, self.indentation)
        return nodes

    def apply(self, t, nodes):
        if t.name == '.': return N(NULL, 'null', body = nodes)
        pos, kw = self.attrs(t)
        tag = self.get(t.slot)
        if isinstance(tag, MHyper):
            keep = tag.st.indentation
            tag.st.indentation = self.indentation
            try: return tag.st.expand(tag.d, nodes, pos, kw)
            finally: tag.st.indentation = keep
        if not hasattr(tag, 'expand'): raise MErr('NotATagEx')
        return N(tag, tag.name, pos, kw, nodes)

    def attrs(self, t):
        pos, kw = [], {}
        # positional expressions are evaluated before keyword ones
        for a in t.attrs:
            if a[0] == 'pos': pos.append(ev(a[1], self))
        for a in t.attrs:
            if a[0] == 'pos': continue
            if a[0] == 'kw': name, x = a[1], a[2]
            else: name, x = {'.': 'class', '#': 'id'}[a[0]], a[1]
            v = ev(x, self) if isinstance(x, Ex) else x
            if name in kw:
                if not isinstance(v, (str, int, float)) or isinstance(v, bool) or not isinstance(kw[name], (str, int, float)) or isinstance(kw[name], bool):
                    unspecified('repeated attribute with a special value')
                kw[name] = str(kw[name]) + ' ' + str(v)
            else: kw[name] = v
        return pos, kw

    def expand(self, d, nodes, pos, kw):
        """Expansion of hypertag `d` at the current indentation; returns a single node."""
        for s in d.local: self.values.pop(s, None)
        names = [n for n, _ in d.attrs]
        if len(pos) > len(names): raise MErr('TypeErrorEx')
        if d.attr_body and d.attr_body in kw: raise MErr('TypeErrorEx')
        for n in kw:
            if n not in names: raise MErr('TypeErrorEx')
        bound, shown = {}, {}
        for n, v in zip(names, pos):
            if n in kw: raise MErr('TypeErrorEx')
            bound[n] = v
        shown.update(bound)
        shown.update(kw)
        bound.update(kw)
        missing = [n for n, x in d.attrs if n not in bound and x is None]
        try:
            for n, x in d.attrs:
                if n not in bound and x is not None: bound[n] = ev(x, self)
        except MErr as ex:
            if missing: raise MErr('TypeErrorEx', *ex.names)
            raise
        except Skip: raise
        except Exception as ex:
            if missing: raise MErr('TypeErrorEx', type(ex).__name__)
            raise
        if missing: raise MErr('TypeErrorEx')
        for n, v in bound.items(): self.values[d.attr_slots[n]] = v
        if d.attr_body:
            set_indent(nodes, self.indentation)
            set_indent(nodes, '')
            self.values[d.attr_slots[d.attr_body]] = MBody(nodes)
        elif nodes: raise MErr('VoidTagEx')
        out = self.inner(d)
        set_indent(out, self.indentation)
        set_outline(out, False)
        return N(NativeTag(d.name), d.name, kw = shown, body = out, indent = self.indentation)

    def do_assign(self, b):
        if b.op:
            try: v = ev(b.expr, self)
            except Skip: raise
            except Exception as ex:
                names = ex.names if isinstance(ex, MErr) else (type(ex).__name__,)
                try: self.get(b.slots)
                except MErr as ex2: raise MErr(*(names + ex2.names))
                raise
            cur = self.get(b.slots)
            self.values[b.slots] = limit(OPS[b.op](cur, v))
        else:
            v = ev(b.expr, self)
            self.assign(b.targets, b.slots, v)
        return []

    def do_expr(self, b):
        ev(b.expr, self)
        return []

    def place(self, nodes):
        set_indent(nodes, self.indentation)
        return nodes

    def do_if(self, b):
        for cond, body in b.clauses:
            if ev(cond, self): return self.place(self.clause(body))
        return self.place(self.clause(b.els))

    def do_try(self, b):
        for body in b.branches:
            keep = self.indentation
            try: return self.place(self.clause(body))
            except Skip: raise
            except Exception: self.indentation = keep
        return []

    def do_for(self, b):
        out, n = [], 0
        for v in ev(b.expr, self):
            n += 1
            self.assign(b.targets, b.slots, v)
            out += self.clause(b.body)
        if not n: out = self.clause(b.els)
        return self.place(out)

    def do_while(self, b):
        out, n = [], 0
        while ev(b.cond, self):
            n += 1
            if n > 200: unspecified('too long')
            out += self.clause(b.body)
        if not n: out = self.clause(b.els)
        return self.place(out)

    def do_def(self, b):
        self.values[b.slot] = MHyper(b, self)
        return []

    def do_import(self, b):
        for slot, value in b.slots: self.values[slot] = value
        return []

    def do_context(self, b):
        for slot, (mark, name, rename) in zip(b.slots, b.items): self.values[slot] = self.context[mark + name]
        return []


def split_gap(parts):
    """Leading spaces/tabs of a line (written in the script), and the rest."""
    parts = list(parts)
    gap = ''
    while parts and parts[0][0] == 't':
        t = parts[0][1]
        r = t.lstrip(' \t')
        gap += t[:len(t) - len(r)]
        if r:
            parts[0] = ('t', r)
            break
        parts.pop(0)
    return gap, parts


class Script:
    """A complete document: blocks + number of blank lines at the end + whether it ends with a newline."""
    def __init__(self, blocks, trailing = 0):
        self.blocks, self.trailing = blocks, trailing


_BUILTIN_VARS = {'$' + n: getattr(_builtins, n) for n in dir(_builtins)}

def default_symbols():
    syms = dict(_BUILTIN_VARS)
    for n in HY_ONLY_VARS: syms['$' + n] = POISON
    for n, v in STD_VARS.items(): syms['$' + n] = v
    for n in HY_ONLY_TAGS: syms['%' + n] = POISON
    for n, v in STD_TAGS.items(): syms['%' + n] = v
    return syms


class Translated:
    def __init__(self, run, nodes, top): self.run, self.nodes, self.top = run, nodes, top

    def text(self):
        out = render_nodes(self.nodes)
        return out[1:] if out[:1] == '\n' else out

    def symbols(self):
        """Exported symbols and their values."""
        out = {}
        for sym, slot in self.top.names.items():
            if slot in self.run.values: out[sym] = self.run.values[slot]
        return out


def translate(script, context = None, escape = html_escape, modules = None, file = None, package = None, builtins = None):
    """First phase. Raises StaticErr, MErr, or an exception of the script's own operations."""
    syms = builtins if builtins is not None else default_symbols()
    syms = dict(syms)
    syms['$__file__'], syms['$__package__'] = file, package
    an = Analyser(syms, context, modules)
    an.blocks(script.blocks, an.top, False)
    if an.errors:
        ex = StaticErr(an.errors)
        ex.first = an.first
        raise ex
    run = Run(escape)
    run.context = context or {}
    for sym, v in syms.items(): run.values[an.root.names[sym]] = v
    nodes = run.blocks(script.blocks)
    if script.trailing: nodes.append(N(text = '\n' * script.trailing, margin = True))
    for n in nodes: n.relative('\n')
    return Translated(run, nodes, an.top)


def outcome(fun):
    """('ok', value) | ('err', {acceptable class names})"""
    try:
        return 'ok', fun()
    except Skip: raise
    except StaticErr as ex: return 'err', set(ex.names)
    except MErr as ex: return 'err', set(ex.names)
    except RecursionError: raise Skip('recursion in the model')
    except AssertionError: raise
    except Exception as ex: return 'err', {type(ex).__name__}


def render(script, *args, **kwargs):
    return outcome(lambda: translate(script, *args, **kwargs).text())
