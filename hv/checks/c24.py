"""C24 Tags used inside expressions or implemented in Python behave like tag blocks."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen, Gen, text_lit, PLAIN, MARKUPY, UNI
from hv.model import Ex, Blk, TagUse, MTag
from hv.printer import Printer
from hv.compare import check_same
from hv.families import make_context, TYPES, context_block, INDS, same_repr

TECHNIQUE = 'property-based testing: random documents with tags called in expressions, against a reference model; the same tag used as a block and in an expression; recording Python tags at random places, calls compared with those of the model'
ORACLE = 'hv/model.py with the same Python functions as tags; metamorphic relation between a block and a call; records of bodies, attributes and results'
RULE = ('cases: random documents in which expressions call markup, standard, native and Python tags with any body and attributes, pass tags as values, and use Python tags (Tag, TagFunction, Markup in both modes) '
        'as blocks; non-trivial: at least one tag is called in an expression, or a Python tag is expanded; distinct by script text')


class Val:
    """An opaque value: must be passed on as it is."""
    def __init__(self, label): self.label = label
    def __repr__(self): return '<%s>' % self.label
    def __copy__(self): raise AssertionError('a value was copied')
    __deepcopy__ = lambda self, memo: self.__copy__()

# functions of Python tags: rendered body, attributes

def f_show(body, attrs, kw): return '[%s|%s|%s]' % (body, ', '.join(map(same_repr, attrs)), ', '.join('%s=%s' % (k, same_repr(v)) for k, v in sorted(kw.items())))
def f_lines(body, attrs, kw): return '(\n' + body + '\n  %s\n\n)' % len(attrs)
def f_lead(body, attrs, kw): return '\n' + body
def f_trail(body, attrs, kw): return body + '\n'
def f_drop(body, attrs, kw): return ''
def f_twice(body, attrs, kw): return body + body
def f_odd(body, attrs, kw): return '<x a="1"> & $x {y} \\n \t' + body.strip()
def f_up(body, attrs, kw): return body.swapcase()
def f_args(body, attrs, kw): return (lambda body, a, b = 2: '%s %s %s' % (same_repr(a), same_repr(b), body))(body, *attrs, **kw)
def f_fail(body, attrs, kw): raise KeyError(len(attrs))
def f_xhtml(body, attrs, kw): return model.markup('xh', False, body, attrs, {k: k if v is True else v for k, v in kw.items()})
def f_mark(body, attrs, kw): return model.markup('my:mark', False, body, attrs, kw)
def f_void(body, attrs, kw): return model.markup('vo-id', True, body, attrs, kw)

FUNS = dict(Show = f_show, Lines = f_lines, Lead = f_lead, Trail = f_trail, Drop = f_drop, Twice = f_twice, Odd = f_odd, Up = f_up, Args = f_args, Fail = f_fail, Xh = f_xhtml, Mark = f_mark, Void = f_void)
MARKUPS = dict(Xh = lambda: real.Markup('xh', False, 'XHTML'), Mark = lambda: real.Markup('my:mark'), Void = lambda: real.Markup('vo-id', void = True))

def note(log, name, body, attrs, kw):
    log.append((name, body, [same_repr(x) for x in attrs], sorted((k, same_repr(v)) for k, v in kw.items())))

class Rec(real.Tag):
    def __init__(self, name, fun, log): self.name, self.fun, self.log = name, fun, log
    def expand(self, body, attrs, kwattrs):
        if not isinstance(body, real.DOM): raise AssertionError('the body is not a DOM: %r' % (body,))
        if not isinstance(kwattrs, dict) or not isinstance(attrs, (list, tuple)): raise AssertionError('attributes: %r %r' % (attrs, kwattrs))
        text = body.render()
        note(self.log, self.name, text, attrs, kwattrs)
        return self.fun(text, list(attrs), dict(kwattrs))

def real_tag(kind, name, log):
    fun = FUNS[name]
    if name in MARKUPS: return MARKUPS[name]()
    if kind == 'class': return Rec(name, fun, log)
    if kind == 'fun':
        def f(body, *attrs, **kwattrs):
            if type(body) is not str: raise AssertionError('the body is not a string: %r' % (body,))
            note(log, name, body, attrs, kwattrs)
            return fun(body, attrs, kwattrs)
    else:
        def f(body, *attrs, **kwattrs):
            if not isinstance(body, real.DOM): raise AssertionError('the body is not a DOM: %r' % (body,))
            text = body.render()
            note(log, name, text, attrs, kwattrs)
            return fun(text, attrs, kwattrs)
    f.__name__ = name
    return real.TagFunction(f, dom = True) if kind == 'dom' else real.TagFunction(f)

def model_tag(name, log):
    def f(body, attrs, kw):
        if name not in MARKUPS: note(log, name, body, attrs, kw)
        return FUNS[name](body, attrs, kw)
    return MTag(name, f)


MK  = ['p', 'div', 'b', 'DIV', 'br', 'img', 'a', 'h1']
STD = ['upper', 'lower', 'inline', 'custom', 'comment']
KW  = ['id', 'href', 'title', 'a', 'b', 'style', 'c']

class TagGen(Gen):
    """Expressions with tags."""
    tags = {}
    python = ()
    rate = 0.35
    owner = None

    def tag_call(self, depth):
        src = self.src
        kinds = [(4, 'markup'), (2, 'std')]
        if self.tags: kinds.append((5, 'native'))
        if self.python: kinds.append((5, 'python'))
        kind = src.weighted(kinds)
        args = []
        b = src.int(10)
        if b < 7: args.append((None, self.make('str', depth - 1)))
        elif b == 7: args.append((None, self.make(src.pick(['int', 'none', 'bool', 'list']), 0)))
        elif b == 8: args.append((None, Ex('str', '"', [])))
        name = None
        if kind == 'native':
            name = src.pick(sorted(self.tags))
            d = self.tags[name]
            if args and not d.attr_body and src.bool(0.95): args = [] if not d.attrs or src.bool() else [(None, Ex('none'))]
            miss = src.bool(0.05)
            npos = src.int(len(d.attrs) + 1) if d.attrs and args else 0
            for i, (n, dflt) in enumerate(d.attrs):
                if i < npos: args.append((None, self.any(0) if src.bool(0.3) else self.make('str', depth - 1)))
                elif dflt is None and not miss or src.bool(): args.append((n, self.make(src.pick(['str', 'int']), depth - 1)))
        elif kind == 'python':
            name = src.pick(self.python)
            if args:
                for _ in range(0 if name.rstrip('x') in MARKUPS and src.bool(0.97) else src.int(3)): args.append((None, self.any(0)))
            for n in src.subset(KW, 0.25): args.append((n, self.any(0)))
        elif kind == 'std':
            name = src.pick(STD)
            if name == 'custom':
                if not args: args = [(None, text_lit(''))]
                args.append((None, text_lit(src.pick(['x-y', 'my-tag']))))
            if name == 'custom':
                for n in src.subset(KW, 0.2): args.append((n, self.make(src.pick(['str', 'int', 'bool']), 0)))
        else:
            name = src.pick(MK)
            if name in ('br', 'img') and src.bool(0.85): args = []
            for n in src.subset(KW, 0.2): args.append((n, self.make(src.pick(['str', 'int', 'bool']), 0)))
            if src.bool(0.03): args.append((None, Ex('num', '3')))
            args = [a for a in args if a[0] is None] + [a for a in args if a[0]]
        self.owner.feat('call:' + kind)
        tag = Ex('tag', name)
        if args and args[0][0] is None and src.bool(0.12) and self.level0(args[0][1]): return Ex('pipe', args[0][1], [(Ex('paren', tag), args[1:] if len(args) > 1 or src.bool() else None)])
        return Ex('call', tag, args)

    def level0(self, e): return True

    def g_str(self, depth):
        if depth > 0 and self.src.bool(self.rate): return self.tag_call(depth)
        return Gen.g_str(self, depth)

    def leaf(self, typ):
        if typ == 'str' and self.src.bool(self.rate * 0.3): return self.tag_call(0)
        return Gen.leaf(self, typ)

    def g_strs(self, depth):
        src = self.src
        if src.bool(0.25):
            names = [n for n in ('b', 'p', 'upper', 'div')] + [n for n in self.python if n not in ('Args', 'Fail')]
            self.owner.feat('call:map')
            return Ex('call', Ex('var', 'list'), [(None, Ex('call', Ex('var', 'map'), [(None, Ex('tag', src.pick(names))), (None, self.make('strs', depth - 1))]))])
        return Gen.g_strs(self, depth)

    def any(self, depth):
        if self.owner.vals and self.src.bool(0.2): return Ex('var', self.src.pick(self.owner.vals))
        return Gen.any(self, depth)


class TagDocGen(DocGen):
    python = ()
    vals = ()
    def gen(self, env):
        g = TagGen(self.src, env.vars)
        g.wild, g.chars, g.tags, g.python, g.owner = self.wild, self.chars, env.tags, self.python, self
        return g
    def some_expr(self, env):
        if self.src.bool(0.35): return self.gen(env).tag_call(2)
        return DocGen.some_expr(self, env)
    def tags(self, env):
        tags = DocGen.tags(self, env)
        if self.python and self.src.bool(0.45):
            src = self.src
            name = src.pick(self.python)
            attrs = []
            if name.rstrip('x') not in MARKUPS:
                for _ in range(src.weighted([(5, 0), (3, 1), (1, 2)])): attrs.append(('pos', self.value(env)))
            attrs += [('kw', n, self.value(env)) for n in src.subset(['data-x', 'a', 'b', 'xml:lang', 'a.b', 'title', 'class'], 0.15)]
            if not any(a[0] == 'kw' and a[1] == 'class' for a in attrs) and src.bool(0.15): attrs.append(('.', src.pick(['cls', 'a-b'])))
            use = TagUse(name, attrs)
            if name.startswith('Void'): return tags[:-1] + [use]
            i = src.int(len(tags) + 1)
            tags.insert(i, use)
            if tags[0].name == '.' or any(t.name == '.' for t in tags): return [use]
            self.feat('python')
        return tags
    def value(self, env):
        if self.vals and self.src.bool(0.15): return Ex('var', self.src.pick(self.vals))
        return DocGen.value(self, env)


def setup(src, g, ctx):
    """Context of both sides."""
    la, lb = [], []
    names = list(src.subset(sorted(FUNS), 0.35)) if ctx else []
    if 'Fail' in names and src.bool(0.7): names.remove('Fail')
    vals = [Val('v1'), Val('v2')]
    g.python = names
    rename = {}
    for n in names:
        if src.bool(0.1): rename[n] = n + 'x'
    g.python = [rename.get(n, n) for n in names]
    a = {'$' + k: v for k, v in make_context().items()} if ctx else {}
    b = make_context() if ctx else {}
    for n in names:
        a['%' + n] = model_tag(n, la)
        b['%' + n] = real_tag(src.pick(['class', 'fun', 'dom']), n, lb)
    if ctx:
        g.vals = ['v1', 'v2']
        for i, v in enumerate(vals): a['$v%d' % (i + 1)] = b['v%d' % (i + 1)] = v
    items = [('%', n, rename.get(n)) for n in names] + ([('$', 'v1', None), ('$', 'v2', None)] if ctx else [])
    return a, b, la, lb, items


def documents(python):
    def family(src):
        g = TagDocGen(src, TYPES if python else None, size = src.pick([6, 10, 16]), bad_p = 0.01, wild = 0.01, ex_depth = 2)
        a, b, la, lb, items = setup(src, g, python)
        # names Markup... renamed: lookups by name in MARKUPS use the original
        doc = g.document()
        if python: 
            cb = context_block(TYPES)
            cb.items += items
            doc.blocks.insert(0, cb)
        text = Printer(src, rate = 0.12, inds = INDS).script(doc)
        exp = model.render(doc, a)
        out = real.render(text, b)
        check_same(exp, out, text)
        if exp[0] == 'ok' and la != lb: raise Violation('other calls of Python tags', script = text, expected = repr(la), got = repr(lb))
        calls = sorted(f for f in g.features if f.startswith('call:') or f == 'python')
        return Case(text, bool(calls) or bool(la), calls + ['result:' + exp[0]] + ['expanded:' + n for n in sorted({x[0] for x in la})], dict(script = text, result = exp[1] if exp[0] == 'ok' else sorted(exp[1])))
    return family


def same(src):
    """A block and a call with the same body and attributes give the same text."""
    kind = src.pick(['markup', 'native', 'python', 'std'])
    log = []
    pre, ctx = [], {}
    ident = ['id', 'href', 'a', 'b', 'title']
    chars = src.pick(['ab <>&"\'', PLAIN, UNI, 'a{}$\\|!'])
    ln = lambda: 'x' + src.text(chars, 0, 8, 0.7).rstrip() + 'y'
    void = False
    pos = []
    kws = {n: src.pick([1, 'v', 'a<"b', True, 'é', -5]) for n in src.subset(ident, 0.3)}
    step = src.pick(INDS)
    if kind == 'markup': name = src.pick(['p', 'div', 'B', 'a', 'my'] if False else ['p', 'div', 'B', 'a'])
    elif kind == 'std':
        name = src.pick(['upper', 'lower', 'merge', 'unique', 'dedent', 'inline', 'custom', 'comment', 'doctype'])
        kws = {}
        if name == 'custom': pos = ['x-y']
        if name == 'unique': kws = src.pick([{}, {'strip': False}])
        if name == 'dedent': kws = src.pick([{}, {'full': False}])
    elif kind == 'python':
        name = src.pick([n for n in sorted(FUNS) if n not in ('Fail', 'Void', 'Args')])
        if name not in MARKUPS: pos = [src.pick([1, 'p', None, 2.5]) for _ in range(src.int(3))]
        ctx['%' + name] = real_tag(src.pick(['class', 'fun', 'dom']), name, log)
    else:
        name = src.pick(['H', 'Box'])
        params = src.subset(['a', 'b', 'c'], 0.5)
        dflt = {p: src.bool() for p in params}
        params = [p for p in params if not dflt[p]] + [p for p in params if dflt[p]]
        pos = [src.pick([1, 'p', 2.5]) for _ in range(src.int(len(params) + 1))]
        kws = {p: src.pick([1, 'v', 'a<"b']) for p in params[len(pos):] if not dflt[p] or src.bool()}
        frag = lambda: src.pick(['| ' + ln2() for ln2 in [lambda: 'q' + src.text('ab <&', 0, 4, 0.6).rstrip()]] + ['/ <i>{a}</i>' if 'a' in params else '/ <i>', '@ body', '@ body', 'p\n' + step + '@ body', 'b @ body', '', 'if body\n' + step + '@ body', 'p : | q\n' + step + 'i | z',
                                           'for i in (1, 2)\n' + step + 'b | {i}', '$ zz = 5', 'p : b %s| in' % ('title=b : ' if False else ': ')])
        body = [f for _ in range(src.range(1, 4)) for f in frag().split('\n')]
        while body and body[0] == '': body.pop(0)
        while body and body[-1] == '': body.pop()
        inline = src.bool(0.3)
        sig = '% ' + name + ' @body' + ''.join(' ' + p + ('="dd"' if dflt[p] else '') for p in params)
        pre = [sig + ' ' + src.pick(['@ body', '| inl', '/ <u>%s' % ('{%s}' % params[0] if params else '')])] if inline else [sig] + [step + l if l else '' for l in body or ['@ body']]
    lit = lambda v: '"%s"' % v.replace('"', '\\x22') if isinstance(v, str) else '(%s)' % v if isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0 else repr(v)
    # the body: one or more lines of verbatim text
    lines = [ln() for _ in range(src.weighted([(5, 1), (2, 2), (1, 3)]))]
    if any('\r' in l or '\n' in l for l in lines): raise Skip('line breaks')
    ctx['t'] = '\n'.join(lines)
    head = ['context %s' % ', '.join(['$t'] + [k for k in ctx if k[0] == '%'])] + pre
    attrs = ''.join(' ' + lit(v) for v in pos) + ''.join(' %s=%s' % (k, lit(v)) for k, v in kws.items())
    args = ', '.join(['t'] + [lit(v) for v in pos] + ['%s=%s' % (k, lit(v)) for k, v in kws.items()])
    form = src.pick(['slash', 'verbatim'])
    block = name + attrs + (' / $t' if form == 'slash' and len(lines) == 1 else ' ! ' + lines[0])
    more = lines[1:] if block.endswith(' ! ' + lines[0]) else []
    block = [block] + [' ' * (len(name + attrs) + 3) + l for l in more]
    s1 = '\n'.join(head + block)
    s2 = '\n'.join(head + [src.pick(['/ {%%%s(%s)}', '/ { %%%s(%s) }', '$ zz = %%%s(%s)\n/ $zz', '/ {"$"}' if False else '/ {(%%%s)(%s)}']) % (name, args)])
    got = []
    ctx2 = dict(ctx, take = got.append)
    s3 = '\n'.join(['context $take'] + head + ['$ take(%%%s(%s))' % (name, args)])
    o1, o3 = real.render(s1, ctx), real.render(s3, ctx2)
    o2 = real.render(s2, ctx)
    desc = dict(block = s1, body = ctx['t'])
    if not o1.ok or not o2.ok or not o3.ok:
        raise Violation('unexpected error', script = s2, got = [o.show() for o in (o1, o2, o3)], **desc)
    if type(got[0]) is not str: raise Violation('the call does not give a string', script = s3, got = repr(got[0]), **desc)
    strip = lambda s: s[1:] if s[:1] == '\n' else s          # the block starts a line of the document
    if strip(o1.value) != strip(got[0]): raise Violation('the call differs from the block', script = s3, expected = o1.value, got = got[0], **desc)
    if strip(o2.value) != strip(got[0]): raise Violation('the embedded call differs from its value', script = s2, expected = got[0], got = o2.value, **desc)
    # and inside other blocks
    s4 = '\n'.join(head + ['section', step + '/ {%%%s(%s)}' % (name, args)])
    o4 = real.render(s4, ctx)
    want = '<section>\n' + '\n'.join(step + l if l else l for l in got[0].split('\n')) + '\n</section>'
    if not o4.ok or o4.value != want: raise Violation('the nested call differs', script = s4, expected = want, got = o4.show(), **desc)
    return Case((s1, s3, ctx['t']), True, ['same:' + kind, 'lines:%d' % len(lines)], dict(block = s1, call = s3.split('\n')[-1], result = o1.value))


def direct(src):
    """Tags called from Python: the same function."""
    import hypertag.html as hh
    name = src.pick(['p', 'div', 'H1', 'br', 'custom', 'comment', 'input'])
    tags = hh.__tags__
    if name not in tags: raise Violation('no such tag in hypertag.html', name = name)
    void = name in ('br', 'input')
    body = None if void or src.bool(0.2) else src.text('ab\n <>&', 0, 8, 0.7)
    args = ['x-y'] if name == 'custom' else []
    kw = {} if name == 'comment' else {k: src.pick([1, 'v', True, False, 'a"b']) for k in src.subset(['id', 'data-x', 'a.b', 'class'], 0.3)}
    out = real.call(tags[name], body, *args, **kw)
    want = model.STD_TAGS[name].call(*([body] + args), **kw)
    if not out.ok or out.value != want: raise Violation('wrong direct call', name = name, body = body, attrs = repr((args, kw)), expected = want, got = out.show())
    return Case((name, body, repr(kw)), bool(body), ['direct'], dict(name = name, result = out.value))


FAMILIES = [('expressions', documents(False), 5000), ('python', documents(True), 6000), ('same', same, 2500), ('direct', direct, 800)]
