"""C16 Context, built-ins and escape function of the runtime are honoured exactly."""
import builtins, os, shutil, tempfile
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer
from hv.compare import check_same
from hv.families import context_block, make_context, TYPES

TECHNIQUE = 'property-based testing: random contexts against random context blocks with a model of the binding rules; random documents under custom runtimes and escape functions against a reference model; all built-in names'
ORACLE = 'a model of context blocks (identity of the values passed); hv/model.py with the same escape function; an independent list of the documented built-ins'
RULE = ('cases: contexts of variables and tags in every documented form of key with context blocks (renaming, repetition, shadowing of built-ins, missing symbols, wrong places); '
        'documents with custom escape functions; every built-in name; non-trivial: at least one declared symbol or an error; documents with escaped text; distinct by script text and keys of the context')

HTML_VOID = 'area base br col command embed hr img input link meta param source track wbr'.split()
HTML_TAGS = ('a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body button canvas caption center cite code colgroup data datalist dd del '
             'details dfn dialog dir div dl dt em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header html i iframe ins kbd label legend li '
             'main map mark meter nav noframes noscript object ol optgroup option output p picture pre progress q rp rt ruby s samp script section select small span strike '
             'strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr tt u ul var video').split()
STD_VARS = 'doctype dedent unique merge inline lower upper crop truncate cycle changes'.split()
STD_TAGS = 'doctype dedent unique merge inline lower upper'.split()
UTIL_TAGS = ['custom', 'comment']


class Val:
    """A value with identity."""
    def __init__(self, label): self.label = label
    def __str__(self): return self.label
    def __eq__(self, other): raise AssertionError('values of the context are compared')
    __hash__ = None

class BraceTag(real.Tag):
    def __init__(self, name, label): self.name, self.label = name, label
    def expand(self, body, attrs, kwattrs): return '[%s %s %s %s]' % (self.label, body.render(), list(attrs), sorted(kwattrs.items()))


def context(src):
    count = [0]
    def tok():
        count[0] += 1
        return 'v%d' % count[0]
    names = ['x', 'y', 'z', '_w', 'len', 'x1', 'g_9', 'X', 'div', 'item']
    tags = ['T', 'Q9', 'div', 'p', 'x', '_V', 'dedent', 'A_1']
    params, tagdict, given = {}, {}, {}
    for n in src.subset(names, 0.45):
        v = src.pick([lambda: Val(tok()), lambda: tok(), lambda: [tok()], lambda: None, lambda: False])()
        given['$' + n] = v
        params[src.pick([n, n, '$' + n])] = v
    for t in src.subset(tags, 0.4):
        v = src.pick([lambda: BraceTag(t, tok()), lambda: real.Markup(tok())])()
        given['%' + t] = v
        k = src.int(3)
        if k == 0: params['%' + t] = v
        else: tagdict[src.pick([t, '%' + t])] = v
    for n in src.subset(['m', 'len'], 0.15):                     # variables may also be passed with tags when marked
        if '$' + n in given: continue
        given['$' + n] = tagdict['$' + n] = tok()
    allsyms = ['$' + n for n in names] + ['%' + t for t in tags]

    lines, bound, err = [], {}, None
    def comment(): return src.pick(['# comment', '-- note', '', '# a', ''])
    for _ in range(src.int(3)): lines.append(comment())
    for _ in range(src.weighted([(1, 0), (4, 1), (4, 2), (2, 3)])):
        items = []
        for _ in range(src.range(1, 3)):
            pool = sorted(given) if given and not src.bool(0.07) else allsyms
            sym = src.pick(pool)
            new = src.pick([None, None, None, 'ren', 'y', 'span', '_q', 'T'])
            items.append(sym + (src.pick([' as ', '  as  ']) + new if new else ''))
            if sym not in given: err = err or 'ImportErrorEx'
            else: bound[sym[0] + (new or sym[1:])] = given[sym]
        lines.append('context ' + src.pick([', ', ',', ' , ']).join(items) + src.pick(['', '', '  # input', ' -- in']))
        for _ in range(src.int(2)): lines.append(comment())
    ndecl = len(bound)
    late = src.bool(0.1)
    if late and err is None and given:
        lines.append(src.pick(['| text', '$q = 1', 'p', 'if 1 | a', '%H | a', 'from builtins import $len', 'p\n    | text', '$ 1', '/ x']))
        lines.append('context ' + src.pick(sorted(given)))
        err = 'SyntaxErrorEx'
    elif src.bool(0.05) and err is None and given:
        lines += [src.pick(['div', 'if 1', '%H', 'for i in [1]', 'try']), '    context ' + src.pick(sorted(given))]
        err = 'SyntaxErrorEx'

    got, want = [], []
    take = lambda x: (got.append(x), '')[1]
    params['take'] = take
    lines.insert(src.pick([i for i, l in enumerate(lines) if l.startswith('context')] or [0]), 'context $take')
    expected = []
    for s in sorted(bound):
        if src.bool(0.2): continue
        ind = ''
        if s[0] == '$':
            lines.append(src.pick(['$ take({%s})', '$ take(%s)', '$ take($%s)', 'if True\n    $ take(%s)']).replace('{%s}', '%s') % s[1:])
            want.append(bound[s])
            if isinstance(bound[s], (Val, str)):
                lines.append('/ $' + s[1:])
                expected.append(str(bound[s]))
        else:
            tag = bound[s]
            attrs = ' a="1"' if src.bool(0.3) else ''
            pos = ' 5' if isinstance(tag, BraceTag) and src.bool(0.3) else ''
            lines.append(s[1:] + pos + attrs + ' | q')
            if isinstance(tag, BraceTag): expected.append('[%s q %s %s]' % (tag.label, [5] if pos else [], [('a', '1')] if attrs else []))
            else: expected.append('<%s%s>q</%s>' % (tag.name, attrs, tag.name))
    if err is None and src.bool(0.25):
        # what is not declared keeps its built-in meaning or is undefined
        s = src.pick([x for x in allsyms + ['$ren', '%ren', '$T', '%y'] if x not in bound] or ['$nothing'])
        n = s[1:]
        if s[0] == '$':
            lines.append(src.pick(['$ take(%s)', 'if take(%s)', '$q = take(%s)']) % n)
            if n == 'len': want.append(len)
            else: err = 'NameErrorEx'
        else:
            lines.append(n + ' | q')
            if n in ('div', 'p'): expected.append('<%s>q</%s>' % (n, n))
            elif n == 'dedent': expected.append('q')
            else: err = 'UndefinedTagEx'
    script = '\n'.join(lines)
    if not expected: script += '\n| end'; expected = ['end']
    rt = real.HyperHTML()
    extra = dict(__tags__ = tagdict) if tagdict or src.bool(0.2) else {}
    before = (dict(params), dict(tagdict))
    out = real.render(script, params, rt, **extra)
    detail = dict(script = script, context = sorted(params), tags = sorted(tagdict), got = out.show())
    if err:
        if out.ok: raise Violation('an error was expected', expected = err, **detail)
        if err not in out.mro() or err == 'ImportErrorEx' and 'ModuleNotFoundEx' in out.mro(): raise Violation('wrong type of error', expected = err, **detail)
        if got: raise Violation('part of a rejected script was executed', **detail)
    else:
        if not out.ok: raise Violation('unexpected error', expected = expected, **detail)
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want) if not isinstance(b, str)) or [a for a in got if isinstance(a, str)] != [b for b in want if isinstance(b, str)]:
            raise Violation('wrong values of context variables', expected = [str(type(w)) for w in want], values = [str(type(g)) for g in got], **detail)
        if out.value.strip('\n').split('\n') != expected: raise Violation('wrong output', expected = expected, **detail)
        # context is not carried over to another execution in the same runtime
        if ndecl:
            again = real.render(script, dict(take = take), rt)
            if not again.is_err('ImportErrorEx'): raise Violation('context of another execution is visible', second = again.show(), **detail)
    if [sorted(a) for a in before] != [sorted(params), sorted(tagdict)] or any(before[0][k] is not params[k] for k in params): raise Violation('context of the caller was changed', **detail)
    return Case((script, sorted(params), sorted(tagdict)), bool(ndecl or err), ['error:%s' % err if err else 'ok'], dict(script = script, context = sorted(params), tags = sorted(tagdict), result = out.show()))


def imported(src):
    """A module with context blocks cannot be imported; context never reaches a module."""
    ctx = {n: 'v_' + n for n in src.subset(['x', 'y'], 0.8)}
    body = src.pick(['context $x\n$z = x', '$z = x', '$z = 1\n%H | {x}', '| {x}\n$z = 1', 'if 0\n    | $x\n$z = 1', '%H a=x | q\n$z = 1', 'context $z'])
    decl = [n for n in ctx if src.bool(0.7)]
    script = '\n'.join(['context $%s' % n for n in decl] + [src.pick(['from .zq_mod import $z', 'from .zq_mod import *', 'from zq_mod import $z']), '| done'])
    d = tempfile.mkdtemp(dir = os.environ.get('HV_WORK'))
    try:
        with open(os.path.join(d, 'zq_mod.hy'), 'w') as f: f.write(body)
        out = real.render(script, dict(ctx, __file__ = os.path.join(d, 'main.hy')))
    finally: shutil.rmtree(d, ignore_errors = True)
    want = 'ImportErrorEx' if 'context' in body else 'NameErrorEx'
    if not out.is_err(want): raise Violation('context of the caller is visible in an imported module', module = body, script = script, expected = want, got = out.show())
    return Case((script, body), True, ['imported'], dict(script = script, module = body))


ESCAPES = [('a', '[a]'), ('&', '&amp;'), ('<', '{lt}'), ('t', ''), ('\\', '\\\\'), ('1', '$x'), ('"', '&quot;'), ('e', 'E'), ('_', '\\_'), ('%', '%%'), ('>', '|')]

def escape(src):
    """Documents under a custom escape function."""
    table = dict(src.subset(ESCAPES, 0.5))
    fun = lambda text: ''.join(table.get(c, c) for c in text)
    none = src.bool(0.15)
    way = src.int(3)
    if none: cls = type('Custom', (real.HyperHTML,), dict(escape = None))
    elif way == 0: cls = type('Custom', (real.HyperHTML,), dict(escape = staticmethod(fun)))
    elif way == 1: cls = type('Custom', (real.Runtime,), dict(escape = staticmethod(fun), BUILTINS = real.Runtime.BUILTINS + ['hypertag.html']))
    else:
        base = type('Base', (real.HyperHTML,), dict(escape = staticmethod(lambda s: 'WRONG')))
        cls = type('Custom', (base,), dict(escape = staticmethod(fun)))
    g = DocGen(src, TYPES, size = src.pick([6, 12]), bad_p = 0.0, W = dict(text = 10, embed = 3))
    doc = g.document()
    doc.blocks.insert(0, context_block(TYPES))
    text = Printer(src, rate = 0.1).script(doc)
    calls = []
    def counting(s):
        r = fun(s)
        if r != s: calls.append(s)
        return r
    exp = model.render(doc, {'$' + k: v for k, v in make_context().items()}, escape = None if none else counting)
    out = real.render(text, make_context(), cls())
    check_same(exp, out, text)
    return Case((text, sorted(table), none), bool(calls) or none, ['none' if none else 'custom', 'result:' + exp[0]], dict(script = text, escape = table, none = none))


_pool = None
def names(src):
    """Each built-in name, and names that are none."""
    kind = src.pick(['html', 'runtime'])
    plain = kind == 'runtime'
    rt = real.Runtime() if plain else real.HyperHTML()
    got = []
    k = src.int(4)
    if k == 0:
        n = src.pick(sorted(x for x in dir(builtins) if x not in ('None', 'True', 'False')))
        out = real.render('context $take\n$ take(%s)\n| ok' % n, dict(take = got.append), rt)
        if not out.ok or out.value.strip() != 'ok' or got[:1] != [getattr(builtins, n)] and not n.startswith('__'):
            raise Violation('a Python built-in is not available', name = n, runtime = kind, got = out.show())
        return Case((kind, n), True, ['python'], dict(name = n))
    if k == 1:
        n = src.pick(STD_VARS)
        out = real.render('context $take\nfrom hypertag.builtins import $%s as other\n$ take(%s)\n$ take(other)\n| ok' % (n, n), dict(take = got.append), rt)
        if not out.ok or not callable(got[0]) or got[0] is not got[1] : raise Violation('a Hypertag built-in is not available', name = n, runtime = kind, got = out.show())
        return Case((kind, n), True, ['function'], dict(name = n))
    if k == 2:
        n = src.pick(HTML_TAGS + HTML_VOID + STD_TAGS + UTIL_TAGS)
        u = n
        if n in HTML_TAGS + HTML_VOID: u = src.pick([n, n.upper()])
        pre = src.pick(['', '', 'from hypertag.html import %' + u, 'from hypertag.html import *']) if n not in STD_TAGS else src.pick(['', 'from hypertag.builtins import %' + u])
        body = '' if n in HTML_VOID else ' | q'
        attr = ' "my-tag"' if n == 'custom' else ''
        script = (pre + '\n' if pre else '') + u + attr + body
        out = real.render(script, None, rt)
        if plain and not pre and n not in STD_TAGS:
            if not out.is_err('UndefinedTagEx'): raise Violation('an HTML tag is defined in a runtime that is not for HTML', script = script, got = out.show())
            return Case((kind, script), True, ['undefined tag'], dict(script = script))
        want = {'doctype': '<!DOCTYPE html>', 'custom': '<my-tag>q</my-tag>', 'comment': '<!--q-->', 'upper': 'Q'}.get(n)
        if want is None: want = 'q' if n in STD_TAGS else '<%s />' % u if n in HTML_VOID else '<%s>q</%s>' % (u, u)
        if not out.ok or out.value != want: raise Violation('a built-in tag does not work', script = script, expected = want, runtime = kind, got = out.show())
        return Case((kind, script), True, ['tag'], dict(script = script))
    # names that are not built-in
    variables = set(dir(builtins)) | set(STD_VARS)
    tags = set(STD_TAGS) | set(UTIL_TAGS) | set(HTML_TAGS + HTML_VOID) | {t.upper() for t in HTML_TAGS + HTML_VOID}
    pool = sorted(variables | tags | {'Div', 'dIV', 'Dedent', 'DEDENT', 'Custom', 'CUSTOM', 'Comment', 'null', 'H7', 'h7', 'os', 'sys', 're', 'escape', 'register', 'take1', 'HyperHTML', 'script1',
                                      'context', 'self', 'state', 'body1', 'itertools', 'tag', 'Markup', 'P1', 'runtime', 'dom', 'html_escape', 'image'})
    n = src.pick(pool)
    if n in ('None', 'True', 'False', 'context', 'if', 'for'): raise Skip('keyword')
    if src.bool():
        if n in variables or n.startswith('__'): raise Skip('a built-in')
        script = '| {%s}' % n
        want = 'NameErrorEx'
    else:
        if n in tags: raise Skip('a built-in')
        script = src.pick(['%s | q', 'div : %s', '%s']) % n if not plain else n + ' | q'
        want = 'UndefinedTagEx'
    out = real.render(script, None, rt)
    if not out.is_err(want): raise Violation('a symbol that is not built-in is defined', script = script, expected = want, runtime = kind, got = out.show())
    return Case((kind, script), True, ['undefined'], dict(script = script))


FAMILIES = [('context', context, 8000), ('imported', imported, 400), ('escape', escape, 3000), ('names', names, 3000)]
