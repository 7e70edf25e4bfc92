"""C18 The translated DOM represents the document."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, same_repr, INDS, parse_html, all_elements, Bad

TECHNIQUE = 'property-based testing: DOMs, textual trees and exported symbols of random scripts compared with those of a reference model; rendering of the DOM (repeated, copied, in any order) compared with render()'
ORACLE = 'the node tree, attributes, texts and exported symbols computed by hv/model.py; a parse of the rendered HTML for markup-only documents'
RULE = ('cases: random documents with contexts, hypertags, loops, chains, margins; non-trivial: the script translates and its DOM has at least 4 nodes; distinct by script text')


def mtree(n, ind):
    name = n.name if n.name is not None else '<Text>' if n.text is not None else '<Node>'
    head = name + ''.join(' %s' % a for a in n.attrs or ()) + ''.join(' %s=%s' % kv for kv in (n.kw or {}).items())
    return ind + head + '\n' + ''.join(mtree(c, ind + '  ') for c in n.body)

def plain(v):
    """Values that can be compared by their representation."""
    if isinstance(v, (list, tuple, set)): return all(map(plain, v))
    if isinstance(v, dict): return all(map(plain, v.values()))
    return v is None or isinstance(v, (str, int, float, bool, complex))

def same_node(n, r, path, fail):
    where = path + '/' + str(n.name or '#')
    if (r.tag.name if r.tag else None) != n.name: fail('wrong tag of a node', where = where, expected = n.name, got = r.tag.name if r.tag else None)
    if isinstance(r, real.DOM.Text) != (n.text is not None and n.name is None): fail('a text node is not DOM.Text, or the other way round', where = where)
    for a, b in ((list(n.attrs or ()), list(r.attrs or ())), (list((n.kw or {}).items()), list((r.kwattrs or {}).items()))):
        if len(a) != len(b): fail('wrong attributes of a node', where = where, expected = repr(a), got = repr(b))
        for x, y in zip(a, b):
            if plain(x) and same_repr(x) != same_repr(y): fail('wrong value of an attribute', where = where, expected = same_repr(x), got = same_repr(y))
    if n.text is not None and n.text.strip() != r.text.strip(): fail('wrong text of a node', where = where, expected = n.text, got = r.text)
    if n.text is not None and n.text.strip() and bool(r.margin): fail('a text is marked as a margin', where = where)
    kids = list(r.body or [])
    if len(kids) != len(n.body): fail('wrong number of children', where = where, expected = [c.name for c in n.body], got = [k.tag.name if k.tag else '#' for k in kids])
    for c, k in zip(n.body, kids): same_node(c, k, where, fail)


def trees(ctx, **opts):
    def family(src):
        g = DocGen(src, TYPES if ctx else None, size = src.pick([6, 12, 20]), bad_p = 0.0, **opts)
        doc = g.document()
        if ctx: doc.blocks.insert(0, context_block(TYPES))
        text = Printer(src, rate = 0.1, inds = INDS).script(doc)
        a, b = (make_context(), make_context()) if ctx else ({}, {})
        box = []
        exp = model.outcome(lambda: box.append(model.translate(doc, {'$' + k: v for k, v in a.items()})))
        rt = real.HyperHTML()
        out = real.call(rt.translate, text, **b)
        def fail(what, **detail): raise Violation(what, script = text, **detail)
        if exp[0] == 'err':
            if out.ok or not exp[1] & set(out.mro()): fail('an error was expected', expected = sorted(exp[1]), got = out.show() if not out.ok else 'translated')
            return Case(text, False, ['error'], None)
        if not out.ok: fail('unexpected error', got = out.show())
        t, module = box[0], out.value
        root = module.dom
        if not isinstance(root, real.DOM.Root): fail('the DOM is not a Root')
        want = '<Root>\n' + ''.join(mtree(n, '  ') for n in t.nodes)
        got = root.tree()
        if ' at 0x' not in want and ' at 0x' not in got and want != got: fail('wrong textual tree', expected = want, got = got)
        kids = list(root.body)
        if len(kids) != len(t.nodes): fail('wrong number of top-level nodes')
        for n, r in zip(t.nodes, kids): same_node(n, r, '', fail)

        # rendering
        res = model.outcome(t.text)
        outs = [real.call(root.render), real.call(root.copy().render)]
        if src.bool():
            for n in root.walk(): real.call(n.render) if n is not root else None
        outs.append(real.call(root.render))
        if src.bool(): root.tree()
        c2 = make_context() if ctx else {}
        outs.append(real.render(text, c2, rt))
        for o in outs:
            if res[0] == 'err':
                if o.ok or not res[1] & set(o.mro()): fail('an error was expected from rendering', expected = sorted(res[1]), got = o.show())
            elif not o.ok or o.value != res[1]: fail('rendering of the DOM is wrong or not repeatable', expected = res[1], got = o.show())
        if root.tree() != got and ' at 0x' not in got: fail('rendering changed the DOM', before = got, after = root.tree())

        # symbols
        ws, gs = t.symbols(), module.symbols
        if sorted(ws) != sorted(gs): fail('wrong set of exported symbols', expected = sorted(ws), got = sorted(gs))
        for s, v in ws.items():
            if s[0] == '$' and plain(v) and same_repr(v) != same_repr(gs[s]): fail('wrong value of an exported symbol', symbol = s, expected = same_repr(v), got = same_repr(gs[s]))
            if module[s] is not gs[s] or module.get(s) is not gs[s]: fail('symbols are not accessible through the module', symbol = s)
        size = want.count('\n')
        return Case(text, size >= 5, ['nodes:%s' % ('5-' if size < 5 else '5-20' if size < 20 else '20+'), 'symbols:%d' % min(len(ws), 5)], dict(script = text, tree = got))
    return family


def markup(src):
    """Markup-only documents: elements of the DOM are the elements of the output."""
    g = DocGen(src, None, size = src.pick([6, 12]), bad_p = 0.0, W = dict(text = 3, struct = 9, use = 4, for_ = 3, try_ = 1, assign = 1, expr = 0), chars = [(1, 'abcxyz 019')])
    doc = g.document()
    text = Printer(src, rate = 0.1, inds = INDS).script(doc)
    if model.render(doc)[0] != 'ok': raise Skip('the script fails')
    out = real.call(real.HyperHTML().translate, text)
    if not out.ok: raise Violation('unexpected error', script = text, got = out.show())
    root = out.value.dom
    nodes = []
    for n in root.walk():
        if isinstance(n.tag, real.Markup) and n.tag.name not in ('comment', 'custom'): nodes.append((n.tag.name, [(k, True if v is True else str(v)) for k, v in (n.kwattrs or {}).items() if v is not False]))
        elif n.tag is not None and n.tag.name in ('upper', 'lower', 'inline', 'comment', 'custom', 'dedent', 'doctype', 'unique', 'merge'): raise Skip('tags that transform their body')
    html = root.render()
    try: found = [(x[0], [tuple(a) for a in x[1]]) for x in all_elements(parse_html(html))]
    except Bad: raise Skip('markup in text')
    if found != nodes: raise Violation('elements of the output differ from nodes of the DOM', script = text, nodes = nodes, elements = found, html = html)
    return Case(text, len(nodes) >= 3, ['markup'], dict(script = text, elements = len(nodes)))


NAMES = ['x', 'y', 'zz', '_p', '__q', 'x_1', 'len', 'list', 'str', 'int', 'sorted', 'upper', 'crop', 'cycle', 'max', 'print', 'type', 'dedent', 'id', 'p']

def exports(src):
    """The exported symbols are the top-level names, with their final values, built-in or not."""
    env, lines, n = {}, [], [0]
    step = src.pick(INDS)
    names = src.shuffle(NAMES)[:src.range(2, 6)]
    ctx = {k: 'ctx-' + k for k in names if src.bool(0.15)}
    for k, v in ctx.items(): env['$' + k] = v
    def val():
        n[0] += 1
        return src.pick([(str(n[0]), n[0]), ('"v%d"' % n[0], 'v%d' % n[0]), ('[%d]' % n[0], [n[0]]), ('None', None), ('(%d, )' % n[0], (n[0],)), ('False', False)])
    def assign(level, run):
        k = src.int(3)
        nm = src.pick(names)
        if k == 0 and isinstance(env.get('$' + nm), (int, str)) and not isinstance(env.get('$' + nm), bool):
            t, v = ('5', 5) if isinstance(env['$' + nm], int) else ('"+"', '+')
            lines.append(step * level + '$%s += %s' % (nm, t))
            if run: env['$' + nm] += v
        elif k == 1:
            two = src.shuffle(names)[:2]
            (a, va), (b, vb) = val(), val()
            lines.append(step * level + '$%s = %s, %s' % (', '.join(two), a, b))
            if run: env['$' + two[0]], env['$' + two[1]] = va, vb
        else:
            t, v = val()
            lines.append(step * level + '$%s%s %s' % (nm, src.pick([' =', '=']), t))
            if run: env['$' + nm] = v
    for _ in range(src.range(1, 8)):
        k = src.weighted([(4, 'assign'), (2, 'if'), (2, 'never'), (2, 'for'), (2, 'nested'), (2, 'tag'), (1, 'text'), (1, 'try'), (1, 'empty')])
        if k == 'assign': assign(0, True)
        elif k in ('if', 'never'):
            lines.append('if %d' % (k == 'if'))
            for _ in range(src.range(1, 2)): assign(1, k == 'if')
            if src.bool(0.4):
                lines.append('else')
                assign(1, k != 'if')
        elif k == 'for':
            nm = src.pick(names)
            items = [src.int(9) for _ in range(src.range(1, 3))]
            lines.append('for %s in [%s]' % (nm, ', '.join(map(str, items))))
            lines.append(step + '| {%s}' % nm)
            env['$' + nm] = items[-1]
        elif k == 'empty': lines += ['for %s in []' % src.pick(names), step + '| never']
        elif k == 'nested':
            lines.append(src.pick(['div', 'ul : li', '.']))
            before = dict(env)
            assign(1, True)
            env.clear(); env.update(before)
        elif k == 'tag':
            nm = src.pick([x for x in names if x != 'p'] or ['T'])
            lines += ['% ' + nm, step + '$ %s = 1' % src.pick(names), step + '| x']
            env['%' + nm] = Ellipsis
        elif k == 'try':
            lines.append('try')
            assign(1, True)
            lines.append('else')
            before = dict(env)
            assign(1, False)
        else: lines.append('| text')
    if ctx: lines.insert(0, 'context ' + ', '.join('$' + c for c in ctx))
    script = '\n'.join(lines)
    out = real.call(real.HyperHTML().translate, script, **ctx)
    if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    # a built-in name that is assigned in the document only where nothing is executed keeps its built-in value: exported or not
    table = real.HyperHTML().import_builtins()
    got = {k: v for k, v in out.value.symbols.items() if k in env or k not in table or table[k] is not v}
    show = lambda d: {k: same_repr(v) if k[0] == '$' else 'tag' for k, v in sorted(d.items())}
    if show(got) != show(env): raise Violation('wrong exported symbols', script = script, expected = show(env), got = show(got))
    return Case(script, len(env) > 1 and n[0] > 1, ['exports:%d' % min(len(env), 6)], dict(script = script, symbols = show(env)))


FAMILIES = [('plain', trees(False), 4000), ('context', trees(True), 2500), ('hypertags', trees(False, W = dict(def_ = 4, use = 9, embed = 4, for_ = 3)), 3000), ('markup', markup, 3000), ('exports', exports, 2500)]
