"""C17 DOM traversal and manipulation follow their contract."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer

TECHNIQUE = 'stateful model-based testing: random sequences of DOM operations on a pool of DOMs (built by hand or translated from random scripts), run in parallel on plain trees of a reference model'
ORACLE = 'a reference model of nodes (plain trees with documented traversal, selection, copying and rendering); identity of nodes tracked through all operations'
RULE = ('cases: sequences of 2-12 operations (construct, walk, select, index, skip, copy, alter, mutate, render, tree) on DOMs with up to about 25 nodes; non-trivial: at least three operations and '
        'one that selects, removes or transforms nodes; distinct by initial DOMs and operations')

DOM = real.DOM


class Plain(real.Tag):
    def __init__(self, name): self.name = name
    def expand(self, body, attrs, kwattrs): return '[%s%s|%s]' % (self.name, ''.join(' %s' % a for a in attrs) + ''.join(' %s=%s' % kv for kv in kwattrs.items()), body.render())

TAGS = [Plain('p'), Plain('q'), Plain('p'), real.Markup('div'), real.Markup('b'), real.Markup('hr', True)]


class MN:
    """Node of the model."""
    count = 0
    def __init__(self, tag, attrs, kw, body, text, indent, outline, margin = False):
        self.tag, self.attrs, self.kw, self.body, self.text, self.indent, self.outline, self.margin = tag, attrs, kw, body, text, indent, outline, margin
    def copy(self): return MN(self.tag, None if self.attrs is None else list(self.attrs), None if self.kw is None else dict(self.kw), [c.copy() for c in self.body], self.text, self.indent, self.outline, self.margin)
    def render(self):
        s = '\n' * bool(self.outline)
        if self.text is not None: s += self.text
        else:
            inner = render(self.body)
            if self.tag is None: s += inner
            elif isinstance(self.tag, Plain): s += '[%s%s|%s]' % (self.tag.name, ''.join(' %s' % a for a in self.attrs or ()) + ''.join(' %s=%s' % kv for kv in (self.kw or {}).items()), inner)
            else:
                if self.attrs: raise ModelErr('TypeErrorEx')
                at = ''.join(' ' + k if v is True else ' %s=%s' % (k, model.quote_attr(str(v))) for k, v in (self.kw or {}).items() if v is not False)
                if self.tag.void:
                    if inner: raise ModelErr('VoidTagEx')
                    s += '<%s%s />' % (self.tag.name, at)
                else: s += '<%s%s>%s%s</%s>' % (self.tag.name, at, inner, '\n' * inner.startswith('\n'), self.tag.name)
        if self.indent:
            lines = s.split('\n')
            s = '\n'.join(lines[:1] + [self.indent + l if l else l for l in lines[1:]])
        return s
    def tree(self, indent, step):
        head = self.tag.name if self.tag is not None else '<Text>' if self.text is not None else '<Node>'
        head += ''.join(' %s' % a for a in self.attrs or ()) + ''.join(' %s=%s' % kv for kv in (self.kw or {}).items())
        return indent + head + '\n' + ''.join(c.tree(indent + step, step) for c in self.body)

class ModelErr(Exception): pass

def render(nodes): return ''.join(n.render() for n in nodes)

def walk(nodes, skip, order):
    for n in nodes:
        if skip and skip(n): continue
        if order == 'preorder': yield n
        yield from walk(n.body, skip, order)
        if order == 'postorder': yield n

def alter(nodes, f, skip, order):
    """In place, by the contract of alter()."""
    def inner():
        for n in list(nodes):
            if not (skip and skip(n)): alter(n.body, f, skip, order)
    if order == 'postorder': inner()
    nodes[:] = [m for n in nodes for m in f(n)]
    if order == 'preorder': inner()

def match(n, tag, cons):
    if tag is not None and tag != '':
        if isinstance(tag, str):
            if n.tag is None or n.tag.name != tag: return False
        elif n.tag is not tag: return False
    for k, v in cons:
        if k not in (n.kw or {}): return False
        if v is not ANY and n.kw[k] != v: return False
    return True

ANY = object()


class Pool:
    def __init__(self, src):
        self.src = src
        self.doms = []                   # (real DOM, list of model nodes)
        self.m2r, self.r2m, self.keep = {}, {}, []
        self.log = []
        self.n = 0
        self.scripts = 0           # number of scripts at the beginning of the log

    def tok(self):
        self.n += 1
        return 't%d' % self.n

    def bind(self, r, m):
        """The real node `r` must always be the counterpart of the model node `m`."""
        if id(r) in self.r2m:
            if self.r2m[id(r)] is not m: self.fail('a node is shared with another DOM or another node is returned')
        elif id(m) in self.m2r: self.fail('another node instead of the original one')
        else:
            self.r2m[id(r)], self.m2r[id(m)] = m, r
            self.keep.append((r, m))

    def fail(self, what, **d): raise Violation(what, operations = self.log, **d)

    def same(self, rnodes, mnodes, owners):
        rnodes = list(rnodes)
        if len(rnodes) != len(mnodes): self.fail('wrong list of nodes', expected = [m.tree('', ' ') for m in mnodes], got = [self.show(r) for r in rnodes])
        for r, m in zip(rnodes, mnodes):
            self.bind(r, m)
            kind = isinstance(r, DOM.Text)
            text = r.text if kind else None
            if (r.tag, list(r.attrs) if r.attrs is not None else None, dict(r.kwattrs) if r.kwattrs is not None else None, text, r.indent, bool(r.outline), bool(r.margin)) != \
               (m.tag, m.attrs, m.kw, m.text, m.indent, bool(m.outline), bool(m.margin)): self.fail('wrong content of a node', expected = m.tree('', ' '), got = self.show(r))
            if id(r) in owners: continue
            owners.add(id(r))
            for x in (r.attrs, r.kwattrs):
                if x is not None and not isinstance(x, tuple):
                    k = self.r2m.setdefault(('attrs', id(x)), m)
                    self.keep.append(x)
                    if k is not m: self.fail('a copy shares its attributes with the original')
            self.same(r.body or [], m.body, owners)

    @staticmethod
    def show(r):
        try: return r.tree()
        except Exception as ex: return repr(ex)

    def check(self):
        for r, m in self.doms:
            if not isinstance(r, DOM): self.fail('not a DOM', got = type(r).__name__)
            self.same(r.nodes, m, set())

    # construction

    def node(self, depth):
        src = self.src
        if src.bool(0.35) or depth >= 4:
            m = MN(None, None, None, [], src.pick([self.tok, lambda: self.tok() + '\n  ' + self.tok(), lambda: '', lambda: '\n', lambda: '\n\n' + self.tok() + '\n'])(), src.pick([None, '', '  ', '\t']), src.bool(0.4), src.bool(0.1))
            r = DOM.Text(m.text, indent = m.indent, outline = m.outline, margin = m.margin)
        else:
            pairs = [self.node(depth + 1) for _ in range(src.weighted([(2, 0), (3, 1), (3, 2), (1, 3)]))]
            tag = src.pick(TAGS + [None])
            attrs = src.pick([None, [], [], [5], ['x', self.tok()]]) if tag is None or isinstance(tag, Plain) else src.pick([None, []])
            kw = None if src.bool(0.2) else {k: src.pick([1, 'v', 'w', None, 2.5, self.tok()]) for k in ('a', 'cls', 'tag', 'value') if src.bool(0.3)}
            m = MN(tag, attrs, kw, [p[1] for p in pairs], None, src.pick([None, '', '  ', '\t ']), src.bool(0.4))
            params = dict(tag = tag, outline = m.outline)
            if attrs is not None: params['attrs'] = src.pick([list, tuple])(attrs)
            if kw is not None: params['kwattrs'] = dict(kw)
            r = DOM.Node(self.nest([p[0] for p in pairs]), m.indent, **params)
        return r, m

    def nest(self, nodes):
        """The list of nodes given in one of the accepted forms."""
        src = self.src
        k = src.int(6)
        if k == 0: return nodes
        if k == 1: return DOM(*nodes)
        if k == 2: return (n for n in nodes)
        if k == 3: return [None, nodes[:1], [], DOM(nodes[1:]), None]
        if k == 4 and len(nodes) == 1: return nodes[0]
        if k == 4 and not nodes: return None
        return [[[n], None] for n in nodes]

    def add(self, r, m):
        self.doms.append((r, m))
        if len(self.doms) > 4: del self.doms[self.src.int(len(self.doms))]

    def new(self):
        pairs = [self.node(0) for _ in range(self.src.range(1, 3))]
        form = self.nest([p[0] for p in pairs])
        self.add(DOM(form) if self.src.bool() else DOM(None, form), [p[1] for p in pairs])

    def translated(self):
        """The DOM of a random script; the model is read from it."""
        src = self.src
        g = DocGen(src, None, size = src.pick([5, 10]), bad_p = 0.0, wild = 0.0)
        doc = g.document()
        text = Printer(src, rate = 0.05).script(doc)
        if model.render(doc)[0] != 'ok': raise Skip('the script fails')
        out = real.call(real.HyperHTML().translate, text)
        if not out.ok: raise Skip('the script fails')
        self.log.append(text)
        self.scripts = 1
        def read(r):
            if isinstance(r.attrs, (list, tuple)) or r.attrs is None: pass
            else: raise Skip('attributes')
            return MN(r.tag, list(r.attrs) if r.attrs is not None else None, dict(r.kwattrs) if r.kwattrs is not None else None, [read(c) for c in r.body or []], r.text if isinstance(r, DOM.Text) else None, r.indent, r.outline, r.margin)
        root = out.value.dom
        nodes = [read(c) for c in root.body]
        if sum(1 for _ in walk(nodes, None, 'preorder')) > 60: raise Skip('too large')
        seen = set()
        for n in root.walk():
            if id(n) in seen: raise Skip('shared nodes')
            seen.add(id(n))
            if n.tag is not None and not isinstance(n.tag, (real.Markup, Plain)) or n.indent and n.indent[0] == '\n': raise Skip('other tags')
        self.add(root.body, nodes)

    # predicates on nodes, used on both sides

    def predicate(self):
        src = self.src
        k = src.int(5)
        if k == 0:
            name = src.pick(['p', 'q', 'div', 'b'])
            return 'tag ' + name, lambda n: n.tag is not None and n.tag.name == name
        if k == 1: return 'no children', lambda n: len(n.body or ()) == 0
        if k == 2: return 'many children', lambda n: len(n.body or ()) >= 2
        if k == 3:
            key = src.pick(['a', 'cls'])
            return 'attr ' + key, lambda n: key in ((n.kwattrs if isinstance(n, DOM.Node) else n.kw) or {})
        return 'text', lambda n: getattr(n, 'text', None) is not None


def histories(src):
    p = Pool(src)
    if src.bool(0.3): p.translated()
    else: p.new()
    p.check()
    start = [self_tree(m) for _, ms in p.doms for m in ms]
    strong = 0
    nops = src.range(2, 12)
    for _ in range(nops):
        op = src.weighted([(1, 'new'), (3, 'walk'), (4, 'select'), (2, 'index'), (3, 'skip'), (2, 'copy'), (5, 'alter'), (2, 'mutate'), (3, 'render'), (1, 'tree'), (1, 'compose'), (1, 'node')])
        r, m = src.pick(p.doms)
        order = src.pick(['preorder', 'postorder', None])
        okw = {} if order is None else dict(order = order)
        order = order or 'preorder'
        if op == 'new':
            p.log.append('new')
            p.new()
        elif op == 'walk':
            sk = p.predicate() if src.bool(0.6) else None
            p.log.append('walk %s %s' % (order, sk and sk[0]))
            if sk: got = list(r.walk(sk[1], **okw) if src.bool() else r.walk(skip = sk[1], **okw))
            else: got = list(r.walk(**okw))
            p.same(got, list(walk(m, sk and sk[1], order)), set())
        elif op in ('select', 'skip'):
            strong += 1
            tag = src.pick(['p', 'q', 'div', 'b', 'hr', 'null', 'nothing', TAGS[0], TAGS[2], TAGS[3], None, None])
            cons, kw = [], {}
            if src.bool(0.5):
                a = src.pick(['a', 'cls', 'tag', 'value', 'zz'])
                kw['attr'] = a
                if src.bool(0.6):
                    v = kw['value'] = src.pick([1, 'v', 'w', None, 2.5, DOM.ATTR_DEFINED])
                    cons.append((a, ANY if v is DOM.ATTR_DEFINED else v))
                else: cons.append((a, ANY))
            if src.bool(0.3) and kw.get('attr') != 'cls':
                v = kw['cls'] = src.pick([1, 'v', 'w', DOM.ATTR_DEFINED])
                cons.append(('cls', ANY if v is DOM.ATTR_DEFINED else v))
            p.log.append('%s %s %s %s' % (op, tag if isinstance(tag, str) or tag is None else 'tag:%d' % TAGS.index(tag), {k: v if v is not DOM.ATTR_DEFINED else 'DEFINED' for k, v in kw.items()}, order))
            if op == 'select':
                hits = [n for n in walk(m, None, order) if match(n, tag, cons)]
                if not kw and tag is not None and not okw and src.bool(): got = r[tag]
                elif tag is None: got = r.select(**kw, **okw)
                else: got = r.select(tag, **kw, **okw) if src.bool() else r.select(tag = tag, **kw, **okw)
                p.add(got, hits)
            else:
                got = r.skip(**kw) if tag is None else r.skip(tag, **kw)
                def prune(nodes): return [x for x in ((lambda c: (setattr(c, 'body', prune(n.body)), c)[1])(n.copy()) for n in nodes if not match(n, tag, cons))]
                p.add(got, prune(m))
        elif op == 'index':
            if src.bool(0.4) and m:
                i = src.int(len(m)) - (len(m) if src.bool(0.3) else 0)
                p.log.append('index %d' % i)
                p.same([r[i]], [m[i]], set())
            else:
                sl = slice(src.pick([None, 0, 1, -1]), src.pick([None, 0, 1, 2, -1]), src.pick([None, 1, 2, -1]))
                p.log.append('slice %s' % sl)
                p.add(r[sl], m[sl])
        elif op == 'copy':
            p.log.append('copy')
            if m and src.bool(0.3):
                i = src.int(len(m))
                p.add(DOM(r.nodes[i].copy()), [m[i].copy()])
            else: p.add(r.copy(), [n.copy() for n in m])
        elif op == 'compose':
            r2, m2 = src.pick(p.doms)
            p.log.append('compose')
            p.add(src.pick([lambda: DOM(r, r2), lambda: DOM([r, None], *r2), lambda: DOM(r.nodes, [r2])])(), m + m2)
        elif op == 'node':
            if not m: continue
            i = src.int(len(m))
            sk = p.predicate() if src.bool(0.4) else None
            p.log.append('walk of node %d %s %s' % (i, order, sk and sk[0]))
            p.same(list(r[i].walk(*([sk[1]] if sk else []), **okw)), list(walk([m[i]], sk and sk[1], order)), set())
            for k in ('a', 'cls', 'zz'):
                kw = m[i].kw or {}
                if r[i].get(k, 'default') != kw.get(k, 'default') or r[i].get(k) != kw.get(k): p.fail('wrong value of an attribute')
                if k in kw and r[i][k] != kw[k]: p.fail('wrong value of an attribute')
        elif op == 'mutate':
            nodes = list(walk(m, None, 'preorder'))
            if not nodes: continue
            n = src.pick(nodes)
            rn = p.m2r[id(n)]
            k = src.int(4)
            p.log.append('mutate %d' % k)
            if k == 0 and n.kw is not None: rn.kwattrs['a'] = n.kw['a'] = p.tok()
            elif k == 1 and n.text is not None: rn.text = n.text = p.tok()
            elif k == 2 and n.kw: n.kw.popitem(); rn.kwattrs.popitem()
            elif k == 3 and n.text is None and n.body:
                c = n.body.pop()
                rn.body.nodes.pop()
        elif op == 'alter':
            nodes = list(walk(m, None, 'preorder'))
            if len(set(map(id, nodes))) < len(nodes) or len(nodes) > 60: continue         # a shared node would be transformed twice
            strong += 1
            name, pred = p.predicate()
            sk = p.predicate() if src.bool(0.4) else None
            act = src.pick(['remove', 'unwrap', 'double', 'text', 'wrap', 'keep', 'replace', 'tag'])
            if act == 'double' and len(nodes) > 20: act = 'remove'
            if order == 'preorder' and act in ('double', 'wrap', 'replace') and act != 'replace': act = {'double': 'before', 'wrap': 'wrap once'}[act]
            p.log.append('alter %s where %s, skip %s, %s' % (act, name, sk and sk[0], order))
            made = {}                       # results of the model, by the number of the call
            wrapped = []                    # nodes that have been wrapped once (both sides)
            mcalls, rcalls = [], []
            def f(n, real_side):
                """List of nodes, for both sides; pairs of new nodes are equal by construction."""
                if not pred(n): return [n]
                mk_text = lambda s: DOM.Text(s) if real_side else MN(None, None, None, [], s, None, False)
                if act == 'remove': return []
                if act == 'unwrap': return list(n.body or [])
                if act in ('double', 'before'): return [n, mk_text('dup')] if act == 'before' else [n, n.copy()]
                if act == 'text': return [mk_text('new')]
                if act == 'keep': return [n]
                if act == 'replace': return [mk_text('x'), mk_text('y')]
                if act == 'tag':
                    n.tag = TAGS[4] if getattr(n, 'text', None) is None else None
                    return [n]
                if any(w is n for w in wrapped): return [n]
                wrapped.append(n)
                if real_side: return [DOM.Node([n], tag = TAGS[0], attrs = [], kwattrs = {})]
                return [MN(TAGS[0], [], {}, [n], None, None, False)]
            form = src.int(4)
            def g(n):
                rcalls.append(n)
                out = f(n, True)
                return out if form == 0 else tuple(out) if form == 1 else DOM(*out) if form == 2 else gen(out)
            def h(n):
                mcalls.append(n)
                return f(n, False)
            # predicates are evaluated on both sides at the corresponding moments
            alter(m, h, sk and sk[1], order)
            del wrapped[:]
            if src.bool() and sk: res = r.alter(g, sk[1], **okw)
            else: res = r.alter(g, skip = sk and sk[1], **okw)
            if res is not r: p.fail('alter() must return the DOM itself')
            if len(mcalls) != len(rcalls): p.fail('transform called for %d nodes, expected %d' % (len(rcalls), len(mcalls)))
        elif op == 'render':
            p.log.append('render')
            check_render(p, r, m)
        elif op == 'tree':
            p.log.append('tree')
            got, want = r.tree(), ''.join(n.tree('', '  ') for n in m)
            if got != want: p.fail('wrong textual tree', expected = want, got = got)
            if len(r) != len(m) or bool(r) != bool(m) or [id(x) for x in r] != [id(p.m2r[id(n)]) for n in m]: p.fail('wrong length or iteration')
        p.check()
    for r, m in p.doms: check_render(p, r, m)
    p.check()
    return Case((start, p.log), nops >= 3 and strong >= 1, [l.split()[0] for l in p.log[p.scripts:]], dict(start = start, operations = p.log))

def gen(items):
    for i in items: yield i

def self_tree(m): return m.tree('', ' ')

def check_render(p, r, m):
    try: want = render(m)
    except ModelErr as ex: want = ex
    out = real.call(r.render)
    if isinstance(want, ModelErr):
        if out.ok or not {'TypeErrorEx', 'VoidTagEx'} & set(out.mro()): p.fail('an error was expected', expected = want.args[0], got = out.show())
    elif not out.ok or out.value != want: p.fail('wrong result of rendering', expected = want, got = out.show())


def errors(src):
    """Improper arguments are rejected."""
    bad = src.pick([5, 'text', (DOM.Text('a'),), {}, 2.5, True, b'x'])
    good = [DOM.Text('a'), DOM.Node(), None, []]
    items = src.subset(good, 0.5) + [src.pick([bad, [bad], [[bad], None]])]
    fun = src.pick(['DOM', 'Node', 'alter', 'param'])
    if fun == 'DOM': out = real.call(DOM, *items)
    elif fun == 'Node': out = real.call(DOM.Node, items)
    elif fun == 'alter': out = real.call(DOM(DOM.Text('z')).alter, lambda n: items)
    else: out = real.call(lambda: DOM(DOM.Text('z'), wrong = 1))
    if not out.is_err('TypeErrorEx'): raise Violation('an improper node is accepted', function = fun, items = repr(items), got = out.show() if not out.ok else 'accepted')
    return Case((fun, repr(items)[:200].replace(' at 0x', '')[:20], str(bad)), True, ['errors'], dict(function = fun, bad = repr(bad)))


FAMILIES = [('histories', histories, 25000), ('errors', errors, 200)]
