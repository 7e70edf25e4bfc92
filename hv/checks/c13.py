"""C13 Hypertag attributes bind like Python parameters."""
import inspect, re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import doc_family, INDS, same_repr

TECHNIQUE = "property-based testing: random signatures and uses decided by Python's own signature binding; expansion compared with the inlined definition (metamorphic)"
ORACLE = 'inspect.Signature.bind, the script with the definition inlined at the place of use, and hv/model.py for whole documents'
RULE = ('cases: definitions with any attributes, defaults and body attribute; uses with any mixture of positional and keyword attributes, as blocks, in chains, in loops and in '
        'expressions; non-trivial: the definition has an attribute or a body, and it is used; distinct by script text')

TAGS = ['H', 'H', 'trying', 'elsewhere', 'iffy', 'forx', 'whiles', 'passage', 'imports', 'fromage', 'contexts', 'try_', 'else_', 'pass_', 'if_', 'in_', 'null_', 'None_', 'Trueish', 'h1x', 'P', 'x']
ATTRS = ['notes', 'in_', 'None_', 'is_', 'try_', 'a', 'b', 'c', 'dd', 'e_1', 'Name', 'x', 'type', 'class_', 'body2']


class Token:
    """Unique value."""
    def __init__(self, n): self.n = n
    def __repr__(self): return 'T%d' % self.n
    def __str__(self): return 'T%d' % self.n


def signature(src):
    names = src.shuffle(ATTRS)[:src.weighted([(3, 2), (2, 1), (3, 3), (1, 0), (1, 5)])]
    return names, {n for n in names if src.bool(0.45)}, src.pick(['body', 'content', 'b_']) if src.bool(0.5) else None


def bind(names, defaults, pos, kw):
    """Python's rules of binding; attributes without defaults may follow the ones with them. -> dict of given values, or None"""
    P = inspect.Parameter
    sig = inspect.Signature([P(n, P.POSITIONAL_OR_KEYWORD) for n in names])
    try: return dict(sig.bind_partial(*pos, **kw).arguments)
    except TypeError: return None


def binding(src):
    ctx, log = {}, []
    count = [0]
    def value():
        count[0] += 1
        v = src.pick([lambda n: Token(n), lambda n: n, lambda n: 's%d' % n, lambda n: [n], lambda n: None, lambda n: False, lambda n: '', lambda n: 0, lambda n: (n,)])(count[0])
        name = 'v%d' % count[0]
        ctx[name] = v
        form = src.pick(['$%s', '{%s}', '%s', '(%s)'])
        return form % name, v
    def take(*args): log.append(args)
    ctx['take'] = take

    names, with_default, body = signature(src)
    dflt = {}
    head = ['@' + body] if body else []
    dcalls = []
    def dv(name):
        dcalls.append(name)
        return 'default ' + name
    ctx['dv'] = dv
    for n in names:
        if n in with_default:
            form = src.pick(['dv("%s")', '{dv("%s")}', '(dv("%s"))', '$dv("%s")'])
            head.append(n + src.pick(['=', ' = ', '= ']) + form % n)
        else: head.append(n)
    step = src.pick(INDS)
    H = src.pick(TAGS)
    lines = ['%' + src.pick(['', ' ']) + H + ' ' + ' '.join(head)]
    lines += [step + '$ take(%s)' % ', '.join(names), step + '| out']
    if body: lines.append(step + '@ ' + body)

    def use():
        """-> (text of attributes, positional values, keyword values, form)"""
        expr = src.bool(0.2)
        n = src.weighted([(5, len(names)), (2, max(len(names) - 1, 0)), (1, len(names) + 1), (1, 0)])
        npos = src.int(n + 1)
        pos = [value() for _ in range(npos)]
        rest = src.shuffle(names[npos:] if src.bool(0.85) else names)[:max(n - npos, 0)]
        if src.bool(0.08): rest.append(src.pick(['zz', 'A', 'other'] + ([body] if body else ['body'])))
        rest = list(dict.fromkeys(rest))
        kw = {k: value() for k in rest}
        if src.bool(0.25) and with_default and not pos:
            for k in list(kw):
                if k in with_default: del kw[k]
        return expr, pos, kw

    want, wanted_calls, expect_err = [], [], None
    nuse = src.weighted([(4, 1), (2, 2), (1, 3)])
    texts = []
    out_lines = []
    for i in range(nuse):
        if expect_err: break
        expr, pos, kw = use()
        has_body = bool(src.bool(0.5 if body else 0.06))
        if expr:
            args = (['"B"'] if has_body or pos else []) + [t if t[0] != '{' else t[1:-1] for t, _ in pos] + ['%s=%s' % (k, t if t[0] != '{' else t[1:-1]) for k, (t, _) in kw.items()]
            has_body = has_body or bool(pos)
            texts.append('| {%%%s(%s)}' % (H, ', '.join(args)))
        else:
            wrap = src.pick(['', '', '', 'div : ', 'p #i : '])
            texts.append(wrap + H + ''.join(' ' + t for t, _ in pos) + ''.join(src.pick([' %s=%s', ' %s = %s']) % (k, t) for k, (t, _) in kw.items()))
            if has_body: texts[-1] += src.pick([' | B', ':\n' + step + '| B', '\n' + step + '| B'])
        b = bind(names, with_default, [v for _, v in pos], {k: v for k, (_, v) in kw.items()})
        missing = [n for n in names if b is not None and n not in b and n not in with_default]
        bad = set()
        if b is None or missing: bad.add('TypeErrorEx')
        if has_body and not body: bad.add('VoidTagEx')
        if bad: expect_err = bad
        else:
            want.append(tuple(b[n] if n in b else 'default ' + n for n in names))
            wanted_calls += [n for n in names if n not in b]
    script = '\n'.join(['context ' + ', '.join('$' + n for n in ctx)] + lines + texts)
    out = real.render(script, ctx)
    detail = dict(script = script, names = names, defaults = sorted(with_default), body = body, got = out.show())
    if expect_err:
        if out.ok: raise Violation('a wrong use is not rejected', expected = sorted(expect_err), received = log, **detail)
        if not set(out.mro()) & expect_err: raise Violation('wrong type of error', expected = sorted(expect_err), **detail)
    else:
        if not out.ok: raise Violation('unexpected error', expected = want, **detail)
    same = len(log) == len(want) and all(len(x) == len(y) and all(p is q or type(p) is type(q) and p == q for p, q in zip(x, y)) for x, y in zip(log, want))
    if not same: raise Violation('attributes are bound to other values', expected = want, received = log, **detail)
    if not expect_err and dcalls != wanted_calls: raise Violation('different evaluations of defaults', expected = wanted_calls, received = dcalls, **detail)
    return Case(script, bool(names or body), ['error' if expect_err else 'ok', 'attrs:%d' % len(names)], dict(script = script, bound = [repr(w) for w in want], error = sorted(expect_err or [])))


def defaults(src):
    """Defaults are evaluated at each use, in the scope of the definition."""
    log = []
    n = [0]
    def tick():
        n[0] += 1
        return n[0]
    vals = ['v%d' % i for i in range(6)]
    step = src.pick(INDS)
    place = src.pick(['top', 'loop', 'nested', 'inner'])
    names = src.shuffle(['a', 'b', 'c'])[:src.range(1, 3)]
    outer = {'g': 'g0', 'h': 'h0'}
    S = ['$ g, h = "g0", "h0"'] if src.bool() else ['$g = "g0"', '$h = "h0"']
    if src.bool(0.4): S.append('$%s = "outer"' % names[0]); outer[names[0]] = 'outer'      # a default sees the outer variable, not the attribute of the same name
    exprs = {}
    for k in names:
        opts = ['g', 'h', '(g h)', 'tick()', '(g + "!")', '"{h}{g}"', '[g, h]']
        if k == names[0] or names[0] in outer: opts.append(names[0] if names[0] in outer else 'g')
        exprs[k] = src.pick(opts)
    S.append('%%H %s' % ' '.join('%s=%s' % (k, exprs[k]) for k in names))
    S.append(step + '$ take(%s)' % ', '.join(names))
    want = []
    env = dict(outer)
    def evaluate(e):
        if e == '(g h)': return env['g'] + env['h']
        if e == 'tick()':
            cnt[0] += 1
            return cnt[0]
        if e == '(g + "!")': return env['g'] + '!'
        if e == '"{h}{g}"': return env['h'] + env['g']
        if e == '[g, h]': return [env['g'], env['h']]
        return env[e]
    cnt = [0]
    def use(ind):
        given = {k: 'k%d' % src.int(9) for k in names if src.bool(0.4)}
        S.append(ind + 'H' + ''.join(' %s="%s"' % kv for kv in given.items()))
        return given
    for _ in range(src.range(1, 5)):
        k = src.int(4)
        if k == 0:
            v = src.pick(vals)
            x = src.pick(['g', 'h'])
            S.append('$%s = "%s"' % (x, v)); env[x] = v
        elif k == 1:
            m = src.range(1, 3)
            x = src.pick(['g', 'h', 'i'])
            S.append('for %s in %r' % (x, vals[:m]))
            given = use(step)
            for v in vals[:m]:
                env[x] = v
                want.append(tuple(given[q] if q in given else evaluate(exprs[q]) for q in names))
        elif k == 2:
            S.append('div')
            x = src.pick(['g', 'h'])
            S.append(step + '$%s = "inner"' % x)                   # a variable of the inner scope is another one
            given = use(step)
            want.append(tuple(given[q] if q in given else evaluate(exprs[q]) for q in names))
        else:
            given = use('')
            want.append(tuple(given[q] if q in given else evaluate(exprs[q]) for q in names))
    script = 'context $take, $tick\n' + '\n'.join(S)
    out = real.render(script, dict(take = lambda *a: log.append(a), tick = tick))
    if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    if log != want: raise Violation('wrong values of defaults', script = script, expected = want, received = log)
    return Case(script, len(want) >= 1, ['uses:%d' % min(len(want), 5)], dict(script = script, bound = want))


def placement(src):
    """A use of a hypertag outputs the same as the body of its definition written at that place."""
    count = [0]
    def tok():
        count[0] += 1
        return 't%d' % count[0]

    def content(ind, depth, names, lo = 1):
        """Blocks as a list of lines, where attributes occur as {name}."""
        out = []
        for i in range(src.range(lo, 3)):
            k = src.weighted([(4, 'text'), (3, 'attr'), (2, 'nest'), (1, 'multi'), (1, 'for'), (1, 'if'), (1, 'blank'), (1, 'var'), (2, 'use')])
            if depth >= 3 and k in ('nest', 'for', 'if'): k = 'text'
            if k == 'blank' and i: out += ['']; k = 'text'
            if k == 'attr' and names: out.append(ind + src.pick(['p title={%s} | ', '| ', 'b | x ', '/ ']).replace('%s', src.pick(names)) + '{%s} ' % src.pick(names) + tok()); continue
            if k == 'nest':
                st = src.pick(INDS)
                out += [ind + src.pick(['div', 'ul : li', 'p .x : | ' + tok(), '.'])] + content(ind + st, depth + 1, names)
                continue
            if k == 'multi': out += [ind + '| ' + tok(), ind + '    ' + tok(), '', ind + '  ' + tok()]; continue
            if k == 'for':
                st = src.pick(INDS)
                out += [ind + 'for q%d in [1, 2]' % depth, ind + st + '| {q%d} %s' % (depth, tok())] + content(ind + st, depth + 1, names)
                continue
            if k == 'if':
                st = src.pick(INDS)
                out += [ind + 'if %s' % src.pick(['True', 'False'])] + content(ind + st, depth + 1, names) + [ind + 'else'] + content(ind + st, depth + 1, names)
                continue
            if k == 'var':
                t = tok()
                out += [ind + '$w = "%s"' % t, ind + '| {w}']
                continue
            if k == 'use' and tags:
                out += use(ind)
                continue
            out.append(ind + src.pick(['| ', 'p | ', '! ']) + tok())
        return out

    tags = {}
    inl = {}           # uses: marker line -> (tag, values)
    def use(ind):
        n = src.pick(sorted(tags))
        vals = [tok() for _ in tags[n][0]]
        given = list(zip(tags[n][0], vals))
        p = src.int(len(given) + 1)
        line = n + ''.join(' "%s"' % v for _, v in given[:p]) + ''.join(' %s="%s"' % kv for kv in src.shuffle(given[p:]))
        inl[line] = (n, vals)
        return [ind + line]

    S = []
    steps = []
    for i in range(src.range(1, 3)):
        names = src.shuffle(['a', 'b', 'c'])[:src.int(3)]
        st = src.pick(INDS)
        body = content('', 0, names)
        name = 'H%d' % i
        S += ['%%%s %s' % (name, ' '.join(names))] + [st + l if l else l for l in body]
        tags[name] = (names, body)
        if src.bool(0.3): S += ['| ' + tok()]
    doc = content('', 0, [], 2)
    if not any(l.strip() in inl for l in doc): doc += use('')
    S += doc

    def expand(lines, depth = 0):
        out = []
        for l in lines:
            key = l.strip()
            if key not in inl:
                out.append(l)
                continue
            ind = l[:len(l) - len(l.lstrip())]
            n, vals = inl[key]
            names, body = tags[n]
            sub = []
            for b in body:
                for nm, v in zip(names, vals): b = b.replace('{%s}' % nm, v)
                sub.append(b)
            out += [ind + x if x else x for x in expand(sub)]
        return out
    head = []
    skip = False
    for l in S[:len(S) - len(doc)]:
        if l.startswith('%'): skip = True; continue
        if skip and (not l or l[0] in ' \t'): continue
        skip = False
        head.append(l)
    U = head + expand(doc)
    # an attribute value in the inlined form is a literal
    s, u = '\n'.join(S), '\n'.join(U)
    u = re.sub(r'title=(t\d+)', r'title="\1"', u)
    a, b = real.render(s), real.render(u)
    if not b.ok: raise Skip('the inlined script is not valid')
    if not a.ok: raise Violation('unexpected error', script = s, inlined = u, got = a.show())
    if a.value != b.value: raise Violation('output differs from the inlined definition', script = s, inlined = u, expected = b.value, got = a.value)
    return Case(s, True, ['placement'], dict(script = s, output = a.value))


docs = doc_family(lambda f, st: 'def' in f and 'use' in f, ctx = True, bad_p = 0.06, wild = 0.02, size = 18, margin_p = 0.3,
                  W = dict(def_ = 6, use = 12, struct = 5, for_ = 3, embed = 3))

def duplicates(src):
    """A definition with two attributes of the same name is rejected, used or not, and the message names the attribute."""
    names = src.shuffle(ATTRS)[:src.range(1, 5)]
    body = src.pick(['body', 'content', 'b_']) if src.bool(0.5) else None
    k = src.weighted([(3, 'dup'), (1, 'body'), (1, 'ok')])
    if k == 'body' and not body: k = 'dup'
    dup = body if k == 'body' else src.pick(names)
    items = list(names)
    if k != 'ok': items.insert(src.int(len(items) + 1), dup)
    items = [n + (src.pick(['=1', ' = "x"', '={[1]}']) if src.bool(0.4) else '') for n in items]
    if body: items.insert(0, '@' + body)
    step = src.pick(INDS)
    form = src.int(3)
    lines = ['%' + src.pick(['', ' ']) + 'Hyp ' + ' '.join(items) + [' | text', ':', ''][form]]
    if form: lines += [step + '| text'] + ([step + '@ ' + body] if body and src.bool() else [])
    depth = src.int(3)
    for _ in range(depth): lines = [src.pick(['div', 'p #i', '% Outer @body', '. '])] + [step + l for l in lines]
    if src.bool(0.3): lines = ['| before', ''] + lines
    if src.bool(0.3): lines += ['', '| after']
    script = '\n'.join(lines)
    out = real.render(script)
    if k == 'ok':
        if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    else:
        if out.ok or 'SyntaxErrorEx' not in out.mro(): raise Violation('a duplicate attribute of a definition is not rejected as a syntax error', script = script, got = out.show())
        msg = str(out.exc)
        if "'%s'" % dup not in msg.split(' at line ')[0]: raise Violation('the message does not name the duplicate attribute', script = script, attribute = dup, message = msg)
    return Case(script, True, ['duplicates:' + k], dict(script = script, duplicate = dup if k != 'ok' else None))


FAMILIES = [('binding', binding, 8000), ('duplicates', duplicates, 1200), ('defaults', defaults, 3000), ('placement', placement, 2500), ('documents', docs, 2500)]
