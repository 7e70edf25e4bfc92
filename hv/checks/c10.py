"""C10 Control blocks output exactly the executed branches and iterations."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import doc_family, INDS, Rec, same_repr

TECHNIQUE = 'property-based testing: nested control blocks compared with their unrolled form (metamorphic), logs of evaluated conditions, and a reference model'
ORACLE = 'the unrolled script built together with the script, and hv/model.py for whole documents'
RULE = ('cases: nested if/elif/else, for and while blocks over random iterables with variables, bodies of all kinds; non-trivial: a branch not taken and at least two '
        'iterations or nested control blocks; distinct by script text')


class Once:
    """Iterable of another kind than the built-in ones."""
    def __init__(self, items): self.items = items
    def __iter__(self):
        for x in self.items: yield x

class Indexed:
    """Iterable through __getitem__ only."""
    def __init__(self, items): self.items = items
    def __getitem__(self, i):
        if not isinstance(i, int): raise TypeError(i)
        return self.items[i]

def iterable(src, items):
    k = src.int(9)
    if k == 0: return list(items)
    if k == 1: return tuple(items)
    if k == 2: return iter(list(items))
    if k == 3: return (x for x in list(items))
    if k == 4: return Once(items)
    if k == 5: return Indexed(items)
    if k == 6: return {x: 1 for x in items} if len(set(map(str, items))) == len(items) and all(isinstance(x, (str, int)) for x in items) else list(items)
    if k == 7: return map(lambda x: x, list(items))
    return {i: x for i, x in enumerate(items)}.values()


def unrolled(src):
    """Script S with control blocks, and script U where each control block is replaced with the blocks it executes, with explicit assignments of
    loop targets. Both are rendered by the code under test with equal contexts; the logs of calls (conditions included) are compared, too."""
    ctx_s, ctx_u = {}, {}
    count = [0]
    stats = dict(iters = 0, untaken = 0, nested = 0, empty = 0)
    loops = [0]

    def new(prefix, s, u = None):
        n = '%s%d' % (prefix, len(ctx_s))
        ctx_s[n] = s
        ctx_u[n] = s if u is None else u
        return n

    def token():
        count[0] += 1
        return 't%d' % count[0]

    # A template is a function of nothing that returns source lines of the control form, and a function that returns unrolled lines at each execution.

    def blocks(ind, depth, names):
        items = [block(ind, depth, names) for _ in range(src.weighted([(4, 1), (3, 2), (1, 3)]))]
        S = [l for s, _ in items for l in s]
        def run(uind, env): return [l for _, r in items for l in r(uind, env)]
        return S, run

    def plain(ind, depth, names):
        k = src.weighted([(4, 'line'), (3, 'show'), (2, 'nest'), (1, 'assign'), (1, 'call'), (1, 'multi'), (1, 'blank')])
        t = token()
        if k == 'show' and names:
            n = src.pick(names)
            return [ind + 'p | %s {%s}' % (t, n)], lambda u, env: [u + 'p | %s {%s}' % (t, n)]
        if k == 'nest' and depth < 4:
            step = src.pick(INDS)
            s, r = blocks(ind + step, depth + 1, names)
            tag = src.pick(['div', 'ul : li', '.'])
            return [ind + tag] + s, lambda u, env: [u + tag] + r(u + step, env)
        if k == 'assign': return [ind + '$last = "%s"' % t, ind + '| $last'], lambda u, env: [u + '$last = "%s"' % t, u + '| $last']
        if k == 'call': return [ind + '$ f("%s")' % t], lambda u, env: [u + '$ f("%s")' % t]
        if k == 'multi': return [ind + '| %s' % t, ind + '    more', '', ind + '      deep'], lambda u, env: [u + '| %s' % t, u + '    more', '', u + '      deep']
        if k == 'blank': return ['', ind + '| %s' % t], lambda u, env: ['', u + '| %s' % t]
        return [ind + '| %s' % t], lambda u, env: [u + '| %s' % t]

    def clause(ind, depth, names, header, allow_inline = True):
        """Header line with a body: -> lines, run"""
        form = src.weighted([(6, 'body'), (2, 'inline'), (1, 'none')])
        if form == 'none': return [ind + header + (':' if header[-1] == '}' else src.pick(['', ':', ' :']))], lambda u, env, again = False: []
        if form == 'inline':
            t = token()
            m = src.pick('|/!')
            return [ind + header + ' %s %s' % (m, t)], lambda u, env, again = False: [u + '...' * again + '%s %s' % (m, t)]      # an inline body does not start a new line again
        step = src.pick(INDS)
        s, r = blocks(ind + step, depth + 1, names)
        return [ind + header + src.pick(['', ':', ' :', '  # note'])] + s, lambda u, env, again = False: r(u, env)

    def cond(value):
        """Condition with a recorded evaluation and a given truth value."""
        t = token()
        v = src.pick([1, 'x', [0], True, 2.5]) if value else src.pick([0, '', [], None, False, 0.0])
        n = new('c', v)
        return 'g("%s", %s)' % (t, n), [t]

    def block(ind, depth, names):
        k = src.weighted([(5, 'plain'), (3, 'if'), (3, 'for'), (2, 'while')]) if depth < 4 and count[0] < 40 else 'plain'
        if k == 'plain': return plain(ind, depth, names)
        if depth: stats['nested'] += 1
        if k == 'if':
            n = src.weighted([(4, 1), (3, 2), (1, 3)])
            S, tests, runs, vals = [], [], [], []
            for i in range(n):
                v = src.bool(0.4)
                c, log = cond(v)
                s, r = clause(ind, depth, names, ('elif ' if i else 'if ') + c)
                if i and src.bool(0.15): S.append('')
                S += s; tests.append(log); runs.append(r); vals.append(v)
            els = None
            if src.bool(0.6):
                s, els = clause(ind, depth, names, 'else')
                S += s
            def run(u, env):
                out = []
                for v, log, r in zip(vals, tests, runs):
                    out.append(u + '$ g("%s", 0)' % log[0])                    # the condition is evaluated here
                    if v: return out + r(u, env)
                    stats['untaken'] += 1
                return out + (els(u, env) if els else [])
            return S, run
        if k == 'for':
            m = src.weighted([(2, 0), (2, 1), (3, 2), (2, 3)])
            pair = src.bool(0.3)
            loops[0] += 1
            items = [src.pick([i, 'i%d' % i, 'é<&', 2.5]) for i in range(m)] if not pair else [(i, 'k%d' % i) for i in range(m)]
            v = src.pick(['i%d' % loops[0], 'x', 'y'])
            # a target that shadows a visible name would resolve differently in the unrolled form
            if {v, v + 'b'} & set(names): v = 'i%d' % loops[0]
            vs = [v, v + 'b'] if pair else [v]
            # values that can be iterated only once are made anew by a function
            seed = src.int(9)
            it = new('q', Maker(items, seed))
            expr = src.pick(['%s()', '{%s()}', '(%s())']) % it
            s, r = clause(ind, depth, names + vs, 'for %s in %s' % (', '.join(vs), expr))
            S = s
            els = None
            if src.bool(0.4):
                s2, els = clause(ind, depth, names, 'else')
                S = S + s2
            if not m: stats['empty'] += 1
            def run(u, env):
                out = []
                for i in range(m):
                    stats['iters'] += 1
                    out.append(u + '$%s = %s.items[%d]' % (', '.join(vs), it, i))
                    out += r(u, env, i > 0)
                if not m and els: out += els(u, env)
                return out
            return S, run
        # while: a counter object
        m = src.weighted([(1, 0), (3, 1), (2, 2), (1, 3)])
        t = token()
        n = new('w', m)
        s, r = clause(ind, depth, names, 'while k("%s", %s)' % (t, n))
        els = None
        if src.bool(0.4):
            s2, els = clause(ind, depth, names, 'else')
            s = s + s2
        if not m: stats['empty'] += 1
        def run(u, env):
            out = []
            for i in range(m):
                stats['iters'] += 1
                out.append(u + '$ k("%s", 0)' % t)
                out += r(u, env, i > 0)
            out.append(u + '$ k("%s", 0)' % t)
            if not m and els: out += els(u, env)
            return out
        return s, run

    S, R = [], []
    for _ in range(src.range(1, 3)):
        s, r = block('', 0, [])
        S += s; R.append(r)
    env = {}
    U = [l for r in R for l in r('', env)]

    def context(base, log, counters):
        c = dict(base)
        def f(x): log.append(('f', x))
        def g(t, v):
            log.append(('g', t))
            return v
        def k(t, n):
            log.append(('k', t))
            done = counters.get(t, 0)
            counters[t] = done + 1
            if done < n: return True
            counters[t] = 0                             # the loop may be entered again
            return False
        return dict(c, f = f, g = g, k = k)
    names = sorted(ctx_s) + ['f', 'g', 'k']
    head = ['context ' + ', '.join('$' + n for n in names), '| start']
    a, b = '\n'.join(head + S), '\n'.join(head + U)
    log_a, log_b = [], []
    out_a = real.render(a, context(ctx_s, log_a, {}))
    out_b = real.render(b, context(ctx_u, log_b, {}))
    if not out_b.ok:
        if not out_a.ok: raise Skip('both fail')
        raise Violation('only the unrolled script fails', script = a, unrolled = b, expected = out_b.show(), got = out_a.value)
    if not out_a.ok: raise Violation('unexpected error', script = a, unrolled = b, got = out_a.show(), expected = out_b.value)
    if out_a.value != out_b.value: raise Violation('output differs from the unrolled script', script = a, unrolled = b, expected = out_b.value, got = out_a.value)
    if log_a != log_b: raise Violation('different evaluations', script = a, unrolled = b, expected = log_b, got = log_a)
    return Case((a, repr(sorted(map(str, ctx_s.items())))), stats['iters'] >= 2 and (stats['untaken'] or stats['nested']) > 0,
                ['iterations:%d' % min(stats['iters'], 8), 'nested:%d' % min(stats['nested'], 4)], dict(script = a, unrolled = b, output = out_a.value))


class Maker:
    """Returns a new iterable over the items at each call; the kind of the iterable is fixed."""
    def __init__(self, items, kind): self.items, self.kind = list(items), kind
    def __call__(self):
        class One:
            def __init__(self, k): self.k = k
            def int(self, n): return self.k
        return iterable(One(self.kind), self.items)
    def __str__(self): return 'Maker%r/%d' % (self.items, self.kind)
    __repr__ = __str__


def visible(src):
    """Variables assigned inside of control blocks, loop targets included, stay visible after them and in later branches."""
    n = src.range(0, 4)
    items = [src.pick([1, 'a', 2.5, '<']) for _ in range(n)]
    kind = src.int(6)
    esc = lambda v: model.html_escape(str(v))
    pre = src.bool()
    base = ['$x = "pre"'] if pre else []
    last = items[-1] if n else ('pre' if pre else None)
    step = src.pick(INDS)
    if kind == 0: S = ['for x in xs | i', '| $x']; O = ['i' * n] * (n > 0) + [last]
    elif kind == 1: S = ['for y in xs', step + '$x = y', '| $x']; O = [last]
    elif kind == 2: S = ['for i, y in enumerate(xs)', step + 'if i % 2 == 0', step + step + '$x = y', '| $x']; ev = items[::2]; last = ev[-1] if ev else ('pre' if pre else None); O = [last]
    elif kind == 3: S = ['try', step + 'for x in xs', step + step + 'pass', step + '| {1/0}', 'else', step + '| $x']; O = [last]
    elif kind == 4: S = ['$n = len(xs)', 'while n', step + '$x = xs[len(xs) - n]', step + '$n -= 1', '| $x']; O = [last]
    else: S = ['if xs', step + 'for x in xs', step + step + '| $x', 'else', step + 'if True', step + step + '$x = "none"', '| $x']; O = items + [items[-1] if n else 'none']
    script = '\n'.join(['context $xs'] + base + S)
    out = real.render(script, dict(xs = items))
    if O[-1] is None:
        # in a failed branch of `try` the reference makes the last branch fail, and the block outputs nothing
        if kind == 3:
            if not out.ok or out.value != '': raise Violation('wrong result', script = script, context = items, expected = '', got = out.show())
        elif out.ok or not out.is_err('UnboundLocalEx'): raise Violation('wrong result', script = script, context = items, expected = 'UnboundLocalEx', got = out.show())
    else:
        want = '\n'.join(esc(v) for v in O)
        if not out.ok or out.value != want: raise Violation('wrong result', script = script, context = items, expected = want, got = out.show())
    return Case((script, items), n > 0, ['visible%d' % kind], dict(script = script, xs = items, result = out.show()))


def stepwise(src):
    """Items are taken one by one, between executions of the body: a loop over a list that its body changes, over an iterator that is shared with
    the body, or over an endless iterator that is left by an error - compared with the same loop in Python."""
    kind = src.pick(['list', 'iterator', 'endless', 'while'])
    n = src.range(0, 4)
    step = src.pick(INDS)
    ops = [src.weighted([(4, ('show',)), (2, ('log',)), (3, ('grow', src.range(1, 7))), (2, ('pop', src.range(1, 5))), (1, ('rebind',)), (2, ('next',)), (2, ('fail', src.range(0, 6)))])
           for _ in range(src.range(1, 4))]
    if kind in ('list', 'while'): ops = [o for o in ops if o[0] != 'next'] or [('show',)]
    else: ops = [o for o in ops if o[0] not in ('grow', 'pop')] or [('show',)]
    if kind == 'while':
        ops = [o for o in ops if o[0] not in ('rebind', 'grow')] + [('pop', 0)]
    if kind == 'endless': ops.append(('fail', src.range(0, 5)))
    els = src.bool(0.5)
    caught = kind == 'endless' or src.bool(0.5) or any(o[0] == 'fail' for o in ops)

    def world():
        log = []
        xs = list(range(n))
        def gen():
            i = 0
            while kind == 'endless' or i < n:
                log.append('next')
                yield i
                i += 1
                if i > 500: raise KeyError('items are taken in advance')
            log.append('stop')
        it = gen()
        def f(x): log.append(('f', x))
        def nxt():
            v = next(it, None)
            log.append(('nxt', v))
            return v
        return log, xs, it, f, nxt

    # the script
    source = dict(list = 'xs', iterator = 'it', endless = 'it').get(kind)
    L = ['for x in ' + source] if source else ['while xs']
    x = 'x' if source else 'xs[-1]'
    for o in ops:
        if o[0] == 'show': L.append(step + '| {%s}' % x)
        elif o[0] == 'log': L.append(step + '$ f(%s)' % x)
        elif o[0] == 'grow': L += [step + 'if len(xs) < %d' % o[1], step * 2 + '$ xs.append(len(xs))']
        elif o[0] == 'pop': L += [step + 'if len(xs) > %d' % o[1], step * 2 + '$ xs.pop()']
        elif o[0] == 'rebind': L.append(step + '$%s = []' % (source or 'other'))
        elif o[0] == 'next': L.append(step + '$ nxt()')
        elif o[0] == 'fail': L.append(step + '$ 1 // (%s - %d)' % (x, o[1]))
    if els: L += ['else', step + '| empty']
    if caught: L = ['try'] + [step + l for l in L] + ['else', step + '| failed']
    L += ['| end']
    script = '\n'.join(['context $xs, $it, $f, $nxt'] + L)

    # the same in Python
    log, xs, it, f, nxt = world()
    out, first = [], True
    keep = xs
    try:
        def body(x):
            count[0] += 1
            if count[0] > 60: raise Skip('endless')
            for o in ops:
                if kind == 'while':
                    if not keep: raise IndexError
                    x = keep[-1]
                if o[0] == 'show': out.append(str(x))
                elif o[0] == 'log': f(x)
                elif o[0] == 'grow':
                    if len(cur[0]) < o[1]: cur[0].append(len(cur[0]))
                elif o[0] == 'pop':
                    if len(cur[0]) > o[1]: cur[0].pop()
                elif o[0] == 'rebind': cur[0] = []
                elif o[0] == 'next': nxt()
                elif o[0] == 'fail': 1 // (x - o[1])
        cur = [xs]
        count = [0]
        if kind == 'while':
            while xs:
                first = False
                body(None)
        else:
            for x in (xs if kind == 'list' else it):
                first = False
                body(x)
        if first and els: out.append('empty')
    except (ZeroDivisionError, IndexError) as ex:
        if not caught: out = type(ex).__name__
        else: out = ['failed']
    if isinstance(out, list): out = '\n'.join(out + ['end'])

    log2, xs2, it2, f2, nxt2 = world()
    got = real.render(script, dict(xs = xs2, it = it2, f = f2, nxt = nxt2))
    if got.ok and got.value != out or not got.ok and not got.is_err(out): raise Violation('wrong result', script = script, n = n, expected = out, got = got.show())
    if log != log2 or xs != xs2: raise Violation('different events', script = script, n = n, expected = [log, xs], got = [log2, xs2])
    return Case((script, n), not first, ['stepwise:' + kind] + sorted({'op:' + o[0] for o in ops}), dict(script = script, n = n, result = out))


docs = doc_family(lambda f, st: st == 'ok' and len(f & {'if', 'for', 'while'}) >= 2, ctx = True, bad_p = 0.0, wild = 0.01, size = 16, margin_p = 0.3,
                  W = dict(if_ = 8, for_ = 8, while_ = 5, try_ = 1, def_ = 1, struct = 5, text = 5, assign = 4, inplace = 3))

FAMILIES = [('unrolled', unrolled, 4000), ('visible', visible, 600), ('stepwise', stepwise, 2500), ('documents', docs, 3000)]
