"""C12 Assignments bind and unpack exactly as in Python."""
import operator, re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import doc_family, INDS, same_repr

TECHNIQUE = 'property-based testing: random target lists and values of many iterable types; Python itself executes the same assignment as the oracle'
ORACLE = "Python's own assignment statement (exec) and operators; hv/model.py for whole documents"
RULE = ('cases: assignments and for loops with nested target lists (any parenthesisation and trailing commas) over matching and mismatching iterables of many types, in-place '
        'operators on values of many types, expression blocks; non-trivial: at least two targets, or an in-place operator; distinct by script and value')


class It:
    """Iterable with a log."""
    def __init__(self, items): self.items, self.log = items, []
    def __iter__(self):
        for x in self.items:
            self.log.append(1)
            yield x
    def __repr__(self): return 'It(%r)' % (self.items,)

class Seq:
    def __init__(self, items): self.items = items
    def __getitem__(self, i): return self.items[i]
    def __repr__(self): return 'Seq(%r)' % (self.items,)

class Broken:
    """Raises while it is iterated over."""
    def __init__(self, n, cls): self.n, self.cls = n, cls
    def __iter__(self):
        for i in range(self.n): yield i
        raise self.cls('broken')
    def __repr__(self): return 'Broken(%d, %s)' % (self.n, self.cls.__name__)


def shape(src, depth, names):
    """Nested target: a name or a list of targets."""
    if depth <= 0 or src.bool(0.55) or len(names) > 6:
        n = src.pick(['a', 'b', 'c', 'd']) if src.bool(0.1) else 'n%d' % len(names)
        names.append(n)
        return n
    return [shape(src, depth - 1, names) for _ in range(src.weighted([(3, 2), (2, 1), (2, 3), (1, 4)]))]

def target_src(t, src, top):
    if isinstance(t, str): return '(%s)' % t if src.bool(0.08) and not top else t
    s = src.pick([', ', ',', ' , ']).join(target_src(x, src, False) for x in t)
    if len(t) == 1: s += src.pick([',', ' ,'])
    elif src.bool(0.15): s += src.pick([',', ' ,'])
    if top and src.bool(0.8): return s
    return '(%s)' % s if src.bool(0.8) else '( %s )' % s

def value_for(t, src, bad, depth = 0):
    """-> function that makes a value for the target; with probability `bad` of another size or type."""
    if isinstance(t, str):
        v = src.pick([1, 'two', 3.5, None, (1, 2), 'x<y', [], True])
        return lambda: v
    n = len(t)
    fault = src.bool(bad)
    kind = src.int(13)
    if fault:
        k = src.int(6)
        if k == 0: n = max(0, n - 1)
        elif k == 1: n = n + 1
        elif k == 2: n = 0
        elif k == 3: n = n + src.range(2, 4)
        elif k == 4:
            v = src.pick([5, None, 2.5, True, len, object])
            return lambda: v
        else:
            m, cls = src.int(n + 2), src.pick([ValueError, TypeError, ZeroDivisionError, KeyError, RuntimeError])
            return lambda: Broken(m, cls)
    subs = [value_for(t[i] if i < len(t) else 'x', src, bad, depth + 1) for i in range(n)]
    flat = all(isinstance(x, str) for x in t)
    mk = lambda: [f() for f in subs]
    if kind == 0 and flat: return lambda: ''.join('abcdefghij'[i] for i in range(n))
    if kind == 1 and flat: return lambda: {'k%d' % i: i for i in range(n)}
    if kind == 2 and flat: return lambda: range(n)
    if kind == 3: return lambda: (x for x in mk())
    if kind == 4: return lambda: iter(mk())
    if kind == 5: return lambda: It(mk())
    if kind == 6: return lambda: Seq(mk())
    if kind == 7: return lambda: map(lambda x: x, mk())
    if kind == 8: return lambda: dict(enumerate(mk())).values()
    if kind == 9 and flat: return lambda: bytes(range(65, 65 + n))
    if kind == 10: return lambda: zip(mk(), mk()) if False else tuple(mk())
    return (lambda: tuple(mk())) if src.bool() else mk


def unpack(src):
    names = []
    t = shape(src, 3, names)
    wrapped = not isinstance(t, str)
    bad = src.pick([0.0, 0.0, 0.15, 0.3])
    make = value_for(t, src, bad)
    form = src.pick(['assign', 'assign', 'for', 'ctl', 'inner'])
    ts = target_src(t, src, True)
    ptarget = (lambda f: f(f, t))(lambda f, x: x if isinstance(x, str) else '(%s,)' % ', '.join(f(f, y) for y in x))
    show = sorted(set(names))
    got = []
    def take(*a): got.append(a)
    step = src.pick(INDS)
    eq = src.pick([' = ', '=', ' =', '= '])
    if form == 'assign': S = ['$%s%s%sval()' % (src.pick(['', ' ']), ts, eq), '$ take(%s)' % ', '.join(show)]
    elif form == 'inner': S = ['div', step + '$%s%sval()' % (ts, eq), step + '$ take(%s)' % ', '.join(show)]
    elif form == 'ctl': S = ['if True', step + '$%s%sval()' % (ts, eq), '$ take(%s)' % ', '.join(show)]
    else: S = ['for %s in %s' % (ts, src.pick(['[val(), val()]', '{(val(), val())}:', 'two()'])), step + '$ take(%s)' % ', '.join(show)]
    script = '\n'.join(['context $val, $two, $take'] + S)
    # Python's own meaning
    ns = dict(val = make)
    code = '%s = val()' % ptarget
    want, err = None, None
    try:
        exec(code, {}, ns)
        want = tuple(ns[n] for n in show)
    except Exception as ex: err, errmsg = type(ex), str(ex)
    out = real.render(script, dict(val = make, two = lambda: [make(), make()], take = take))
    desc = repr(make())
    detail = dict(script = script, value = desc, python = code, got = out.show())
    if err:
        name = err.__name__
        if out.ok: raise Violation('an error was expected', expected = name, **detail)
        if not out.is_err(name): raise Violation('wrong type of error', expected = name, **detail)
        if got: raise Violation('continued after the error', **detail)
        pat = r'expected (\d+)(?:, got (\d+))?'                         # the numbers of values, when the message says them, are right
        m, p = re.search(pat, str(out.exc)), re.search(pat, errmsg)
        if m and p and (m.group(1) != p.group(1) or m.group(2) and p.group(2) and m.group(2) != p.group(2)):
            raise Violation('wrong numbers of values in the message', expected = errmsg, **detail)
    else:
        if not out.ok: raise Violation('unexpected error', expected = same_repr(want), **detail)
        times = 2 if form == 'for' else 1
        if [same_repr(g) for g in got] != [same_repr(want)] * times: raise Violation('wrong values', expected = same_repr(want), received = [same_repr(g) for g in got], **detail)
        if out.value.strip('\n<>/div'): raise Violation('an assignment has output', **detail)
    return Case((script, desc), len(names) > 1, ['form:' + form, 'result:' + ('ok' if err is None else err.__name__), 'targets:%d' % min(len(names), 6)], dict(script = script, value = desc, result = same_repr(want) if err is None else err.__name__))


class Num:
    """Value with its own operators; in-place methods must never be used."""
    def __init__(self, v, log): self.v, self.log = v, log
    def __repr__(self): return 'Num(%s)' % self.v

def _op(name):
    def f(self, other):
        self.log.append(name)
        return Num('(%s %s %s)' % (self.v, name, getattr(other, 'v', other)), self.log)
    return f
OPERATORS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '<<': 'lshift', '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor'}
for _s, _n in OPERATORS.items():
    setattr(Num, '__%s__' % _n, _op(_s))
    setattr(Num, '__r%s__' % _n, (lambda s: lambda self, other: Num('(%s %s %s)' % (other, s, self.v), self.log))(_s))


def inplace(src):
    """x OP= e at several scopes; the final values equal those computed in Python by x = x OP e."""
    log = []
    vals = [5, 3, 2, -7, 2.5, 'ab', [1], (2,), True, {1, 2}, {2, 3}, 0, Num('n', log), Num('m', log)]
    steps = []
    cur = src.pick(vals)
    init = cur
    err = None
    S, ctx = [], dict(v0 = cur)
    where = src.pick(['top', 'ctl', 'inner', 'loop', 'def'])
    step = src.pick(INDS)
    body = []
    want = cur
    n = src.range(1, 4)
    for i in range(1, n + 1):
        op, e = src.pick(sorted(OPERATORS)), src.pick(vals)
        ctx['v%d' % i] = e
        body.append('$%sx %s= %s' % (src.pick(['', ' ']), op, src.pick(['v%d', '(v%d)', 'v%d if True else 0', 'v%d,' if op == '+' and isinstance(e, int) and src.bool(0.1) else '{v%d}' if False else ' v%d']) % i)
                    if src.bool(0.5) else '$x%s=v%d' % (op, i))
        if err is None:
            rhs = (e,) if body[-1].endswith(',') else e
            try:
                if op == '*' and isinstance(want, (str, list, tuple)) and isinstance(rhs, int) and len(want) * max(rhs, 0) > 2000: raise Skip('huge value')
                want = getattr(operator, {'and': 'and_', 'or': 'or_'}.get(OPERATORS[op], OPERATORS[op]))(want, rhs)
            except Skip: raise
            except Exception as ex: err = type(ex)
    got = []
    def take(*a): got.append(a[0])
    if where == 'top': S = ['$x = v0'] + body + ['$ take(x)']; outer = False
    elif where == 'ctl': S = ['$x = v0', 'if True'] + [step + b for b in body] + ['$ take(x)']; outer = False
    elif where == 'loop': S = ['$x = v0', 'for i in [0]'] + [step + b for b in body] + ['$ take(x)']; outer = False
    elif where == 'inner': S = ['$x = v0', 'div'] + [step + b for b in body] + [step + '$ take(x)', '$ take(x)']; outer = True
    else: S = ['$x = v0', '%H'] + [step + b for b in body] + [step + '$ take(x)', 'H', '$ take(x)', 'H']; outer = True
    script = '\n'.join(['context %s, $take' % ', '.join('$' + k for k in ctx)] + S)
    before = repr(ctx)
    out = real.render(script, dict(ctx, take = take))
    detail = dict(script = script, context = before, got = out.show())
    if repr(ctx) != before: raise Violation('a value of the context has been modified', after = repr(ctx), **detail)
    if err:
        if out.ok or not out.is_err(err.__name__): raise Violation('an error was expected', expected = err.__name__, **detail)
    else:
        expect = [want] + ([init] if outer else []) + ([want] if where == 'def' else [])
        if not out.ok: raise Violation('unexpected error', expected = repr(expect), **detail)
        if [same_repr(g) for g in got] != [same_repr(g) for g in expect]: raise Violation('wrong values', expected = repr(expect), received = repr(got), **detail)
    return Case((script, before), True, ['inplace:' + where, 'result:' + ('ok' if err is None else err.__name__)], dict(script = script, context = before, result = repr(want) if err is None else err.__name__))


def refused(src):
    """An in-place operator on several targets, or on a variable that does not exist, is rejected before anything is executed."""
    step = src.pick(INDS)
    got = []
    names = src.shuffle(['a', 'b', 'c', 'd'])[:src.range(2, 4)]
    op = src.pick(sorted(OPERATORS))
    kind = src.weighted([(4, 'many'), (2, 'undefined'), (1, 'ok')])
    if kind == 'many':
        t = ', '.join(names)
        t = src.pick(['%s', '%s,', '(%s)', '(%s,)', '%s, (zz, yy)']) % t if src.bool(0.7) else names[0] + ','
    elif kind == 'undefined': t = src.pick(['nope', 'divv', '_u'])
    else: t = names[0]
    line = '$' + src.pick(['', ' ']) + t + src.pick(['', ' ', '  ']) + op + '=' + src.pick(['', ' ']) + src.pick(['1', '(1, 2)', 'zz', '[1, 2]'] if kind != 'ok' else ['1', 'zz'])
    lines = ['$ take(1)', line, '$ take(2)']
    if src.bool(0.3): lines = ['| before'] + lines
    where = src.pick(['top', 'if', 'never', 'for', 'div', 'def'])
    if where != 'top': lines = [{'if': 'if True', 'never': 'if False', 'for': 'for _i in [1, 2]', 'div': 'div', 'def': '% Never'}[where]] + [step + l for l in lines]
    script = '\n'.join(['context $take, %s, $zz, $yy' % ', '.join('$' + n for n in names), '$ take(0)'] + lines)
    vals = dict({n: src.int(9) + 1 for n in names}, zz = 2, yy = 3)
    out = real.render(script, dict(vals, take = got.append))
    want = {'many': 'SyntaxErrorEx', 'undefined': 'NameErrorEx', 'ok': None}[kind]
    detail = dict(script = script, got = out.show(), expected = want or 'no error')
    if want is None:
        if not out.ok: raise Violation('unexpected error', **detail)
    else:
        if out.ok or not out.is_err(want): raise Violation('an assignment is not rejected with the documented error', **detail)
        if got: raise Violation('a part of the script was executed before the rejection', calls = got, **detail)
    return Case(script, kind != 'ok', ['refused:' + kind, 'in:' + where], dict(script = script, error = want))


docs = doc_family(lambda f, st: bool(f & {'unpack', 'inplace'}), ctx = True, bad_p = 0.02, wild = 0.02, size = 14, W = dict(assign = 10, inplace = 8, expr = 4, for_ = 4, text = 6))

FAMILIES = [('unpack', unpack, 8000), ('inplace', inplace, 4000), ('refused', refused, 1200), ('documents', docs, 2000)]
