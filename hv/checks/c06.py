"""C06 Expressions evaluate as documented: Python semantics plus Hypertag operators."""
import sys
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import Gen, PLAIN, MARKUPY, UNI, num, var, text_lit
from hv.model import Ex, Blk, Script
from hv.printer import Printer
from hv.compare import check_same
from hv.families import expr_case, TYPES, make_context, context_block, same_repr, doc_family, own

TECHNIQUE = 'property-based testing: random typed expression trees, printed with minimal parentheses, against a reference evaluator (values, types, call logs, errors) and Python eval'
ORACLE = "hv/model.py's evaluator, and Python's own eval for the common part of the syntax"
RULE = ('cases: random expressions over context variables of all basic types, placed in text, assignments, attributes, defaults and expression blocks; '
        'non-trivial: at least 4 nodes with at least 2 operators; distinct by script text')

OPK = ('chain', 'pipe', 'concat', 'and', 'or', 'not', 'if', 'index', 'slice', 'member', 'call', 'qual')

def ops(e): return sum(1 for x in model.walk_ex(e) if x.k in OPK)

def typed(src):
    g = Gen(src, TYPES)
    g.wild = src.pick([0.0, 0.02, 0.1])
    e = g.make(src.pick(['int', 'bool', 'str', 'float', 'list', 'dict', 'tuple', 'strs']), src.range(1, 5))
    text, exp = expr_case(src, e)
    return Case(text, ops(e) >= 2 and model.ex_size(e) >= 4, ['result:' + exp[0]] + sorted({'op:' + x.k for x in model.walk_ex(e) if x.k in OPK}),
                dict(script = text, result = exp[1] if exp[0] == 'ok' else sorted(exp[1])))


LEVELS = [['**'], ['*', '/', '//', '%'], ['+', '-'], ['<<', '>>'], ['&'], ['^'], ['|'], ['==', '!=', '<', '>', '<=', '>=', 'in', 'not in', '<>']]

def flat(src):
    """A flat sequence of operands and operators without parentheses: priorities and grouping, all levels together. The tree that the
    documented table of priorities denotes is built here by precedence climbing over the list of tokens."""
    n = src.range(2, 6)
    names = ['n', 'm', 'zero']
    leaf = lambda: (var(src.pick(names)) if src.bool(0.3) else Ex('num', str(src.pick([1, 2, 3, 4, 7]))))
    toks = [leaf()]
    for _ in range(n):
        op = src.pick(LEVELS[src.int(8)])
        if op in ('in', 'not in'): op = '=='
        toks += [op, leaf()]
    neg = src.bool(0.15)

    def climb(lo, hi, lev):
        """Tree of toks[lo:hi], with operators of level <= lev; the loosest level is split first, operands grouped to the left."""
        if hi - lo == 1: return toks[lo]
        opsn = [i for i in range(lo + 1, hi, 2)]
        while lev >= 0 and not any(toks[i] in LEVELS[lev] for i in opsn):
            if lev == 2 and neg and lo == 0: return Ex('chain', climb(lo, hi, 1), [], True)
            lev -= 1
        if lev < 0: return toks[lo]
        cuts = [i for i in opsn if toks[i] in LEVELS[lev]]
        first = climb(lo, cuts[0], lev - 1)
        rest = [(toks[i], climb(i + 1, (cuts[j + 1] if j + 1 < len(cuts) else hi), lev - 1)) for j, i in enumerate(cuts)]
        # a minus sign belongs to the first additive expression
        c = neg and lo == 0 and lev == 2
        return Ex('chain', first, rest, c)

    tree = climb(0, len(toks), 7)
    if neg and not any(x.k == 'chain' and x.c for x in model.walk_ex(tree)):
        neg = False
    text_e = ('-' if neg else '') + ' '.join(t if isinstance(t, str) else t.a for t in toks)
    store = []
    script = Script([context_block(dict(i = names, f = ['take'])), Blk('expr', expr = Ex('call', var('take'), [(None, tree)]))])
    want = model.render(script, {'$n': 7, '$m': -3, '$zero': 0, '$take': store.append})
    got = []
    text = 'context $n, $m, $zero, $take\n$ take(%s)' % text_e
    out = real.render(text, dict(n = 7, m = -3, zero = 0, take = got.append))
    if want[0] == 'ok': want = 'ok', [same_repr(x) for x in store]
    if out.ok: out = real.Out(True, [same_repr(x) for x in got], None)
    check_same(want, out, text)
    return Case(text_e, True, ['flat', 'result:' + want[0]], dict(expression = text_e, result = want[1] if want[0] == 'ok' else sorted(want[1])))


def spelling(src):
    """Redundant parentheses, spaces, a leading $ and optional commas never change a value."""
    g = Gen(src, TYPES)
    g.wild = 0.0
    e = g.make(src.pick(['int', 'bool', 'str', 'list', 'float']), src.range(2, 4))
    outs, texts = [], []
    for rate in (0.0, 0.5, 0.9):
        got = []
        p = Printer(src if rate else None, rate = rate, comments = False)
        text = p.ex(e) if rate else Printer().ex(e)
        script = 'context %s, $take\n$ take(%s)' % (', '.join('$' + n for v in TYPES.values() for n in v), text)
        out = real.render(script, dict(make_context(), take = got.append))
        outs.append([same_repr(x) for x in got] if out.ok else type(out.exc).__name__)
        texts.append(text)
    if outs[0] != outs[1] or outs[0] != outs[2]: raise Violation('spelling of an expression changes its value', expressions = texts, values = outs)
    return Case(texts[0], ops(e) >= 2 and len(set(texts)) > 1, ['spelling'], dict(expressions = texts, value = outs[0]))


def py(e):
    """Python source of an expression, fully parenthesised; None if it has no counterpart."""
    k = e.k
    if k == 'num': return e.a
    if k in ('var',): return e.a
    if k == 'bool': return str(e.a)
    if k == 'none': return 'None'
    if k == 'paren': return py(e.a)
    if k == 'str':
        if any(p[0] != 't' or '\\' in p[1] for p in e.b): return None
        return repr(''.join(p[1] for p in e.b))
    if k in ('list', 'tuple'):
        items = [py(x) for x in e.a]
        if None in items: return None
        s = ''.join(x + ',' for x in items)
        return '[%s]' % s if k == 'list' else '(%s)' % s
    if k == 'chain':
        s = py(e.a)
        if s is None: return None
        if e.c: s = '(-%s)' % s
        for op, x in e.b:
            t = py(x)
            if t is None: return None
            s = '(%s %s %s)' % (s, '!=' if op == '<>' else op, t)
        return s
    if k == 'not':
        s = py(e.a)
        return s and '(not %s)' % s
    if k in ('and', 'or'):
        items = [py(x) for x in e.a]
        return None if None in items else '(%s)' % ((' %s ' % k).join(items))
    if k == 'if' and e.c is not None:
        items = [py(e.a), py(e.b), py(e.c)]
        return None if None in items else '(%s if %s else %s)' % tuple(items)
    if k == 'index':
        a, b = py(e.a), py(e.b)
        return a and b and '(%s)[%s]' % (a, b)
    if k == 'slice':
        items = [py(e.a)] + ['' if x is None else py(x) for x in e.b]
        return None if None in items else '(%s)[%s:%s:%s]' % tuple(items)
    if k == 'member':
        a = py(e.a)
        return a and '(%s).%s' % (a, e.b)
    if k == 'call':
        items = [py(x) for _, x in e.b]
        f = py(e.a)
        if f is None or None in items: return None
        return '%s(%s)' % (f, ', '.join((n + '=' if n else '') + x for (n, _), x in zip(e.b, items)))
    return None

def python_eval(src):
    """The common part of both languages: Python's eval() decides."""
    g = Gen(src, TYPES)
    g.embeds = g.quals = False
    g.wild = 0.01
    e = g.make(src.pick(['int', 'bool', 'float', 'list', 'tuple', 'str']), src.range(2, 5))
    source = py(e)
    if source is None: raise Skip('no Python counterpart')
    if '**' in source or '<<' in source or '*' in source:       # keep values small
        model.render(Script([context_block(TYPES), Blk('expr', expr = e)]), {'$' + k: v for k, v in make_context().items()})
    try: want = same_repr(eval(source, make_context()))
    except Exception as ex: want = type(ex).__name__
    got = []
    text = Printer(src, 0.1).ex(e)
    out = real.render('context %s, $take\n$ take(%s)' % (', '.join('$' + n for v in TYPES.values() for n in v), text), dict(make_context(), take = got.append))
    res = same_repr(got[0]) if out.ok else [n for n in out.mro() if n == want][:1]
    res = res if out.ok else (res[0] if res else out.show())
    if res != want: raise Violation('value differs from Python', expression = text, python = source, expected = want, got = res)
    return Case(text, ops(e) >= 2, ['python'], dict(expression = text, python = source, value = want))


TRICKY = ['notes', 'not_', 'inner', 'in_', 'index', 'isle', 'is_', 'isnt', 'android', 'and_', 'oracle', 'or_', 'iffy', 'if_', 'elsewhere', 'else_', 'elif_', 'None_', 'Nones', 'NoneX', 'Trueish', 'True_', 'True1', 'Falsey', 'False_', 'none', 'true', 'r', 'f', 'e', 'e5',
          'E1', 'r_', '_1', '__x', 'x__', 'trying', 'try_', 'forx', 'for_', 'whiles', 'passing', 'pass_', 'imports', 'contexts', 'from_', 'as_', 'asx', 'inX', 'orX', 'IN', 'NOT', 'And', 'If', 'j', 'l0', 'O', '_', 'a' * 40]

def names(src):
    """Names of variables never change a value, whatever words they begin with, and however the expression is spaced."""
    old = [n for v in TYPES.values() for n in v]
    new = src.shuffle(TRICKY)
    ren = dict(zip(old, new))
    types = {k: [ren[n] for n in v] for k, v in TYPES.items()}
    g = Gen(src, types)
    g.wild = src.pick([0.0, 0.05])
    e = g.make(src.pick(['int', 'bool', 'bool', 'str', 'list', 'float']), src.range(1, 4))
    def ctx():
        c = {ren[k]: v for k, v in make_context().items()}
        c['f'] = c.pop(ren['f']) if ren['f'] == 'f' else c.get('f')
        if c['f'] is None: del c['f']
        return c
    text, exp = expr_case(src, e, types, ctx, rate = src.pick([0.0, 0.2, 0.6]))
    used = [x.a for x in model.walk_ex(e) if x.k == 'var' and x.a in new]
    return Case(text, bool(used), ['names', 'result:' + exp[0]], dict(script = text, result = exp[1] if exp[0] == 'ok' else sorted(exp[1])))


FAMILIES = [('typed', typed, 8000), ('flat', flat, 5000), ('spelling', spelling, 1500), ('names', names, 3000), ('own', own, 2000), ('python', python_eval, 3000)]
