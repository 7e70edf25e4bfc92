"""C08 Pipelines and calls apply functions to exactly the given arguments."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import Gen, PLAIN, MARKUPY, num, var, text_lit
from hv.model import Ex, Blk, Body, Script, TagUse
from hv.printer import Printer
from hv.compare import check_same
from hv.families import same_repr, context_block

TECHNIQUE = 'property-based testing: random calls and pipelines over recording functions; the log of calls and the value are predicted by construction'
ORACLE = 'the log of calls predicted while the expression is generated'
RULE = ('cases: nested calls and pipelines with positional and keyword arguments, bound methods, members, items and built-ins as filters; non-trivial: at least '
        'two calls, or a call with at least two arguments; distinct by expression text')


class World:
    """Recording functions; a new one per side."""
    def __init__(self):
        self.log = []
        self.f, self.g, self.h = self.make('f'), self.make('g'), self.make('h')
        w = self
        class O:
            def __repr__(self): return 'O'
        self.o = O()
        self.o.meth, self.o.in_ = self.make('o.meth'), O()
        self.o.in_.deep = self.make('deep')
        self.fs = [self.make('fs0'), self.make('fs1')]
        self.fd = {'k': self.make('fdk'), 'l': [self.make('fdl')]}
        self.hi = lambda *a, **k: self.make('made%d' % len(self.log))      # a function that returns a function
    def make(self, name):
        log = self.log
        class Fun:
            def __repr__(self): return '<%s>' % name
            def __call__(*args, **kw):
                args = args[1:]
                log.append([name, [same_repr(a) for a in args], [(k, same_repr(v)) for k, v in kw.items()]])
                return '%s#%d' % (name, len(log))
        return Fun()
    def context(self): return dict(f = self.f, g = self.g, h = self.h, o = self.o, fs = self.fs, fd = self.fd, hi = self.hi, n = 5, s = 'st')

NAMES = dict(x = ['f', 'g', 'h', 'o', 'fs', 'fd', 'hi', 'n', 's', 'take'])

def callee(src, depth):
    k = src.int(8)
    if k < 3: return var(src.pick('fgh'))
    if k == 3: return Ex('member', var('o'), 'meth')
    if k == 4: return Ex('member', Ex('member', var('o'), 'in_'), 'deep')
    if k == 5: return Ex('index', var('fs'), num(src.pick([0, 1])))
    if k == 6: return Ex('index', var('fd'), text_lit('k'))
    return Ex('index', Ex('index', var('fd'), text_lit('l')), num(0))

def arg(src, depth, count):
    k = src.int(10)
    if k < 3 or depth <= 0: return src.pick([lambda: num(src.int(9)), lambda: var('n'), lambda: var('s'), lambda: text_lit(src.text(PLAIN + MARKUPY, 0, 4)), lambda: Ex('none'), lambda: Ex('bool', True)])()
    if k < 7: return call(src, depth - 1, count)
    if k == 7: return Ex('list', [arg(src, depth - 1, count) for _ in range(src.int(3))])
    if k == 8: return Ex('tuple', [arg(src, depth - 1, count) for _ in range(src.int(3))])
    return Ex('dict', [(text_lit('q'), arg(src, depth - 1, count))])

def args(src, depth, count, lo = 0):
    out = [(None, arg(src, depth, count)) for _ in range(src.range(lo, 3))]
    out += [(n, arg(src, depth, count)) for n in src.shuffle(['k', 'key', 'self', 'x', 'n'])[:src.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])]]
    return out

def call(src, depth, count):
    count[0] += 1
    k = src.int(6)
    if k < 3 or depth <= 0: return Ex('call', callee(src, depth), args(src, depth, count))
    if k == 3: return Ex('call', Ex('call', var('hi'), args(src, 0, count)), args(src, depth - 1, count))
    steps = [(callee(src, depth), src.weighted([(3, 'none'), (5, 'args'), (1, 'empty')])) for _ in range(src.weighted([(3, 1), (3, 2), (1, 4)]))]
    first = arg(src, depth - 1, count)
    return Ex('pipe', first, [(f, None if a == 'none' else [] if a == 'empty' else args(src, depth - 1, count)) for f, a in steps])


def calls(src):
    count = [0]
    e = call(src, src.range(1, 3), count)
    place = src.pick(['expr', 'text', 'assign', 'attr', 'for', 'string'])
    take = lambda x: Ex('call', var('take'), [(None, x)])
    B = [context_block(NAMES)]
    if place == 'expr': B.append(Blk('expr', expr = take(e)))
    elif place == 'text': B.append(Blk('text', mark = '/', head = [('t', ' '), ('x', e, '{')], tail = []))
    elif place == 'assign': B += [Blk('assign', targets = 'v', op = None, expr = e), Blk('expr', expr = take(var('v')))]
    elif place == 'attr': B.append(Blk('struct', tags = [TagUse('p', [('kw', 'a', e)])], head = None, hmark = None, inline = None, body = None))
    elif place == 'for': B.append(Blk('for', targets = 'i', expr = Ex('list', [e]), body = Body(None, [Blk('expr', expr = take(var('i')))]), els = None))
    else: B.append(Blk('expr', expr = take(Ex('str', '"', [('t', 'a'), ('x', e, '{'), ('t', 'b')]))))
    script = Script(B)
    text = Printer(src, rate = 0.15, comments = False).script(script)
    one, two = World(), World()
    exp = model.render(script, {'$' + k: v for k, v in dict(one.context(), take = one.make('take')).items()})
    out = real.render(text, dict(two.context(), take = two.make('take')))
    check_same(exp, out, text)
    if one.log != two.log: raise Violation('different calls', script = text, expected = one.log, got = two.log)
    big = any(x.k == 'call' and len(x.b) > 1 or x.k == 'pipe' and any(a for _, a in x.b) for x in model.walk_ex(e))
    return Case(text, count[0] > 1 or big, ['place:' + place, 'calls:%d' % min(count[0], 5)], dict(script = text, calls = two.log))


def equivalent(src):
    """x : f(a, k=b) is f(x, a, k=b); f without parentheses is f(); chains apply from left to right."""
    n = src.range(1, 4)
    atoms = ['1', '"s"', 'n', '[1, 2]', 'fs', '(1, 2)', 'dict(a = 1)', 'o', 'n + 1', '(n if n else 0)', 's.upper()', '-n']
    x = src.pick(atoms)
    pipe, nested = x, x
    for _ in range(n):
        f = src.pick(['f', 'g', 'o.meth', 'fs[1]', 'fd["k"]', 'o.in_.deep', 'str', 'repr', 'fs[n - 5]', '$f', '$o.meth'])
        if f in ('str', 'repr'): a = ''
        else:
            a = ', '.join([src.pick(['1', 'n', '"a b"', 'f(2)', '(1 : g)', '[n : g]']) for _ in range(src.int(3))] + src.pick([[], ['k=1'], ['k=n', 'w=g(1)']]))
        pipe += src.pick([' : ', ':', ' :', ': ']) + f + ('(%s)' % a if a or src.bool() else '')
        g = f.replace('$', '')
        nested = '%s(%s%s)' % (g, nested, ', ' + a if a else '')
    where = src.pick(['$ take(%s)', '| {%s}', 'p a=(%s)', '$v = %s', 'p title={%s}'])
    res = []
    for e in (pipe, nested):
        w = World()
        script = 'context %s\n%s' % (', '.join('$' + k for k in NAMES['x']), where % e)
        out = real.render(script, dict(w.context(), take = w.make('take')))
        if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
        # in the nested form arguments of outer calls come later, just as in the pipeline
        res.append((out.value, w.log))
    if res[0] != res[1]: raise Violation('a pipeline differs from nested calls', pipeline = pipe, nested = nested, got = res)
    return Case((pipe, where), True, ['filters:%d' % n], dict(pipeline = pipe, nested = nested, calls = res[0][1]))


FAMILIES = [('calls', calls, 7000), ('equivalent', equivalent, 5000)]
