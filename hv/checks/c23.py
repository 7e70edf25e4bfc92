"""C23 cycle and changes yield the documented sequences."""
import itertools
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import INDS, same_repr

TECHNIQUE = 'property-based testing: calls of cycle() and changes() on random iterables of all kinds, with all options and any number of elements taken, against a definition by indices; loops over them in scripts against their expected text'
ORACLE = 'a definition by indices over the lists of elements; counters of elements taken from every iterable'
RULE = ('cases: 0-4 iterables (lists, tuples, strings, ranges, dicts, sets of one element, generators, counted and infinite iterators) of 0-7 elements with repetitions, options, and 0 to all elements '
        'taken; non-trivial: at least two elements are yielded; distinct by arguments')

class Counted:
    """Iterable (or iterator) that counts the elements taken from it."""
    def __init__(self, items, infinite = False): self.items, self.n, self.infinite, self.ended, self.iters = items, 0, infinite, 0, 0
    def __iter__(self):
        self.iters += 1
        i = 0
        while True:
            if i >= len(self.items):
                if not self.infinite: break
                i = 0
                if not self.items: break
            self.n += 1
            yield self.items[i]
            i += 1
        self.ended += 1

class Eq:
    """Equal to objects with the same key."""
    def __init__(self, key): self.key = key
    def __eq__(self, other): return isinstance(other, Eq) and self.key == other.key
    def __ne__(self, other): return not (isinstance(other, Eq) and self.key == other.key)
    def __hash__(self): return hash(self.key)
    def __repr__(self): return 'Eq(%r)' % self.key

class Never:
    """Different from everything, itself included."""
    def __eq__(self, other): return False
    def __ne__(self, other): return True
    def __repr__(self): return 'Never'

POOL = [0, 1, 2, True, False, 1.0, None, '', 'a', 'A', 'b', '<b>', (1,), (), Eq(1), Eq(2), float('nan'), Never()]
SIMPLE = [0, 1, 2, 3, 'a', 'b', None, '<i>', 2.5]

def items(src, pool, lo = 0):
    out = []
    for _ in range(src.weighted([(1, 0), (2, 1), (3, 2), (3, 3), (2, 5), (1, 7)]) if not lo else src.pick([1, 2, 3, 5])):
        if out and src.bool(0.3): out.append(out[-1])
        else: out.append(src.pick(pool))
    return out

def iterable(src, pool, counts = True, infinite = False):
    """-> (object given to the function, list of its elements, Counted or None, infinite?, fresh: function making an equal object)"""
    k = src.weighted([(3, 'list'), (2, 'tuple'), (2, 'str'), (1, 'range'), (1, 'dict'), (1, 'gen'), (4, 'counted'), (2, 'counted_iter'), (1, 'map'), (1, 'bytes')] + ([(3, 'infinite')] if infinite else []))
    l = items(src, pool, k == 'infinite')
    c = None
    if k == 'list': return k, list(l), l, None
    if k == 'tuple': return k, tuple(l), l, None
    if k == 'str':
        s = src.text('aab<é', 0, 6, 0.7)
        return k, s, list(s), None
    if k == 'range':
        r = range(src.int(3), src.int(6))
        return k, r, list(r), None
    if k == 'dict':
        d = {}
        for x in l: d[repr(x)] = x
        return k, d, list(d), None
    if k == 'gen': return k, (x for x in l), l, None
    if k == 'map': return k, map(lambda x: x, l), l, None
    if k == 'bytes':
        b = bytes([65, 66, 66][:src.int(4)])
        return k, b, list(b), None
    c = Counted(l, k == 'infinite')
    return k, (iter(c) if k == 'counted_iter' or k == 'infinite' and src.bool() else c), l, c


def fun(name):
    """The function as scripts get it."""
    got = []
    out = real.render('context $take\n$ take(%s)' % name, dict(take = got.append))
    if not out.ok: raise Violation('%s is not available' % name, got = out.show())
    return got[0]

_funs = {}
def get(name):
    if name not in _funs: _funs[name] = fun(name)
    return _funs[name]

def ident(a, b):
    """The same objects (or equal values of the same types)."""
    return len(a) == len(b) and all(x is y or (type(x) is type(y) and same_repr(x) == same_repr(y)) for x, y in zip(a, b))


def cycles(src):
    stop = src.weighted([(3, 'default'), (3, 'first'), (4, 'longest'), (3, False)])
    n = src.weighted([(1, 0), (3, 1), (5, 2), (3, 3), (1, 4)])
    args = []
    for i in range(n):
        inf = stop is False or (stop in ('first', 'default') and i > 0)
        args.append(iterable(src, SIMPLE, infinite = inf))
    kw = {} if stop == 'default' else dict(stop = stop)
    lists = [a[2] for a in args]
    # the number of tuples by the definition; None: endless
    if not lists or any(not l for l in lists): total = 0
    elif stop is False: total = None
    elif stop == 'longest': total = max(map(len, lists))
    else: total = len(lists[0])
    take = src.pick([0, 1, 2, 5, 12, 40]) if total is None or src.bool(0.3) else total + 3
    def run():
        res = []
        it = iter(get('cycle')(*[a[1] for a in args], **kw))
        ended = False
        for _ in range(take):
            try: res.append(next(it))
            except StopIteration:
                ended = True
                break
        return res, ended
    out = real.call(run)
    desc = dict(iterables = [(a[0], repr(a[2])) for a in args], options = kw, taken = take)
    if not out.ok: raise Violation('cycle() fails', got = out.show(), **desc)
    res, ended = out.value
    want_n = take if total is None else min(take, total)
    want = [tuple(l[i % len(l)] for l in lists) for i in range(want_n)]
    if len(res) != len(want) or any(type(r) is not tuple or not ident(r, w) for r, w in zip(res, want)):
        raise Violation('wrong sequence', expected = repr(want), got = repr(res), **desc)
    if ended != (len(want) < take): raise Violation('the sequence ends at another place', expected = len(want), ended = ended, **desc)
    # nothing more is consumed than needed
    for i, (k, _, l, c) in enumerate(args):
        if c is None: continue
        if c.iters > 1: raise Violation('an iterable is iterated more than once', index = i, times = c.iters, **desc)
        whole = stop == 'longest' or (i == 0 and stop is not False)         # the length is needed
        limit = len(l) if whole else min(len(l), len(res) + (1 if ended else 0)) if k != 'infinite' else len(res) + (1 if ended and total == 0 else 0)
        if whole and k == 'infinite': continue
        if c.n > limit: raise Violation('too many elements are taken from an iterable', index = i, taken_from_it = c.n, limit = limit, **desc)
    return Case(repr(desc), len(res) >= 2, ['cycle:%s' % stop, 'iterables:%d' % n] + sorted({a[0] for a in args}), dict(desc, result = repr(res[:8])))


def changing(src):
    k, obj, l, c = iterable(src, POOL, infinite = True)
    opt = src.pick([None, None, True, False, 'start', 0])
    kw = {} if opt is None else dict(first = opt)
    pos = opt is not None and src.bool()
    take = src.pick([0, 1, 2, 5, 12]) if k == 'infinite' or src.bool(0.3) else len(l) + 2
    counts = []
    def run():
        it = iter(get('changes')(obj, *([opt] if pos else []), **({} if pos else kw)))
        res = []
        for _ in range(take):
            try: res.append(next(it))
            except StopIteration: return res, True
            if c: counts.append(c.n)
        return res, False
    desc = dict(iterable = (k, repr(l)), options = kw, taken = take)
    out = real.call(run)
    if not out.ok: raise Violation('changes() fails', got = out.show(), **desc)
    res, ended = out.value
    seq = [l[i % len(l)] for i in range(take)] if k == 'infinite' else l[:take]
    first = True if opt is None else opt
    want = [(x, first if i == 0 else x != seq[i - 1]) for i, x in enumerate(seq)]
    if len(res) != len(want): raise Violation('wrong number of elements', expected = repr(want), got = repr(res), **desc)
    for r, w in zip(res, want):
        if type(r) is not tuple or len(r) != 2 or r[0] is not w[0] and not ident([r[0]], [w[0]]) or (r[1] is not w[1] and not ident([r[1]], [w[1]])): raise Violation('wrong sequence', expected = repr(want), got = repr(res), **desc)
    if ended != (len(want) < take): raise Violation('the sequence ends at another place', expected = len(want), ended = ended, **desc)
    if counts != list(range(1, len(counts) + 1)): raise Violation('elements are taken ahead', counts = counts, **desc)
    return Case(repr(desc), len(res) >= 2, ['changes:%s' % (opt,), k], dict(desc, result = repr(res[:8])))


esc = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

def lit(x): return '"%s"' % x if isinstance(x, str) else '(%s)' % repr(x) if isinstance(x, (int, float)) and not isinstance(x, bool) and x < 0 else repr(x)

def loops(src):
    """Loops of scripts over the two functions; the loop may be left by using only a prefix."""
    vals = [0, 1, 2, 3, 'a', 'b', '<i>', 2.5, True]
    ind = src.pick(INDS)
    n = src.range(1, 3)
    lists = [[src.pick(vals) for _ in range(src.int(5))] for _ in range(n)]
    for l in lists:
        for i in range(1, len(l)):
            if src.bool(0.4): l[i] = l[i - 1]
    via = src.bool()
    ctx = {}
    def ref(i):
        if via:
            ctx['s%d' % i] = src.pick([list, tuple, iter])(lists[i])
            return 's%d' % i
        return '[%s]' % ', '.join(map(lit, lists[i]))
    what = src.pick(['cycle', 'changes', 'pipe', 'enumerate', 'both'])
    rows, L = [], lists[0]
    imp = src.pick(['', 'from hypertag.builtins import $cycle, $changes\n'])
    if what == 'cycle' or n > 1:
        what = 'cycle'
        stop = src.pick([None, "'first'", "'longest'", 'False'])
        total = 0 if any(not l for l in lists) else max(map(len, lists)) if stop == "'longest'" else len(L)
        names = ['u', 'v', 'w'][:n]
        call = 'cycle(%s%s)' % (', '.join(ref(i) for i in range(n)), ', stop=' + stop if stop else '')
        tgt = ', '.join(names) + (',' if n == 1 else '')
        if stop == 'False':
            count = src.int(6)
            if total: total = count
            call = 'zip(range(%d), %s)' % (count, call)
            tgt = 'k, (%s)' % tgt
        head = 'for %s in %s' % (tgt, call)
        line = ' '.join('{%s}' % x for x in names)
        rows = [' '.join(esc(str(l[i % len(l)])) for l in lists) for i in range(total)]
    else:
        opt = src.pick(['', '', ', False', ', first=True', ', first=False'])
        first = 'False' not in opt
        arg = opt[2:]
        if what == 'pipe': call = '(%s : changes%s)' % (ref(0), '(%s)' % arg if arg else '')
        elif what == 'both': call = 'changes([x[0] for x in ()])' if False else 'changes(list(cycle(%s))%s)' % (ref(0), opt)
        else: call = 'changes(%s%s)' % (ref(0), opt)
        flags = [first if i == 0 else L[i] != L[i - 1] for i in range(len(L))]
        if what == 'enumerate':
            head, line = 'for i, (x, new) in enumerate(%s)' % call, '{i} {x} {new}'
            rows = ['%d %s %s' % (i, esc(str(x)), f) for i, (x, f) in enumerate(zip(L, flags))]
        elif what == 'both':
            head, line = 'for (x,), new in %s' % call, '{x} {new}'
            rows = ['%s %s' % (esc(str(x)), f) for x, f in zip(L, flags)]
        else:
            head, line = 'for x, new in %s' % call, '{x} {"new" if new else "old"}'
            rows = ['%s %s' % (esc(str(x)), 'new' if f else 'old') for x, f in zip(L, flags)]
    body = src.pick(['p', 'text', 'nested'])
    if body == 'p': code, wrap = [ind + 'p | ' + line], '<p>%s</p>'
    elif body == 'text': code, wrap = [ind + '| ' + line], '%s'
    else: code, wrap = [ind + 'div', ind * 2 + 'b | ' + line], '<div>\n' + ind + '<b>%s</b>\n</div>'
    pre = 'context %s\n' % ', '.join('$' + k for k in ctx) if ctx else ''
    script = pre + imp + '| begin\n' + head + '\n' + '\n'.join(code) + '\n| end'
    want = '\n'.join(['begin'] + [wrap % r for r in rows] + ['end'])
    out = real.render(script, ctx)
    if not out.ok or out.value != want: raise Violation('wrong loop', script = script, context = {k: repr(v) for k, v in ctx.items()}, lists = repr(lists), expected = want, got = out.show())
    return Case((script, repr(lists)), len(rows) >= 2, ['loop:' + what, 'context' if ctx else 'literals'], dict(script = script, result = out.value))


def refused(src):
    """Unknown options are rejected."""
    e = src.pick(['cycle([1], stopp=1)', 'cycle([1], [2], first=True)', 'cycle(3)', 'cycle([1], 3)', 'cycle([1], None, stop="longest")', 'changes()', 'changes(3)', 'changes([1], last=True)', 'changes([1], True, 2)'])
    out = real.render('| x\nfor a in %s\n    | {a}' % e)
    if out.ok: raise Violation('a wrong call is accepted', call = e, got = out.show())
    return Case(e, True, ['refused'], dict(call = e, error = out.show()))


FAMILIES = [('cycle', cycles, 12000), ('changes', changing, 8000), ('loops', loops, 5000), ('refused', refused, 60)]
