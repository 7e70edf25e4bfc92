"""C09 Qualifiers and try/else suppress or demand exactly what is documented."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import doc_family, INDS

TECHNIQUE = 'property-based testing: values and exceptions of many types injected into qualified expressions and try branches; expected results by construction and from a reference model'
ORACLE = 'expected outcome built together with the script, and hv/model.py for whole documents'
RULE = ('cases: qualified expressions with true, false and failing operands at every place of use; try/else blocks with 1-4 nested branches and faults of many types '
        'at random depths; non-trivial: an operand is false or fails, or a branch fails; distinct by script text')


class Odd(Exception): pass
class Deep(ValueError):
    def __init__(self, a, b): ValueError.__init__(self, a, b)
class Falsy:
    def __bool__(self): return False
    def __str__(self): return 'falsy'
class Truthy:
    def __str__(self): return 'truthy'
class BadBool:
    def __bool__(self): raise Odd('bool')
    def __str__(self): return 'badbool'
class BadStr:
    def __str__(self): raise Odd('str')
class EmptyStr:
    def __str__(self): return ''
class Out(BaseException): pass

ERRORS = [ZeroDivisionError, KeyError, IndexError, ValueError, TypeError, AttributeError, NameError, UnboundLocalError, RuntimeError, NotImplementedError, OSError,
          UnicodeError, AssertionError, LookupError, ArithmeticError, SyntaxError, ImportError, StopIteration, MemoryError, EOFError, RecursionError, Odd, Deep,
          ModuleNotFoundError, OverflowError, IndentationError]
TRUE  = [1, -1, 2.5, 'a<b', ' ', [0], (None,), {'k': 0}, True, Truthy(), EmptyStr(), '0', 'False']
FALSE = [0, 0.0, '', [], (), {}, False, None, Falsy(), set(), b'', 0j, range(0)]

def raiser(cls):
    def boom(*a, **k):
        if cls is Deep: raise Deep(1, 2)
        if cls is UnicodeError: raise UnicodeError('u')
        raise cls('boom')
    return boom

class World:
    """Object whose attributes, items and operators fail."""
    def __init__(self, cls): self.cls = cls
    def fail(self, *a): raiser(self.cls)()
    def __getattr__(self, name):
        if name.startswith('__') or name == 'cls': raise AttributeError(name)
        if name == 'attr': self.fail()
        raise AttributeError(name)
    __getitem__ = __add__ = __call__ = __mul__ = __lt__ = __contains__ = __iter__ = __neg__ = fail


def operand(src, ctx):
    """-> (source of a factor, kind, value): kind is 'true' | 'false' | 'error', value: the value or the class of error"""
    i = len(ctx)
    k = src.pick(['true', 'false', 'error', 'error', 'undef'])
    if k in ('true', 'false'):
        v = src.pick(TRUE if k == 'true' else FALSE)
        ctx['v%d' % i] = v
        ctx['o%d' % i] = {'k': [v]}
        form = src.pick(['v%d', 'v%d', 'o%d["k"][0]', '(v%d)', '(v%d if True else 1)', 'o%d.get("k")[0]', '(v%d or v%d)'.replace(' or v%d', '')])
        return form % i, k, v
    cls = src.pick(ERRORS)
    ctx['w%d' % i] = World(cls)
    ctx['b%d' % i] = raiser(cls)
    form = src.pick(['b%d()', 'b%d(1)', 'w%d.attr', 'w%d[1]', 'w%d()', '(w%d + 1)', '(-w%d)', '(1 in w%d)', '(1 : b%d)', '[b%d()]', '{1: b%d()}', '(b%d() or 1)', 'w%d.nope', 'w%d.attr.x[1](2)', '(1 if b%d() else 2)', '(b%d(), 2)', '("a" "{b%d()}")', '(1 + 2 * b%d())'])
    if form == 'w%d.nope': cls = AttributeError
    return form % i, 'error', cls


def decide(kind, val, q):
    """Value of the qualified operand: ('v', value) | ('e', names)"""
    if kind == 'error': return ('v', '') if q == '?' else ('e', {val.__name__})
    if q == '?': return ('v', val if kind == 'true' else '')
    if q == '!': return ('v', val) if kind == 'true' else ('e', {'FalseValueEx'})
    return ('v', val)


def qualified(src):
    ctx, got = {}, []
    def take(*a):
        got.append(a[0])
        return 'T'
    x, kind, val = operand(src, ctx)
    q = src.pick(['?', '?', '!', ''])
    r = decide(kind, val, q)
    names = sorted(ctx)
    ctx['take'] = take
    place = src.pick(['call', 'brace', 'dollar', 'assign', 'attr', 'cond', 'for', 'default', 'or', 'else', 'concat', 'htag', 'string', 'nested', 'wholebrace'])
    dollar = x[0] not in '([{'
    if place == 'dollar' and not dollar: place = 'brace'
    body, want, seen = None, None, True
    text = lambda v: ({'NoneStringEx'} if v is None else None, '' if v is None else None)
    if place == 'call': script = '$ take(%s%s)' % (x, q)
    elif place == 'assign': script = '$v = %s%s\n$ take(v)' % (x, q)
    elif place == 'attr': script = '%%H a\n    $ take(a)\nH %s' % ('{%s}%s' % (x, q) if src.bool() else (x if x[0] not in '[{' else '(%s)' % x) + q)
    elif place == 'cond': script = 'if take(%s%s) | yes' % (x, q)
    elif place == 'for': script = 'for i in [%s%s]\n    $ take(i)' % (x, q)
    elif place == 'default': script = '%%H a=%s\n    $ take(a)\nH' % ('(%s%s)' % (x, q) if src.bool() else '{%s}%s' % (x if x[0] != '{' else ' ' + x + ' ', q))
    elif place == 'htag': script = 'p title=(take(%s%s))' % (x, q)
    elif place == 'nested': script = '$ take((%s%s)%s)' % (x, q, src.pick(['', '?']))
    elif place == 'or': script = '$ take(%s%s or "dflt")' % (x, q)
    elif place == 'else': script = '$ take("A" if %s%s else "B")' % (x, q)
    else: script = None
    fail = None
    if place == 'nested' and script.endswith('?)'): r = decide('error', Exception, '?') if r[0] == 'e' or not truth(r[1]) else r
    if place == 'or' and r[0] == 'v' and not truth(r[1]): r = ('v', 'dflt')
    if place == 'else' and r[0] == 'v': r = ('v', 'A' if truth(r[1]) else 'B')
    if script is None:
        # places where the value is converted to a string
        mark = src.pick('|/')
        xq = ' ' + x + q + ' ' if x[0] == '{' else x + q
        if place == 'brace': line = '%s a{%s}%sz' % (mark, x if x[0] != '{' else ' ' + x + ' ', q)
        elif place == 'dollar': line = '%s a$%s%s z' % (mark, x, q)
        elif place == 'wholebrace': line = '%s a{%s}z' % (mark, xq)
        elif place == 'concat': line = '%s {"a" "{%s}%s" "z"}' % (mark, x if x[0] != '{' else ' ' + x + ' ', q)
        else: line = '%s {"a{%s}%sz"}' % (mark, x if x[0] != '{' else ' ' + x + ' ', q)
        script = line
        if r[0] == 'v':
            if r[1] is None: r = ('e', {'NoneStringEx'})
            else:
                s = str(r[1])
                want = 'a%s%sz' % (model.html_escape(s) if mark == '|' else s, ' ' if place == 'dollar' else '')
    else: want = [] if r[0] == 'e' else [r[1]]
    if src.bool(0.3):                                        # inside of a block, the result is inside of an element
        step = src.pick(INDS)
        wraps = ['%W\n' + step + '@BODY', 'div\n@BODY'] + ([] if script[0] == '%' else ['if True\n@BODY'])    # no definitions in control blocks
        script = src.pick(wraps).replace('@BODY', '\n'.join(step + l for l in script.split('\n')))
        if script[0] == '%': script = script.replace('%W\n' + step, '%W\n', 1) + '\nW'
        if isinstance(want, str): want = '<div>\n%s%s\n</div>' % (step, want) if script[0] == 'd' else want
    script = ('context %s, $take\n' % ', '.join('$' + n for n in names) if names else 'context $take\n') + script
    out = real.render(script, ctx)
    detail = dict(script = script, kind = kind, value = val, got = out.show())
    if r[0] == 'e':
        if out.ok: raise Violation('an error was expected', expected = sorted(r[1]), **detail)
        if not set(out.mro()) & r[1]: raise Violation('wrong type of error', expected = sorted(r[1]), **detail)
    else:
        if not out.ok: raise Violation('unexpected error', expected = want, **detail)
        if isinstance(want, str):
            if out.value != want: raise Violation('wrong text', expected = want, **detail)
        else:
            same = len(got) == 1 and (got[0] is want[0] or type(got[0]) is type(want[0]) and got[0] == want[0])
            if place == 'call' and q != '?' or same: pass
            elif not same: raise Violation('wrong value', expected = want, received = got, **detail)
            if not same: raise Violation('wrong value', expected = want, received = got, **detail)
    return Case((script, str(val)), kind != 'true', ['place:' + place, 'operand:' + kind, 'qual:' + q], dict(script = script, operand = kind, value = val, result = out.show()))

def truth(v):
    return bool(v)


def undefined(src):
    """A qualifier does not hide names that do not exist, but it does hide variables that are not assigned."""
    k = src.int(4)
    q = src.pick('?!')
    if k == 0: script, want = '| {nothere}%s' % q, {'NameErrorEx'}
    elif k == 1: script, want = 'if False\n    $ x = 1\n| a{x}%sz' % q, 'az' if q == '?' else {'UnboundLocalEx'}
    elif k == 2: script, want = 'try\n    | {nothere}\nelse | x', {'NameErrorEx'}
    else: script, want = 'if False\n    $ x = 1\ntry | $x\nelse | ok', 'ok'
    tail = src.text('abc ', 0, 6).strip()
    if isinstance(want, str) and tail: script += '\n| ' + tail; want += '\n' + tail
    out = real.render(script)
    if isinstance(want, str):
        if not out.ok or out.value != want: raise Violation('wrong result', script = script, expected = want, got = out.show())
    elif out.ok or not set(out.mro()) & want: raise Violation('wrong result', script = script, expected = sorted(want), got = out.show())
    return Case(script, True, ['undefined'], dict(script = script, result = out.show()))


def tries(src):
    """Branches are laid out here by hand; some of them contain a fault somewhere inside."""
    ctx = {}
    count = [0]
    fails = [0]

    def element(ind, tag, o):
        if not o: return ['%s<%s></%s>' % (ind, tag, tag)]
        if not any(x.strip() for x in o): raise Skip('element with blank lines only')
        return ['%s<%s>' % (ind, tag)] + o + ['%s</%s>' % (ind, tag)]

    def fault():
        """Source of a block that raises; the blocks vary in where the fault occurs."""
        i = len(ctx)
        cls = src.pick(ERRORS)
        ctx['b%d' % i] = raiser(cls)
        b = 'b%d' % i
        return src.pick(['| {%s()}' % b, '$ %s()' % b, '$x = %s()' % b, 'p title=(%s()) | x' % b, 'if %s() | x' % b, 'for i in %s() | x' % b, '@ %s()' % b, 'F {%s()}' % b, 'p : F | {%s()}' % b,
                         'W (%s) | in' % b, 'div : W (%s) | q' % b, 'b : i : / {1 + %s()}' % b, 'while %s() | x' % b, '| $v!' , '| {None}', '$a, q = 1, 2, 3', 'p : | {1/0}', 'N | void'])

    def items(ind, depth, bad):
        """-> (source lines, output lines); when `bad`, raises at a random position. Output lines of a failing part are dropped by the caller."""
        S, O = [], []
        n = src.range(1, 3)
        where = src.int(n) if bad else -1
        for j in range(n):
            count[0] += 1
            i = count[0]
            blank = src.weighted([(5, 0), (1, 1)])
            S += [''] * blank; O += [''] * blank
            step = src.pick(INDS)
            if j == where and (depth >= 3 or src.bool(0.5)):
                S.append(ind + fault())
                continue
            k = src.weighted([(4, 'line'), (2, 'text'), (3, 'nest'), (2, 'try'), (1, 'ctl'), (1, 'use')]) if depth < 3 else src.pick(['line', 'text'])
            if j == where: k = src.pick(['nest', 'ctl', 'use'])
            if k == 'line': S.append('%sp | t%d' % (ind, i)); O.append('%s<p>t%d</p>' % (ind, i))
            elif k == 'text': S.append('%s| t%d' % (ind, i)); O.append('%st%d' % (ind, i))
            elif k == 'nest':
                s, o = items(ind + step, depth + 1, j == where)
                S += [ind + 'div'] + s
                O += element(ind, 'div', o)
            elif k == 'use':
                s, o = items(ind + step, depth + 1, j == where)
                S += [ind + 'W'] + s
                O += element(ind, 'em', o)
            elif k == 'ctl':
                s, o = items(ind + step, depth + 1, j == where)
                S += [ind + src.pick(['if True', 'for z in "a"'])] + s
                O += [ind + x[len(ind + step):] if x.startswith(ind + step) else x for x in o]
            else:
                s, o = tryblock(ind, depth + 1)
                S += s; O += o
        return S, O

    def tryblock(ind, depth):
        n = src.weighted([(3, 2), (2, 1), (2, 3), (1, 4)])
        S, O, done = [], [], False
        for j in range(n):
            step = src.pick(INDS)
            word = 'else' if j else 'try'
            bad = src.bool(0.75 if j < n - 1 else 0.35)
            fails[0] += bad
            if not bad and j and src.bool(0.1):                      # an empty branch never fails
                S.append(ind + word)
                done = True
                continue
            if src.bool(0.25):
                count[0] += 1
                if bad: s, o = fault(), []
                else: s, o = '| t%d' % count[0], ['%st%d' % (ind, count[0])]
                if s[0] in '|/' and '\n' not in s: S.append('%s%s %s' % (ind, word, s))
                else: S += [ind + word, ind + step + s]
            else:
                s, o = items(ind + step, depth + 1, bad)
                S += [ind + word] + s
                o = [ind + x[len(ind + step):] if x.startswith(ind + step) else x for x in o]
            if not bad and not done: O, done = o, True
        return S, O

    S, O = [], []
    for _ in range(src.range(1, 3)):
        k = src.int(5)
        if k == 0: S.append('p | p%d' % len(S)); O.append('<p>p%d</p>' % (len(S) - 1))
        elif k == 1:
            step = src.pick(INDS)
            s, o = tryblock(step, 1)
            S += ['section'] + s + [step + '| end']
            O += element('', 'section', o + [step + 'end'])
        elif k == 2:
            bad = src.bool()
            fails[0] += bad
            if bad: S.append(src.pick(['? p | {1/0}', '?| $v!', '? p title=(v.q) | x', '?p : b | {v["q"]}', '? W (1/0) | z', '? N | x']))
            else: S.append(src.pick(['? p | ok', '?p | ok', '? p\n    | ok'])); O += {'? p\n    | ok': ['<p>', '    ok', '</p>']}.get(S[-1], ['<p>ok</p>'])
        else:
            s, o = tryblock('', 0)
            S += s; O += o
    S.append('| last'); O.append('last')
    defs = ['%W @body f=0', '    $ f() if f else 0', '    em', '        @ body', '%F a', '    | f', '%N a=1', '    | n']
    head = ['context ' + ', '.join('$' + n for n in ['v'] + sorted(ctx))] + defs
    ctx['v'] = 0
    script = '\n'.join(head + S)
    script = script.replace('        @ body', '    @ body').replace('    em\n    @ body', '    em\n        @ body')
    # inside of a hypertag W the body is embedded one level deeper: compare without the indentation of lines
    out = real.render(script, ctx)
    want = '\n'.join(O)
    if not out.ok: raise Violation('unexpected error', script = script, expected = want, got = out.show())
    flat = lambda t: [l.strip() for l in t.split('\n')]
    has_w = any('W' in s for s in S)
    if (flat(out.value) != flat(want)) if has_w else (out.value != want):
        raise Violation('wrong output of try blocks', script = script, expected = want, got = out.value)
    return Case(script, fails[0] > 0, ['branches failed:%d' % min(fails[0], 6)], dict(script = script, output = out.value))


def passes_through(src):
    """Special exceptions that are not ordinary (direct subclasses of BaseException) are never suppressed."""
    cls = src.pick([Out, KeyboardInterrupt, SystemExit, GeneratorExit])
    def boom(): raise cls()
    form = src.pick(['| {b()}?', '$x = b()?', 'try | {b()}\nelse | x', '? p title={b()}', 'try\n    div\n        p | {b()}\nelse\n    | x', 'for i in [1, b()?] | x'])
    script = 'context $b\n' + form
    pre = src.text('abc', 0, 3)
    if pre: script = script.replace('\n', '\n| %s\n' % pre, 1)
    try: out = real.render(script, dict(b = boom))
    except BaseException as ex:
        if type(ex) is not cls: raise
        return Case((script, cls.__name__), True, ['base:' + cls.__name__], dict(script = script, exception = cls.__name__))
    raise Violation('a special exception has been suppressed', script = script, exception = cls.__name__, got = out.show())


docs = doc_family(lambda f, st: 'try' in f and ('fault' in f or st == 'ok'), ctx = True, bad_p = 0.06, wild = 0.08, size = 14,
                  W = dict(try_ = 12, text = 6, struct = 6, if_ = 2, for_ = 2, assign = 4))

FAMILIES = [('qualified', qualified, 6000), ('undefined', undefined, 200), ('tries', tries, 4000), ('base', passes_through, 100), ('documents', docs, 2000)]
