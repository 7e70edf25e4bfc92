"""C07 Literals denote the documented values."""
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import Gen, PLAIN, MARKUPY, UNI, text_lit, merge_parts, num, var
from hv.model import Ex, Blk, Script, TagUse
from hv.printer import Printer
from hv.families import expr_case, TYPES, same_repr, make_context

TECHNIQUE = 'property-based testing: random literals, decoded independently (own decoder, Python literal evaluation)'
ORACLE = 'the list of characters a literal was assembled from; ast.literal_eval; hv/model.py for nested displays'
RULE = ('cases: random string (f-, r-), numeric and collection literals at random places; non-trivial: an escape code, an embedding, a character outside of '
        'letters, a fraction/exponent or a nested collection; distinct by script text')

def place(src, lit):
    """A script that delivers the literal's value to $take."""
    k = src.int(8)
    if k == 0: return '$ take(%s)' % lit
    if k == 1: return '$x = %s\n$ take(x)' % lit
    if k == 2: return '%%H a\n    $ take(a)\nH %s' % (lit if lit[0] not in '{-' else '(%s)' % lit)
    if k == 3: return '%%H a=%s\n    $ take(a)\nH' % (lit if lit[0] not in '{-' else '(%s)' % lit)
    if k == 4: return 'p | { take(%s)? }' % lit
    if k == 5: return 'for x in [%s]\n    $ take(x)' % lit
    if k == 6: return 'p\n  if True\n    $ take( {"k": %s}["k"] )' % lit
    return '$ (%s) : take' % lit

def deliver(src, lit, ctx = None):
    got = []
    script = place(src, lit)
    c = dict(ctx or {}, take = got.append)
    script = 'context ' + ', '.join('$' + n for n in c) + '\n' + script
    out = real.render(script, c)
    if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    if len(got) != 1: raise Violation('value is not delivered once', script = script, got = got)
    return script, got[0]


CODES = [('\\n', '\n'), ('\\t', '\t'), ('\\\\', '\\'), ('\\r', '\r'), ('\\a', '\a'), ('\\b', '\b'), ('\\f', '\f'), ('\\v', '\v')]

def fstring(src):
    """An f-string is assembled from fragments whose meaning is known."""
    q = src.pick('"\'')
    ctx, code, want = {}, '', ''
    tail = ''           # kind of the previous fragment
    care = False
    for i in range(src.range(0, 7)):
        k = src.int(9)
        if k < 3:
            w = ''.join(c for c in src.text(src.pick([PLAIN, MARKUPY, UNI, ' \t|:#']), 1, 6) if c not in '\\\n' + q)
            if tail == 'x': w = w.lstrip('?!')
            if tail == '$': w = ';' + w
            if tail == 'oct' and w[:1].isdigit(): w = ',' + w
            if not w: continue
            code += w; want += w; tail = 't'
            care = care or not w.isalpha()
            continue
        care = True
        if k == 3:
            c, v = src.pick(CODES + [('\\' + ('"' if q == "'" else "'"), '"' if q == "'" else "'")])
        elif k == 4:
            n = src.pick([0x41, 0x22, 0x27, 0x5c, 0x7b, 0x24, 0xe9, 0xff, 0, 10, src.int(256)])
            c, v = ('\\x%02x' if src.bool() else '\\x%02X') % n, chr(n)
        elif k == 5:
            n = src.pick([0x41, 0x3b1, 0x4e2d, 0x2028, 0x7d, 0xffff, src.range(0x20, 0xd7ff)])
            c, v = '\\u%04x' % n, chr(n)
        elif k == 6:
            n = src.pick([0x1f600, 0x41, 0x10ffff, src.range(0x10000, 0x10ffff)])
            c, v = '\\U%08x' % n, chr(n)
        elif k == 7:
            if src.bool(0.4):
                n = src.range(0, 511)
                c, v = '\\' + src.pick(['%o', '%03o']) % n, chr(n)
                code += c; want += v; tail = 'oct'
                continue
            c, v = src.pick([('$$', '$'), ('{{', '{'), ('}}', '}'), ('\\q', '\\q'), ('\\.', '\\.'), ('\\d', '\\d'), ('\\(', '\\(')])
        else:
            name = 'v%d' % i
            val = src.pick(['', 'abc', '\\n', '<&>', '{', '$x', q, 'é', 12, 2.5, True, [1], '\n'])
            ctx[name] = val
            form = src.int(5)
            c, v = ['$%s', '{%s}', '{ $%s }', "{%s or ''}" if q == '"' else '{%s or ""}', '{[%s][0]}'][form] % name, str(val)
            if form == 3 and not val: v = ''
            code += c; want += v; tail = '$' if form == 0 else 'x'
            continue
        code += c; want += v; tail = 't'
    lit = q + code + q
    script, got = deliver(src, lit, ctx)
    if got != want or type(got) is not str: raise Violation('string differs', script = script, context = ctx, expected = want, got = got)
    return Case(script, care, ['fstring'], dict(literal = lit, value = want))


def rstring(src):
    q = src.pick('"\'')
    s = ''.join(c for c in src.text(src.pick([PLAIN, MARKUPY, UNI, '\\nx$${}{{}} ', '${}\\|:#']), 0, 12, 0.85) if c not in '\n' + q)
    lit = 'r' + q + s + q
    script, got = deliver(src, lit)
    if got != s: raise Violation('raw string differs', script = script, expected = s, got = got)
    return Case(script, not s.isalpha(), ['rstring'], dict(literal = lit, value = s))


def number(src):
    digits = lambda lo, hi: src.text('0123456789', lo, hi, 0.7)
    k = src.int(5)
    n = (digits(1, 6).lstrip('0') or '0')
    if k == 0: lit = n
    elif k == 1: lit = n + '.' + digits(0, 5)
    elif k == 2: lit = '.' + digits(1, 5)
    elif k == 3: lit = n + src.pick(['', '.', '.' + digits(1, 3)]) + src.pick('eE') + src.pick(['', '+', '-']) + str(src.int(30))
    else: lit = '1' + digits(10, 25)
    want = eval(lit)
    neg = src.bool(0.2)
    script, got = deliver(src, ('-' if neg else '') + lit)
    if neg: want = -want
    if got != want or type(got) is not type(want): raise Violation('number differs', script = script, literal = lit, expected = want, got = got)
    return Case(script, k > 0, ['number%d' % k], dict(literal = lit, value = want))


def display(src):
    """Nested displays; the same text is a Python literal."""
    def make(depth):
        k = src.int(9) if depth > 0 else src.int(4)
        sp = lambda: src.weighted([(4, ''), (1, ' ')])
        if k == 0: return str(src.int(1000))
        if k == 1: return src.pick(['True', 'False', 'None', '1.5', '2e3', '0'])
        if k in (2, 3): return src.pick(['"%s"', "'%s'"]) % src.text('abc xyz,:()[]', 0, 5)
        if k == 4:
            items = src.list(lambda: make(depth - 1), 0, 4)
            return '[' + sp() + (',' + sp()).join(items) + (src.pick(['', ',', ', ']) if items else '') + ']'
        if k == 5:
            items = src.list(lambda: make(depth - 1), 0, 4)
            if len(items) == 1: return '(' + sp() + items[0] + sp() + ',' + sp() + ')'
            return '(' + sp() + (sp() + ',' + sp()).join(items) + (src.pick(['', ',', ', ']) if items else '') + ')'
        if k == 6: return '(' + sp() + make(depth - 1) + sp() + ')'
        if k == 7:
            items = src.list(lambda: str(src.int(50)) if src.bool() else '"%s"' % src.text('abc', 0, 2), 1, 4)
            return '{' + sp() + (sp() + ',' + sp()).join(items) + src.pick(['', ',']) + sp() + '}'
        items = src.list(lambda: (src.pick(['1', '"a"', "'b'", '2', '(1, 2)', 'True', '"c"']), make(depth - 1)), 0, 4)
        return '{' + sp() + (',' + sp()).join(a + sp() + ':' + sp() + b for a, b in items) + (src.pick(['', ',']) if items else '') + '}'
    lit = make(src.range(1, 4))
    import ast
    want = same_repr(ast.literal_eval(lit))
    script, got = deliver(src, lit)
    got = same_repr(got)
    if got != want: raise Violation('collection differs', script = script, literal = lit, expected = want, got = got)
    return Case(script, any(c in lit for c in '[({'), ['display'], dict(literal = lit, value = want))


def tuples(src):
    """Tuples without parentheses, in the places that accept them."""
    n = src.range(1, 4)
    items = [src.pick(['1', '"a"', '[1]', '(2, 3)', 'None', '2 + 3', '(4,)']) for _ in range(n)]
    text = (src.pick([', ', ',', ' , '])).join(items) + (src.pick([',', ' ,']) if n == 1 or src.bool(0.3) else '')
    want = same_repr(tuple(eval(x) for x in items))
    got = []
    script = 'context $take\n' + src.pick(['$x = %s\n$ take(x)', '%%H a\n  $ take(a)\nH {%s}', '$d = {"k": 0}\n$y = %s\n$ take(y)', '$ take((%s))']) % text
    if 'take((' in script and n == 1 and not text.rstrip().endswith(','): raise Skip('not a tuple')
    out = real.render(script, {'take': got.append})
    if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    if [same_repr(x) for x in got] != [want]: raise Violation('tuple differs', script = script, expected = want, got = [same_repr(x) for x in got])
    return Case(script, True, ['tuple'], dict(script = script, value = want))


def bad_escape(src):
    """Incomplete escape codes are a syntax error."""
    code = src.pick(['\\x', '\\x1', '\\xg1', '\\u12', '\\u12g4', '\\U0001', '\\U99999999', '\\u', '\\U0011000'])
    pre, post = src.text('ab ', 0, 3), src.pick(['', ' ', 'z', ' zz', '-'])
    script = src.pick(['| {"%s"}', '$x = "%s"', 'p title="%s"', 'if "%s" | x']) % (pre + code + post)
    want = None
    try: eval('"' + pre + code + post + '"')
    except SyntaxError: want = 'SyntaxErrorEx'
    if want is None: raise Skip('a valid code')
    if len(code + post) < {'x': 4, 'u': 6, 'U': 10}[code[1]]: raise Skip('unspecified: incomplete escape code')
    out = real.render(script)
    if not out.is_err(want): raise Violation('invalid escape code', script = script, expected = want, got = out.show())
    return Case(script, True, ['bad escape'], dict(script = script, got = out.show()))


def nested(src):
    g = Gen(src, TYPES)
    g.wild = 0.0
    g.chars = [(3, PLAIN), (3, MARKUPY), (2, UNI)]
    e = g.string(3) if src.bool(0.6) else Ex('list', [g.string(2), Ex('dict', [(g.string(1), g.string(2))])])
    text, exp = expr_case(src, e)
    return Case(text, any(x.k == 'str' and any(p[0] != 't' for p in x.b) for x in model.walk_ex(e)), ['nested'], dict(script = text, value = exp[1] if exp[0] == 'ok' else sorted(exp[1])))


FAMILIES = [('fstring', fstring, 7000), ('rstring', rstring, 2000), ('number', number, 2500), ('display', display, 3500), ('tuples', tuples, 1200),
            ('bad_escape', bad_escape, 500), ('nested', nested, 2500)]
