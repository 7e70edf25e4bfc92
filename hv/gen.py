"""Generators of expressions, texts and documents (syntax trees of model.py)."""
from hv.src import Skip
from hv.model import Ex, Blk, Body, TagUse, Script

PLAIN   = 'abcdefgh XYZ019 ,.;-_'
MARKUPY = '&<>"\'\\/|!:@#%*()[]=+~^`?'
UNI     = 'é漢😀\u00a0ßİſ\u0301\u2768\u2769\u276a\u276b\u276c\u2028\x0b\x0c\x85\u3000\ufeff\x01\x7f'
DOLLAR  = '${}'


def num(v): 
    v = str(v)
    return Ex('chain', Ex('num', v[1:]), [], True) if v[0] == '-' else Ex('num', v)

def var(name): return Ex('var', name)

def text_lit(s, quote = None):
    """String literal denoting exactly `s`."""
    q = quote or ("'" if '"' in s and "'" not in s else '"')
    parts, cur = [], ''
    for ch in s:
        if ch in '${}':
            if cur: parts.append(('t', cur)); cur = ''
            parts.append(('esc', ch))
        elif ch == '\\': cur += '\\\\'
        elif ch == q: cur += '\\x22' if q == '"' else '\\x27'
        elif ch in '\n\r' or ord(ch) < 32 or 0x7f <= ord(ch) < 0xa0 or ch in '\u2028\u2029\u2768\u2769\u276a\u276b': cur += '\\u%04x' % ord(ch)
        else: cur += ch
    if cur: parts.append(('t', cur))
    return Ex('str', q, parts)


def merge_parts(parts):
    out = []
    for p in parts:
        if p[0] == 't':
            if not p[1]: continue
            if out and out[-1][0] == 't': out[-1] = ('t', out[-1][1] + p[1]); continue
        out.append(p)
    return out


def tidy(parts, raw, head):
    """Adjust text so that it can be written down: no trailing whitespace, no qualifier-like characters after an embedding,
    no whitespace at the beginning of tail lines; returns a non-empty list or None."""
    parts = merge_parts(parts)
    out = []
    for p in parts:
        if p[0] == 't' and out and out[-1][0] == 'x' and not raw:
            p = ('t', p[1].lstrip('?!'))
            if not p[1]: continue
        out.append(p)
    out = merge_parts(out)
    while out and out[-1][0] == 't':
        t = out[-1][1].rstrip()
        if t:
            out[-1] = ('t', t)
            break
        out.pop()
    if not out: return None
    if out[0][0] == 't':
        t = out[0][1].lstrip(' \t')
        if t: out[0] = ('t', t)
        else: out.pop(0)
    return out or None


class Gen:
    """Expressions over typed variables. types: int, str, bool, list (of ints), strs (list of strings), dict (str -> int),
    tuple (of ints), float, none, any"""

    wild = 0.03          # probability of an operand of any type, where an error is likely
    chars = [(6, PLAIN), (2, MARKUPY), (1, UNI)]
    funs = True          # calls of built-in functions
    quals = True
    embeds = True        # embeddings in strings

    def __init__(self, src, vars = None):
        self.src = src
        self.vars = vars if vars is not None else {}      # type -> [name]
        self.budget = 40

    def pick_var(self, typ):
        names = self.vars.get(typ)
        return var(self.src.pick(names)) if names else None

    def chunk(self, hi = 8):
        alpha = self.src.weighted(self.chars)
        return self.src.text(alpha, 1, hi, 0.75)

    def any(self, depth):
        return self.make(self.src.pick(['int', 'str', 'bool', 'list', 'tuple', 'float', 'dict', 'strs', 'none']), depth)

    def make(self, typ, depth = 3):
        src = self.src
        self.budget -= 1
        if src.bool(self.wild): typ = src.pick(['str', 'int', 'list', 'none', 'dict', 'tuple', 'float'])
        if depth <= 0 or self.budget <= 0: return self.leaf(typ)
        roll = src.int(20)
        if roll < 5: return self.leaf(typ)
        if roll == 5: return Ex('if', self.make(typ, depth - 1), self.cond(depth - 1), None if src.bool(0.5 if typ in ('str', 'none') else 0.08) else self.make(typ, depth - 1))
        if roll == 6: return Ex('paren', self.make(typ, depth - 1))
        if roll == 7: return Ex(src.pick(['or', 'and']), [self.make(typ, depth - 1) for _ in range(src.range(2, 3))])
        if roll == 8 and self.vars.get('fn'): return self.fn_call(typ, depth)
        return getattr(self, 'g_' + typ)(depth)

    def fn_call(self, typ, depth):
        """Call of a recording identity function: f(x, ...) == x."""
        f = self.pick_var('fn')
        x = self.make(typ, depth - 1)
        extra = [(None, self.make('int', 0)) for _ in range(self.src.int(2))]
        kw = [(n, self.make('int', 0)) for n in self.src.pick([[], ['k'], ['k', 'w']])]
        if self.src.bool(0.4): return Ex('pipe', x, [(f, extra + kw)])
        return Ex('call', f, [(None, x)] + extra + kw)

    def leaf(self, typ):
        src = self.src
        v = self.pick_var(typ) if src.bool(0.6) else None
        if v is not None: return v
        if typ == 'int': return Ex('num', str(src.pick([1, 0, 2, 3, 5, 10, 100])))
        if typ == 'float': return Ex('num', src.pick(['1.5', '0.25', '2.0', '1e2', '2.5e-1', '3.']))
        if typ == 'str': return self.string(0)
        if typ == 'bool': return Ex('bool', src.pick([True, False]))
        if typ == 'none': return Ex('none')
        if typ == 'list': return Ex('list', [Ex('num', str(src.int(5))) for _ in range(src.int(4))])
        if typ == 'tuple': return Ex('tuple', [Ex('num', str(src.int(5))) for _ in range(src.int(4))])
        if typ == 'strs': return Ex('list', [self.string(0) for _ in range(src.int(3))])
        if typ == 'dict': return Ex('dict', [(text_lit(src.pick('abc')), Ex('num', str(src.int(5)))) for _ in range(src.int(3))])
        return Ex('num', '1')

    def string(self, depth):
        src = self.src
        q = src.pick('"\'')
        parts = []
        for _ in range(src.weighted([(6, 1), (2, 0), (2, 2), (1, 3)])):
            roll = src.int(10)
            if roll < 6 or (roll == 9 and not (self.embeds and depth > 0)):
                s = ''.join(ch for ch in self.chunk() if ch not in '\n\\${}' + q)
                parts.append(('t', s))
            elif roll == 6: parts.append(('t', src.pick(['\\n', '\\t', '\\\\', '\\' + ("'" if q == '"' else '"'), '\\x41', '\\u00e9', '\\101', '\\U0001F600', '\\q', '\\.', '\\0'])))
            elif roll == 7: parts.append(('esc', src.pick('${}')))
            elif self.embeds and depth > 0:
                parts.append(('x', self.make(src.pick(['int', 'str', 'bool', 'list', 'float']), depth - 1), src.pick('${')))
        parts = merge_parts(parts)
        out = []
        for p in parts:
            if p[0] == 't' and out and out[-1][0] == 'x':
                p = ('t', p[1].lstrip('?!'))
                if not p[1]: continue
            out.append(p)
        parts = out
        # a trailing backslash must not join the next fragment, \x.. codes end at the fragment's end
        if src.bool(0.12) and not any(p[0] != 't' for p in parts):
            body = ''.join(ch for ch in self.chunk() + src.pick(['', '\\n', '${x}', '{', '}}', '$$']) if ch not in '\n' + q)
            return Ex('raw', q, body)
        return Ex('str', q, merge_parts(parts))

    def cond(self, depth):
        return self.make(self.src.pick(['bool', 'bool', 'int', 'str', 'list']), depth)

    def chain(self, typ, ops, depth, n = None, operand = None):
        n = n or self.src.weighted([(4, 2), (2, 3), (1, 4)])
        a = self.make(operand or typ, depth - 1)
        return Ex('chain', a, [(self.src.pick(ops), self.make(operand or typ, depth - 1)) for _ in range(n - 1)], self.src.bool(0.1) if ops[0] in ('+', '-') else False)

    def builtin(self, name, *args, **kw):
        a = [(None, x) for x in args] + list(kw.items())
        if self.src.bool(0.25): return Ex('pipe', args[0], [(var(name), a[1:] if a[1:] or self.src.bool() else None)])
        return Ex('call', var(name), a)

    def g_int(self, depth):
        src = self.src
        roll = src.int(12)
        if roll < 2: return self.chain('int', ['+', '-'], depth)
        if roll == 2: return self.chain('int', ['*', '//', '%'], depth)
        if roll == 3: return self.chain('int', [src.pick(['&', '|', '^'])], depth)
        if roll == 4: return Ex('chain', self.make('int', depth - 1), [(src.pick(['<<', '>>']), Ex('num', str(src.int(4))))], False)
        if roll == 5: return Ex('chain', self.make('int', depth - 1), [('**', Ex('num', str(src.int(4)))) for _ in range(src.range(1, 2))], False)
        if roll == 6: return Ex('index', self.make(src.pick(['list', 'tuple']), depth - 1), self.make('int', 0 if src.bool() else depth - 1))
        if roll == 7 and self.funs: return self.builtin('len', self.make(src.pick(['str', 'list', 'strs', 'dict']), depth - 1))
        if roll == 8 and self.funs: return self.builtin(src.pick(['abs', 'int']), self.make('int', depth - 1))
        if roll == 9 and self.vars.get('obj'): return Ex('member', self.pick_var('obj'), src.pick(['n', 'n', 'k', 'missing']))
        if roll == 10 and self.funs: return self.builtin(src.pick(['sum', 'max', 'min']), self.make('list', depth - 1))
        if roll == 11: return Ex('index', self.make('dict', depth - 1), text_lit(src.pick('abc')))
        return Ex('chain', self.make('int', depth - 1), [], True)

    def g_float(self, depth):
        src = self.src
        roll = src.int(4)
        if roll == 0: return self.chain('float', ['+', '-'], depth)
        if roll == 1: return self.chain('float', ['*', '/'], depth, operand = src.pick(['int', 'float']))
        if roll == 2 and self.funs: return self.builtin('float', self.make('int', depth - 1))
        return self.leaf('float')

    def g_bool(self, depth):
        src = self.src
        roll = src.int(10)
        if roll < 3:
            t = src.pick(['int', 'int', 'str', 'float', 'list'])
            return Ex('chain', self.make(t, depth - 1), [(src.pick(['<', '>', '<=', '>=', '==', '!=', '<>']), self.make(t, depth - 1))], False)
        if roll == 3: return Ex('chain', self.make('int', depth - 1), [(src.pick(['in', 'not in']), self.make(src.pick(['list', 'tuple']), depth - 1))], False)
        if roll == 4: return Ex('chain', self.make('str', depth - 1), [(src.pick(['in', 'not in']), self.make(src.pick(['str', 'strs', 'dict']), depth - 1))], False)
        if roll == 5: return Ex('chain', self.any(depth - 1), [(src.pick(['is', 'is not']), Ex('none'))], False)
        if roll == 6: return Ex('not', self.cond(depth - 1))
        if roll == 7: return Ex('and', [self.cond(depth - 1) for _ in range(src.range(2, 3))])
        if roll == 8: return Ex('or', [self.cond(depth - 1) for _ in range(src.range(2, 3))])
        # a chain of comparisons is evaluated from left to right
        return Ex('chain', self.make('int', depth - 1), [(src.pick(['==', '!=', '<', '>=']), self.make('int', depth - 1)) for _ in range(2)], False)

    def g_str(self, depth):
        src = self.src
        roll = src.int(12)
        if roll < 3: return self.string(depth)
        if roll == 3:
            items = [self.make(src.pick(['str', 'int']), depth - 1)]
            for _ in range(src.range(1, 2)): items.append(self.concat_item(depth - 1))
            return Ex('concat', items)
        if roll == 4: return self.chain('str', ['+'], depth, n = 2) if not src.bool(0.1) else Ex('chain', self.make('str', depth - 1), [('+', self.make('str', depth - 1))], False)
        if roll == 5: return Ex('chain', self.make('str', depth - 1), [('*', Ex('num', str(src.int(4))))], False)
        if roll == 6: return Ex('index', self.make('str', depth - 1), self.make('int', 0))
        if roll == 7: return Ex('slice', self.make('str', depth - 1), self.slice_parts(depth))
        if roll == 8: return Ex('call', Ex('member', self.make('str', depth - 1), src.pick(['upper', 'strip', 'title', 'swapcase'])), [])
        if roll == 9: return Ex('call', Ex('member', self.make('str', depth - 1), 'replace'), [(None, text_lit(src.pick('abc'))), (None, self.make('str', 0))])
        if roll == 10 and self.funs: return self.builtin(src.pick(['str', 'repr']), self.any(depth - 1))
        if roll == 11 and self.quals: return Ex('qual', self.make(src.pick(['str', 'int']), depth - 1), src.pick('??!'))
        return Ex('call', Ex('member', text_lit(src.pick([',', ' ', '-'])), 'join'), [(None, self.make('strs', depth - 1))])

    def concat_item(self, depth):
        src = self.src
        roll = src.int(5)
        if roll == 0: return self.string(depth)
        if roll == 1: return Ex('num', str(src.int(50)))
        v = self.pick_var(src.pick(['str', 'int', 'str']))
        if v is None: return self.string(0)
        if roll == 2 and v.a in self.vars.get('str', ()): return Ex('call', Ex('member', v, 'upper'), [])
        if roll == 3 and v.a in self.vars.get('int', ()): return Ex('chain', v, [(src.pick(['+', '*']), Ex('num', str(src.int(5))))], False)
        return v

    def slice_parts(self, depth):
        src = self.src
        f = lambda: None if src.bool(0.35) else (Ex('chain', Ex('num', str(src.range(1, 3))), [], True) if src.bool(0.3) else Ex('num', str(src.int(5))))
        return [f(), f(), src.weighted([(5, 0), (1, 1)]) and Ex('num', str(src.range(1, 2))) or None]

    def g_list(self, depth):
        src = self.src
        roll = src.int(6)
        if roll < 2: return Ex('list', [self.make('int', depth - 1) for _ in range(src.int(4))])
        if roll == 2: return Ex('slice', self.make('list', depth - 1), self.slice_parts(depth))
        if roll == 3: return self.chain('list', ['+'], depth, n = 2) if False else Ex('chain', self.make('list', depth - 1), [('+', self.make('list', depth - 1))], False)
        if roll == 4 and self.funs: return self.builtin('sorted', self.make(src.pick(['list', 'tuple', 'set']), depth - 1))
        if roll == 5 and self.funs: return self.builtin('list', Ex('call', var('range'), [(None, Ex('num', str(src.int(5))))]))
        return self.leaf('list')

    def g_tuple(self, depth): return Ex('tuple', [self.make('int', depth - 1) for _ in range(self.src.int(4))])
    def g_set(self, depth): return Ex('set', [self.make('int', depth - 1) for _ in range(self.src.range(1, 3))])
    def g_strs(self, depth):
        if self.src.bool(0.3): return Ex('call', Ex('member', self.make('str', depth - 1), 'split'), [])
        return Ex('list', [self.make('str', depth - 1) for _ in range(self.src.int(4))])
    def g_dict(self, depth):
        return Ex('dict', [(text_lit(self.src.pick('abc')), self.make('int', depth - 1)) for _ in range(self.src.int(4))])
    def g_none(self, depth): return Ex('none')


TAGS = ['p', 'div', 'b', 'i', 'ul', 'li', 'span', 'section', 'h1', 'table', 'td', 'DIV', 'a', 'code']
VOIDS = ['br', 'img', 'hr', 'input', 'BR']
NAMES = ['x', 'y', 'z', 'u', 'v', 'w', 'item', 'foo', 'iffy', 'in_', 'Name', '_h', 'form', 'organ', 'nota', 'None_', 'Truex']
HNAMES = ['H', 'K', 'Box', 'item', 'Row', 'tryit', 'elsey', 'passage', 'forum']


class Env:
    """What is known at a place of the document."""
    def __init__(self, vars = None, tags = None, maybe = None):
        self.vars = {k: list(v) for k, v in (vars or {}).items()}        # type -> names that have values
        self.tags = dict(tags or {})                                      # hypertags: name -> Blk def
        self.maybe = list(maybe or [])                                    # names assigned in branches
    def copy(self): return Env(self.vars, self.tags, self.maybe)
    def set(self, name, typ):
        self.unset(name)
        self.vars.setdefault(typ, []).append(name)
    def unset(self, name):
        for v in self.vars.values():
            while name in v: v.remove(name)
        while name in self.maybe: self.maybe.remove(name)
    def names(self): return [n for v in self.vars.values() for n in v]


class DocGen:
    """Documents. Feature weights may be changed by checks."""

    W = dict(text = 6, struct = 6, assign = 3, inplace = 1, expr = 1, embed = 2, if_ = 2, for_ = 2, while_ = 1, try_ = 2, def_ = 2, use = 4,
             comment = 1, pass_ = 1)
    margin_p  = 0.25
    mod_p     = 0.08
    bad_p     = 0.02         # probability of a deliberate fault: undefined name, unassigned variable, wrong attributes
    void_body = 0.0
    chars     = [(6, PLAIN), (2, MARKUPY), (1, UNI)]
    max_depth = 4
    ex_depth  = 2
    wild      = 0.02
    attrs_p   = 0.5

    def __init__(self, src, vars = None, size = 14, **opts):
        self.src, self.size = src, size
        for k, v in opts.items(): setattr(self, k, v)
        self.W = dict(DocGen.W, **(opts.get('W') or {}))
        self.env0 = Env(vars)
        self.count = 0
        self.ndefs = 0
        self.features = set()

    def feat(self, *names): self.features.update(names)

    # pieces

    def gen(self, env):
        g = Gen(self.src, env.vars)
        g.wild, g.chars = self.wild, self.chars
        return g

    def expr(self, typ, env, depth = None):
        return self.gen(env).make(typ, self.ex_depth if depth is None else depth)

    def some_expr(self, env):
        src = self.src
        if src.bool(self.bad_p):
            self.feat('fault')
            if env.maybe and src.bool(0.7): return var(src.pick(env.maybe))
            return var(src.pick(['undef1', 'undef2'] + NAMES))
        if env.maybe and src.bool(0.05): return Ex('qual', var(src.pick(env.maybe)), '?')
        names = [n for t in ('int', 'str', 'list', 'float', 'bool', 'any', 'tuple') for n in env.vars.get(t, ())]
        if names and src.bool(0.55): return var(src.pick(names))
        return self.expr(src.pick(['str', 'int', 'str', 'bool', 'list']), env)

    def line(self, env, mark, head):
        """Parts of one line, or None."""
        src = self.src
        g = self.gen(env)
        parts = []
        for _ in range(src.weighted([(5, 1), (3, 2), (2, 3), (1, 5)])):
            roll = src.int(10)
            if mark == '!':
                s = src.text(src.weighted(self.chars + [(2, DOLLAR)]), 1, 8, 0.75)
                parts.append(('t', s))
            elif roll < 5: parts.append(('t', ''.join(c for c in g.chunk() if c not in DOLLAR)))
            elif roll == 5: parts.append(('esc', src.pick(DOLLAR)))
            else:
                self.feat('embedding')
                parts.append(('x', self.some_expr(env), src.pick('${')))
        parts = [(p[0], p[1].replace('\n', ' ')) if p[0] == 't' else p for p in parts]
        return tidy(parts, mark == '!', head)

    def head(self, env, mark):
        p = self.line(env, mark, True)
        if p is None: return None
        gap = self.src.weighted([(10, ' '), (2, ''), (2, '  '), (1, '     ')])
        if gap == '' and p[0][0] == 't' and p[0][1][:1] in ' \t': gap = ' '
        return merge_parts([('t', gap)] + p) if gap else p

    def text(self, env, tail = True):
        src = self.src
        mark = src.weighted([(6, '|'), (3, '/'), (2, '!')])
        self.feat('text' + mark)
        head = self.head(env, mark) if not src.bool(0.12) else None
        lines = []
        if tail and src.bool(0.25):
            self.feat('tail')
            ruler = src.pick(['            ', '\t\t\t\t', '  \t  \t   ', '\t    \t   '])
            for _ in range(src.range(1, 4)):
                if lines and lines[-1] is not None and src.bool(0.2): lines += [None] * src.range(1, 2)
                p = self.line(env, mark, False)
                if p: lines.append((ruler[:src.pick([4, 2, 6, 1, 3, 8, 10])], p))
            if src.bool(0.1) and lines: lines.insert(0, None)
            while lines and lines[-1] is None: lines.pop()
        return Blk('text', mark = mark, head = head, tail = lines)

    def value(self, env):
        src = self.src
        roll = src.int(8)
        if roll < 3: return text_lit(self.gen(env).chunk().replace('\n', ' '))
        if roll == 3: return Ex('num', str(src.int(100)))
        if roll == 4: return Ex('bool', src.pick([True, False]))
        return self.some_expr(env)

    def attrs(self, env):
        src = self.src
        out = []
        if not src.bool(self.attrs_p): return out
        used = set()
        for _ in range(src.weighted([(4, 1), (3, 2), (1, 3)])):
            roll = src.int(5)
            if roll == 0: out.append(('.', src.pick(['cls', 'a-b', 'c1', 'x_y'])))
            elif roll == 1: out.append(('#', src.pick(['top', 'i-1', 'main'])))
            else:
                name = src.pick(['id', 'class', 'href', 'data-x', 'title', 'xml:lang', 'checked', 'a.b', 'style'])
                if name in used: continue
                out.append(('kw', name, self.value(env)))
            key = {'.': 'class', '#': 'id'}.get(out[-1][0]) or out[-1][1]
            if key in used and out[-1][0] == 'kw': out.pop()
            elif key in used: out.pop()
            used.add(key)
        self.feat('attrs')
        return out

    def tags(self, env):
        src = self.src
        if src.bool(0.06): return [TagUse('.')]
        n = src.weighted([(6, 1), (2, 2), (1, 3)])
        if n > 1: self.feat('chain')
        return [TagUse(src.pick(TAGS), self.attrs(env)) for _ in range(n)]

    # blocks

    def block(self, env, depth, place):
        """place: 'top' | 'struct' | 'def' | 'ctl'; -> list of blocks"""
        src = self.src
        self.count += 1
        w = self.W
        nest = depth < self.max_depth and self.count < self.size
        opts = [(w['text'], 'text'), (w['struct'], 'struct'), (w['assign'], 'assign')]
        if w['inplace'] and any(env.vars.get(t) for t in ('int', 'str')): opts.append((w['inplace'], 'inplace'))
        opts += [(w['expr'], 'expr'), (w['comment'], 'comment'), (w['pass_'], 'pass')]
        if env.vars.get('body'): opts.append((w['embed'] * 4, 'embed'))
        if nest: opts += [(w['if_'], 'if'), (w['for_'], 'for'), (w['while_'], 'while'), (w['try_'], 'try')]
        if nest and place != 'ctl' and not self.in_ctl and self.ndefs < 5: opts.append((w['def_'], 'def'))
        if env.tags: opts.append((w['use'], 'use'))
        kind = src.weighted([o for o in opts if o[0]])
        b = getattr(self, 'b_' + kind)(env, depth)
        blocks = b if isinstance(b, list) else [b]
        for b in blocks[:1]:
            if src.bool(self.margin_p): b.margin = src.weighted([(5, 1), (2, 2), (1, 4)])
            if src.bool(self.mod_p) and b.kind in ('text', 'struct') and place == 'struct':
                b.mod = src.pick(['<', '...'])
                self.feat('modifier')
            elif src.bool(self.mod_p) and b.kind in ('text', 'struct') and place == 'top' and self.had_output:
                b.mod = '...'
                self.feat('modifier')
            if b.kind in ('text', 'struct'): self.had_output = True
        return blocks

    in_ctl = False
    had_output = False

    def blocks(self, env, depth, place, lo = 1, hi = 4, p = 0.5):
        out = []
        n = 0
        while self.src.more(n, lo, hi, p if self.count < self.size else 0.0):
            out += self.block(env, depth, place)
            n += 1
        return out

    def b_text(self, env, depth): return self.text(env)

    def fill(self, b, env, depth, place, embed = True):
        """Fills in the body of a struct or definition."""
        src = self.src
        b.head, b.hmark, b.inline, b.body = None, None, None, None
        form = src.weighted([(5, 'inline'), (4, 'body'), (1, 'head'), (1, 'headbody'), (1, 'empty')])
        if depth >= self.max_depth or self.count >= self.size:
            if form in ('body', 'headbody'): form = 'inline'
        if form == 'inline':
            if embed and env.vars.get('body') and src.bool(0.5): b.inline = self.b_embed(env, depth)
            else: b.inline = self.text(env)
        if form in ('head', 'headbody'):
            b.hmark = src.pick('|/!')
            b.head = self.head(env, b.hmark) or [('t', ' x')]
            self.feat('headline')
        if form in ('body', 'headbody'):
            b.body = self.blocks(env, depth + 1, place)
            if not b.body: b.body = None
            self.feat('nested')
        return b

    def b_struct(self, env, depth):
        src = self.src
        inner = env.copy()
        if src.bool(0.12):
            b = Blk('struct', tags = [TagUse(src.pick(VOIDS), self.attrs(env))], head = None, hmark = None, inline = None, body = None)
            self.feat('void')
            if src.bool(self.void_body): self.fill(b, inner, depth, 'struct')
            return b
        b = Blk('struct', tags = self.tags(env))
        return self.fill(b, inner, depth, 'struct')

    def name(self, env): return self.src.pick(NAMES)

    def b_assign(self, env, depth):
        src = self.src
        roll = src.int(10)
        if roll < 8:
            t = src.pick(['int', 'str', 'list', 'bool', 'tuple'])
            b = Blk('assign', targets = self.name(env), op = None, expr = self.expr(t, env))
            env.set(b.targets, t)
            return b
        names = src.shuffle(NAMES)[:src.range(1, 3)]
        items = [self.expr('int', env, 1) for _ in names]
        if src.bool(0.05): items.append(Ex('num', '1')); self.feat('fault')
        b = Blk('assign', targets = list(names), op = None, expr = Ex(src.pick(['tuple', 'list']), items))
        for n in names: env.set(n, 'int')
        self.feat('unpack')
        return b

    def b_inplace(self, env, depth):
        src = self.src
        t = src.pick([t for t in ('int', 'str') if env.vars.get(t)])
        v = src.pick(env.vars[t])
        op = src.pick(['+', '-', '*', '//', '%', '|', '&', '^', '<<']) if t == 'int' else '+'
        e = Ex('num', str(src.int(5))) if op in ('<<', '*') else self.expr(t, env, 1)
        self.feat('inplace')
        return Blk('assign', targets = v, op = op, expr = e)

    def b_expr(self, env, depth): return Blk('expr', expr = self.some_expr(env))

    def b_comment(self, env, depth):
        src = self.src
        lines = [src.pick([' note', '', ' | x {', ' $', '-- #'])]
        if src.bool(0.3): lines.append('    ' + src.pick(['more', '| t', '{{{']))
        return Blk('comment', mark = src.pick(['#', '--']), lines = lines)

    def b_pass(self, env, depth): return Blk('pass')

    def b_embed(self, env, depth):
        src = self.src
        self.feat('embed')
        v = var(src.pick(env.vars['body']))
        roll = src.int(8)
        if roll < 4: e = v
        elif roll == 4: e = Ex('slice', v, [src.pick([None, Ex('num', '1')]), src.pick([None, Ex('num', '1'), Ex('num', '2')]), None])
        elif roll == 5: e = Ex('call', Ex('member', v, src.pick(['select', 'skip'])), [(None, text_lit(src.pick(TAGS)))])
        elif roll == 6: e = Ex('index', v, text_lit(src.pick(TAGS)))
        else: e = Ex('list', [v])
        return Blk('embed', expr = e)

    def clause(self, env, depth, lo = 1):
        src = self.src
        form = src.weighted([(5, 'blocks'), (3, 'inline'), (1, 'empty')])
        keep, self.in_ctl = self.in_ctl, True
        try:
            if form == 'blocks' and depth < self.max_depth and self.count < self.size:
                blocks = self.blocks(env, depth + 1, 'ctl')
                return Body(None, blocks) if blocks else Body()
            if form == 'empty': return Body()
            if env.vars.get('body') and src.bool(0.2): return Body(self.b_embed(env, depth))
            return Body(self.text(env))
        finally: self.in_ctl = keep

    def branch(self, env, depth):
        """A body that may not be executed; what it assigns becomes `maybe`."""
        sub = env.copy()
        body = self.clause(sub, depth)
        before = {(t, n) for t, v in env.vars.items() for n in v}
        after = {(t, n) for t, v in sub.vars.items() for n in v}
        changed = {n for t, n in before ^ after}
        for n in sorted(changed):
            env.unset(n)
            env.maybe.append(n)
        return body

    def b_if(self, env, depth):
        src = self.src
        self.feat('if')
        clauses = []
        for _ in range(src.weighted([(5, 1), (2, 2), (1, 3)])):
            c = self.gen(env).cond(self.ex_depth)
            clauses.append((c, self.branch(env, depth)))
        els = self.branch(env, depth) if src.bool(0.5) else None
        return Blk('if', clauses = clauses, els = els)

    def b_for(self, env, depth):
        src = self.src
        self.feat('for')
        if src.bool(0.25):
            names = src.shuffle(NAMES)[:2]
            rows = [Ex('tuple', [Ex('num', str(src.int(9))) for _ in range(2)]) for _ in range(src.int(4))]
            e, targets, types = Ex('list', rows), list(names), ['int', 'int']
        else:
            targets = self.name(env)
            t = src.pick(['list', 'strs', 'tuple', 'str'])
            e, types = self.expr(t, env), ['str' if t in ('strs', 'str') else 'int']
        for n, t in zip([targets] if isinstance(targets, str) else targets, types): env.set(n, t)
        sub = env.copy()
        body = self.branch(env, depth)
        for n in [targets] if isinstance(targets, str) else targets:
            env.unset(n)
            env.maybe.append(n)
        els = self.branch(env, depth) if src.bool(0.3) else None
        return Blk('for', targets = targets, expr = e, body = body, els = els)

    def b_while(self, env, depth):
        src = self.src
        self.feat('while')
        n = src.pick(['cnt', 'cnt2'])
        start = Blk('assign', targets = n, op = None, expr = Ex('num', str(src.int(4))))
        keep, self.in_ctl = self.in_ctl, True
        try:
            env.set(n, 'guard')
            body = Body(None, [Blk('assign', targets = n, op = '-', expr = Ex('num', '1'))] + self.blocks(env, depth + 1, 'ctl'))
        finally: self.in_ctl = keep
        els = self.branch(env, depth) if src.bool(0.3) else None
        return [start, Blk('while', cond = Ex('chain', var(n), [('>', Ex('num', '0'))], False), body = body, els = els)]

    def b_try(self, env, depth):
        src = self.src
        self.feat('try')
        if src.bool(0.25):
            sub = env.copy()
            keep, self.in_ctl = self.in_ctl, True
            try: inner = self.b_struct(sub, depth) if src.bool(0.6) else self.text(sub)
            finally: self.in_ctl = keep
            return Blk('try', short = True, branches = [Body(inner)])
        n = src.weighted([(3, 2), (2, 1), (1, 3)])
        branches = []
        for i in range(n):
            keep = self.bad_p
            if i < n - 1: self.bad_p = 0.3
            branches.append(self.branch(env, depth))
            self.bad_p = keep
        if src.bool(0.5) and branches[0].blocks:
            branches[0].blocks.append(Blk('expr', expr = Ex('chain', Ex('num', '1'), [(src.pick(['//', '+', '<']), src.pick([Ex('num', '0'), Ex('none')]))], False)))
        return Blk('try', short = False, branches = branches)

    def b_def(self, env, depth):
        src = self.src
        self.feat('def')
        self.ndefs += 1
        name = src.pick(HNAMES)
        inner = env.copy()
        attrs = []
        for n in src.shuffle(['a', 'b', 'c', 'x'])[:src.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])]:
            d = self.value(env) if src.bool(0.5) else None
            attrs.append((n, d))
        body = src.pick(['body', 'bod']) if src.bool(0.6) else None
        for n, _ in attrs: inner.set(n, 'any')
        if body: inner.set(body, 'body')
        b = Blk('def', name = name, attr_body = body, attrs = attrs)
        inner.tags.pop(name, None)
        keep, self.in_ctl = self.in_ctl, False
        self.fill(b, inner, depth, 'def', embed = bool(body or attrs))
        self.in_ctl = keep
        env.tags[name] = b
        return b

    def call_attrs(self, d, env):
        src = self.src
        out = []
        given = []
        npos = src.int(len(d.attrs) + 1) if d.attrs else 0
        for i, (n, dflt) in enumerate(d.attrs):
            if i < npos: out.append(('pos', self.value(env))); continue
            if dflt is not None and src.bool(0.5): continue
            given.append(('kw', n, self.value(env)))
        out += src.shuffle(given)
        if src.bool(self.bad_p):
            self.feat('fault')
            if out and src.bool(): out.pop()
            elif src.bool(): out.insert(0, ('pos', Ex('num', '1')))
            else: out.append(src.pick([('kw', 'zz', Ex('num', '1')), ('kw', 'body', Ex('num', '1'))]))
        return out

    def b_use(self, env, depth):
        src = self.src
        self.feat('use')
        name = src.pick(sorted(env.tags))
        d = env.tags[name]
        tags = [TagUse(name, self.call_attrs(d, env))]
        if src.bool(0.15): tags.insert(0, TagUse(src.pick(TAGS), self.attrs(env)))
        if src.bool(0.15) and d.attr_body: tags.append(TagUse(src.pick(TAGS), self.attrs(env)))
        b = Blk('struct', tags = tags, head = None, hmark = None, inline = None, body = None)
        last = env.tags.get(tags[-1].name)
        if tags[-1].name not in env.tags or last.attr_body or src.bool(self.bad_p): self.fill(b, env.copy(), depth, 'struct')
        return b

    def document(self):
        src = self.src
        self.env = self.env0
        blocks = self.blocks(self.env, 0, 'top', 1, 8, 0.75)
        return Script(blocks, src.weighted([(4, 0), (4, 1), (1, 2), (1, 4)]))
