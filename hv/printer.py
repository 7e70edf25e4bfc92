"""Concrete syntax of scripts. All stylistic freedom the language gives (spaces, quotes, optional marks, widths of indentation,
comments) is drawn from a choice source; without a source the canonical style is used. Sets on the syntax tree what the meaning
depends on: .col (text blocks), .ind (nested bodies) and, for reports, .line (first line of a block)."""
import re

ATOM, FACT, QUAL, POW, TERM, ARITH, SHIFT, BAND, BXOR, BOR, PIPE, CONCAT, COMP, NOT, AND, OR, IF, TUP = range(18)

OP_LEVEL = {'**': POW, '*': TERM, '/': TERM, '//': TERM, '%': TERM, '+': ARITH, '-': ARITH, '<<': SHIFT, '>>': SHIFT,
            '&': BAND, '^': BXOR, '|': BOR}
for _op in ('==', '!=', '<>', '<', '>', '<=', '>=', 'in', 'not in', 'is', 'is not'): OP_LEVEL[_op] = COMP

_word = re.compile(r'[A-Za-z_0-9]')


class Printer:

    def __init__(self, src = None, rate = 0.15, inds = ('    ',), comments = True):
        self.src, self.rate, self.inds, self.comments = src, rate, inds, comments
        self.lines = []
        self.cur = ''

    def opt(self, canonical, *others):
        if self.src is None or not self.src.bool(self.rate): return canonical
        return self.src.pick(others)

    # expressions

    def level(self, e):
        k = e.k
        if k == 'qual': return QUAL
        if k in ('call', 'index', 'slice', 'member'): return FACT
        if k == 'chain':
            if e.b: return max(OP_LEVEL[e.b[0][0]], ARITH if e.c else 0)
            return ARITH
        return {'pipe': PIPE, 'concat': CONCAT, 'not': NOT, 'and': AND, 'or': OR, 'if': IF}.get(k, ATOM)

    def ex(self, e, top = IF, strict = False):
        """Source of `e` for a place that accepts levels up to `top`; strict: no spaces in front of trailers."""
        lev = self.level(e)
        if lev > top or (self.src is not None and e.k not in ('tuple', 'paren') and self.src.bool(self.rate * 0.2)):
            return self.parens(e)
        return getattr(self, 'ex_' + e.k)(e, strict)

    def parens(self, e):
        w = self.opt('', ' ')
        return '(' + w + getattr(self, 'ex_' + e.k)(e, False) + w + ')'

    def ex_num(self, e, strict): return e.a
    def ex_raw(self, e, strict): return 'r' + e.a + e.b + e.a
    def ex_bool(self, e, strict): return str(e.a)
    def ex_none(self, e, strict): return 'None'
    def ex_var(self, e, strict): return self.opt('', '$') + e.a
    def ex_tag(self, e, strict): return '%' + e.a
    def ex_paren(self, e, strict): return self.parens(e.a)
    def ex_str(self, e, strict): return e.a + self.parts(e.b, e.a) + e.a

    def seq(self, items, top = IF):
        """Comma-separated items."""
        out = ''
        for i, x in enumerate(items):
            if i: out += self.opt(', ', ',', ' , ', ',  ')
            out += self.ex(x, top)
        return out

    def ex_tuple(self, e, strict):
        w = self.opt('', ' ')
        s = self.seq(e.a)
        if len(e.a) == 1: s += self.opt(',', ' , ')
        elif e.a: s += self.opt('', ',', ', ')
        return '(' + w + s + ('' if s.endswith(' ') else w) + ')'

    def ex_list(self, e, strict):
        w = self.opt('', ' ')
        s = self.seq(e.a)
        if e.a: s += self.opt('', ',', ' , ')
        return '[' + w + s + ('' if s.endswith(' ') or not s else w) + ']'

    def ex_set(self, e, strict):
        w = self.opt('', ' ')
        return '{' + w + self.seq(e.a, BOR) + self.opt('', ',', ' ,') + w + '}'

    def ex_dict(self, e, strict):
        w = self.opt('', ' ')
        s = ''
        for i, (k, v) in enumerate(e.a):
            if i: s += self.opt(', ', ',', ' , ')
            s += self.ex(k, BOR) + self.opt(': ', ':', ' : ') + self.ex(v)
        if e.a: s += self.opt('', ',')
        return '{' + w + s + (w if s else '') + '}'

    def base(self, e, strict):
        """Operand of a trailer."""
        if e.k == 'num': s = self.parens(e)
        elif strict and e.k in ('dict', 'set'): s = self.parens(e)
        else: s = self.ex(e, FACT, strict)
        return s + ('' if strict else self.opt('', '', ' '))

    def args(self, items):
        out = ''
        for i, (name, x) in enumerate(items):
            if i: out += self.opt(', ', ',', ' , ')
            if name is not None: out += name + self.opt('=', ' = ', ' =')
            out += self.ex(x)
        if items: out += self.opt('', ',', ' ,')
        return '(' + self.opt('', ' ') + out + self.opt('', ' ') + ')'

    def ex_call(self, e, strict): return self.base(e.a, strict) + self.args(e.b)
    def ex_member(self, e, strict): return self.base(e.a, strict) + '.' + self.opt('', ' ') + e.b

    def ex_index(self, e, strict):
        b = self.base(e.a, strict)
        if e.b.k == 'tuple' and len(e.b.a) > 1 and self.src is not None and self.src.bool(self.rate) and all(self.level(x) <= BOR for x in e.b.a):
            return b + '[' + self.seq(e.b.a, BOR) + ']'
        w = self.opt('', ' ')
        return b + '[' + w + self.ex(e.b, BOR) + w + ']'

    def ex_slice(self, e, strict):
        lo, hi, st = e.b
        s = self.base(e.a, strict) + '['
        w = self.opt('', ' ')
        part = lambda x: '' if x is None else w + self.ex(x, BOR) + w
        s += part(lo) + ':' + part(hi)
        if st is not None: s += ':' + part(st)
        else: s += self.opt('', ':')
        return s + ']'

    def ex_qual(self, e, strict):
        s = self.parens(e.a) if e.a.k == 'num' or (strict and e.a.k in ('dict', 'set')) else self.ex(e.a, FACT, strict)
        return s + e.b

    def ex_chain(self, e, strict):
        lev = self.level(e)
        s = ''
        if e.c: s += '-' + self.opt('', ' ')
        s += self.ex(e.a, lev - 1)
        for op, x in e.b:
            t = self.ex(x, lev - 1)
            if op[0].isalpha(): s += self.opt(' ', '  ', '\t') + op.replace(' ', self.opt(' ', '  ', '   ', '\t', ' \t ')) + self.opt(' ', '  ', '\t') + t
            else:
                form = self.opt(' %s ', '%s', '%s ', ' %s', '  %s  ')
                if op == '!=' or t[:1] in '-*/<>=&|%.' or s[-1:] in '*/<>=&|%.!?': form = ' %s '
                s += form.replace('%s', op) + t
        return s

    def ex_pipe(self, e, strict):
        s = self.ex(e.a, BOR)
        for f, args in e.b:
            s += self.opt(' : ', ':', ': ', ' :')
            s += self.filt(f)
            if args is not None: s += self.args(args)
            else: s += self.opt('', '()')
        return s

    def filt(self, f):
        if f.k == 'member': return self.filt(f.a) + '.' + f.b
        if f.k == 'index': return self.filt(f.a) + '[' + self.ex(f.b, BOR) + ']'
        if self.level(f) > ATOM or f.k == 'num': return self.parens(f)
        return self.ex(f, ATOM, True)

    def ex_concat(self, e, strict):
        s = self.ex(e.a[0], PIPE)
        for x in e.a[1:]:
            keep, self.rate = self.rate, 0.0
            t = getattr(self, 'ex_' + x.k)(x, False)
            assert re.match(r'[A-Za-z_"\'0-9$]', t), t
            self.rate = keep
            s += self.opt(' ', '  ') + t
        return s

    def ex_not(self, e, strict): return 'not ' + self.ex(e.a, NOT)
    def ex_and(self, e, strict): return (' and ').join(self.ex(x, NOT) for x in e.a)
    def ex_or(self, e, strict): return (' or ').join(self.ex(x, AND) for x in e.a)
    def ex_if(self, e, strict):
        s = self.ex(e.a, OR) + ' if ' + self.ex(e.b, OR)
        if e.c is not None: s += ' else ' + self.ex(e.c, IF)
        return s

    def augment(self, e):
        """Expression that may be a tuple without parentheses."""
        if e.k == 'tuple' and len(e.a) > 0 and self.src is not None and self.src.bool(self.rate):
            return self.seq(e.a) + (',' if len(e.a) == 1 else self.opt('', ','))
        return self.ex(e)

    def braces(self, e):
        q = ''
        if e.k == 'qual' and self.opt(False, True): e, q = e.a, e.b
        s = self.augment(e)
        w = self.opt('', ' ')
        return '{' + (' ' if s[0] == '{' else w) + s + (' ' if s[-1] == '}' else w) + '}' + q

    def dollar(self, e):
        """The $... form, or None if not available for this expression."""
        x = e.a if e.k == 'qual' else e
        while x.k in ('call', 'index', 'slice', 'member'): x = x.a
        if x.k != 'var': return None
        keep, self.src = self.src, None
        try: return '$' + self.ex(e, QUAL, True)
        finally: self.src = keep

    def parts(self, parts, quote = None):
        """Text with embeddings."""
        items = []
        for p in parts:
            if p[0] == 't': items.append(p[1])
            elif p[0] == 'esc': items.append(p[1] * 2)
            else:
                d = self.dollar(p[1]) if p[2] == '$' else None
                items.append((d, p[1]))
        out = ''
        for i in range(len(items) - 1, -1, -1):
            s = items[i]
            if not isinstance(s, str):
                d, e = s
                if d is not None and not re.match(r'[A-Za-z0-9_(\[?!\u017f\u0130\u0131\u212a]|\.[ \t]*[A-Za-z_]', out): s = d
                else:
                    s = self.braces(e)
                    if out[:1] in ('?', '!') and s[-1] == '}':           # would become a qualifier
                        s = self.braces_plain(e)
            out = s + out
        return out

    def braces_plain(self, e):
        raise AssertionError('text starting with ? or ! right after an embedding')

    # blocks

    def note(self):
        """Inline comment."""
        if not self.comments: return ''
        return self.opt('', '  # note', ' -- note | x', ' # {', ' #')

    def emit(self, line):
        self.lines.append(self.cur + line)

    def script(self, script):
        self.blocks(script.blocks)
        return '\n'.join(self.lines) + '\n' * script.trailing

    def blocks(self, blocks):
        for b in blocks: self.block(b)

    def nested(self, owner, blocks):
        owner.ind = self.src.pick(self.inds) if self.src is not None else self.inds[0]
        keep = self.cur
        self.cur = keep + owner.ind
        self.blocks(blocks)
        self.cur = keep

    def block(self, b, prefix = None):
        """prefix: content of the line before an inline block; None for an outlined block."""
        if prefix is None:
            for _ in range(b.margin): self.lines.append(self.cur + self.opt('', '  ') if self.src is not None else '')
            prefix = ''
            if b.mod: prefix = b.mod + self.opt('', ' ', '  ')
        b.line = len(self.lines) + 1
        getattr(self, 'do_' + b.kind)(b, prefix)

    def do_text(self, b, prefix):
        line = prefix + b.mark
        b.col = len(line)
        raw = b.mark == '!'
        if b.head: line += ''.join(p[1] for p in b.head) if raw else self.parts(b.head)
        self.emit(line)
        for l in b.tail:
            if l is None: self.lines.append('')
            else: self.emit(l[0] + (''.join(p[1] for p in l[1]) if raw else self.parts(l[1])))

    def do_embed(self, b, prefix):
        self.emit(prefix + '@' + self.opt(' ', '') + self.ex(b.expr) + self.note())

    def do_comment(self, b, prefix):
        first = True
        for s in b.lines:
            self.emit(prefix + b.mark + s if first else s)
            first = False

    def do_pass(self, b, prefix): self.emit(prefix + 'pass')

    def rest(self, b, line, attrs):
        """What follows tags of a struct block or attributes of a definition."""
        if b.inline is not None:
            self.block_inline(b.inline, line + (' ' if attrs else self.opt(' ', '')))
            return
        head = getattr(b, 'head', None)
        if head is not None:
            line += self.opt(' : ', ': ') + b.hmark
            s = ''.join(p[1] for p in head) if b.hmark == '!' else self.parts(head)
            self.emit(line + s)
        else:
            line += self.opt('', ':', ' :')
            self.emit(line + self.note())
        if b.body: self.nested(b, b.body)

    def block_inline(self, b, prefix):
        b.line = len(self.lines) + 1
        getattr(self, 'do_' + b.kind)(b, prefix)

    def value(self, x, quick = True):
        """Value of an attribute."""
        form = self.opt(0, 1, 2)
        if form == 1:
            d = self.dollar(x)
            if d is not None: return d
        if form == 2: return self.braces(x)
        if self.level(x) > QUAL or x.k in ('dict', 'set'): return self.parens(x)
        y = x
        while y.k in ('qual', 'call', 'index', 'slice', 'member'): y = y.a
        if y.k in ('dict', 'set'): return self.parens(x)
        return self.ex(x, QUAL, True)

    def tag(self, t):
        t.line = len(self.lines) + 1
        s = t.name
        glued = True
        for a in t.attrs:
            if a[0] in '.#':
                v = a[1] if isinstance(a[1], str) else (self.dollar(a[1]) if self.opt(True, False) else None) or self.braces(a[1])
                s += ('' if glued and self.opt(True, False) else ' ') + a[0] + v
            elif a[0] == 'kw': s += self.opt(' ', '  ') + a[1] + self.opt('=', ' = ', '= ', ' =') + self.value(a[2])
            else: s += self.opt(' ', '  ') + self.value(a[1])
            if a[0] not in '.#': glued = False
            elif s.endswith('}') or not isinstance(a[1], str): glued = False
        return s

    def do_struct(self, b, prefix):
        line, attrs = prefix, False
        for i, t in enumerate(b.tags):
            if i: line += self.opt(' : ', ': ', ' :')
            line += self.tag(t)
            attrs = bool(t.attrs)
        self.rest(b, line, attrs or b.tags[-1].name == '.')

    def targets(self, t, top = True):
        if isinstance(t, str): return t
        s = self.opt(', ', ',', ' , ').join(self.targets(x, False) for x in t)
        if len(t) == 1: s += ','
        else: s += self.opt('', ',')
        return s if top else '(' + s + ')'

    def do_assign(self, b, prefix):
        s = self.targets(b.targets)
        s = prefix + '$' + self.opt('', ' ') + s + self.opt(' ', '') + (b.op or '') + '=' + self.opt(' ', '')
        self.emit(s + self.augment(b.expr) + self.note())

    def do_expr(self, b, prefix):
        self.emit(prefix + '$ ' + self.augment(b.expr) + self.note())

    def cond(self, e, body, augment = False):
        """Header expression of a control clause."""
        inline = body is not None and body.inline is not None
        if body is not None and (inline or body.blocks) and self.opt(False, True) and e.k != 'dict' and self.level(e) <= BOR: return self.braces(e)
        if inline:
            if self.level(e) <= QUAL: return self.ex(e, QUAL)
            return self.parens(e)
        if self.level(e) <= QUAL: return self.ex(e, QUAL)
        s = self.augment(e) if augment else self.ex(e)
        if re.search(r'[|/!:@#]|--', s): return self.parens(e)
        return s

    def clause(self, line, body, plain = False):
        """Header of a clause and its body."""
        if body is not None and body.inline is not None:
            self.block_inline(body.inline, line + ' ')
            return
        if body is None or not body.blocks:
            if plain: self.emit(line + self.opt('', ':') + self.note())
            else: self.emit(line + self.opt(':', '') + self.note())
            return
        self.emit(line + self.opt('', ':', ' :') + self.note())
        self.nested(body, body.blocks)

    def gap(self):
        for _ in range(self.opt(0, 1)): self.lines.append('')

    def els(self, body):
        if body is None: return
        self.gap()
        self.clause('else', body, True)

    def do_if(self, b, prefix):
        for i, (c, body) in enumerate(b.clauses):
            if i: self.gap()
            self.clause((prefix + 'if ' if i == 0 else 'elif ') + self.cond(c, body), body)
        self.els(b.els)

    def do_while(self, b, prefix):
        self.clause(prefix + 'while ' + self.cond(b.cond, b.body), b.body)
        self.els(b.els)

    def do_for(self, b, prefix):
        s = prefix + 'for ' + self.targets(b.targets) + ' in '
        self.clause(s + self.cond(b.expr, b.body, True), b.body)
        self.els(b.els)

    def do_try(self, b, prefix):
        if b.short:
            body = b.branches[0]
            if body.inline is not None: self.block_inline(body.inline, prefix + '?' + self.opt('', ' '))
            else: self.clause(prefix + '?', body, True)
            return
        for i, body in enumerate(b.branches):
            if i: self.gap()
            self.clause((prefix + 'try') if i == 0 else 'else', body, True)

    def do_def(self, b, prefix):
        s = prefix + '%' + self.opt('', ' ') + b.name
        if b.attr_body: s += ' @' + self.opt('', ' ') + b.attr_body
        for n, x in b.attrs:
            s += ' ' + n
            if x is not None: s += self.opt('=', ' = ') + self.value(x)
        self.rest(b, s, bool(b.attrs or b.attr_body))

    def symbols(self, items):
        return self.opt(', ', ',', ' , ').join(m + n + (' as ' + r if r else '') for m, n, r in items)

    def do_import(self, b, prefix):
        items = '*' if b.items == '*' else self.symbols(b.items)
        self.emit(prefix + 'from ' + b.path + ' import ' + items + self.note())

    def do_context(self, b, prefix):
        self.emit(prefix + 'context ' + self.symbols(b.items) + self.note())
