"""C20 Any text is rendered or cleanly rejected."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen, PLAIN, MARKUPY, UNI
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, INDS, own

TECHNIQUE = 'structured fuzzing: soups of syntax fragments, mutated valid scripts and random indentation, with a classification of every outcome; an independent rule of consistent indentation as oracle'
ORACLE = 'allowed outcomes: a string, a Hypertag error, IndentationError (and, for executed expressions, their ordinary errors); an independent model of indentation (stack of prefixes)'
RULE = ('cases: texts of 1 to about 40 lines made of syntax fragments with any Unicode and control characters, and generated scripts with 1-6 mutations, executed or placed in an unused definition '
        '(where only static errors are possible); non-trivial: at least two lines or ten characters; distinct by text')

WORDS = ['div', 'p', 'br', 'ul', 'H', 'x', 'y', 'if', 'elif', 'else', 'try', 'for', 'in', 'while', 'pass', 'context', 'from', 'import', 'as', 'builtins', '.zq', '..', '.', 'and', 'or', 'not', 'is', 'None', 'True',
         'len', 'upper', 'null', 'custom', 'comment', 'dedent', '$x', '$y', '$len', '%H', '%p', '%H a b=1', '%K @b', '@', '@b', '@ b', '$x = 1', '$x, y = 1, 2', '$x += 1', '$', '%', 'e', 'r', 'f']
SIGNS = list('|/!@#:;,.?<>=+-*%^&~()[]{}\'"\\$_`') + ['...', '--', '//', '**', '==', '!=', '<>', '<=', '>>', '<<', '{}', '()', '[]', '$$', '{{', '}}', '""', "''", '? ', '{x}', '{x!}', '$x?', '...|', '< ', '=1', '="a"', "'a'", '.cls', '#id',
         '{1', '{"a', '\\n', '\\x', '\\u12', 'r"', "r'", '{x:upper}', '{x.y}', '$x.y[1](2)', '1.5', '.5', '1e5', '5.', '0x1', '007', '1_0', '9' * 30]
ODD = ['\r', '\x00', '\x0b', '\x0c', '\x1c', '\x1f', '\x85', '\u2028', '\u2029', '\ufeff', '\u200b', '\u2768', '\u2769', '\u276a', '\u276b', '\u276c', '\u276d', '\u276e', '\u276f', '\u2770', '\u2771', '\ud800', '\udfff', '\U0010ffff', 'é', 'ß', 'ſ', '漢', '\u0301', '\xa0', '\u3000', '\x7f', '😀', '٣', '²', '𝟙']
SPACES = [' ', ' ', ' ', '  ', '\t', '']

ALWAYS = ('IndentationError',)
EXEC = ('TypeError', 'AttributeError', 'KeyError', 'IndexError', 'ValueError', 'ZeroDivisionError', 'NameError', 'OverflowError', 'ImportError', 'StopIteration', 'StopAsyncIteration', 'UnicodeError', 'MemoryError', 'OSError', 'LookupError')

def clean(out): return out.ok and isinstance(out.value, str) or not out.ok and ('ParserError' in out.mro() and ('HError' in out.mro()) or type(out.exc) is IndentationError)


def fragment(src):
    k = src.weighted([(5, 'word'), (5, 'sign'), (4, 'space'), (1, 'odd'), (1, 'text')])
    if k == 'word': return src.pick(WORDS)
    if k == 'sign': return src.pick(SIGNS)
    if k == 'space': return src.pick(SPACES)
    if k == 'odd': return src.pick(ODD)
    return src.text(src.weighted([(4, PLAIN), (2, MARKUPY), (1, UNI)]), 1, 6, 0.8)

def soup(src):
    lines = []
    ind = ''
    for _ in range(src.weighted([(3, 1), (3, 2), (3, 4), (2, 8)])):
        k = src.int(10)
        if k <= 2: ind += src.pick(['  ', '    ', '\t', ' '])
        elif k <= 4: ind = ind[:-src.range(1, 4)]
        elif k == 5 and src.bool(0.3): ind = src.text(' \t\x0c\xa0', 0, 4, 0.7)
        line = ''.join(fragment(src) for _ in range(src.weighted([(2, 0), (4, 2), (4, 4), (3, 8), (1, 16)])))
        lines.append(ind + line)
    return '\n'.join(lines)

def seed_script(src, ctx = False):
    g = DocGen(src, TYPES if ctx else None, size = src.pick([4, 8, 14]), bad_p = 0.0)
    doc = g.document()
    if ctx: doc.blocks.insert(0, context_block(TYPES))
    return Printer(src, rate = 0.1, inds = INDS).script(doc)

def mutate(src, text, other):
    for _ in range(src.weighted([(4, 1), (3, 2), (1, 6)])):
        if not text: return text
        lines = text.split('\n')
        i = src.int(len(text))
        j = min(len(text), i + src.weighted([(5, 1), (3, 2), (2, 5), (1, 20)]))
        n = src.int(len(lines))
        op = src.weighted([(4, 'delete'), (5, 'insert'), (3, 'replace'), (1, 'dup'), (2, 'indent'), (2, 'lines'), (2, 'swap'), (1, 'cut'), (2, 'splice'), (1, 'join')])
        if op == 'delete': text = text[:i] + text[j:]
        elif op == 'insert': text = text[:i] + fragment(src) + text[i:]
        elif op == 'replace': text = text[:i] + fragment(src) + text[j:]
        elif op == 'dup': text = text[:j] + text[i:j] + text[j:]
        elif op == 'indent':
            lines[n] = src.pick([' ', '\t', '    ', '']) + lines[n] if src.bool() else lines[n][1:]
            text = '\n'.join(lines)
        elif op == 'lines':
            lines.insert(src.int(len(lines)), lines.pop(n))
            text = '\n'.join(lines)
        elif op == 'swap':
            m = src.int(len(lines))
            lines[n], lines[m] = lines[m], lines[n]
            text = '\n'.join(lines)
        elif op == 'cut': text = text[:i] if src.bool() else text[i:]
        elif op == 'splice':
            o = other().split('\n')
            k = src.int(len(o))
            lines[n:n] = o[k:k + src.range(1, 3)]
            text = '\n'.join(lines)
        else:
            if n + 1 < len(lines): lines[n:n + 2] = [lines[n] + src.pick(['', ' ']) + lines[n + 1].lstrip()]
            text = '\n'.join(lines)
    return text

def kind(out): return 'ok' if out.ok else type(out.exc).__name__


def static(gen):
    """Nothing of the text is executed: it is the body of a hypertag that is never used."""
    def family(src):
        text = gen(src)
        k = src.int(3)
        if k == 0 and not re.search(r'[$({]|\b(for|while|if|elif)\b|=|\d|"|\'', text): script = text           # no expressions at all
        else:
            ind = src.pick(['    ', ' ', '\t'])
            script = src.pick(['%Unused\n', '%Unused @body a=1\n', 'div\n%Unused a b\n']) + '\n'.join(ind + l for l in text.split('\n'))
        out = real.render(script)
        if not clean(out): raise Violation('not a clean rejection', script = script, got = out.show(), type = [c.__module__ + '.' + c.__name__ for c in type(out.exc).__mro__] if not out.ok else None)
        again = real.render(script)
        if again.show() != out.show() and '0x' not in str(out.show()): raise Violation('another result the second time', script = script, first = out.show(), second = again.show())
        return Case(script, len(text) >= 10 or '\n' in text, ['static:' + kind(out)], dict(script = script, result = out.show()))
    return family

DANGER = re.compile(r'\*\*|<<|\d{4,}|while|range|[eE]\d\d|\b(open|exec|eval|exit|quit|input|compile|breakpoint|__\w+__|help|memoryview|bytearray|print)\b')

def executed(gen):
    """The text is executed: its expressions may fail with their own errors."""
    def family(src):
        text = gen(src)
        if DANGER.search(text): raise Skip('expressions that may take long')
        out = real.render(text, make_context() if text.startswith('context') else {})
        if not clean(out) and (out.ok or not set(EXEC) & set(out.mro()) or type(out.exc).__name__ in ('AssertionError', 'RecursionError', 'NotImplementedError', 'UnboundLocalError', 'SystemError')):
            raise Violation('not a clean rejection', script = text, got = out.show())
        return Case(text, len(text) >= 10 or '\n' in text, ['exec:' + kind(out)], dict(script = text, result = out.show()))
    return family

def mutated(src): return mutate(src, seed_script(src), lambda: seed_script(src))
def mutated_ctx(src): return mutate(src, seed_script(src, src.bool(0.3)), lambda: seed_script(src))
def mutated_soup(src): return mutate(src, seed_script(src), lambda: soup(src))


def indentation(src):
    """Scripts of tagged blocks only: accepted exactly when the indentation is consistent."""
    lines, stack = [], ['']
    unit = src.pick([[' '], ['\t'], ['  '], ['    '], [' ', '\t'], ['  ', '    ', '\t']])
    want = None
    wild = src.bool(0.6)
    depth0 = True
    for n in range(src.range(1, 10)):
        k = src.int(10)
        if lines and src.bool(0.15):
            lines.append(src.pick(['', '  ', '\t', ' \t ']))
            continue
        if not depth0 and wild and src.bool(0.25): ind = src.text(' \t', 0, 5, 0.75)
        elif k < 4 and not depth0: ind = stack[-1] + src.pick(unit)
        elif k < 6: ind = src.pick(stack)
        else: ind = stack[-1]
        if depth0: ind = '' if not src.bool(0.1) else src.pick(unit)
        if want is None:
            if depth0: stack = [ind]
            elif ind.startswith(stack[-1]):
                if len(ind) > len(stack[-1]): stack.append(ind)
            else:
                while stack and stack[-1] != ind and stack[-1].startswith(ind): stack.pop()
                if not stack or stack[-1] != ind: want, stack = 'inconsistent', stack or ['']
        depth0 = False
        lines.append(ind + src.pick(['div', 'p', 'DIV .a', 'b', 'ul', 'section #i', 'td a="1"']))
    script = '\n'.join(lines)
    if src.bool(0.2): script += '\n'
    out = real.render(script)
    if not clean(out): raise Violation('not a clean rejection', script = script, got = out.show())
    if want is None and not out.ok: raise Violation('consistent indentation is rejected', script = script, got = out.show())
    if want and out.ok: raise Violation('inconsistent indentation is accepted', script = script, got = out.show())
    if out.ok:
        # and it determines the tree
        tree = real.HyperHTML().translate(script).dom.tree()
        got = [len(l) - len(l.lstrip()) for l in tree.split('\n')[1:] if l.strip() and '<Text>' not in l]
        st, exp = [], []
        for l in lines:
            if not l.strip(): continue
            ind = l[:len(l) - len(l.lstrip(' \t'))]
            while st and not (ind.startswith(st[-1]) and len(ind) > len(st[-1])): st.pop()
            st.append(ind)
            exp.append(2 * len(st))
        if got != exp: raise Violation('wrong nesting', script = script, expected = exp, got = got, tree = tree)
    return Case(script, len(lines) >= 3, ['indentation:%s' % (want or 'consistent')], dict(script = script, result = out.show()))


def deep(src):
    """Deep nesting of any construct."""
    n = src.pick([5, 20, 60, 120])
    a, b = src.pick([('(', ')'), ('[', ']'), ('{', '}'), ('-', ''), ('not ', ''), ('f(', ')'), ('1 + (', ')'), ('x.', ''), ('[1, ', ']'), ("'{", "}'"), ('x:', ''), ('1 if ', ' else 2'), ('(x,', ')'), ('{1:', '}')])
    k = src.int(5)
    if k == 0: text = '\n'.join(' ' * i + src.pick(['div', 'if x', 'try', 'for i in x', '%H', 'else', '| text', 'p : b']) for i in range(n))
    elif k == 1: text = '| {' + a * n + src.pick(['x', '1', '', '"a"']) + b * (n - src.pick([0, 0, 0, 1])) + '}'
    elif k == 2: text = '$x = ' + a * n + 'x' + b * n
    elif k == 3: text = ' : '.join(['p'] * n) + src.pick(['', ' | x', ' :'])
    else: text = src.pick(['| ', '/ ', '! ', 'p a="']) + src.pick(['$x', '{x}', '$', '{{', '"', "'", '{"', '$x.', '\\', '?!']) * n
    ind = '  '
    script = '%Unused x\n' + '\n'.join(ind + l for l in text.split('\n'))
    out = real.render(script)
    if not clean(out): raise Violation('not a clean rejection', script = script, got = out.show())
    return Case(script, n >= 20, ['deep:' + kind(out)], dict(script = script[:300], result = out.show()))


RUN = ''.join(chr(c) for c in range(0x2760, 0x2790))

def characters(src):
    """Any character may occur in a text: replaced consistently by a neutral one, it leads to the same result."""
    text = seed_script(src)
    lines = text.split('\n')
    for _ in range(src.range(1, 3)): lines.insert(src.int(len(lines) + 1), None)
    k = src.weighted([(3, 'run'), (1, 'any'), (1, 'odd')])
    if k == 'run':
        i = src.int(len(RUN) - 1)
        chars = RUN[i:i + src.range(1, 12)] if src.bool(0.7) else ''.join(src.subset(list(RUN)))
    elif k == 'any': chars = ''.join(chr(src.pick([src.range(0x100, 0x24ff), src.range(0x2500, 0x2fff), src.range(0xe000, 0xf8ff), src.range(0x10000, 0x10ffff)])) for _ in range(src.range(1, 6)))
    else: chars = ''.join(src.pick(ODD) for _ in range(src.range(1, 4)))
    if not chars: raise Skip('no characters')
    if any(c in '\x1c\x1d\x1e\x1f\r\x0b\x0c\x85\u2028\u2029' for c in chars): raise Skip('white space')
    chars = ''.join(c for c in chars if not c.isspace() and c not in '<>&$@{}' and not '\ud800' <= c <= '\udfff') or '\u2768'
    mark = 'ZqZ'
    def line(before):
        ind = before[:len(before) - len(before.lstrip(' \t'))]
        return ind + src.pick(['| a %s b', '! %s', '/ x%s', 'p | %s', '-- %s', 'b : i / {"%s"}', 'p title="%s"', '| a # %s']) % mark
    out, prev = [], ''
    for n, l in enumerate(lines):
        if l is None:
            after = next((x for x in lines[n + 1:] if x is not None and x.strip()), '')
            l = line(after if len(after) - len(after.lstrip(' \t')) else prev)
        out.append(l)
        if l.strip(): prev = l
    base = '\n'.join(out)
    script = base.replace(mark, chars)
    a, b = real.render(base), real.render(script)
    if not clean(b) and clean(a): raise Violation('not a clean rejection', script = script, got = b.show())
    same = a.ok == b.ok and (b.value == a.value.replace(mark, chars) if a.ok else type(a.exc) is type(b.exc))
    if not same: raise Violation('characters of a text change the result', script = script, neutral = base, expected = dict(ok = a.value.replace(mark, chars)) if a.ok else a.show(), got = b.show())
    return Case(script, a.ok, ['characters:' + kind(a)], dict(script = script, result = b.show()))


FAMILIES = [('soup', static(soup), 12000), ('mutated', static(mutated), 9000), ('spliced', static(mutated_soup), 3000), ('soup_exec', executed(soup), 6000), ('mutated_exec', executed(mutated_ctx), 6000),
            ('indentation', indentation, 6000), ('deep', deep, 600), ('characters', characters, 2500), ('own', own, 4000)]
