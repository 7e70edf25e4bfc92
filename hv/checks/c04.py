"""C04 The element tree of the output is the block tree of the script."""
from hv import model, real
from hv.engine import Violation, Case
from hv.gen import TAGS, VOIDS
from hv.families import doc_family, parse_html, elements, all_elements, text_of, Bad, INDS

TECHNIQUE = 'property-based testing: random element trees printed as scripts, recovered from the output by a strict parser'
ORACLE = 'the generated tree itself, a strict element parser in hv/families.py, and hv/model.py for whole documents'
RULE = ('cases: random trees of elements written down with random nesting forms (indented, chained, headline, control blocks, null tags, definitions); '
        'non-trivial: at least 4 elements, or a void element with a body; distinct by script text')

ALL = model.NONVOID
class Tree:
    def __init__(self, name): self.name, self.kids = name, []

WRAP = ['if True', 'if 1', 'for i in [1]', 'try', 'if not 0', '.', '.:']
MARKS = ['|', '/', '!']


class Writer:
    """Writes a random tree down and remembers the expected structure (with a unique text token in some places)."""
    def __init__(self, src):
        self.src, self.count, self.tokens, self.forms = src, 0, 0, set()

    def name(self):
        n = self.src.weighted([(6, None), (3, 1), (1, 2)])
        if n is None: return self.src.pick(TAGS)
        n = self.src.pick(ALL)
        return n.upper() if self.src.bool(0.3) else n

    def void(self):
        n = self.src.pick(VOIDS + model.VOID)
        return n.upper() if self.src.bool(0.2) else n

    def token(self):
        self.tokens += 1
        return 't%d' % self.tokens

    def blocks(self, ind, depth, lo = 1):
        """(lines, structure); structure: list of token | (name, structure)"""
        lines, out = [], []
        n = 0
        while self.src.more(n, lo, 4, 0.45 if self.count < 25 else 0):
            l, o = self.block(ind, depth)
            lines += [''] * self.src.weighted([(5, 0), (1, 1), (1, 2)]) + l
            out += o
            n += 1
        return lines, out

    def block(self, ind, depth):
        src = self.src
        self.count += 1
        if depth > 4 or self.count > 25: k = src.int(2)
        else: k = src.weighted([(2, 0), (2, 1), (6, 2), (3, 3), (2, 4), (1, 5), (2, 6)])
        step = src.pick(INDS)
        if k == 0:
            t = self.token()
            return [ind + src.pick(MARKS) + ' ' + t], [t]
        if k == 1:
            name = self.void()
            self.forms.add('void')
            return [ind + name + src.pick(['', ':', ' : ', ' .c', ' a=1'])], [(name, [])]
        if k == 2:                                           # chain of elements with nested blocks
            names = [self.name() for _ in range(src.weighted([(4, 1), (2, 2), (1, 4)]))]
            line = ind + src.pick([' : ', ': ', ' :']).join(n + src.pick(['', '', ' .c', ' x="1"', '#i']) for n in names)
            body, inner = self.blocks(ind + step, depth + 1)
            if src.bool(0.25):
                t = self.token()
                line += ' : ' + src.pick(MARKS) + ' ' + t
                inner = [t] + inner
                self.forms.add('headline')
            else: line += src.pick(['', ':', ' :', '  # c', ':  -- c'])
            if len(names) > 1: self.forms.add('chain')
            for n in reversed(names): inner = [(n, inner)]
            return [line] + body, inner
        if k == 3:                                           # chain with inline text
            names = [self.name() for _ in range(src.weighted([(4, 1), (2, 2), (1, 4)]))]
            t = self.token()
            inner = [t] if not src.bool(0.2) else []
            line = ind + ' : '.join(names) + (' ' + src.pick(MARKS) + ' ' + t if inner else '')
            if len(names) > 1: self.forms.add('chain')
            if src.bool(0.2) and inner:
                t = self.token()
                line += '\n' + ind + step + t
                inner.append(t)
            for n in reversed(names): inner = [(n, inner)]
            return line.split('\n'), inner
        if k == 4:                                           # control blocks and the null tag add nothing
            self.forms.add('control')
            body, inner = self.blocks(ind + step, depth + 1)
            w = src.pick(WRAP)
            if w[0] == '.': self.forms.add('null')
            extra = []
            if w == 'if True' and src.bool(): extra = [ind + 'else', ind + step + 'never']  if src.bool() else [ind + 'elif 1', ind + step + 'table', ind + step + 'td']
            if extra and extra[-1].strip() == 'never': extra[-1] = ind + step + 'h6'
            return [ind + w] + body + extra, inner
        if k == 5:                                           # repeated
            self.forms.add('loop')
            n = src.range(0, 3)
            c = self.count
            body, inner = self.blocks(ind + step, depth + 2)
            return [ind + 'for q%d in range(%d)' % (depth, n)] + body, inner * n
        names = [self.name() for _ in range(src.range(1, 2))]      # ends with a void element
        v = self.void()
        self.forms.add('void')
        inner = [(v, [])]
        for n in reversed(names): inner = [(n, inner)]
        return [ind + ' : '.join(names + [v])], inner


def structure(items):
    out = []
    for x in items:
        if isinstance(x, str): out += x.split()
        else: out.append((x[0], structure(x[2])))
    return out

def tree(src):
    w = Writer(src)
    lines, want = w.blocks('', 0)
    script = '\n'.join(lines) + src.pick(['', '\n'])
    res = real.render(script)
    if not res.ok: raise Violation('unexpected error', script = script, got = res.show())
    try: got = parse_html(res.value)
    except Bad as ex: raise Violation('malformed output', script = script, why = str(ex), output = res.value)
    if structure(got) != want: raise Violation('element tree differs', script = script, expected = want, got = structure(got), output = res.value)
    voids = {v for v in model.VOID} | {v.upper() for v in model.VOID}
    for e in all_elements(got):
        if e[3] != (e[0] in voids): raise Violation('self-closing form differs', script = script, element = e[0], output = res.value)
    return Case(script, w.count >= 4, sorted(w.forms), dict(script = script, output = res.value))


def void_body(src):
    """Void elements reject a non-empty body and accept an empty one."""
    v = src.pick(model.VOID)
    if src.bool(0.3): v = v.upper()
    forms = [('%s | x', 1), ('%s\n  b', 1), ('%s : b', 1), ('%s / {"x"}', 1), ('%s : | h', 1), ('%s ! .', 1), ('%s\n  if True | x', 1), ('%s : %s' % ('%s', 'br'), 1),
             ('%s | {""}', 0), ('%s\n  $x = 1', 0), ('%s\n  # c', 0), ('%s |', 0), ('%s\n  if False | x', 0), ('%s :', 0), ('%s\n  pass', 0), ('%s / $e?', 0)]
    form, bad = src.pick(forms)
    line = form % v
    pre = src.pick(['', 'div\n', 'p : ', 'ul\n  li | x\n'])
    ctx = {'e': ''}
    if pre.endswith('\n'): line = '  ' + line.replace('\n', '\n  ')
    script = 'context $e\n' + pre + line + src.pick(['', '\np | after'])
    res = real.render(script, ctx)
    if bad:
        if res.ok: raise Violation('body of a void element is accepted', script = script, got = res.value)
        if not res.is_err('VoidTagEx'): raise Violation('wrong type of error', script = script, expected = 'VoidTagEx', got = res.show())
    else:
        if not res.ok: raise Violation('empty body of a void element is rejected', script = script, got = res.show())
        if '<%s />' % v not in res.value: raise Violation('void element differs', script = script, got = res.value)
    return Case(script, True, ['voidbody:%d' % bad], dict(script = script, got = res.show()))


docs = doc_family(lambda f, st: st == 'ok' and ('nested' in f or 'chain' in f), bad_p = 0.0, wild = 0.0, void_body = 0.1, size = 18,
                  W = dict(struct = 14, text = 4, inplace = 0, expr = 0))

FAMILIES = [('tree', tree, 5000), ('void', void_body, 1500), ('documents', docs, 2500)]
