"""C14 A body attribute carries the actual body unchanged wherever it is embedded."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import doc_family, INDS, parse_html, Bad

TECHNIQUE = 'property-based testing: scripts with embedded bodies compared with scripts where the body is written at the place of each embedding (metamorphic), and a reference model'
ORACLE = 'the script with the actual body (or the selected part of it) written in place of each embedding; hv/model.py for whole documents'
RULE = ('cases: hypertags that embed their body any number of times, at any depth, outlined or inline, whole or in parts, or pass it on to other hypertags; uses with any body, '
        'in loops and nested blocks; non-trivial: at least two embeddings, a part of a body, or a body passed on; distinct by script text')


class B:
    """Block of an actual body: lines (without indentation) and nested blocks."""
    def __init__(self, tag, head, sub, step): self.tag, self.head, self.sub, self.step = tag, head, sub, step
    def lines(self):
        out = list(self.head)
        if not out and not produces(self.sub): raise Skip('unspecified: a hypertag that outputs nothing')
        for b in self.sub: out += [self.step + l if l else l for l in b.lines()]
        return out
    def walk(self):
        yield self
        for b in self.sub: yield from b.walk()
    def without(self, tag):
        return None if self.tag == tag else B(self.tag, self.head, [x for x in (b.without(tag) for b in self.sub) if x], self.step)

def produces(blocks): return any(b.head or produces(b.sub) for b in blocks)

def clean(blocks, *tags):
    """Layout is not specified when the leading node of a hypertag's content is taken away from the hypertag."""
    for x in blocks:
        for b in x.walk():
            if not b.head and b.sub and b.sub[0].tag in tags: raise Skip('unspecified: leading node of a hypertag moved or removed')
    return blocks

def all_lines(blocks): return [l for b in blocks for l in b.lines()]


def embedding(src):
    count = [0]
    feats = set()
    def tok():
        count[0] += 1
        return 't%d' % count[0]
    wval = tok()

    def body_block(depth):
        k = src.weighted([(4, 'text'), (3, 'tag'), (3, 'nest'), (1, 'multi'), (1, 'chain')])
        if k == 'nest' and depth < 3:
            t = src.pick(['div', 'ul', 'sec', 'p'])
            t = {'sec': 'section'}.get(t, t)
            return B(t, [t + src.pick(['', ' .c', ' title="x<y"'])], [body_block(depth + 1) for _ in range(src.range(1, 3))], src.pick(INDS))
        if k == 'tag':
            t = src.pick(['p', 'b', 'i', 'div'])
            return B(t, ['%s | %s' % (t, src.pick([tok(), '{w}', tok() + ' & <']))], [], '')
        if k == 'multi': return B(None, ['| ' + tok(), '    ' + tok(), '', '  ' + tok()], [], '')
        if k == 'chain': return B('tt', ['tt : u | ' + tok()], [], '')
        return B(None, [src.pick(['| ', '! ', '/ ']) + tok()], [], '')

    defs = {}            # definitions, as lists of items

    def template(depth, bname, known):
        """-> list of items: ('line', text) | ('embed', function of blocks) | ('nest', header, step, items) | ('use', hypertag, step, items)"""
        out = []
        for _ in range(src.range(1, 3)):
            k = src.weighted([(5, 'embed'), (3, 'text'), (3, 'nest'), (1, 'var'), (1, 'for'), (2, 'use' if known else 'embed')])
            if depth >= 3 and k in ('nest', 'for', 'use'): k = 'embed'
            if k == 'embed': out.append(('embed', None))
            elif k == 'nest':
                st = src.pick(INDS)
                out.append(('nest', src.pick(['div', 'ul : li', 'td #x', '.', 'if True', 'div : em']), st, template(depth + 1, bname, known)))
            elif k == 'for':
                st = src.pick(INDS)
                out.append(('nest', 'for q%d in [1, 2]' % depth, st, template(depth + 1, bname, known)))
            elif k == 'use':
                feats.add('passed on')
                out.append(('use', src.pick(sorted(known)), src.pick(INDS), template(depth + 1, bname, known)))
            elif k == 'var': out.append(('line', '$w = "%s"' % tok()))
            else: out.append(('line', '| ' + tok()))
        return out

    # The meaning of an embedded expression is a function of the blocks of the actual body.
    def part_fun(name):
        k = src.weighted([(8, 'whole'), (2, 'list'), (2, 'slice'), (2, 'index'), (1, 'mix'), (2, 'skip'), (2, 'select'), (1, 'chain')])
        if k == 'whole': return name, lambda bl: bl
        if k == 'list': return src.pick(['[%s]', '[%s, None][:1]', '%s.copy()', '(%s)', 'list(%s)', 'iter(%s)', '[%s, None]', '[None, [%s]]', '{"k": %s}.values()', 'tuple(%s)', 'reversed(list(reversed(list(%s))))']) % name, lambda bl: bl
        feats.add('part')
        if k in ('index', 'mix'):
            i = src.pick([0, 0, 1, -1])
            def at(bl):
                if not -len(bl) <= i < len(bl): raise Skip('no such node')
                return [bl[i]]
            if k == 'index': return '%s[%d]' % (name, i) if src.bool(0.8) else 'list(%s)[%d]' % (name, i), at
            return src.pick(['[%s[1:], %s[%d]]', '[%s[1:], [%s[%d]]]', '(%s[1:], None, %s[%d])']) % (name, name, i), lambda bl: bl[1:] + at(bl)
        if k == 'slice':
            i, j = src.int(3), src.int(4)
            form = src.pick(['[%d:%d]', '[%d:]', '[:%d]', '[:]', '[::1]', '[-1:]', '[%d::2]'])
            sl = {'[%d:%d]': slice(i, j), '[%d:]': slice(i, None), '[:%d]': slice(None, j), '[:]': slice(None), '[::1]': slice(None), '[-1:]': slice(-1, None), '[%d::2]': slice(i, None, 2)}[form]
            n = form.count('%d')
            return name + (form % (i, j)[:n] if n == 2 else form % (j if form == '[:%d]' else i) if n else form), lambda bl: bl[sl]
        t = src.pick(['p', 'b', 'div', 'ul', 'section', 'q'])
        if k == 'skip': return '%s.skip("%s")' % (name, t), lambda bl: [x for x in (b.without(t) for b in clean(bl, t)) if x]
        if k == 'chain': return '%s.skip("%s").select("p")[:2]' % (name, t), lambda bl: [b for x in clean(bl, t, 'p') for y in [x.without(t)] if y for b in y.walk() if b.tag == 'p'][:2]
        return src.pick(['%s.select("%s")', '%s["%s"]']) % (name, t), lambda bl: [b for x in clean(bl, t) for b in x.walk() if b.tag == t]

    def source(items, ind, bname):
        """Lines of a definition; embeddings get their expressions here."""
        out = []
        for n, it in enumerate(items):
            if it[0] == 'line': out.append(ind + it[1])
            elif it[0] == 'embed':
                e, f = part_fun(bname)
                items[n] = ('embed', f)
                out.append(ind + src.pick(['@ ', '@', '@  ']) + e)
            elif it[0] == 'nest': out += [ind + it[1]] + source(it[3], ind + it[2], bname)
            else: out += [ind + it[1]] + source(it[3], ind + it[2], bname)
        return out

    nemb = [0]
    def unroll(items, blocks):
        """Definition with the body `blocks` written in place of embeddings -> list of B"""
        out = []
        for it in items:
            if it[0] == 'line':
                if it[1][0] != '$': out.append(B(None, [it[1]], [], ''))
            elif it[0] == 'embed':
                nemb[0] += 1
                if nemb[0] > 60: raise Skip('too many embeddings')
                out += it[1](blocks)
            elif it[0] == 'nest':
                sub = unroll(it[3], blocks)
                if it[1][:4] == 'for ': out += sub + sub
                elif it[1][:3] == 'if ': out += sub
                else: out.append(B(it[1].split()[0], [it[1]], sub, it[2]))
            else:
                inner = unroll(defs[it[1]], unroll(it[3], blocks))
                if not produces(inner): raise Skip('unspecified: a hypertag that outputs nothing')
                out.append(B(it[1], [], inner, ''))          # a node of its own, which outputs its content
        return out

    S = ['$w = "%s"' % wval]
    U = []
    for i in range(src.range(1, 3)):
        name, bname = 'H%d' % i, src.pick(['body', 'b', 'w'])
        st = src.pick(INDS)
        items = template(0, bname, dict(defs))
        if bname == 'w': items = no_var(items)
        S += ['%%%s @%s' % (name, bname)] + source(items, st, bname)
        defs[name] = items
    # selecting from the result of another hypertag is not covered by unrolling: its nodes are wrapped in a node named as the hypertag
    for i in range(src.range(1, 3)):
        name = src.pick(sorted(defs))
        blocks = [body_block(0) for _ in range(src.range(1, 3))]
        wrap = src.pick(['', '', 'div', 'for z in [1, 2]', 'if 1', 'tt .k'])
        st, st2 = src.pick(INDS), src.pick(INDS)
        lines = all_lines(blocks)
        if len(blocks) == 1 and blocks[0].head[0][0] in '|!/' and len(blocks[0].head) == 1 and src.bool(0.6):
            use = [name + ' ' + lines[0]]
        elif len(lines) == 1 and src.bool(0.6): use = [name + ' : ' + lines[0]]
        else: use = [name + src.pick(['', ':', ' :'])] + [st + l if l else l for l in lines]
        result = unroll(defs[name], blocks)
        if not produces(result): raise Skip('unspecified: a hypertag that outputs nothing')
        flat = [l.replace('{w}', wval) for l in all_lines(result)]
        if wrap:
            S += [wrap] + [st2 + l if l else l for l in use]
            U += [wrap] + [st2 + l if l else l for l in flat]
        else:
            S += use
            U += flat
        t = tok()
        S.append('| ' + t)
        U.append('| ' + t)
    s, u = '\n'.join(S), '\n'.join(U)
    if len(U) > 250: raise Skip('too many embeddings')
    a, b = real.render(s), real.render(u)
    if not b.ok: raise Skip('the unrolled script is not valid')
    if not a.ok: raise Violation('unexpected error', script = s, unrolled = u, got = a.show())
    if a.value != b.value: raise Violation('an embedded body differs from the body written in place', script = s, unrolled = u, expected = b.value, got = a.value)
    return Case(s, nemb[0] >= 2 or bool(feats), sorted(feats) + ['embeddings:%s' % ('2+' if nemb[0] >= 2 else nemb[0])], dict(script = s, output = a.value))


def no_var(items):
    out = []
    for it in items:
        if it[0] == 'line' and it[1][0] == '$': continue
        out.append(it[:3] + (no_var(it[3]),) if it[0] in ('nest', 'use') else it)
    return out


def inline(src):
    """Inline embeddings: the same elements and texts as in the unrolled script, whatever the whitespace between them; explicit rendering
    to a string; the body is evaluated once per use."""
    n = [0]
    calls = [0]
    def tick():
        calls[0] += 1
        return 'n%d' % calls[0]
    def tok():
        n[0] += 1
        return 't%d' % n[0]
    got = []
    blocks = [src.pick(['| %s', 'p | %s', 'b .x | %s {f()}', 'div\n    i | %s\n    | end', 'u title={f()} | %s']) % tok() for _ in range(src.range(1, 3))]
    lines = '\n'.join(blocks).split('\n')
    k = src.range(0, 3)
    places = [src.pick(['td @ body', 'td : b @body', 'div\n    @ body', '@ body', 'p : | head\n    @ body', 'td @ body[:]', 'td @ [body]', '. @ body']) for _ in range(k)]
    st = src.pick(INDS)
    take = src.bool(0.6)
    S = ['context $f, $take', '%H @body'] + ([st + '$ take(body.render())'] if take else []) + [st + l for p in places for l in p.split('\n')] + [st + '| stop']
    inl = len(lines) == 1 and src.bool(0.5)
    uses = src.range(1, 2)
    for _ in range(uses): S += [('H ' if lines[0][0] == '|' else 'H : ') + lines[0]] if inl else ['H'] + [st + l for l in lines]
    s = '\n'.join(S)
    out = real.render(s, dict(f = tick, take = got.append))
    if not out.ok: raise Violation('unexpected error', script = s, got = out.show())
    total = sum(l.count('f()') for l in lines) * uses
    if calls[0] != total: raise Violation('the body is not evaluated once per use', script = s, expected = total, got = calls[0])
    # expected: the unrolled form, rendered by the code under test
    calls[0] = 0
    want = ''
    alone = []
    for _ in range(uses):
        one = real.render('context $f\n' + '\n'.join(lines), dict(f = tick))
        if not one.ok: raise Skip('the body is not valid')
        alone.append(one.value)
        for p in places:
            pre = {'td @ body': '<td>%s</td>', 'td : b @body': '<td><b>%s</b></td>', 'div\n    @ body': '<div>%s</div>', '@ body': '%s', '. @ body': '%s',
                   'p : | head\n    @ body': '<p>head%s</p>', 'td @ body[:]': '<td>%s</td>', 'td @ [body]': '<td>%s</td>'}[p]
            want += pre % one.value
        want += 'stop'
    norm = lambda x: re.sub(r'\s+', '', x)
    if norm(out.value) != norm(want): raise Violation('embedded content differs', script = s, expected = want, got = out.value)
    if take and [g.strip('\n') for g in got] != alone: raise Violation('rendering of a body to a string differs', script = s, expected = alone, got = got)
    return Case(s, k >= 2 or take, ['inline:%d' % k], dict(script = s, output = out.value))


docs = doc_family(lambda f, st: 'embed' in f and 'use' in f, ctx = True, bad_p = 0.01, wild = 0.0, size = 18, margin_p = 0.3, mod_p = 0.04,
                  W = dict(def_ = 6, use = 12, struct = 6, embed = 10, for_ = 2, while_ = 0))

FAMILIES = [('embedding', embedding, 5000), ('inline', inline, 3000), ('documents', docs, 3500)]
