"""C11 Names resolve by block structure."""
import keyword
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.model import Ex, Blk, Body, TagUse, Script
from hv.gen import var, num, text_lit, Env, Gen
from hv.printer import Printer
from hv.compare import check_same
from hv.families import doc_family, both, INDS, context_block

TECHNIQUE = 'property-based testing: dense programs over very few names (variables, tags, scopes, branches, loops, expansions) against a reference model of name resolution'
ORACLE = 'hv/model.py (static name resolution and an environment per definition)'
RULE = ('cases: programs of assignments, uses, blocks and hypertags over 3 variable and 3 tag names, including undefined and unassigned names; non-trivial: a name is '
        'assigned in at least two places and used in an inner scope; distinct by script text')

VARS = ['x', 'y', 'p']
TAGS = ['H', 'x', 'p']          # `x` and `p` are also names of a variable and of a standard tag


class Names:
    """Generator of programs; nothing is tracked, so that undefined and unassigned names occur by themselves. `bad`: probability of using a name at random."""

    def __init__(self, src, size, bad):
        self.src, self.left, self.bad = src, size, bad
        self.count = 0
        self.assigned, self.inner_use, self.defs, self.uses = {}, 0, 0, 0
        self.nested = False

    def value(self, known):
        src = self.src
        self.count += 1
        k = src.int(6)
        if k < 3: return text_lit('v%d' % self.count)
        if k == 3: return Ex('concat', [text_lit('v%d' % self.count), text_lit('w')])
        n = self.use(known)
        return Ex('concat', [text_lit('v%d.' % self.count), var(n)]) if n else text_lit('v%d' % self.count)

    def use(self, known):
        """Name of a variable to be read, or None."""
        src = self.src
        if src.bool(self.bad): return src.pick(VARS)
        return src.pick(sorted(known)) if known else None

    def show(self, known, depth):
        src = self.src
        parts = [('t', ' ')]
        for _ in range(src.range(1, 3)):
            n = self.use(known)
            if n is None: continue
            if depth: self.inner_use += 1
            e = var(n)
            if src.bool(0.1): e = Ex('qual', e, '?')
            parts += [('x', e, src.pick('${')), ('t', ',')]
        if len(parts) == 1: parts.append(('t', 'z'))
        return Blk('text', mark = '|', head = [parts[0], *parts[1:]], tail = [])

    def blocks(self, known, tags, depth, ctl, n = None):
        out = []
        for _ in range(n or self.src.weighted([(3, 1), (3, 2), (2, 3), (1, 5)])):
            if self.left <= 0 and out: break
            self.left -= 1
            out.append(self.block(known, tags, depth, ctl))
        return out

    def assign(self, known, depth):
        n = self.src.pick(VARS)
        self.assigned[n] = self.assigned.get(n, 0) + 1
        b = Blk('assign', targets = n, op = None, expr = self.value(known))
        known.add(n)
        return b

    def block(self, known, tags, depth, ctl):
        src = self.src
        deep = depth < 4 and self.left > 0
        k = src.weighted([(5, 'show'), (5, 'assign'), (1, 'inplace')] + ([(4, 'struct'), (2, 'if'), (2, 'for'), (1, 'try'), (1, 'while')] if deep else [])
                         + ([(3, 'def')] if deep and not ctl else []) + ([(5, 'use')] if tags or src.bool(self.bad) else []))
        if k == 'show': return self.show(known, depth)
        if k == 'assign': return self.assign(known, depth)
        if k == 'inplace':
            n = self.use(known)
            if n is None: return self.show(known, depth)
            self.count += 1
            self.assigned[n] = self.assigned.get(n, 0) + 1
            known.add(n)
            return Blk('assign', targets = n, op = '+', expr = text_lit('+%d' % self.count))
        if k == 'struct':
            tag = src.pick(['div', 'b', 'p', 'x', '.']) if src.bool(self.bad) else src.pick(['div', 'b'])
            b = Blk('struct', tags = [TagUse(tag)], head = None, hmark = None, inline = None, body = None)
            if tag == 'x' and tags.get('x', [0])[0] == 0: pass
            if src.bool(0.2) and tag != '.': b.tags[0].attrs = [('kw', 'id', var(self.use(known) or 'x'))] if known else []
            inner, itags = set(known), dict(tags)
            if src.bool(0.25): b.inline = self.show(inner, depth + 1)
            else: b.body = self.blocks(inner, itags, depth + 1, ctl)
            return b
        if k == 'if':
            self.nested = True
            out = []
            sets = []
            for _ in range(src.range(1, 2)):
                sub = set(known)
                out.append((Ex('bool', src.bool(0.5)), Body(None, self.blocks(sub, dict(tags), depth + 1, True))))
                sets.append(sub)
            els = None
            if src.bool():
                sub = set(known)
                els = Body(None, self.blocks(sub, dict(tags), depth + 1, True))
                sets.append(sub)
            if src.bool(0.3): known |= set.union(*sets)                          # possibly unassigned
            elif els: known |= set.intersection(*sets)
            return Blk('if', clauses = out, els = els)
        if k == 'for':
            n = src.pick(VARS)
            self.assigned[n] = self.assigned.get(n, 0) + 1
            items = [text_lit('i%d' % i) for i in range(src.weighted([(1, 0), (2, 1), (3, 2)]))]
            sub = set(known) | {n}
            body = Body(None, self.blocks(sub, dict(tags), depth + 1, True))
            if items or src.bool(self.bad): known |= {n}
            if items or src.bool(self.bad): known |= sub
            els = Body(None, self.blocks(set(known), dict(tags), depth + 1, True)) if src.bool(0.2) else None
            return Blk('for', targets = n, expr = Ex('list', items), body = body, els = els)
        if k == 'while':
            n = 'cnt%d' % self.count
            self.count += 1
            sub = set(known)
            body = [Blk('expr', expr = Ex('call', Ex('member', var('q'), 'pop'), []))] + self.blocks(sub, dict(tags), depth + 1, True)
            return Blk('if', clauses = [(var('q'), Body(None, [Blk('while', cond = Ex('chain', Ex('call', var('len'), [(None, var('q'))]), [('>', num(src.int(3)))], False), body = Body(None, body), els = None)]))], els = None)
        if k == 'try':
            a, b = set(known), set(known)
            one = Body(None, self.blocks(a, dict(tags), depth + 1, True))
            if src.bool(0.6): one.blocks.append(Blk('expr', expr = Ex('chain', num(1), [('//', num(0))], False)))
            two = Body(None, self.blocks(a if src.bool(0.5) else b, dict(tags), depth + 1, True))
            if src.bool(0.3): known |= a
            return Blk('try', short = False, branches = [one, two])
        if k == 'def':
            name = src.pick(TAGS)
            self.defs += 1
            attrs = []
            inner = set(known)
            for n in src.shuffle(VARS)[:src.weighted([(2, 0), (4, 1), (2, 2)])]:
                attrs.append((n, self.value(known) if src.bool(0.7) else None))
                self.assigned[n] = self.assigned.get(n, 0) + 1
            inner |= {n for n, _ in attrs}
            body = 'body' if src.bool(0.4) else None
            b = Blk('def', name = name, attr_body = body, attrs = attrs, head = None, hmark = None, inline = None, body = None)
            b.body = self.blocks(inner, dict(tags), depth + 1, ctl)
            if body:
                e = Blk('embed', expr = var('body'))
                b.body.insert(src.int(len(b.body) + 1), e)
            tags[name] = ([n for n, d in attrs if d is None], [n for n, _ in attrs], bool(body))
            return b
        # use
        self.uses += 1
        name = src.pick(sorted(tags)) if tags and not src.bool(self.bad) else src.pick(TAGS)
        need, every, has_body = tags.get(name, ([], [], False))
        attrs = []
        for n in every:
            if n in need or src.bool(0.3): attrs.append(('kw', n, self.value(known)))
        b = Blk('struct', tags = [TagUse(name, attrs)], head = None, hmark = None, inline = None, body = None)
        if has_body and src.bool(0.8):
            if src.bool(0.4): b.inline = self.show(known, depth + 1)
            else: b.body = self.blocks(set(known), dict(tags), depth + 1, ctl)
        return b


def programs(src):
    bad = src.weighted([(5, 0.0), (3, 0.02), (2, 0.08), (1, 0.25)])
    g = Names(src, src.pick([8, 14, 22]), bad)
    known = set()
    blocks = g.blocks(known, {}, 0, False, src.range(2, 7))
    ctx = dict(q = 0)
    doc = Script([Blk('context', items = [('$', 'q', None)])] + blocks)
    make = lambda: dict(q = [1, 2, 3, 4])
    text, exp, out = both(doc, src, make, INDS, 0.1)
    check_same(exp, out, text)
    return Case(text, any(c > 1 for c in g.assigned.values()) and g.inner_use > 0, ['result:' + exp[0]] + (['error:' + '/'.join(sorted(exp[1]))] if exp[0] != 'ok' else [])
                + ['expansions'] * (g.uses > 0), dict(script = text, result = exp[1] if exp[0] == 'ok' else sorted(exp[1])))


def static(src):
    """Names that do not exist are rejected before anything is executed, wherever they occur and although the code would not run."""
    log = []
    bad = src.pick(['{nope}', '$nope', '{nope?}', '{(nope)!}', '{%nope("x")}', '{"$nope"}', '{"{nope}"}', '{[nope]}', '{f(nope)}', '{f(k=nope)}', '{s[nope]}', '{s : nope}', '{s : f(nope)}', '{1 if nope else 2}', '{nope.x.y}', '{s if s else nope}', '{-nope}', '{not nope}', '{nope "a"}', '{{1: nope}}'.replace('{{', '{ {').replace('}}', '} }')])
    var_names = {'NameErrorEx'}
    form = src.int(12)
    step = src.pick(INDS)
    err = {'NameErrorEx'}
    e = bad if bad[0] == '{' else '{nope}'
    if form == 0: S = ['| ' + bad]
    elif form == 1: S = ['if False', step + '| ' + bad]
    elif form == 2: S = ['for i in []', step + 'p', step * 2 + '/ ' + bad]
    elif form == 3: S = ['%H', step + '| ' + bad]
    elif form == 4: S = ['try', step + '| ' + bad, 'else', step + '| ok']
    elif form == 5: S = ['if True | a', 'else | ' + bad]
    elif form == 6: S = ['p title=%s' % e]
    elif form == 7: S = ['%%H a=%s' % e, step + '| x']
    elif form == 8: S = ['if False', step + 'nope | x']; err = {'UndefinedTagEx'}
    elif form == 9: S = ['%H', step + 'p : nope : b | x']; err = {'UndefinedTagEx'}
    elif form == 10: S = ['while 0', step + '$x = %s' % e] if not e.startswith('{ {') else ['| ' + e]
    else: S = ['%H', step + '$nope2 = 1', step + '| $nope2', '| $nope2']
    depth = src.int(3)
    for _ in range(depth):
        wrap = src.pick(['div', 'ul : li', '. '.strip()])
        if form in (3, 7, 9, 11) or True: S = [wrap] + [step + s for s in S]
    pre = ['context $f, $s', '| before $f("called")', '$ f(1)']
    script = '\n'.join(pre + S)
    def f(*a, **k):
        log.append(a)
        return a
    out = real.render(script, dict(f = f, s = 'abc'))
    if out.ok or not set(out.mro()) & err: raise Violation('an undefined name is not rejected', script = script, expected = sorted(err), got = out.show())
    if log: raise Violation('executed before the error has been detected', script = script, calls = log)
    return Case(script, True, ['static:%d' % form], dict(script = script, result = out.show()))


_builtins = []

def builtins(src):
    """Built-in tags and variables behave like names of an outer block: redefined in a block or a hypertag, they come back after it."""
    if not _builtins: _builtins.extend(sorted(k for k in real.HyperHTML().import_builtins() if k[0] in '$%' and k[1:].isidentifier() and not keyword.iskeyword(k[1:]) and k[1] != '_'))
    chosen = [src.pick(_builtins) for _ in range(src.range(1, 3))]
    chosen += [s for s in (('%' if c[0] == '$' else '$') + c[1:] for c in chosen) if s in _builtins and src.bool()]      # the same name of the other kind
    step = src.pick(INDS)
    lines, expect, count = [], [], [0]

    def look(level, names):
        for s in chosen:
            lines.append(step * level + '$ take(r"%s", %s)' % (s, s[1:] if s[0] == '$' else s))
            expect.append((s, names.get(s)))

    def redefine(level, names):
        s = src.pick(chosen)
        count[0] += 1
        new = 'new%d' % count[0]
        if s[0] == '$': lines.append(step * level + '$%s = "%s"' % (s[1:], new))
        elif src.bool() and level and False: pass
        else: lines.append(step * level + '%%%s | %s' % (s[1:], new))
        names[s] = new

    def block(level, names, depth):
        for _ in range(src.range(1, 3)):
            k = src.int(4) if depth < 4 else src.int(2)
            if k == 0: look(level, names)
            elif k == 1: redefine(level, names)
            elif k == 2 and '%div' not in chosen:
                lines.append(step * level + 'div')
                inner = dict(names)
                redefine(level + 1, inner) if src.bool() else look(level + 1, inner)
                block(level + 1, inner, depth + 1)
            elif k == 3:
                count[0] += 1
                name = 'Tag%d' % count[0]
                lines.append(step * level + '%' + name)
                inner = dict(names)
                at, before = len(expect), list(expect)
                redefine(level + 1, inner) if src.bool() else None
                look(level + 1, inner)
                block(level + 1, inner, depth + 1)
                made = expect[at:]
                expect[at:] = []
                lines.append(step * level + name)          # used once, right after its definition
                expect.extend(made)
        look(level, names)

    block(0, {}, 0)
    script = 'context $take\n' + '\n'.join(lines)
    got, rt = [], real.HyperHTML()
    table = rt.import_builtins()
    def take(name, value): got.append((name, value))
    out = real.render(script, dict(take = take), rt)
    if not out.ok: raise Violation('unexpected error', script = script, got = out.show())
    show = []
    for (name, value), (want_name, want) in zip(got, expect):
        if want is None: ok = value is table[name] or (isinstance(value, type(table[name])) and value == table[name])
        elif name[0] == '$': ok = value == want
        else:
            res = real.call(value)
            ok = res.ok and isinstance(res.value, str) and res.value.strip() == want
        show.append(name + ':' + ('built-in' if want is None else want))
        if name != want_name or not ok: raise Violation('a built-in name denotes something else', script = script, position = len(show), name = name, expected = want or 'built-in', got = repr(value))
    if len(got) != len(expect): raise Violation('a different number of uses', script = script, expected = len(expect), got = len(got))
    return Case(script, count[0] > 0 and 'built-in' in ''.join(show[-len(chosen):]), ['builtins'] + sorted({'kind:' + s[0] for s in chosen}), dict(script = script, uses = show[:20]))


docs = doc_family(lambda f, st: bool(f & {'def', 'nested', 'for', 'if'}), ctx = True, bad_p = 0.05, wild = 0.0, size = 18,
                  W = dict(assign = 8, inplace = 2, def_ = 4, use = 6, struct = 6))

FAMILIES = [('programs', programs, 9000), ('static', static, 1000), ('builtins', builtins, 1500), ('documents', docs, 2500)]
