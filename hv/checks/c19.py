"""C19 Rendering is a function of script and context, whatever happened before."""
import os, shutil, tempfile, copy
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, same_repr, INDS

TECHNIQUE = 'property-based testing of histories: random sequences of render/translate calls (valid and failing scripts, shared imported modules, shared contexts) on shared runtimes, each result compared with the one of a fresh runtime'
ORACLE = 'the outcome in a fresh runtime taken first (for generated documents: also the reference model); the context of the caller compared before and after'
RULE = ('cases: 3-6 scripts over a shared module of hypertags that may fail in the middle of an expansion, and sequences of 5-14 calls on one or two runtimes; non-trivial: the sequence contains '
        'a failing call and a script rendered at least twice in one runtime; distinct by scripts and sequence')


def result(out):
    if out.ok: return ('ok', out.value)
    return ('err', type(out.exc).__name__, str(out.exc))

def module(src):
    """A module with hypertags that may fail at different points, leave variables unassigned, and so on."""
    n, has_loc = [0], [False]
    def content(ind, depth, body, others):
        out = []
        for _ in range(src.range(1, 3)):
            k = src.weighted([(3, 'text'), (3, 'nest'), (3, 'fail'), (3, 'body' if body else 'text'), (2, 'if'), (2, 'try'), (2, 'set'), (2, 'use'), (1, 'loop'), (1, 'shared')])
            if depth >= 3 and k in ('nest', 'if', 'try', 'loop', 'use'): k = 'fail'
            st = src.pick(INDS)
            if k == 'nest': out += [ind + src.pick(['div', 'ul : li', 'p .c', '.', 'TD'])] + content(ind + st, depth + 1, body, others)
            elif k == 'fail': out.append(ind + src.pick(['| {10/n}', '| {[5, 6][n]}', 'p title={n!} | a', '| {n!}', 'b class={10/n} | x'] + has_loc[0] * ['| {loc}', '| {loc?}']))
            elif k == 'body': out.append(ind + src.pick(['@ body', 'td @ body', 'div @ body', '@ body[0:1]']))
            elif k == 'if': out += [ind + 'if n > %d' % src.int(3), ind + st + '$loc = "loc{n}"'] + content(ind + st, depth + 1, body, others)
            elif k == 'try':
                out += [ind + 'try'] + content(ind + st, depth + 1, body, others)
                if src.bool(): out += [ind + 'else'] + content(ind + st, depth + 1, body, others)
            elif k == 'set': out.append(ind + src.pick(['$loc = n + 1', '$n = n + 1', '$n = n - 1', '$shared = "inner"']))
            elif k == 'use' and others: out += [ind + src.pick(others) + ' ' + src.pick(['0', '1', 'n', '(n+1)', 'n=5']) + src.pick(['', ' | body {n}'])]
            elif k == 'loop': out += [ind + 'for i in range(n)'] + content(ind + st, depth + 1, body, others)
            elif k == 'shared': out.append(ind + '| {shared} {acc}')
            else:
                n[0] += 1
                out.append(ind + src.pick(['| t%d' % n[0], '| n={n}', '! v', '/ <u>t</u>', '| a\n%s   b' % ind]))
        return out
    lines = ['$shared = "S"', '$acc = [1, 2]']
    names = []
    for i in range(src.range(1, 4)):
        body = src.bool(0.6)
        lines.append('%%M%d %sn=%d' % (i, '@body ' if body else '', src.int(2)))
        st = src.pick(INDS)
        has_loc[0] = has_loc[0] or src.bool(0.6)
        if has_loc[0]: lines += [st + 'if n > %d' % src.int(2), st + '    $loc = "first"']
        lines += content(st, 1, body, names)
        # all lines of one definition need a common beginning; content() uses the same indentation for its top level
        names = names + ['M%d' % i] if body else names
        if src.bool(0.3): lines.append('$loc = "module"'); has_loc[0] = True
    return '\n'.join(lines), names, ['M%d' % i for i in range(20) if any(l.startswith('%%M%d ' % i) for l in lines)]


def script(src, path, withbody, tags):
    """A script that uses the module, its own hypertags, and may fail."""
    out = []
    if src.bool(0.85):
        out.append('from .zq_mod import ' + src.pick(['*', ', '.join('%' + t for t in tags), ', '.join('%' + t for t in tags) + ', $shared, $acc']))
        have = True
    else: have = False
    def uses(ind, depth):
        res = []
        for _ in range(src.range(1, 3)):
            k = src.weighted([(6, 'use'), (2, 'nest'), (2, 'try'), (1, 'text'), (1, 'set'), (1, 'fail'), (1, 'for'), (1, 'shadow')])
            if depth >= 3 and k in ('nest', 'try', 'for'): k = 'use'
            st = src.pick(INDS)
            if k == 'use' and tags and (have or src.bool(0.1)):
                t = src.pick(tags)
                res.append(ind + t + src.pick(['', ' 0', ' 1', ' 2', ' n=3', ' (-1)', ' "x"', ' 3']))
                if t in withbody and src.bool(0.6): res += uses(ind + st, depth + 1) if depth < 3 else [ind + st + '| b']
            elif k == 'nest': res += [ind + src.pick(['div', 'p', 'ul : li'])] + uses(ind + st, depth + 1)
            elif k == 'try': res += [ind + 'try'] + uses(ind + st, depth + 1) + ([ind + 'else | failed'] if src.bool() else [])
            elif k == 'for': res += [ind + 'for k%d in [0, 1]' % depth] + uses(ind + st, depth + 1)
            elif k == 'set': res.append(ind + src.pick(['$q = 1', '$len = str', '$shared = "mine"', '$loc = "mine"', '%%div2 | d', '$n = 4']).replace('%%div2 | d', '$z = 2'))
            elif k == 'fail': res.append(ind + src.pick(['| {1/0}', '| {undefined1}', 'nosuchtag', '| {q}', '| {len("abc")}', '| {loc}', 'br | x', 'p "positional"']))
            elif k == 'shadow': res.append(ind + '| {shared?}' if have and '$shared' in out[0] or have and '*' in out[0] else ind + '| x')
            else: res.append(ind + '| text')
        return res
    out += uses('', 0)
    if src.bool(0.15): out.insert(src.int(len(out) + 1), src.pick(['| {', '   | misplaced', '$ = 4', 'if', 'p : : |', '%', 'from . import', '\t| tab', 'from .zq_nothere import *', 'from .zq_mod import $nosymbol', 'from .zq_bad import *']))
    return '\n'.join(out)


def histories(src):
    mod, withbody, tags = module(src)
    root = tempfile.mkdtemp(dir = os.environ.get('HV_WORK'))
    try:
        with open(os.path.join(root, 'zq_mod.hy'), 'w') as f: f.write(mod)
        with open(os.path.join(root, 'zq_bad.hy'), 'w') as f: f.write(src.pick(['| {1/0}', 'from .zq_mod import *\n| {nothing}', '  |', '| {', 'M0 0\n$x = 1']))
        main = os.path.join(root, 'main.hy')
        scripts, params, want = [], [], []
        for i in range(src.range(3, 6)):
            if src.bool(0.3):
                g = DocGen(src, TYPES, size = 6, W = dict(inplace = 0))
                doc = g.document()
                doc.blocks.insert(0, context_block(TYPES))
                s = Printer(src, rate = 0.05).script(doc)
                m = model.render(doc, {'$' + k: v for k, v in make_context().items()})
                ctx = make_context()
            else:
                s, m = script(src, main, withbody, tags), None
                ctx = dict(n = 1) if src.bool(0.3) else {}
                if src.bool(0.1) and 'n' in ctx: s = 'context $n\n| {n}\n' + s
            fresh = real.render(s, copy.deepcopy(ctx), real.HyperHTML(), __file__ = main)
            if m is not None and not (fresh.ok and m == ('ok', fresh.value) or not fresh.ok and m[0] == 'err' and m[1] & set(fresh.mro())):
                raise Violation('wrong result in a fresh runtime', script = s, expected = m[1] if m[0] == 'ok' else sorted(m[1]), got = fresh.show())
            scripts.append(s)
            params.append(ctx)
            want.append(result(fresh))
        rts = [real.HyperHTML() for _ in range(src.pick([1, 1, 2]))]
        seq, modules, times, failed = [], [], {}, False
        for _ in range(src.range(5, 14)):
            i, k = src.int(len(scripts)), src.int(len(rts))
            op = src.weighted([(6, 'render'), (2, 'translate'), (2, 'again')])
            if op == 'again' and modules:
                j, dom = src.pick(modules)
                seq.append('render the DOM of script %d' % j)
                got, i = result(real.call(dom.render)), j
            else:
                seq.append('%s script %d in runtime %d' % (op, i, k))
                ctx = params[i]
                before = {n: (id(v), same_repr(v)) for n, v in ctx.items() if n != 'f'}
                if op == 'translate':
                    out = real.call(rts[k].translate, scripts[i], __file__ = main, **ctx)
                    if out.ok:
                        modules.append((i, out.value.dom))
                        continue
                    got = result(out)
                else: got = result(real.render(scripts[i], ctx, rts[k], __file__ = main))
                if before != {n: (id(v), same_repr(v)) for n, v in ctx.items() if n != 'f'}: raise Violation('the context of the caller was changed', script = scripts[i], module = mod)
                times[i, k] = times.get((i, k), 0) + 1
            failed = failed or got[0] == 'err'
            if got != want[i] and not ('0x' in str(got) and got[0] == want[i][0]):
                raise Violation('the result depends on the history', module = mod, scripts = scripts, sequence = seq, script = scripts[i], fresh = want[i], got = got)
    finally: shutil.rmtree(root, ignore_errors = True)
    oks = sum(w[0] == 'ok' for w in want)
    return Case((mod, scripts, seq), failed and max(times.values(), default = 0) >= 2, ['ok' if w[0] == 'ok' else 'err:' + w[1] for w in want], dict(module = mod, scripts = scripts, sequence = seq, results = [w[:2] for w in want]))


def isolation(src):
    """Symbols of one script are never visible to another one in the same runtime."""
    rt = real.HyperHTML()
    name = src.pick(['zz', 'x', 'len', 'i', 'upper', 'str'])
    tag = src.pick(['Zz', 'div', 'p', 'H', 'upper'])
    first = src.pick(['$%s = "LEAK"' % name, '%%%s\n    | LEAK' % tag, 'for %s in ["LEAK"] | a' % name, 'context $%s' % name, 'context %%%s' % tag, 'from .zq_m import *', 'from .zq_m import $v as %s' % name,
                      'if 1\n    $%s = "LEAK"' % name, '%%Q %s="LEAK"\n    | $%s\nQ' % (name, name), '$%s = "LEAK"\n| {1/0}' % name, 'div\n    $%s = "LEAK"' % name, 'from .zq_m import %%T as %s' % tag,
                      '%%%s a\n    | LEAK\n$%s = "LEAK"\n%s\n%s' % (tag, name, tag, tag)])
    second = src.pick(['| {%s}' % name, '%s | q' % tag, '| {%s?}' % name, 'if 0\n    $%s = 1\n| {%s}' % (name, name), '%%R a={%s}\n    | $a\nR' % name, '%s' % tag, 'try | {%s}' % name, 'from .zq_m2 import *', '$%s += "x"' % name, '$q = %s' % name])
    second = 'div : p\n' + second
    root = tempfile.mkdtemp(dir = os.environ.get('HV_WORK'))
    try:
        with open(os.path.join(root, 'zq_m.hy'), 'w') as f: f.write('$v = "LEAK"\n$%s = "LEAK"\n%%T\n    | LEAK\n%%%s\n    | LEAK' % (name, tag))
        with open(os.path.join(root, 'zq_m2.hy'), 'w') as f: f.write(src.pick(['| {%s}' % name, '%s | q' % tag, '$y = %s' % name]))
        main = os.path.join(root, 'main.hy')
        fresh = real.render(second, None, real.HyperHTML(), __file__ = main)
        for _ in range(src.range(1, 3)): real.render(first, {name: 'LEAK', '%' + tag: real.Markup('LEAK')}, rt, __file__ = main)
        out = real.render(second, None, rt, __file__ = main)
        last = real.render(second, None, real.HyperHTML(), __file__ = main)
    finally: shutil.rmtree(root, ignore_errors = True)
    strip = lambda r: tuple(x.replace(root, '') if isinstance(x, str) else x for x in result(r))
    same = lambda x: strip(x) if '0x' not in str(strip(x)) else strip(x)[:1]
    if same(out) != same(fresh) or same(last) != same(fresh) or out.ok and 'LEAK' in out.value:
        raise Violation('symbols of a script are visible in another one', first = first, second = second, fresh = fresh.show(), got = out.show(), later = last.show())
    return Case((first, second), True, ['isolation'], dict(first = first, second = second, result = out.show()))


FAMILIES = [('histories', histories, 2500), ('isolation', isolation, 1500)]
