"""C05 Vertical and horizontal layout of the script is preserved in the output."""
import re
from hv import model, real
from hv.engine import Violation, Case
from hv.families import doc_family, INDS

TECHNIQUE = 'property-based testing: generated scripts with random indentation and blank lines; positions of unique tokens, and a reference model'
ORACLE = 'positions stated directly in the check, and hv/model.py for whole documents'
RULE = ('cases: random nested blocks with random indentation (spaces, tabs, mixed) and blank lines, with silent blocks in between; non-trivial: at least two levels '
        'of nesting or a blank line, and rendering succeeded; distinct by script text')


def positions(src):
    """Opening tags of outlined blocks appear in the output in the order of the script, each on a line of its own, at the
    script's indentation, after the script's number of blank lines. Expected output is laid out here line by line."""
    count = [0]
    levels = [0]

    def body(ind, depth, lo):
        """[(source lines), (output lines)]"""
        S, O = [], []
        n = 0
        while src.more(n, lo, 4, 0.5 if count[0] < 14 else 0):
            n += 1
            count[0] += 1
            blank = src.weighted([(5, 0), (2, 1), (1, 2), (1, 4)])
            S += [''] * blank
            O += [''] * blank
            i = count[0]
            k = src.weighted([(3, 'inline'), (2, 'text'), (3, 'nest'), (1, 'void'), (2, 'silent'), (1, 'ctl'), (1, 'multi'), (1, 'head')])
            if depth >= 4 and k in ('nest', 'ctl', 'head'): k = 'inline'
            levels[0] = max(levels[0], depth)
            step = src.pick(INDS)
            if k == 'inline':
                S.append('%sp | t%d' % (ind, i)); O.append('%s<p>t%d</p>' % (ind, i))
            elif k == 'text':
                m = src.pick('|/!')
                S.append('%s%s t%d' % (ind, m, i)); O.append('%st%d' % (ind, i))
            elif k == 'void':
                S.append(ind + 'hr'); O.append(ind + '<hr />')
            elif k == 'multi':
                S += ['%sp | a%d' % (ind, i), '%s    b%d' % (ind, i), '', '%s      c%d' % (ind, i)]
                O += ['%s<p>a%d' % (ind, i), '%sb%d' % (ind, i), '', '%s  c%d</p>' % (ind, i)]
            elif k == 'silent':
                S.append(ind + src.pick(['$x = 1', '# c', '-- c', 'pass', 'if False | q', 'for y in [] | q', '$ 1+1', 'try @ 1']))
            elif k in ('nest', 'head'):
                names = src.pick([['div'], ['div'], ['ul', 'li'], ['DIV', 'b', 'i']])
                s, o = body(ind + step, depth + 1, 1)
                line = ind + ' : '.join(names)
                first = ind + ''.join('<%s>' % q for q in names)
                last = ''.join('</%s>' % q for q in reversed(names))
                if k == 'head':
                    S.append('%s : | h%d' % (line, i)); O.append('%sh%d' % (first, i))
                    S += s; O += o
                    if not O[-1].strip(): return_blank.append(1)
                    O[-1] += last
                else:
                    S.append(line + src.pick(['', ':', ' :', ' # note']))
                    O.append(first)
                    S += s; O += o
                    if not o: O[-1] += last
                    elif not any(x.strip() for x in o):                      # blank lines only
                        return_blank.append(1)
                        O.append(ind + last)
                    else: O.append(ind + last)
            else:
                form = src.pick(['if True', 'for z in [1]', 'try', 'if 0 | q\n%selse' % ind])
                s, o = body(ind + step, depth + 1, 1)
                S += (ind + form).split('\n') + s
                O += [ind + x[len(ind + step):] if x.startswith(ind + step) else x for x in o]
        return S, O

    return_blank = []
    S, O = body('', 0, 1)
    tail = src.weighted([(3, 0), (3, 1), (1, 3)])
    script = '\n'.join(S) + '\n' * tail
    if return_blank:                        # elements whose body has blank lines only are judged by the `documents` family
        from hv.src import Skip
        raise Skip('element with blank lines only')
    res = real.render(script)
    if not res.ok: raise Violation('unexpected error', script = script, got = res.show())
    if not any(x.strip() for x in O):
        from hv.src import Skip
        raise Skip('no output at all')
    want = '\n'.join(O) + '\n' * tail
    # a document that begins with blank lines or silent blocks
    if res.value != want: raise Violation('layout differs', script = script, expected = want, got = res.value)
    return Case(script, levels[0] >= 1 or '' in S, ['depth:%d' % levels[0]], dict(script = script, output = res.value))


def modifiers(src):
    """`...` joins a block to the preceding output; `<` aligns it with its parent."""
    step = src.pick(['    ', '  ', '\t', ' '])
    gap = src.pick(['', ' ', '  '])
    k = src.int(4)
    n = src.range(1, 3)
    if k == 0:
        S = ['| a'] + ['...%s%s' % (gap, src.pick(['| t%d', 'p | t%d', '/ t%d', 'b : i | t%d']) % i) for i in range(n)] + ['| z']
        tr = lambda s: re.sub(r'^\.\.\.\s*', '', s)
        O = ['a'] + [{'|': '%s', '/': '%s', 'p': '<p>%s</p>', 'b': '<b><i>%s</i></b>'}[tr(s)[0]] % tr(s).split()[-1] for s in S[1:-1]] + ['z']
        want = O[0] + ''.join(O[1:-1]) + '\n' + O[-1]
    elif k == 1:
        S = ['div'] + [step + 'p | x'] + [step + '...%sb | t%d' % (gap, i) for i in range(n)]
        want = '<div>\n%s<p>x</p>%s\n</div>' % (step, ''.join('<b>t%d</b>' % i for i in range(n)))
    elif k == 2:
        S = ['div'] + [step + '<%sp | t%d' % (gap, i) for i in range(n)] + [step + 'i']
        want = '<div>\n%s\n%s<i></i>\n</div>' % ('\n'.join('<p>t%d</p>' % i for i in range(n)), step)
    else:
        S = ['div', step + 'ul', step * 2 + '<%sli' % gap, step * 3 + '| x', step * 2 + 'li | y']
        want = '<div>\n%s<ul>\n%s<li>\n%s| x\n%s</li>\n%s<li>y</li>\n%s</ul>\n</div>'.replace('| x', 'x') % (step, step, step * 2, step, step * 2, step)
    script = '\n'.join(S)
    res = real.render(script)
    if not res.ok: raise Violation('unexpected error', script = script, got = res.show())
    if res.value != want: raise Violation('layout of modified blocks differs', script = script, expected = want, got = res.value)
    return Case(script, True, ['modifier%d' % k], dict(script = script, output = res.value))


docs = doc_family(lambda f, st: st == 'ok' and 'nested' in f, bad_p = 0.0, wild = 0.0, mod_p = 0.2, margin_p = 0.45, size = 16, attrs_p = 0.1,
                  W = dict(struct = 10, text = 5, inplace = 0, expr = 1, comment = 2, pass_ = 2))
silent = doc_family(lambda f, st: st == 'ok', bad_p = 0.0, wild = 0.0, margin_p = 0.5, size = 8, attrs_p = 0.1, max_depth = 3,
                    W = dict(struct = 3, text = 1, assign = 3, inplace = 1, expr = 2, comment = 4, pass_ = 4, if_ = 3, for_ = 3, try_ = 3, def_ = 3))

FAMILIES = [('positions', positions, 5000), ('modifiers', modifiers, 400), ('documents', docs, 3000), ('silent', silent, 2000)]
