"""C21 Errors point at the offending line."""
import os, re, shutil, tempfile
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, INDS

TECHNIQUE = 'property-based testing by fault injection: a valid random script gets one or two faulty lines at a random place, the position in the message is compared with the known place; shifted by a known number of lines'
ORACLE = 'the line and column at which the fault was put, and the file it was put in'
RULE = ('cases: random valid scripts (or imported modules) with a fault of one of about 45 kinds put before any outlined block or in a continuation line of a text; '
        'non-trivial: the fault is not in the first line and the script has at least 4 lines; distinct by text')

# (kind, lines with the fault marked by \x01 (column) ..., exception, where): `where`: any - found by static analysis; flat - also not inside control blocks; run - in places that are surely executed
NAME, TAG, SYN = 'NameError', 'UndefinedTagEx', 'SyntaxError'
FAULTS = [
    ('name', ['| text {\x01nope}'], NAME, 'any'), ('name', ['/ $\x01nope.a[0]'], NAME, 'any'), ('name', ['| {x0?} and {\x01nope!}'], NAME, 'xdef'), ('name', ['$ zz = \x01nope + 1'], NAME, 'any'), ('name', ['$ \x01nope'], NAME, 'any'),
    ('name', ['p a=1 b=\x01nope .c'], NAME, 'any'), ('name', ["p : b 'x' {1 + \x01nope} : | text"], NAME, 'any'), ('name', ['p #{\x01nope}'], NAME, 'any'), ('name', ['if \x01nope', '  | a'], NAME, 'any'), ('name', ['if True', '  | a', 'elif \x01nope', '  | b'], NAME, 'any'),
    ('name', ['for i in \x01nope | {i}'], NAME, 'any'), ('name', ['while 1 > \x01nope', '  | a', '    b'], NAME, 'any'), ('name', ['@ \x01nope'], NAME, 'any'), ('name', ["$ zz = 'a {\x01nope} b'"], NAME, 'any'), ('name', ['$zz = [1, {"a": (2, \x01nope)}]'], NAME, 'any'),
    ('name', ['? | {1/0} {\x01nope}'], NAME, 'any'), ('name', ['try', '  p', '    | a', '', '      b {\x01nope}', 'else | x'], NAME, 'any'), ('name', ['try | a', 'else', '  p : | b {\x01nope}'], NAME, 'any'), ('name', ['| a', '  b', '', '  c {\x01nope} d', '  e'], NAME, 'any'),
    ('name', ['p : | a', '  b {\x01nope}', '', '  c'], NAME, 'any'), ('name', ['p', '  | a', '  b', '    | {1} {\x01nope}', '  i'], NAME, 'any'), ('name', ['| {1:\x01nope}'], NAME, 'any'), ('name', ['% F9 a b=\x01nope', '  | a'], NAME, 'flat'),
    ('name', ['% F9 a', '  | {a}', '  $ zz = a', '  | {zz} {\x01nope}'], NAME, 'flat'), ('name', ['| {%\x02nope(1)}'], NAME, 'any'), ('name', ['$ zz = 1 if True else \x01nope'], NAME, 'any'),
    ('tag', ['\x01nope'], TAG, 'any'), ('tag', ['\x01nope a=1 : | x'], TAG, 'any'), ('tag', ['\x01nope .a', '  | x', '  p'], TAG, 'any'), ('tag', ['p : \x01nope .a : | x'], TAG, 'any'), ('tag', ['p', '  b', '', '    i : \x01nope', '      | x'], TAG, 'any'), ('tag', ['...\x01nope'], TAG, 'any'),
    ('tag', ['for i in []', '  p', '  \x01nope : | {i}'], TAG, 'any'), ('tag', ['% F9 a | x', 'F9 1', '\x01F8 1'], TAG, 'flat'), 
    ('syntax', ['\x03| {'], SYN, 'any'), ('syntax', ['\x03$ = 4'], SYN, 'any'), ('syntax', ['\x03p ('], SYN, 'any'), ('syntax', ['\x03| a {x'], SYN, 'any'), ('syntax', ['\x03%'], SYN, 'any'), ('syntax', ['\x03for in x'], SYN, 'any'), ('syntax', ['\x03p a='], SYN, 'any'), ('syntax', ['\x03import x'], SYN, 'any'),
    ('syntax', ['\x03p = 3'], SYN, 'any'), ('syntax', ['\x03/ {1 +}'], SYN, 'any'), ('syntax', ['\x03) oops'], SYN, 'any'), ('syntax', ['p', '  | a', '  \x03b ]'], SYN, 'any'), ('syntax', ['| a', '  b', '', '  \x03c {'], SYN, 'any'), ('syntax', ['p', '  | {1}', '\x03if'], SYN, 'any'), ('syntax', ['\x03p | {', '  | a }'], SYN, 'any'),
    ('syntax', ['try', '  p', '\x03else p)', '  | a'], SYN, 'any'),
    ('attrs', ['p a=1 \x012'], SYN, 'any'), ('attrs', ['p', '  b .c \x01(2) : | x', '  | y'], SYN, 'any'), ('def', ['\x01% F9 a a', '  | x', '  | y'], SYN, 'flat'), ('def', ['\x01% F9 a b a=1 | x'], SYN, 'flat'), ('def', ['if 1', '  | a', '  \x01% F9 a', '    | x', '    | y'], SYN, 'any'),
    ('inplace', ['\x01$ p1, p2 += 1'], SYN, 'any'), ('inplace', ['$ (p1, p2) = 1, 2', 'p', '  | x', '  \x01$ (p1, p2) *= 2', '  | y'], SYN, 'any'),
    ('inplace', ['$ \x02nope -= 1'], NAME, 'any'),
    ('import', ['if 1', '  | a', '  \x01from builtins import $len', '  | y'], SYN, 'any'), ('context', ['p', '\x01context $x', '| a'], SYN, 'flat'), ('context', ['if 1', '  \x01context $x', '| a'], SYN, 'any'),
    ('import', ['from builtins import $len, \x02$nope_x'], 'ImportErrorEx', 'import'), ('import', ['from no.such import \x02$x'], 'ModuleNotFoundEx', 'import'),
    ('value', ['$ \x01u8, w8 = [1]'], 'ValueErrorEx', 'run'), ('value', ['$ \x02(u8, w8), v8 = (1, 2, 3), 4'], 'ValueErrorEx', 'run~'), ('value', ['for \x01u8, w8 in [(1, 2), (3, 4, 5)]', '  | {u8}', '  | {w8}'], 'ValueErrorEx', 'run'),
    ('empty', ['| a {\x010!} b'], 'FalseValueEx', 'run'), ('empty', ['| a', '  {1}', '  {\x02[]!} b'], 'FalseValueEx', 'run'), ('embed', ['\x01@ 3'], 'TypeErrorEx', 'run'), ('embed', ['p', '  \x01@ 4', '  | a'], 'TypeErrorEx', 'run'), ('none', ['| a {\x02None} b'], 'NoneStringEx', 'run'),
    ('hyper', ['% F9 a | x', '', 'p : \x01F9 1 2'], 'TypeErrorEx', 'rundef'), ('hyper', ['% F9 a', '  | x', 'p', '  | y', '  \x01F9', '  | y'], 'TypeErrorEx', 'rundef'), ('hyper', ['% F9 a | x', 'p', '  \x01F9 1 c=4', '| a'], 'TypeErrorEx', 'rundef'),
    ('hyper', ['% F9 a | x', '\x01F9 1', '  | x', '  | y'], 'VoidTagEx', 'rundef'), ('hyper', ['% F9 a', '  | x', '  p {\x010!}', '% F8', '  F9 1', 'F8', '| x'], 'FalseValueEx', 'rundef'),
    ('unbound', ['if False', '  $ q9 = 1', '| a', '| {\x01q9}'], 'UnboundLocalEx', 'run'), ('unbound', ['for q9 in []', '  | a', 'p a=\x01q9', '  | b'], 'UnboundLocalEx', 'run'), ('mark', ['| a', '  b {\x01nope}  {nope}'], NAME, 'any'),
]
_pos = re.compile('[\x01\x02\x03]')


def places(blocks, kind = 'flat', run = True, top = True):
    """(block, inside of control block, surely executed, top level) for outlined blocks."""
    for b in blocks:
        yield b, kind != 'flat', run, top
        k = b.kind
        if k == 'struct': sub = [(b.body, kind, run)]
        elif k == 'def': sub = [(b.body, 'flat', False)]
        elif k == 'if': sub = [(c.blocks, 'control', False) for _, c in b.clauses if c is not None] + ([(b.els.blocks, 'control', False)] if b.els else [])
        elif k in ('for', 'while'): sub = [(x.blocks, 'control', False) for x in (b.body, b.els) if x is not None]
        elif k == 'try': sub = [(x.blocks, 'control', False) for x in b.branches if x is not None]
        else: sub = []
        for bl, kk, r in sub:
            if bl: yield from places(bl, kk, r, False)


def valid_script(src, ctx):
    g = DocGen(src, TYPES if ctx else None, size = src.pick([4, 8, 14, 24]), bad_p = 0.0, margin_p = 0.4)
    doc = g.document()
    if ctx: doc.blocks.insert(0, context_block(TYPES))
    pr = Printer(src, rate = 0.12, inds = INDS)
    text = pr.script(doc)
    return doc, text


def candidates(doc, where, ctx):
    out = []
    for i, (b, control, run, top) in enumerate(places(doc.blocks)):
        if ctx and i == 0: continue
        if b.kind == 'context': continue
        if where in ('flat', 'import') and control: continue
        if where in ('run', 'run~') and not (run and not control): continue
        if where == 'rundef' and not (run and not control): continue
        out.append(b)
    return out


def locate(msg):
    """Line and column in a message."""
    m = re.search(r'\bline (\d+)', msg)
    c = re.search(r'\bcolumn (\d+)', msg)
    return int(m.group(1)) if m else None, int(c.group(1)) if c else None


def put(src, lines, at, fault, ind, step):
    """Inserts the lines of a fault; -> (1-based line, column or None)."""
    out, pos = [], None
    for l in fault:
        d = len(l) - len(l.lstrip(' '))
        s = (ind + step * (d // 2) + l[d:]) if l else src.pick(['', '  '])
        m = _pos.search(s)
        if m:
            pos = (at + len(out), m.start() + 1 if m.group() == '\x01' else None)
            s = _pos.sub('', s)
        out.append(s)
    lines[at - 1:at - 1] = out
    return pos, len(out)


def inject(src, doc, text, ctx, kinds = None):
    """-> (text with a fault, (line, column), exception, kind)"""
    kind, fault, exc, where = src.pick([f for f in FAULTS if kinds is None or f[0] in kinds])
    lines = text.split('\n')
    if where == 'xdef': fault, where = [fault[0].replace('x0?', '1')], 'any'
    cand = candidates(doc, where, ctx)
    ends = len(lines)
    while ends > 1 and not lines[ends - 1].strip(): ends -= 1
    if not cand or src.bool(0.15): at, ind = ends + 1 + src.int(len(lines) - ends + 1), ''
    else:
        b = src.pick(cand)
        at = b.line
        l = lines[at - 1]
        ind = l[:len(l) - len(l.lstrip(' \t'))]
    at = min(at, len(lines) + 1)
    if at > 1 and ind: fault = [f.lstrip('.') if f.startswith('...') else f for f in fault]
    pos, n = put(src, lines, at, fault, ind, src.pick(INDS))
    return '\n'.join(lines), pos, exc, kind, n


def judge(script, out, pos, exc, **detail):
    line, col = locate(str(out.exc))
    if line != pos[0]: raise Violation('the error is reported at another line', script = script, expected = pos[0], got = out.show(), **detail)
    if pos[1] is not None and col != pos[1]: raise Violation('the error is reported at another column', script = script, expected = pos, got = out.show(), **detail)
    if exc not in out.mro(): raise Violation('another error than the injected one', script = script, expected = exc, got = out.show(), **detail)


def is_static(exc): return exc in (NAME, TAG, SYN)

def base(src):
    ctx = src.bool(0.3)
    doc, text = valid_script(src, ctx)
    c = make_context() if ctx else {}
    if not real.render(text, c).ok: raise Skip('the script is not valid')
    return ctx, doc, text, (make_context if ctx else dict)


def one(src):
    ctx, doc, text, mk = base(src)
    bad, pos, exc, kind, n = inject(src, doc, text, ctx)
    out = real.render(bad, mk())
    if out.ok: raise Violation('a faulty script is accepted', script = bad, line = pos[0], got = out.show())
    judge(bad, out, pos, exc)
    lines = bad.split('\n')
    # the position moves together with the code
    k = src.range(1, 3)
    if not (ctx and src.bool()):
        extra = [src.pick(['', '  ', '-- comment', '# comment {', '--']) for _ in range(k)]
        moved = '\n'.join(extra + lines)
        out2 = real.render(moved, mk())
        if out2.ok: raise Violation('a faulty script is accepted', script = moved)
        judge(moved, out2, (pos[0] + k, pos[1]), exc)
    # what follows does not matter for errors of syntax and of names
    if is_static(exc):
        tail = '\n'.join(lines + src.pick([['| tail'], ['p', '  | tail'], ['', '% T9 a', '  | {a}', '']]))
        out3 = real.render(tail, mk())
        if out3.ok: raise Violation('a faulty script is accepted', script = tail)
        judge(tail, out3, pos, exc)
    return Case(bad, pos[0] > 1 and len(lines) >= 4, ['fault:' + kind, 'error:' + exc, 'column' if pos[1] else 'line only'], dict(script = bad, error = str(out.exc)))


def two(src):
    """Two faults: errors of syntax are reported at the first, others at any of them."""
    ctx, doc, text, mk = base(src)
    syn = src.bool(0.6)
    kinds = ['syntax'] if syn else ['name', 'tag', 'attrs', 'def']
    bad, pos, exc, kind, n = inject(src, doc, text, ctx, kinds)
    lines = bad.split('\n')
    at = pos[0] + src.pick([0, n]) if False else len(lines) + 1
    if syn:
        extra = src.pick([['| {'], ['p'], ['$ = 3', '  | b'], ['nope ('], ['']])
        out = real.render('\n'.join(lines + extra), mk())
        bad = '\n'.join(lines + extra)
        if out.ok: raise Violation('a faulty script is accepted', script = bad)
        judge(bad, out, pos, exc)
        return Case(bad, True, ['two:syntax'], dict(script = bad, error = str(out.exc)))
    extra = src.pick([['| {nope}'], ['nope'], ['p a=1 3'], ['p', '  | {nope2}']])
    bad = '\n'.join(lines + extra)
    out = real.render(bad, mk())
    if out.ok: raise Violation('a faulty script is accepted', script = bad)
    line, col = locate(str(out.exc))
    allowed = (pos[0], len(lines) + len(extra))
    if line not in allowed: raise Violation('the error is reported at another line', script = bad, expected = allowed, got = out.show())
    return Case(bad, True, ['two:names'], dict(script = bad, error = str(out.exc)))


def indentation(src):
    """A line whose indentation contradicts that of the line before."""
    ctx, doc, text, mk = base(src)
    lines = text.split('\n')
    cand = []
    prev = ''
    for i, l in enumerate(lines):
        if not l.strip(): continue
        ind = l[:len(l) - len(l.lstrip(' \t'))]
        if ind: cand.append((i, ind))
    if not cand: raise Skip('no indented lines')
    i, ind = src.pick(cand)
    k = src.int(len(ind))
    flip = '\t' if ind[k] == ' ' else ' '
    bad_ind = ind[:k] + flip + src.pick(['', '  ', '\t', ind[k + 1:]])
    fault = bad_ind + src.pick(['| x', 'p', '-- c', 'nope', '{', '$ = '])
    gap = src.weighted([(3, 0), (1, 1), (1, 2)])
    lines[i + 1:i + 1] = [src.pick(['', '  ', '\t']) for _ in range(gap)] + [fault]
    bad = '\n'.join(lines)
    out = real.render(bad, mk())
    if out.ok or 'IndentationError' not in out.mro(): raise Violation('inconsistent indentation is not rejected', script = bad, line = i + 2 + gap, got = out.show())
    line, _ = locate(str(out.exc))
    if line != i + 2 + gap: raise Violation('the error is reported at another line', script = bad, expected = i + 2 + gap, got = out.show())
    return Case(bad, i > 1, ['indentation'], dict(script = bad, error = str(out.exc)))


def module(src):
    """The fault is in an imported module, or in the importing script: file names."""
    doc, text = valid_script(src, False)
    if not real.render(text).ok: raise Skip('the script is not valid')
    kinds = None if src.bool(0.7) else ['name', 'tag', 'hyper', 'value']
    bad, pos, exc, kind, n = inject(src, doc, text, False, kinds)
    d = os.path.realpath(tempfile.mkdtemp(dir = os.environ.get('HV_WORK'), prefix = 'mod_'))
    try:
        main_file = os.path.join(d, src.pick(['main.hy', 'm.hy']))
        mod_file = os.path.join(d, 'md.hy')
        if src.bool(0.3):
            # in the main script
            script, expect = bad, main_file
        else:
            before = [src.pick(['', '| a', '-- c', 'p']) for _ in range(src.int(4))]
            script, expect = '\n'.join(before + ['from .md import *', 'p', '  | x']), mod_file
            with open(mod_file, 'w', encoding = 'utf-8', newline = '') as f: f.write(bad)
        out = real.render(script, __file__ = main_file)
        if out.ok: raise Violation('a faulty script is accepted', script = script, module = bad)
        judge(bad, out, pos, exc, main = script, file = os.path.basename(expect))
        msg = str(out.exc)
        named = expect in msg
        other = (mod_file if expect == main_file else main_file) in msg
        if other: raise Violation('another file is named in the error', script = bad, main = script, expected = os.path.basename(expect), got = msg.replace(d, ''))
        if not named and kind != 'syntax': raise Violation('the file is not named in the error', script = bad, main = script, expected = os.path.basename(expect), got = msg.replace(d, ''))
        return Case((bad, expect == mod_file), True, ['module' if expect == mod_file else 'file', 'fault:' + kind], dict(module = bad, error = msg.replace(d, '')))
    finally: shutil.rmtree(d, True)


def across(src):
    """A hypertag imported from a module fails when it is used: the error is in the module; wrong use of it is an error of the user."""
    lead = [src.pick(['', '| a', '-- c', '$ w = 1', '% G | x']) for _ in range(src.int(5))]
    body = [src.pick(['| text', '', 'p : | x', '$ v = a']) for _ in range(src.int(4))]
    inner = src.bool()
    step = src.pick(INDS)
    mod = lead + ['% F a'] + [step + l if l else l for l in body + ['| {a!}']]
    fline = len(mod)
    d = os.path.realpath(tempfile.mkdtemp(dir = os.environ.get('HV_WORK'), prefix = 'mod_'))
    try:
        main_file, mod_file = os.path.join(d, 'main.hy'), os.path.join(d, 'md.hy')
        pre = [src.pick(['', '| a', 'p', '  | b', '-- c']) for _ in range(src.int(5))]
        if pre and pre[0].startswith(' '): pre.insert(0, 'p')
        for i in range(1, len(pre)):
            if pre[i].startswith(' ') and pre[i - 1] in ('', '| a', '-- c'): pre[i] = 'p'
        use = src.pick([['F 0'], ['p', '  F 0'], ['p : F 0'], ['p', '', '  | x', '  p : b : F a=""']]) if inner else src.pick([['F 1 2'], ['p', '  F'], ['p : F b=4'], ['F 1 | body']])
        script = ['from .md import %F'] + pre + use + ['| z'] * src.int(3)
        uline = 1 + len(pre) + len(use)
        with open(mod_file, 'w', encoding = 'utf-8', newline = '') as f: f.write('\n'.join(mod))
        text = '\n'.join(script)
        out = real.render(text, __file__ = main_file)
        if out.ok: raise Violation('a faulty script is accepted', script = text, module = '\n'.join(mod), got = out.show())
        msg = str(out.exc)
        line, _ = locate(msg.replace(d, ''))
        want = (mod_file, fline) if inner else (main_file, uline)
        if line != want[1] or want[0] not in msg or (main_file if inner else mod_file) in msg:
            raise Violation('the error is reported at another place', script = text, module = '\n'.join(mod), expected = (os.path.basename(want[0]), want[1]), got = msg.replace(d, ''))
        return Case((text, '\n'.join(mod)), fline > 2 or uline > 2, ['across:%s' % ('inside' if inner else 'use')], dict(script = text, module = '\n'.join(mod), error = msg.replace(d, '')))
    finally: shutil.rmtree(d, True)


FAMILIES = [('one', one, 2400), ('two', two, 600), ('indentation', indentation, 800), ('module', module, 700), ('across', across, 500)]
