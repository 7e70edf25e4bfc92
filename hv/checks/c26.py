"""C26 The Django backend renders templates as the core runtime does."""
import os, re, sys, json, shutil, tempfile, subprocess, datetime, decimal
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.gen import DocGen
from hv.printer import Printer
from hv.families import make_context, TYPES, context_block, same_repr, INDS

TECHNIQUE = 'differential property-based testing: random scripts, contexts, requests, template trees and filter calls go through the Django backend and, on the other side, through the core runtime, a model of template lookup, and the filters of Django itself'
ORACLE = 'the core runtime on the same script and context; a model of the lookup of templates (directories in order, applications last) built with the file tree; Django\'s registered filters called directly'
RULE = ('cases: random scripts with and without a request; trees of template directories and applications with scripts that import each other relatively; calls and pipelines of all Django filters; '
        'small Django projects in processes of their own; non-trivial: the output is not empty or the call is rejected; distinct by script, tree and arguments')

import django
from hypertag.django import filters as hfilters        # Django is not configured yet: the stand-alone use of filters
from hypertag.django.backend import Hypertag
from django.apps import apps
from django.conf import settings
from django.http import HttpRequest
from django.middleware.csrf import _unmask_cipher_token, get_token
from django.template import TemplateDoesNotExist
from django.template.backends.utils import csrf_input_lazy, csrf_token_lazy
from django.template.utils import get_app_template_dirs, EngineHandler
from django.template.defaultfilters import register as default_filters
from django.contrib.humanize.templatetags.humanize import register as humanize_filters
from django.utils.safestring import mark_safe

FILTERS = dict(humanize_filters.filters)
FILTERS.update(default_filters.filters)


def scratch():
    base = os.environ.get('HV_WORK')
    return os.path.realpath(tempfile.mkdtemp(prefix = 'dj_', dir = base))

def engine(dirs = (), app_dirs = False, src = None):
    params = dict(NAME = 'hy', DIRS = list(dirs), APP_DIRS = app_dirs, OPTIONS = {})
    if src is None or src.bool(): return Hypertag(params)
    conf = dict(params, BACKEND = 'hypertag.django.backend.Hypertag')
    if not app_dirs and src.bool(): del conf['APP_DIRS']
    return EngineHandler(templates = [conf])['hy']

def make_request(src):
    r = HttpRequest()
    r.method, r.path = src.pick(['GET', 'POST']), src.pick(['/', '/a/b', '/é&<x>'])
    if src.bool(0.4): get_token(r)
    return r

TOKEN = re.compile('[A-Za-z0-9]{64}')

def result(out, request = None):
    if not out.ok: return ('err', type(out.exc).__name__)
    text = out.value
    if not isinstance(text, str): return ('bad', type(text).__name__)
    if request is not None:
        def check(m):
            secret = request.META.get('CSRF_COOKIE')
            return 'TOKEN' if secret and _unmask_cipher_token(m.group()) == secret else 'BAD TOKEN'
        text = TOKEN.sub(check, text)
    return ('ok', text)


REQ = ['request', 'csrf_token', 'csrf_input']
USES = ['| $request.path {request.method}', 'p | {csrf_token}', '! x', '/ {csrf_input}', '| {csrf_input}', 'form\n    / $csrf_input', 'input value=$csrf_token', '| {len(csrf_token) > 10}', '$zz = str(csrf_input)\n| {zz[:6]}']

def strings(src):
    """Templates made of strings."""
    ctx = src.bool(0.6)
    g = DocGen(src, TYPES if ctx else None, size = src.pick([4, 8, 14]), bad_p = src.pick([0.0, 0.0, 0.04]))
    doc = g.document()
    if ctx: doc.blocks.insert(0, context_block(TYPES))
    text = Printer(src, rate = 0.1).script(doc)
    if src.bool(0.1):
        i = src.int(len(text) + 1)
        text = text[:i] + src.pick(['}', '{', '\n $', ' "', '| :', '\n        p', '%']) + text[i:]
    names = src.subset(REQ, 0.6) if src.bool(0.6) else []
    if names:
        text = 'context ' + ', '.join('$' + n for n in names) + '\n' + text
        for _ in range(src.range(1, 3)):
            use = src.pick(USES)
            if all(n in names for n in REQ if n in use): text += '\n' + use
    request = make_request(src) if src.bool(0.6) else None
    extra = {n: src.pick(['own<%s>' % n, 5]) for n in src.subset(REQ, 0.2)} if src.bool(0.2) else {}
    mk = lambda: dict(make_context() if ctx else {}, **extra)
    given, want = mk(), mk()
    if request is not None: want.update(request = request, csrf_input = csrf_input_lazy(request), csrf_token = csrf_token_lazy(request))
    keys = dict(given)
    e = engine(src = src)
    made = real.call(e.from_string, text)
    if not made.ok: raise Violation('from_string() failed', script = text, got = made.show())
    t = made.value
    args = (given if ctx or extra or src.bool() else None,)
    if request is not None: call = (lambda: real.call(t.render, *args, request)) if src.bool() else (lambda: real.call(t.render, context = args[0], request = request))
    else: call = (lambda: real.call(t.render, *args)) if src.bool() else (lambda: real.call(t.render, context = args[0], request = None))
    exp = result(real.render(text, want), request)
    if exp[0] == 'ok' and '0x' in exp[1]: raise Skip('addresses')
    for i in range(src.range(1, 2)):
        got = result(call(), request)
        if got != exp: raise Violation('the backend renders something else than the core runtime', script = text, request = request is not None, expected = exp, got = got, run = i)
        if given.keys() != keys.keys() or any(given[k] is not keys[k] for k in keys): raise Violation("the caller's context was changed", script = text, expected = sorted(keys), got = sorted(given))
        if ctx: break           # the context is mutable
    if names and request is None and any(n not in given for n in names) and got[0] == 'ok': raise Violation('values of the request without a request', script = text, got = got)
    return Case(repr((text, request is not None, sorted(extra))), bool(exp[1]), ['strings:' + exp[0], 'request:%s' % (request is not None)] + ['uses:' + n for n in names], dict(script = text, request = request is not None, result = exp))


# templates in files

FOLDERS = ['', 'sub', 'sub/deep', 'other']
count = [0]

def trees(src):
    root = scratch()
    path0 = list(sys.path)
    try: return in_tree(src, root)
    finally:
        sys.path[:] = path0
        shutil.rmtree(root, ignore_errors = True)

def in_tree(src, root):
    ndirs = src.range(1, 3)
    dirs = [os.path.join(root, 'dir%d' % i) for i in range(ndirs)]
    app_dirs = src.bool(0.5)
    appnames = []
    for i in range(src.range(0, 2)):
        count[0] += 1
        name = 'hvapp%d_%d' % (os.getpid(), count[0])
        appnames.append(name)
        os.makedirs(os.path.join(root, name))
        open(os.path.join(root, name, '__init__.py'), 'w').close()
        if src.bool(0.85): dirs.append(os.path.join(root, name, 'hypertag'))
    nconf = ndirs
    for d in dirs: os.makedirs(d)
    files = {}          # absolute path -> (script, output or None)
    number = [0]
    def tok():
        number[0] += 1
        return 't%d' % number[0]
    # modules first: their values are known when the templates are written
    mods = {}
    outside = os.path.join(root, 'secret.hy')
    for d in dirs:
        for folder in FOLDERS:
            for name in ('m', 'k'):
                if src.bool(0.35):
                    p = os.path.normpath(os.path.join(d, folder, name + '.hy'))
                    mods[p] = (tok(), tok())
                    put(p, '$x = "%s"\n%%H @b\n    p\n        | %s\n        @b' % mods[p])
    put(outside, '| secret')
    def write(p, d):
        here = os.path.dirname(p)
        lines, out, err = [], [], None
        for _ in range(src.weighted([(1, 0), (3, 1), (1, 2)])):
            target = src.pick(sorted(mods)) if mods and src.bool(0.7) else None
            if target is None:
                up, rest = src.int(3), src.pick(['m', 'k', 'sub.m', 'other.k', 'sub.deep.m'])
            else:
                rel = os.path.relpath(target, here)[:-3].split(os.sep)
                up = 0
                while rel[up] == '..': up += 1
                rest = '.'.join(rel[up:])
                if '..' in rest: continue
            loc = os.path.normpath(os.path.join(here, *['..'] * up, *rest.split('.'))) + '.hy'
            if not loc.startswith(root): continue
            found = mods.get(loc)
            n = tok()
            lines.append('from %s%s import $x as x%s, %%H as H%s' % ('.' * (up + 1), rest, n, n))
            lines.append('| {x%s}\nH%s | %s' % (n, n, n))
            if found is None: err = err or 'ModuleNotFoundEx'
            else: out += [found[0], '<p>\n    %s\n    %s\n</p>' % (found[1], n)]
        if src.bool(0.3):
            lines.append('| {__file__}')
            out.append(p)
        mark = tok()
        lines.append('| %s é' % mark)
        out.append(mark + ' é')
        if src.bool(0.1): err = err or 'UndefinedTag'; lines.append('undefined_tag_')
        put(p, '\n'.join(lines))
        files[p] = (('err', err) if err else ('ok', '\n'.join(out)), '\n'.join(lines))
    for d in dirs:
        for folder in FOLDERS:
            for name in ('a.hy', 'b.hy', 'page.html'):
                if src.bool(0.3): write(os.path.normpath(os.path.join(d, folder, name)), d)
    sys.path.insert(0, root)
    apps.set_installed_apps(appnames)
    get_app_template_dirs.cache_clear()
    log = []
    try:
        e = engine(dirs[:nconf], app_dirs, src)
        order = dirs[:nconf] + (dirs[nconf:] if app_dirs else [])
        nt = False
        for step in range(src.range(1, 5)):
            if src.bool(0.25) and files:
                p = src.pick(sorted(files))
                write(p, None)
                log.append('rewrite ' + os.path.relpath(p, root))
            name = src.pick(['', 'sub/', 'sub/deep/', 'other/', 'sub/../', 'other/../sub/', './', 'none/']) + src.pick(['a.hy', 'b.hy', 'page.html', 'zz.hy'])
            if src.bool(0.08): name = src.pick(['../secret.hy', 'sub/../../secret.hy', outside, '../dir0/a.hy'])
            paths = []
            for d in order:
                p = os.path.normpath(os.path.join(d, name))
                if p.startswith(d + os.sep): paths.append(p)
            hit = next((p for p in paths if p in files or p in mods), None)
            got = real.call(e.get_template, name)
            log.append('get ' + name.replace(root, ''))
            info = dict(steps = log, files = {os.path.relpath(k, root): v[1] for k, v in files.items()}, directories = [os.path.relpath(d, root) for d in order])
            if hit is None:
                if got.ok or not isinstance(got.exc, TemplateDoesNotExist): raise Violation('a missing template is not reported as missing', got = got.show(), **info)
                tried = [(o.name, o.template_name) for o, why in got.exc.tried]
                if tried != [(p, name) for p in paths]: raise Violation('wrong list of tried paths', expected = paths, got = tried, **info)
                if name not in str(got.exc) or got.exc.backend is not e: raise Violation('the report does not name the template or the backend', got = got.show(), **info)
                nt = True
                continue
            if not got.ok: raise Violation('an existing template is not found', expected = hit, got = got.show(), **info)
            if hit in mods: continue
            exp, script = files[hit]
            request = make_request(src) if src.bool(0.3) else None
            given = {'v': 1} if src.bool(0.3) else None
            for i in range(src.range(1, 2)):
                out = real.call(got.value.render, given, request)
                r = result(out, request)
                if exp[0] == 'err': ok = r[0] == 'err' and (exp[1] in out.mro() or exp[1] == 'UndefinedTag')
                else: ok = r == exp
                if not ok: raise Violation('wrong rendering of a template file', template = os.path.relpath(hit, root), expected = exp, got = r if out.ok else out.show(), **info)
                if given is not None and given != {'v': 1}: raise Violation("the caller's context was changed", got = given, **info)
            core = result(real.call(real.HyperHTML().render, script, __file__ = hit))
            if core != r: raise Violation('the core runtime renders the file differently', template = os.path.relpath(hit, root), expected = core, got = r, **info)
            nt = nt or bool(mods)
    finally:
        apps.unset_installed_apps()
        get_app_template_dirs.cache_clear()
    return Case(repr(sorted((os.path.relpath(k, root), v[1].replace(root, '')) for k, v in files.items())) + repr(log), nt, ['trees'] + sorted({l.split()[0] for l in log}),
                dict(steps = log, files = {os.path.relpath(k, root): v[1].replace(root, '') for k, v in sorted(files.items())[:3]}))

def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok = True)
    with open(p, 'w') as f: f.write(text)


# filters

def s_(src): return src.pick(['abc', 'Hello World', 'a<b>&"c"\'d\'', '', ' x  y ', 'é漢字ß', 'one two three four five six', 'line\nline <b>two</b>\n\npara', '<p>some <b>bold</b> text</p>', 'http://example.com/a?b=1&c=2', 'www.x.org mail a@b.com (see http://a.b/c)', 'I\'m "q"', '12', '-3.50', '800-COLLECT', 'a_b-c.d', 'x' * 30, '%', '\\ /']) if src.bool(0.8) else src.text('aB1 <é&\n.\'', 0, 12, 0.85)
def n_(src): return src.pick([0, 1, 2, 5, -1, 13, 21, 101, 112, 1000000, 4500123, 2 ** 40, 10 ** 21, 1.5, 34.232, -0.0004, 0.05, 1e10, '7', '12.5', '-4', decimal.Decimal('3.145'), True])
def l_(src): return src.pick([[1, 2, 3], [], ['a', '<b>', 'c'], ('x', 'y'), ['s', ['t', ['u'], 'v']], 'abc', [None], [3, 1, 2], ['b', 'a']])
def d_(src): return src.pick([datetime.datetime(2020, 2, 29, 13, 5, 9), datetime.datetime(1999, 12, 31, 23, 59), datetime.datetime(2001, 1, 1), datetime.date(2010, 7, 4), datetime.datetime(2020, 3, 1, 0, 0, 1)])
def dl_(src): return src.pick([[{'n': 'b', 'k': 2}, {'n': 'a', 'k': 3}, {'n': 'c', 'k': 1}], [(1, 'z'), (0, 'y')], [{'n': 1}], [], [{'n': 'x', 'o': {'p': 2}}, {'n': 'w', 'o': {'p': 1}}]])
def b_(src): return src.pick([None, True, False, 0, '', 'x', [], 5])
def w_(src): return src.pick([0, 1, 3, 5, 10, 20, '4', '7', -2])
def any_(src): return src.pick([s_, n_, l_, b_])(src)
def small(src): return src.pick(['a', ' ', 'b', ',', '<', 'é', 'll'])

SPEC = dict(
    add = (any_, [lambda src: src.pick([1, 'z', '3', [4], 2.5])], 1), addslashes = (s_, [], 0), capfirst = (s_, [], 0), center = (s_, [w_], 1), cut = (s_, [small], 1),
    date = (d_, [lambda src: src.pick(['Y-m-d', 'D d M Y', 'H:i:s', 'jS F y', 'c', 'N j', 'L z W'])], 0), default = (b_, [s_], 1), default_if_none = (b_, [s_], 1),
    dictsort = (dl_, [lambda src: src.pick(['n', 'k', 0, 1, 'o.p'])], 1), dictsortreversed = (dl_, [lambda src: src.pick(['n', 'k', 0, 1, 'o.p'])], 1),
    divisibleby = (n_, [lambda src: src.pick([1, 2, 3, '7'])], 1), escape = (s_, [], 0), escapejs = (s_, [], 0), filesizeformat = (n_, [], 0), first = (l_, [], 0),
    floatformat = (n_, [lambda src: src.pick([0, 2, -2, 3, '2g', -1, 'x'])], 0), force_escape = (s_, [], 0), get_digit = (n_, [lambda src: src.pick([0, 1, 2, 5, 'x'])], 1),
    iriencode = (s_, [], 0), join = (l_, [lambda src: src.pick([', ', '<', ' // ', ''])], 1), json_script = (any_, [lambda src: src.pick(['id', 'x<'])], 0), last = (l_, [], 0),
    length = (any_, [], 0), length_is = (l_, [w_], 1), linebreaks = (s_, [], 0), linebreaksbr = (s_, [], 0), linenumbers = (s_, [], 0), ljust = (s_, [w_], 1), lower = (s_, [], 0),
    make_list = (any_, [], 0), phone2numeric = (s_, [], 0), pluralize = (any_, [lambda src: src.pick(['es', 'y,ies', 'a,b,c', ''])], 0), pprint = (any_, [], 0), random = (lambda src: [any_(src)], [], 0),
    rjust = (s_, [w_], 1), safe = (s_, [], 0), safeseq = (l_, [], 0), slice = (l_, [lambda src: src.pick([':2', '1:', '::-1', '2', '-1:', 'x'])], 1), slugify = (s_, [], 0),
    stringformat = (n_, [lambda src: src.pick(['d', '.2f', '05d', 'x', 's', 'q'])], 1), striptags = (s_, [], 0), time = (d_, [lambda src: src.pick(['H:i', 'P', 's'])], 0),
    timesince = (d_, [d_], 1), timeuntil = (d_, [d_], 1), title = (s_, [], 0), truncatechars = (s_, [w_], 1), truncatechars_html = (s_, [w_], 1), truncatewords = (s_, [w_], 1),
    truncatewords_html = (s_, [w_], 1), unordered_list = (l_, [], 0), upper = (s_, [], 0), urlencode = (s_, [lambda src: src.pick(['', '/', ':&'])], 0), urlize = (s_, [], 0),
    urlizetrunc = (s_, [w_], 1), wordcount = (s_, [], 0), wordwrap = (s_, [lambda src: src.pick([1, 3, 5, 10, '4'])], 1), yesno = (b_, [lambda src: src.pick(['a,b', 'ya,na,ma', '<,>,&', 'x'])], 0),
    apnumber = (n_, [], 0), intcomma = (n_, [], 0), intword = (n_, [], 0), ordinal = (n_, [], 0), naturalday = (d_, [lambda src: src.pick(['Y-m-d', 'D'])], 0), naturaltime = (d_, [], 0))

def literal(v):
    if type(v) is int and v >= 0: return str(v)
    if type(v) is str and '"' not in v and '{' not in v and '$' not in v and '\\' not in v and '\n' not in v: return '"%s"' % v
    return None

def filters(src):
    if src.bool(0.02):
        wrong = [n for n, f in FILTERS.items() if getattr(hfilters, n, None) is not f]
        if wrong: raise Violation('filters of Django that are missing in hypertag.django.filters', got = wrong)
    names = sorted(FILTERS)
    todo = sorted(SPEC) + [n for n in names if n not in SPEC]
    chain = []
    ctx = {}
    def var(v):
        lit = literal(v)
        if lit is not None and src.bool(0.5): return lit
        k = 'v%d' % len(ctx)
        ctx[k] = v
        return k
    used = []
    alias = {}
    def ref(name):
        if name not in alias: alias[name] = name + '_' if src.bool(0.2) else name
        return alias[name]
    n = src.weighted([(5, 1), (2, 2), (1, 3)])
    value, expr, exc = None, None, None
    for i in range(n):
        name = src.pick(todo)
        if name == 'random' and i: raise Skip('random choice')
        make, args, need = SPEC.get(name, (any_, [], 0))
        if i == 0: value = make(src); expr = var(value)
        argv = [a(src) for a in args[:src.range(need, len(args))]]
        used.append(name)
        av = [var(a) for a in argv]
        if src.bool(0.6):
            expr = '%s : %s%s' % (expr, ref(name), '(%s)' % ', '.join(av) if av or src.bool(0.2) else '')
        else: expr = '%s(%s)' % (ref(name), ', '.join([expr if ' : ' not in expr else '(%s)' % expr] + av))
        if exc is None:
            try: value = FILTERS[name](value, *argv)
            except Exception as ex: exc = type(ex).__name__
    if src.bool(0.1) and all(alias[u] == u for u in used): imp = 'from hypertag.django.filters import *'
    else: imp = 'from hypertag.django.filters import ' + ', '.join('$' + u + (' as ' + alias[u] if alias[u] != u else '') for u in dict.fromkeys(used))
    form = src.pick(['take', 'take', 'text', 'markup', 'attr'])
    got = []
    if form == 'take': body = '$ignored = take(%s)' % expr
    elif form == 'text': body = '| [{%s}]' % expr
    elif form == 'markup': body = '/ [{%s}]' % expr
    else: body = 'p title={%s}' % expr
    text = 'context $take%s\n%s\n%s' % (''.join(', $' + k for k in ctx), imp, body)
    e = src.bool(0.3)
    params = dict(ctx, take = got.append)
    out = real.call(engine(src = src).from_string(text).render, params) if e else real.render(text, params)
    if exc is not None:
        if out.ok: raise Violation('the filter fails when called directly, but not in a script', script = text, context = {k: repr(v) for k, v in ctx.items()}, expected = exc, got = out.show())
        return Case(repr((text, ctx)), True, ['filters:fails'] + ['filter:' + u for u in used], dict(script = text, context = repr(ctx), error = exc))
    if value is None and form in ('text', 'markup'): raise Skip('text of None')
    if not out.ok: raise Violation('a filter fails in a script', script = text, context = {k: repr(v) for k, v in ctx.items()}, expected = same_repr(value), got = out.show())
    if form == 'take': a, b = [same_repr(value)], [same_repr(x) for x in got]
    else:
        s = str(value)
        if '\n' in s or s != s.strip() or s == '' or any(c in s for c in '\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'): raise Skip('layout of the value')
        if form == 'text': a = '[%s]' % model.html_escape(s)
        elif form == 'markup': a = '[%s]' % s
        else:
            if value in (True, False, None): raise Skip('attribute without a value')
            a = '<p title=%s></p>' % model.quote_attr(s)
        b = out.value
    if a != b: raise Violation('a filter has another result in a script', script = text, context = {k: repr(v) for k, v in ctx.items()}, expected = a, got = b)
    return Case(repr((text, ctx)), True, ['filters:ok', 'form:' + form] + ['filter:' + u for u in used], dict(script = text, context = repr(ctx), result = a))


# projects

RUNNER = '''
import sys, json, os
sys.dont_write_bytecode = True
spec = json.load(open(sys.argv[1]))
sys.path[:0] = ['/repo/src', spec['root']]
os.chdir(spec['root'])
res = {}
def filters():
    import hypertag.django.filters
for step in spec['steps']:
    if step == 'filters': filters()
    elif step == 'backend': import hypertag.django.backend
    elif step == 'core': import hypertag
    elif step == 'configure':
        from django.conf import settings
        settings.configure(**spec['settings'])
    elif step == 'env': os.environ['DJANGO_SETTINGS_MODULE'] = 'hv_settings'
    elif step == 'setup':
        import django
        django.setup()
if spec['project']:
    from django.template.loader import get_template, render_to_string
    out = get_template('page.hy').render({'n': 1234567.891, 'name': 'A b'})
    out2 = render_to_string('page.hy', {'n': 1234567.891, 'name': 'A b'})
    assert out == out2
    from django.template import engines
    want = engines['dj'].from_string(spec['django']).render({'n': 1234567.891, 'name': 'A b'})
else:
    from hypertag import HyperHTML
    out = HyperHTML().render(spec['script'], n = 1234567.891, name = 'A b', __file__ = None)
    from django.template import Engine, Context
    want = Engine(libraries = {'humanize': 'django.contrib.humanize.templatetags.humanize'}).from_string(spec['django']).render(Context({'n': 1234567.891, 'name': 'A b'}))
print(json.dumps(dict(out = out, want = want)))
'''
PARTS = [('slugify', '{name : slugify}', '{{ name|slugify }}'), ('floatformat', '{n : floatformat(2)}', '{{ n|floatformat:2 }}'), ('floatformat', '{floatformat(n, "1g")}', '{{ n|floatformat:"1g" }}'),
         ('intcomma', '{n : intcomma}', '{{ n|intcomma }}'), ('intword', '{n : intword}', '{{ n|intword }}'), ('upper', '{upper(name) : ljust(6)}|', '{{ name|upper|ljust:6 }}|'),
         ('yesno', '{n : yesno}', '{{ n|yesno }}'), ('filesizeformat', '{n : filesizeformat}', '{{ n|filesizeformat }}'), ('apnumber', '{7 : apnumber}', '{{ 7|apnumber }}')]

def projects(src):
    root = scratch()
    try:
        parts = [src.pick(PARTS) for _ in range(src.range(2, 5))]
        project = src.bool(0.75)
        names = list(dict.fromkeys([p[0] for p in parts] + (['ljust'] if any(p[0] == 'upper' for p in parts) else [])))
        head = 'context $n, $name\nfrom hypertag.django.filters import ' + ', '.join('$' + n for n in names) + '\n'
        script = head + '\n'.join('| ' + p[1] for p in parts)
        dj = '{% load humanize %}' + '\n'.join(p[2] for p in parts)
        steps = []
        conf = {}
        if project:
            conf = dict(USE_I18N = src.bool(), LANGUAGE_CODE = src.pick(['en-us', 'de', 'pl', 'en']), USE_THOUSAND_SEPARATOR = src.bool(), DEBUG = False, SECRET_KEY = 'k', INSTALLED_APPS = ['django.contrib.humanize'],
                        TEMPLATES = [dict(BACKEND = 'hypertag.django.backend.Hypertag', NAME = 'hy', DIRS = [os.path.join(root, 'pages')], APP_DIRS = True, OPTIONS = {}),
                                     dict(BACKEND = 'django.template.backends.django.DjangoTemplates', NAME = 'dj', DIRS = [], OPTIONS = {})])
            if src.bool(): steps = ['configure', 'setup']
            else:
                steps = ['env', 'setup']
                put(os.path.join(root, 'hv_settings.py'), ''.join('%s = %r\n' % kv for kv in conf.items()))
            early = src.subset(['backend', 'core'], 0.4)
            steps = early + steps + src.subset(['filters', 'backend'], 0.4)
            put(os.path.join(root, 'pages', 'page.hy'), script)
        else: steps = src.subset(['core', 'filters', 'backend'], 0.5)
        put(os.path.join(root, 'run.py'), RUNNER)
        put(os.path.join(root, 'spec.json'), json.dumps(dict(root = root, steps = steps, settings = conf, project = project, script = script, django = dj)))
        env = {k: v for k, v in os.environ.items() if k != 'DJANGO_SETTINGS_MODULE'}
        p = subprocess.run([sys.executable, os.path.join(root, 'run.py'), os.path.join(root, 'spec.json')], stdout = subprocess.PIPE, stderr = subprocess.PIPE, env = env, timeout = 200)
        info = dict(script = script, django = dj, steps = steps, settings = {k: v for k, v in conf.items() if k != 'TEMPLATES'})
        if p.returncode != 0: raise Violation('a Django project cannot use the backend and filters', got = p.stderr.decode()[-1500:].replace(root, ''), **info)
        r = json.loads(p.stdout.decode().strip().split('\n')[-1])
        if r['out'] != r['want']: raise Violation('filters in a project give other results than in Django templates', expected = r['want'], got = r['out'], **info)
        return Case(repr((script, steps, conf.get('USE_I18N'), conf.get('LANGUAGE_CODE'), conf.get('USE_THOUSAND_SEPARATOR'))), True, ['project:%s' % project] + ['step:' + s for s in steps], dict(script = script, steps = steps, result = r['out']))
    finally: shutil.rmtree(root, ignore_errors = True)


FAMILIES = [('strings', strings, 1600), ('trees', trees, 800), ('filters', filters, 4000), ('projects', projects, 24, 240)]
