"""C15 Imports deliver exactly the named symbols of the right module."""
import os, sys, shutil, tempfile, importlib, types
from hv import model, real
from hv.engine import Violation, Case
from hv.src import Skip
from hv.families import INDS

TECHNIQUE = 'property-based testing: random trees of Hypertag and Python modules on disk and random import graphs, against a model of the documented resolution order; imported definitions compared with local ones'
ORACLE = 'a model of path resolution and of exported names built together with the file tree; the script with the imported definitions written locally'
RULE = ('cases: file trees with packages and plain folders, modules (.hy, .py) with variables, hypertags, Python tags, private names and re-exports; main scripts with all forms of '
        'import, relative and absolute, through several roots; non-trivial: at least two modules are loaded or the import is rejected; distinct by file tree and scripts')

_base = [None]

def workdir():
    if _base[0] is None:
        _base[0] = tempfile.mkdtemp(prefix = 'imports_', dir = os.environ.get('HV_WORK'))
        import atexit
        atexit.register(shutil.rmtree, _base[0], True)
    d = tempfile.mkdtemp(dir = _base[0])
    return os.path.realpath(d)


class Mod:
    def __init__(self, kind, where, name): self.kind, self.where, self.name, self.stmts, self.deps = kind, where, name, [], []
    def path(self): return os.path.join(*self.where, self.name + '.' + self.kind) if self.where else self.name + '.' + self.kind

class Err(Exception):
    def __init__(self, name): self.name = name


class World:
    """The file tree and the model of imports. Folders are tuples of names, relative to the root."""
    def __init__(self, packages, mods, on_path, cwd, resolver = None):
        self.packages, self.on_path, self.cwd, self.resolver = packages, on_path, cwd, resolver
        self.mods = {(m.where + (m.name,), m.kind): m for m in mods}
        self.folders = {f[:i] for f in [m.where for m in mods] + list(packages) for i in range(len(f) + 1)}
        self.cache, self.log = {}, []
        self.loading = set()

    def find(self, path, ref):
        """-> ('hy', parts, package) | ('py', parts) | None. `ref`: (folder or None, package or None)"""
        folder, package = ref
        if path[0] == '.':
            up = len(path) - len(path.lstrip('.')) - 1
            rest = tuple(path.lstrip('.').split('.'))
            found, pkg = None, None
            if folder is not None:
                if up > len(folder): raise Skip('outside of the tree')
                loc = folder[:len(folder) - up] + rest
                if package is not None:
                    p = package.split('.')
                    if up >= len(p): raise Err('ImportErrorEx')
                    pkg = p[:len(p) - up] + list(rest[:-1])
                if (loc, 'hy') in self.mods: return 'hy', loc, '.'.join(pkg) if pkg else None
            if package is not None:
                p = package.split('.')
                if up >= len(p): raise Err('ImportErrorEx')
                full = tuple(p[:len(p) - up]) + rest
                if self.on_path and (full, 'py') in self.mods: return 'py', full, None
            return None
        parts = tuple(path.split('.'))
        if self.resolver and path in self.resolver and (self.resolver[path], 'hy') in self.mods: return 'hy', self.resolver[path], None
        if len(parts) > 1 and self.on_path and parts[:-1] in self.packages and (parts, 'hy') in self.mods: return 'hy', parts, '.'.join(parts[:-1])
        if (self.cwd + parts, 'hy') in self.mods: return 'hy', self.cwd + parts, None
        if folder is not None and (folder + parts, 'hy') in self.mods:
            return 'hy', folder + parts, '.'.join((package.split('.') if package else [])+ list(parts[:-1])) if package else None
        if self.on_path and (parts, 'py') in self.mods: return 'py', parts, None
        return None

    def load(self, path, ref):
        f = self.find(path, ref)
        if f is None: raise Err('ModuleNotFoundEx')
        kind, parts, pkg = f
        if (kind, parts) in self.cache: return self.cache[kind, parts]
        m = self.mods[parts, kind]
        if kind == 'py': env = m.exports
        else:
            self.log.append(m.path())
            if (kind, parts) in self.loading: raise Skip('cyclic import')
            self.loading.add((kind, parts))
            env = self.execute(m.stmts, (m.where, pkg))
            self.loading.discard((kind, parts))
        self.cache[kind, parts] = env
        return env

    def execute(self, stmts, ref):
        """-> exported symbols {symbol: value}; static errors of the script come in the order of blocks"""
        env, own = {}, [None]
        for s in stmts:
            if s[0] == 'import':
                got = self.load(s[1], ref)
                if s[2] == '*': env.update({k: v for k, v in got.items() if k[1] != '_'})
                else:
                    for sym, new in s[2]:
                        if sym not in got: raise Err('ImportErrorEx')
                        env[sym[0] + new if new else sym] = got[sym]
            elif s[0] == 'set': env['$' + s[1]] = s[2]
            elif s[0] == 'own': own[0] = s[1]; env['$_own'] = s[1]
            elif s[0] == 'def':
                env['%' + s[1]] = (s[2], own)
        return env


NAMES = ['x', 'y', 'z', '_p']
HNAMES = ['H', 'K', '_Q']


def graph(src):
    count = [0]
    def tok():
        count[0] += 1
        return 't%d' % count[0]
    folders = [()]
    for i in range(src.range(0, 4)):
        f = src.pick(folders)
        if len(f) < 3: folders.append(f + ('zq_d%d' % i if src.bool(0.7) else 'zq_d',))
    folders = list(dict.fromkeys(folders))
    packages = {f for f in folders if f and src.bool(0.6)}
    mods = []
    for i in range(src.range(1, 5)):
        m = Mod(src.pick(['hy', 'hy', 'hy', 'py']), src.pick(folders), src.pick(['zq_m%d' % i, 'zq_m', 'zq_n']))
        if not any(x.where == m.where and x.name == m.name and x.kind == m.kind for x in mods): mods.append(m)
    on_path = src.bool(0.7)
    cwd = src.pick(folders)
    missing = src.bool(0.12)

    def path_to(m, folder, package):
        """Some path that may lead to the module: relative, absolute from the root, from cwd, or from the referrer's folder."""
        full = m.where + (m.name,)
        k = src.int(4)
        if k == 0 or k == 1:
            i = 0
            while i < min(len(folder), len(m.where)) and folder[i] == m.where[i]: i += 1
            return '.' * (len(folder) - i + 1) + '.'.join(full[i:])
        if k == 2 or full[:len(cwd)] != cwd: return '.'.join(full)
        return '.'.join(full[len(cwd):])

    def imports(n, folder, package, targets):
        out = []
        for _ in range(n):
            if missing and src.bool(0.3): path = src.pick(['zq_nothere', '.zq_nothere', 'zq_d0.zq_nothere', '..zq_m0', '...zq_m0', '.zq_d0.zq_m0'])
            elif not targets: continue
            else: path = path_to(src.pick(targets), folder, package)
            if src.bool(0.35): items = '*'
            else:
                items = []
                for _ in range(src.range(1, 3)):
                    sym = src.pick(['$' + n for n in NAMES] + ['%' + n for n in HNAMES])
                    items.append((sym, src.pick([None, None, 'ren', 'x', 'H'])))
            out.append(('import', path, items))
        return out

    # modules import only earlier ones, so there are no cycles
    for i, m in enumerate(mods):
        if m.kind == 'py':
            m.vars = {n: tok() for n in NAMES if src.bool(0.7)}
            m.tags = {n: tok() for n in HNAMES if src.bool(0.4)}
            m.exports = {'$' + n: v for n, v in m.vars.items()}
            m.exports.update({'%' + n: (v, None) for n, v in m.tags.items()})
            continue
        st = [('set', n, tok()) for n in NAMES if src.bool(0.6)]
        st += imports(src.pick([0, 0, 1, 2]), m.where, None, mods[:i])
        defs = [('def', n, tok()) for n in HNAMES if src.bool(0.6)]
        st = src.shuffle(st + defs) if src.bool() else st + defs
        st = [('own', tok())] + st + ([('own', tok())] if src.bool(0.4) else [])
        m.stmts = st
    main_dir = src.pick(folders)
    with_file = src.bool(0.85)
    package = '.'.join(main_dir) if main_dir and src.bool(0.6) else None
    resolver = None
    if src.bool(0.2):
        hys = [m for m in mods if m.kind == 'hy']
        if hys: resolver = {src.pick(['zq_alias', 'zq_m0', 'zq.alias']): (lambda m: m.where + (m.name,))(src.pick(hys))}
    st = [('own', 'importer')] + imports(src.range(1, 3), main_dir, package, mods)
    if resolver and src.bool(0.7): st.append(('import', sorted(resolver)[0], src.pick(['*', [('$x', None)], [('%H', 'G')]])))
    if src.bool(0.3): st.insert(src.int(len(st)), ('set', src.pick(NAMES), tok()))
    if src.bool(0.2): st.append(('set', src.pick(NAMES), tok()))

    w = World(packages, mods, on_path, cwd, resolver)
    try:
        env = w.execute(st, (main_dir if with_file else None, package))
        err = None
    except Err as ex: env, err = {}, ex.name

    # what is used
    uses, want = [], []
    for s in sorted(env):
        v = env[s]
        if s[0] == '$':
            uses.append('| %s {%s}' % (s[1:], s[1:]))
            want.append('%s %s' % (s[1:], v))
        else:
            name, ind = s[1:], src.pick(INDS)
            label, own = v
            block = src.pick(['%s "q"', '%s a="q"', '%s "q"']) % name
            if own is None:
                block = name + ' | q'
                text = '[%s q]' % label
            else: text = '<p>%s q %s</p>' % (label, own[0])
            if src.bool(0.4):
                uses += ['div', ind + block]
                want += ['<div>', ind + text, '</div>']
            else:
                uses.append(block)
                want.append(text)
    if err is None and src.bool(0.15):
        n = src.pick(NAMES + HNAMES + ['ren'])
        if n in NAMES + ['ren'] and '$' + n not in env: uses.append('| {%s}' % n); err = 'NameErrorEx'
        elif n in HNAMES and '%' + n not in env: uses.append('%s' % n); err = 'UndefinedTagEx'

    def source(stmts, module):
        out = ['from hv_log import $log', '$ log.append(%r)' % module.path()] if module else []
        for s in stmts:
            if s[0] == 'own': out.append('$_own = "%s"' % s[1])
            elif s[0] == 'set': out.append('$%s = "%s"' % (s[1], s[2]))
            elif s[0] == 'def': out += ['%%%s a' % s[1], '    p | %s {a} {_own}' % s[2]]
            else:
                items = '*' if s[2] == '*' else src.pick([', ', ',']).join(a + (' as ' + b if b else '') for a, b in s[2])
                out.append('from %s import %s' % (s[1], items))
        if module and src.bool(0.3): out.append('| text of the module')
        return '\n'.join(out)

    files = {}
    for p in packages: files[os.path.join(*p, '__init__.py')] = ''
    for m in mods:
        if m.kind == 'hy': files[m.path()] = source(m.stmts, m)
        else:
            t = ['from hypertag import TagFunction']
            t += ['%s = %r' % nv for nv in m.vars.items()]
            for n, v in m.tags.items(): t.append('def %s(body): return "[%s " + body + "]"' % (n, v))
            if m.tags:
                t.append('__tags__ = {%s}' % ', '.join('%r: TagFunction(%s)' % (n, n) for n in m.tags))
                t.append('del TagFunction, ' + ', '.join(m.tags))
            else: t.append('del TagFunction')
            files[m.path()] = '\n'.join(t) + '\n'
    script = source(st, None) + '\n' + '\n'.join(uses)
    log = []
    root = workdir()
    old_cwd, old_path = os.getcwd(), list(sys.path)
    mod_log = types.ModuleType('hv_log')
    mod_log.log = log
    try:
        for f in folders: os.makedirs(os.path.join(root, *f), exist_ok = True)
        for f, s in files.items():
            with open(os.path.join(root, f), 'w') as fd: fd.write(s)
        sys.modules['hv_log'] = mod_log
        if on_path: sys.path.insert(0, root)
        # the folder of the process itself must not be on Python's path
        sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd())]
        os.chdir(os.path.join(root, *cwd))
        importlib.invalidate_caches()
        loaders = None
        if resolver:
            from hypertag.core.runtime import HyLoader, PyLoader
            table = {k: os.path.join(root, *v) + '.hy' for k, v in resolver.items()}
            loaders = [HyLoader(lambda path, ref: table.get(path)), PyLoader]
        rt = real.HyperHTML(loaders) if loaders else real.HyperHTML()
        ctx = {}
        if with_file: ctx['__file__'] = os.path.join(root, *main_dir, 'main.hy')
        if package: ctx['__package__'] = package
        out = real.render(script, ctx, rt)
        again = real.render(script, ctx, rt)
    finally:
        os.chdir(old_cwd)
        sys.path[:] = old_path
        for n in [n for n in sys.modules if n == 'hv_log' or n.split('.')[0].startswith('zq_')]: del sys.modules[n]
        shutil.rmtree(root, ignore_errors = True)
    detail = dict(script = script, files = files, main = '/'.join(main_dir) + '/main.hy' if with_file else None, package = package, cwd = '/'.join(cwd), on_path = on_path,
                  resolver = resolver and {k: '/'.join(v) for k, v in resolver.items()}, got = out.show())
    if err:
        if out.ok: raise Violation('an error was expected', expected = err, **detail)
        if err not in out.mro(): raise Violation('wrong type of error', expected = err, **detail)
        if err == 'ImportErrorEx' and 'ModuleNotFoundEx' in out.mro() : raise Violation('wrong type of error', expected = err, **detail)
        if type(again.exc) is not type(out.exc): raise Violation('another result when rendered again', second = again.show(), **detail)
    else:
        if not out.ok: raise Violation('unexpected error', expected = want, **detail)
        if out.value != '\n'.join(want): raise Violation('wrong values of imported symbols', expected = '\n'.join(want), **detail)
        if again.show() != out.show(): raise Violation('another result when rendered again', second = again.show(), **detail)
        if sorted(log) != sorted(w.log): raise Violation('modules are not executed exactly once', expected = w.log, executed = log, **detail)
    loaded = len(w.cache)
    return Case((script, sorted(files.items()), main_dir, cwd, package, on_path), loaded >= 2 or bool(err), ['error:%s' % err if err else 'ok', 'loaded:%d' % loaded],
                dict(script = script, files = files, result = out.show()))


def local(src):
    """Imported hypertags behave like local ones at any place of use."""
    n = [0]
    def tok():
        n[0] += 1
        return 't%d' % n[0]
    vars = {'m_v%d' % i: tok() for i in range(src.int(3))}
    D = ['$%s = "%s"' % kv for kv in vars.items()]
    defs = {}

    def content(ind, depth, names, body):
        out = []
        for _ in range(src.range(1, 3)):
            k = src.weighted([(3, 'text'), (3, 'var'), (3, 'nest'), (2, 'body'), (1, 'for'), (1, 'set'), (2, 'use')])
            if depth >= 3 and k in ('nest', 'for', 'use'): k = 'text'
            st = src.pick(INDS)
            known = names + list(vars)
            if k == 'var' and known: out.append(ind + '| {%s} %s' % (src.pick(known), tok()))
            elif k == 'nest': out += [ind + src.pick(['div', 'ul : li', 'p title={%s}' % src.pick(known) if known else 'p', '.'])] + content(ind + st, depth + 1, names, body)
            elif k == 'body' and body: out.append(ind + src.pick(['@ body', 'td @ body', '@ body[:1]']))
            elif k == 'for': out += [ind + 'for i%d in [1, 2]' % depth, ind + st + '| {i%d} %s' % (depth, tok())]
            elif k == 'set': out += [ind + '$m_loc = "%s"' % tok(), ind + '| $m_loc']
            elif k == 'use' and defs: out += use(ind, depth)
            else: out.append(ind + '| ' + tok())
        return out

    def use(ind, depth):
        name = src.pick(sorted(defs))
        names, body = defs[name]
        head = name + ''.join(' %s="%s"' % (a, tok()) for a in names)
        wrap = src.pick(['', '', 'div : ', 'b .x : '])
        if wrap and depth: pass
        if body and src.bool(0.7):
            st = src.pick(INDS)
            if src.bool(0.4): return [ind + wrap + head + ' | ' + tok()]
            return [ind + wrap + head] + content(ind + st, depth + 1, [], False)
        return [ind + wrap + head]

    for i in range(src.range(1, 3)):
        names = src.shuffle(['a', 'b'])[:src.int(3)]
        body = src.bool(0.5)
        st = src.pick(INDS)
        sub = content('', 0, names, body)
        D += ['%%M%d %s' % (i, ' '.join((['@body'] if body else []) + names))] + [st + l for l in sub]
        defs['M%d' % i] = (names, body)
        if vars and src.bool(0.3):
            v = src.pick(sorted(vars))
            D.append('$%s = "%s"' % (v, tok()))
    keep = dict(vars)
    vars.clear()                              # the importer does not use variables of the module
    doc = []
    for _ in range(src.range(1, 3)):
        doc += src.pick([lambda: use('', 0), lambda: content('', 0, [], False), lambda: ['%L', '    ' + '\n    '.join(use('', 0)), 'L', 'div', '    L'],
                         lambda: ['for k in [1, 2]'] + use('    ', 1), lambda: ['try'] + use('  ', 1) + ['else | failed'],
                         lambda: ['/ {%%%s("%s"%s)}' % (m, tok(), ', a = "A"' * ('a' in defs[m][0]) + ', b = "B"' * ('b' in defs[m][0])) for m in sorted(defs) if defs[m][1]][:1]])()
    if not doc: doc = use('', 0)
    imp = src.pick(['from .zq_mod import *', 'from .zq_mod import ' + ', '.join('%' + d for d in sorted(defs)), 'from zq_mod import ' + ', '.join('%' + d for d in sorted(defs))])
    s = imp + '\n' + ''.join('$%s = "importer"\n' % v for v in keep if src.bool(0.5)) * ('*' not in imp) + '\n'.join(doc)
    l = '\n'.join(D + doc)
    root = workdir()
    try:
        with open(os.path.join(root, 'zq_mod.hy'), 'w') as f: f.write('\n'.join(D))
        a = real.render(s, dict(__file__ = os.path.join(root, 'main.hy')))
    finally: shutil.rmtree(root, ignore_errors = True)
    b = real.render(l)
    if not b.ok: raise Skip('the local script is not valid')
    if not a.ok: raise Violation('unexpected error', script = s, module = '\n'.join(D), got = a.show(), expected = b.value)
    if a.value != b.value: raise Violation('imported hypertags differ from local ones', script = s, module = '\n'.join(D), local = l, expected = b.value, got = a.value)
    return Case((s, '\n'.join(D)), True, ['local'], dict(script = s, module = '\n'.join(D), output = a.value))


FAMILIES = [('graph', graph, 3000), ('local', local, 3000)]
