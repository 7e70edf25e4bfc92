"""Runs the families of cases of one check in parallel shards, shrinks failures, writes evidence and replay files."""
import sys, os, json, time, signal, hashlib, traceback, subprocess, importlib, tempfile, shutil

from hv.src import Src, Skip, shrink

ROOT     = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON   = sys.executable
SHARDS   = 8
CPU_CASE = 30                 # CPU seconds a single case may take; typical cases need milliseconds


class Violation(Exception):
    def __init__(self, what, **detail):
        self.what = what
        self.detail = detail


class Hang(BaseException):
    inside = 0          # whether the code under test was running


class Case:
    """What a family's function returns for a case that held."""
    __slots__ = ('key', 'nontrivial', 'labels', 'sample')
    def __init__(self, key, nontrivial, labels = (), sample = None):
        self.key, self.nontrivial, self.labels, self.sample = key, nontrivial, labels, sample


def load_check(prop):
    return importlib.import_module('hv.checks.' + prop.lower())


def _on_prof(signum, frame):
    from hv import real
    ex = Hang()
    ex.inside = real.inside
    raise ex

def timed(fun, *args):
    """Run `fun` with a limit on CPU time (not wall time, so that a busy machine makes no difference)."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_CASE)
    try:
        return fun(*args)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _in_code(ex):
    """Whether the code under test was running when `ex` was raised."""
    from hv import real
    if getattr(ex, 'inside', 0): return True
    tb = ex.__traceback__
    while tb:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(real.ROOT + os.sep): return True
        tb = tb.tb_next
    return False


def run_case(fun, src):
    """Returns ('ok', Case) | ('skip', reason) | ('bad', Violation)."""
    try:
        return 'ok', timed(fun, src)
    except Skip as ex:
        return 'skip', str(ex)
    except Violation as ex:
        return 'bad', ex
    except MemoryError as ex:
        if _in_code(ex): return 'bad', Violation('out of memory (limit %s)' % os.environ.get('PYPY_GC_MAX'))
        raise
    except Exception as ex:
        # never happens on the unchanged tree: a result of the code under test has an unexpected form
        return 'bad', Violation('unexpected result: ' + type(ex).__name__, error = str(ex)[:500], traceback = traceback.format_exc()[-1500:])
    except Hang as ex:
        from hv import real
        if _in_code(ex): return 'bad', Violation('no termination within %s CPU seconds' % CPU_CASE, request = real.last)
        raise RuntimeError('harness: case takes too long outside of the code under test')


def case_seed(seed, prop, family, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, family, i)).encode()).digest()[:8], 'big')


def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)


def one_case(prop, seed, family, i):
    """A single case of a family in this process, which may not survive it. Returns the verdict."""
    check = load_check(prop)
    fun = {fam[0]: fam[1] for fam in check.FAMILIES}[family]
    return run_case(fun, Src(case_seed(seed, prop, family, i)))


def crashed_case(prop, seed, now, env, cwd):
    """A shard was ended by a signal while it ran the case `now`. Runs this case alone; if that is ended by a signal too,
    it is the code under test which brings the interpreter down, and the violation is returned; otherwise None."""
    family, i = now
    try:
        p = subprocess.run([PYTHON, os.path.join(ROOT, 'check.py'), prop, '--seed', str(seed), '--case', '%s:%s' % (family, i)],
                           env = env, cwd = cwd, stdout = subprocess.PIPE, stderr = subprocess.STDOUT, timeout = 200)
    except subprocess.TimeoutExpired: return None
    if p.returncode == 1: what = p.stdout.decode('utf8', 'replace').strip().split('\n')[-1]
    elif p.returncode < 0 and p.returncode != -signal.SIGKILL: what = 'the interpreter is ended by signal %d' % -p.returncode
    else: return None
    return dict(family = family, what = what, detail = dict(output = p.stdout.decode('utf8', 'replace')[-1500:]), choices = None,
                original = None, index = i, shrink_s = 0)


ROUNDS = 12

def schedule(families, total, shard):
    for r in range(ROUNDS):
        for fam in families:
            n = total[fam[0]]
            for i in range(shard, n, SHARDS):
                if i * ROUNDS // n == r: yield fam[0], fam[1], i


def shard_main(prop, tier, seed, shard, outfile):
    check = load_check(prop)
    t0 = time.time()
    res = dict(evaluations = 0, skipped = {}, families = {}, labels = {}, keys = [], samples = [], violations = [], stopped = False)
    now = os.open(outfile + '.now', os.O_CREAT | os.O_WRONLY)
    wall = check.WALL[tier] if hasattr(check, 'WALL') else (300 if tier == 'quick' else 780)

    # the families take turns, so that a check which runs out of time has tried a part of each
    total, keys, bad = {}, {}, {}
    for fam in check.FAMILIES:
        name, counts = fam[0], fam[2:]
        total[name] = counts[0] if tier == 'quick' else (counts[1] if len(counts) > 1 else counts[0] * 12)
        keys[name], bad[name] = set(), 0
        res['families'][name] = dict(cases = 0, nontrivial = 0, skipped = 0)

    for name, fun, i in schedule(check.FAMILIES, total, shard):
        if bad[name] >= 2: continue
        if sum(bad.values()) >= 4: break
        if time.time() - t0 > wall:
            res['stopped'] = True
            break
        stat = res['families'][name]
        src = Src(case_seed(seed, prop, name, i))
        os.pwrite(now, ('%s:%s' % (name, i)).ljust(60).encode(), 0)
        verdict, x = run_case(fun, src)
        if verdict == 'skip':
            stat['skipped'] += 1
            res['skipped'][x] = res['skipped'].get(x, 0) + 1
            continue
        res['evaluations'] += 1
        stat['cases'] += 1
        if verdict == 'ok':
            for lab in x.labels: res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if x.nontrivial:
                stat['nontrivial'] += 1
                h = hashlib.sha256(repr(x.key).encode('utf8', 'surrogatepass')).hexdigest()[:16]
                if h not in keys[name]:
                    keys[name].add(h)
                    if len(res['samples']) < 40 and sum(s['family'] == name for s in res['samples']) < 1 and shard < 3:
                        res['samples'].append(dict(family = name, case = jsonable(x.sample if x.sample is not None else x.key)))
            continue
        # violation: minimise and save
        bad[name] += 1
        what = x.what

        t1 = time.time()
        def fails(cand):
            if time.time() - t1 > 60: return None
            s = Src(replay = cand)
            v, y = run_case(fun, s)
            return s.rec if v == 'bad' and y.what == what else None

        hang = what.startswith('no termination')
        best = shrink(src.rec, fails, 0 if hang else 800)
        s = Src(replay = best)
        v, y = run_case(fun, s)
        if v != 'bad': best, y = src.rec, x
        res['violations'].append(dict(family = name, what = y.what, detail = jsonable(y.detail), choices = best,
                                      original = src.rec, index = i, shrink_s = round(time.time() - t1, 1)))
    for k in keys.values(): res['keys'] += sorted(k)
    res['wall_s'] = time.time() - t0
    with open(outfile, 'w') as f: json.dump(res, f)


def run_replay(prop, path):
    check = load_check(prop)
    data = json.load(open(path))
    if data['choices'] is None:                     # a case which brings the interpreter down: runs in a process of its own
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', PYTHONUTF8 = '1', PYPY_GC_MAX = '2500MB')
        v = crashed_case(prop, data['seed'], (data['family'], data['index']), env, ROOT)
        print(json.dumps(v, indent = 1) if v else 'holds now')
        if v: print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if v else 0
    fun = {fam[0]: fam[1] for fam in check.FAMILIES}[data['family']]
    verdict, x = run_case(fun, Src(replay = data['choices']))
    if verdict == 'bad':
        print(json.dumps(dict(what = x.what, detail = jsonable(x.detail)), indent = 1, ensure_ascii = True))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('holds now: %s' % verdict)
    return 0


def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == prop]


def main(prop, tier, seed):
    t0 = time.time()
    check = load_check(prop)
    work = tempfile.mkdtemp(prefix = 'hv_%s_' % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', PYTHONUTF8 = '1', PYPY_GC_MAX = '2500MB', HV_WORK = work)
    procs = []
    try:
        for k in range(SHARDS):
            out = os.path.join(work, 'shard%d.json' % k)
            err = open(os.path.join(work, 'shard%d.err' % k), 'w')
            p = subprocess.Popen([PYTHON, os.path.join(ROOT, 'check.py'), prop, '--tier', tier, '--seed', str(seed),
                                  '--shard', str(k), '--out', out], env = env, stdout = err, stderr = err, cwd = work)
            procs.append((k, p, out, err))
        limit = 840 if tier == 'quick' else 3600
        for k, p, out, err in procs:
            try: p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired: p.kill(); p.wait()
        results = []
        for k, p, out, err in procs:
            err.close()
            if p.returncode < 0 and p.returncode != -signal.SIGKILL and os.path.exists(out + '.now'):
                family, i = open(out + '.now').read().split(':')
                v = crashed_case(prop, seed, (family, int(i)), env, work)
                if v:
                    results.append(dict(evaluations = int(i) // SHARDS, skipped = {}, families = {}, labels = {}, keys = [], samples = [],
                                        violations = [v], stopped = True))
                    continue
            if p.returncode != 0 or not os.path.exists(out):
                sys.stderr.write('harness error in shard %d (exit %s):\n%s\n' % (k, p.returncode, open(err.name).read()[-4000:]))
                return 3
            results.append(json.load(open(out)))
    finally:
        for k, p, out, err in procs:
            if p.poll() is None: p.kill()
        shutil.rmtree(work, ignore_errors = True)

    # merge
    fams, labels, skipped, keys, samples, viol = {}, {}, {}, set(), [], []
    evals = 0
    for r in results:
        evals += r['evaluations']
        for n, s in r['families'].items():
            d = fams.setdefault(n, dict(cases = 0, nontrivial = 0, skipped = 0))
            for q in d: d[q] += s[q]
        for n, c in r['labels'].items(): labels[n] = labels.get(n, 0) + c
        for n, c in r['skipped'].items(): skipped[n] = skipped.get(n, 0) + c
        keys.update(r['keys'])
        samples += r['samples']
        viol += r['violations']
    fcount = {}
    picked = []
    for s in samples:
        fcount[s['family']] = fcount.get(s['family'], 0) + 1
        if fcount[s['family']] <= 2: picked.append(s)

    # listed findings are re-run on every check, and only reported
    nknown = 0
    known_bad = []
    for k in known_findings(prop):
        state = check.known(k)                    # 'fails' | 'holds'
        if state == 'fails':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            nknown += 1

    replays = []
    seen = set()
    viol.sort(key = lambda v: len(v['choices'] or ()))
    rdir = os.path.join(ROOT, 'replays')
    for v in viol:
        if (v['family'], v['what']) in seen: continue
        seen.add((v['family'], v['what']))
        os.makedirs(rdir, exist_ok = True)
        path = os.path.join(rdir, '%s_%s_%s.json' % (prop, v['family'], hashlib.sha256(repr(v['choices'] or v['index']).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(dict(property = prop, family = v['family'], what = v['what'], seed = seed, index = v['index'], tier = tier,
                           detail = v['detail'], choices = v['choices'], original = v['original']), f, indent = 1)
        replays.append(path)
        print('%s: %s' % (v['family'], v['what']))
        print(json.dumps(v['detail'], indent = 1, ensure_ascii = True)[:3000])

    rule = check.RULE
    ev = dict(property = prop, tier = tier, seed = seed, level = 'exploration',
              coverage = dict(evaluations = evals, distinct_nontrivial = len(keys), rule = rule, samples = picked,
                              families = fams, labels = dict(sorted(labels.items())), skipped = skipped,
                              stopped_early = any(r['stopped'] for r in results), known_findings = nknown),
              assumptions = getattr(check, 'ASSUMPTIONS', []),
              wall_s = round(time.time() - t0, 2), violations = len(seen))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok = True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent = 1)
    print('%s: %d cases, %d distinct non-trivial, skipped %s, %.1f s' % (prop, evals, len(keys), sum(skipped.values()), time.time() - t0))
    if replays:
        for path in replays: print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if evals == 0 or len(keys) == 0:
        sys.stderr.write('harness error: no cases were generated\n')
        return 3
    return 0
