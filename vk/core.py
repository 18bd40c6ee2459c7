"""Ledger, runner and reporting shared by every check.

A check module defines ``PROPERTY``, ``LEVEL``, ``ASSUMPTIONS``, ``TRUSTED`` and ``build(ctx)``; ``build`` registers *tasks*.
A task runs the real code of /repo (imported from its working tree) and records
  * proof obligations  -- t.obligation(name, functions, goal) with status proved / refuted / unknown   (deductive layer)
  * bounded evaluations -- t.check(cond, ...)                                                          (stand-in layer)
Tasks are distributed statically over forked workers.  Outcomes:
  * Fail raised by t.check            -> violation with the concrete input (replayable)
  * exception raised inside e2cnn     -> violation (a valid request was refused), unless the task expects it
  * refuted obligation                -> t.obligation tries the supplied replay on the real code; without a failing input the
                                         VIOLATION line ends with no-failing-input-found
  * exception raised in the harness, timeout, untranslatable code, solver unknown -> recorded as undecided; never a violation
"""
import json, os, sys, time, traceback, signal, pickle, tempfile, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')


class Fail(Exception):
    def __init__(self, msg, info=None):
        super().__init__(msg)
        self.info = info or {}


class Undecided(Exception):
    """raised by a symbolic engine that cannot translate / decide; never a violation"""


class Timeout(BaseException):
    pass


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # pragma: no cover
        s = '<unreprable %s>' % type(e).__name__
    s = re.sub(r'\s+', ' ', s)
    return s if len(s) <= n else s[:n] + '...'


def in_repo_tb(tb):
    """innermost frame that belongs to e2cnn comes after the last harness frame?"""
    last = None
    for fr, _ in traceback.walk_tb(tb):
        f = os.path.abspath(fr.f_code.co_filename)
        if f.startswith(VERIF + os.sep):
            last = 'verif'
        elif f.startswith(os.path.join(REPO, 'e2cnn') + os.sep):
            last = 'repo'
    return last == 'repo'


def own_name(n):
    """n (possibly qualified) names a class or function of the harness and nothing of e2cnn"""
    n = n.split('.')[0]
    own = False
    for k, m in list(sys.modules.items()):
        if m is None: continue
        if k.split('.')[0] == 'e2cnn' and hasattr(m, n): return False
        if k.split('.')[0] in ('vk', 'checks'):
            if hasattr(m, n): own = True
    return own


def repo_fault(e):
    """the exception was raised by the code under test, and not because an object of the harness lacks something the code may ask of the real one"""
    if not in_repo_tb(e.__traceback__): return False
    if isinstance(e, (AttributeError, TypeError, NotImplementedError)):
        o = getattr(e, 'obj', None)
        if o is not None:
            c = o if isinstance(o, type) else type(o)
            if (c.__module__ or '').split('.')[0] in ('vk', 'checks'): return False
        if '<locals>' in str(e) and any(own_name(m) for m in re.findall(r"([\w.<>]+)\(\)", str(e))): return False
        if any(own_name(m) for m in re.findall(r"'(\w+)'", str(e)) + re.findall(r'(\w[\w.]*)\(\)', str(e))): return False
    return True


class T:
    """per-task recorder"""

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        self.evals = 0
        self.nontrivial = 0
        self.obls = []        # dicts
        self.violations = []  # dicts
        self.undecided = []
        self.samples = []
        self.functions = set()
        self.notes = []
        self._ctx = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rng(self, *key):
        import numpy as np
        h = hashlib.sha256(repr((self.name, self.seed) + key).encode()).digest()
        return np.random.RandomState(int.from_bytes(h[:4], 'little'))

    def at(self, **kw):
        """record the input being exercised (shown in the replay)"""
        self._ctx = {k: short(v, 300) for k, v in kw.items()}
        return self

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(short(s, 300))

    def check(self, cond, msg='', **info):
        self.evals += 1
        try:
            ok = bool(cond)
        except Exception as e:
            raise Fail(msg + ' [condition not evaluable: %r]' % e, self._ctx)
        if not ok:
            d = dict(self._ctx)
            d.update({k: short(v) for k, v in info.items()})
            raise Fail(msg, d)

    def close(self, a, b, msg='', tol=1e-6, **info):
        """arrays/tensors equal up to tol (absolute + relative); NaN/inf never equal unless both"""
        import numpy as np
        self.evals += 1
        a = tonp(a); b = tonp(b)
        d = dict(self._ctx)
        d.update({k: short(v) for k, v in info.items()})
        if a.shape != b.shape:
            d['shapes'] = '%r vs %r' % (a.shape, b.shape)
            raise Fail(msg + ' (shape mismatch)', d)
        if a.size == 0:
            return
        with np.errstate(all='ignore'):
            same = (a == b) | (np.isnan(a) & np.isnan(b) if np.issubdtype(a.dtype, np.floating) and np.issubdtype(b.dtype, np.floating) else False)
            err = np.where(same, 0., np.abs(a - b))
            lim = tol * (1. + np.maximum(np.abs(a), np.abs(b)))
            bad = ~(err <= lim)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err), -1))), a.shape)
            d['max_error'] = '%.3g at %s: got %r expected %r' % (err[i], i, float(a[i]), float(b[i]))
            raise Fail(msg, d)

    def raises(self, fn, msg='', exc=Exception):
        """the call must be rejected with an exception"""
        self.evals += 1
        try:
            r = fn()
        except exc:
            return
        raise Fail(msg + ' (accepted, returned %s)' % short(r, 120), dict(self._ctx))

    # ---- deductive layer
    def proved(self, name, functions=(), backend='z3', seconds=0., n=1):
        self.obls.append(dict(name=name, status='proved', backend=backend, s=round(seconds, 4), n=n, functions=list(functions)))
        self.functions.update(functions)

    def undischarged(self, name, reason, functions=()):
        self.obls.append(dict(name=name, status='unknown', reason=short(reason, 700), n=1, functions=list(functions)))

    def refuted(self, name, model, replay=None, functions=(), backend='z3'):
        """obligation has a counter-model.  replay() must raise Fail on the real code if the input really fails."""
        self.obls.append(dict(name=name, status='refuted', backend=backend, model=short(model, 600), n=1, functions=list(functions)))
        if replay is not None:
            try:
                replay()
            except Fail as e:
                raise Fail('obligation %s fails: %s' % (name, e), dict(e.info, model=short(model, 600), obligation=name))
            except Undecided: pass
        f = Fail('obligation %s is refuted' % name, dict(model=short(model, 600), obligation=name))
        f.noinput = True
        raise f


def tonp(a):
    import numpy as np
    if hasattr(a, 'detach'):
        a = a.detach().cpu().numpy()
    a = np.asarray(a)
    if a.dtype == bool:
        a = a.astype(int)
    return a


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tasks = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def task(self, name, kind='bounded', timeout=200, expect=None):
        def deco(fn):
            assert all(n != name for n, *_ in self.tasks), 'duplicate task ' + name
            self.tasks.append((name, kind, fn, timeout))
            return fn
        return deco

    def cases(self, prefix, items, fn, key=str, kind='bounded', timeout=200):
        for it in items:
            self.task('%s[%s]' % (prefix, key(it)), kind, timeout)(lambda t, it=it: fn(t, it))


def run_task(name, kind, fn, timeout, tier, seed):
    import warnings
    t = T(name, tier, seed)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
    signal.alarm(timeout * (4 if tier == 'thorough' else 1))
    status = 'ok'
    try:
        import numpy as np, torch, random
        h = int.from_bytes(hashlib.sha256(('%s|%d' % (name, seed)).encode()).digest()[:4], 'little')
        np.random.seed(h); torch.manual_seed(h); random.seed(h)
        import contextlib, io
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            fn(t)
    except Fail as e:
        status = 'violation'
        t.violations.append(dict(case=name, message=str(e), info=e.info, noinput=bool(getattr(e, 'noinput', False)), tb=traceback.format_exc()[-3000:]))
    except Undecided as e:
        status = 'undecided'
        t.undecided.append('%s: %s' % (name, short(str(e), 300)))
    except Timeout:
        status = 'timeout'
        t.undecided.append('%s: timeout after %ds' % (name, timeout))
    except MemoryError:
        status = 'undecided'
        t.undecided.append('%s: out of memory' % name)
    except Exception as e:
        tb = traceback.format_exc()
        if repo_fault(e):
            status = 'violation'
            t.violations.append(dict(case=name, message='valid request raised %s: %s' % (type(e).__name__, short(str(e), 200)), info=dict(t._ctx), noinput=False, tb=tb[-3000:]))
        else:
            status = 'harness-error'
            t.undecided.append('%s: harness error %s' % (name, short(tb[-600:], 600)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(name=name, kind=kind, status=status, evals=t.evals, obls=t.obls, violations=t.violations, undecided=t.undecided,
                samples=t.samples, functions=sorted(t.functions), notes=t.notes, s=time.time() - t0)


def isolated(fn, *a):
    """fn(*a) evaluated in a forked copy of this process; its (picklable) result, or the exception it raised"""
    d = tempfile.mkdtemp(prefix='vki_')
    p = os.path.join(d, 'r')
    try:
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                try: r = (True, fn(*a))
                except Exception as e: r = (False, (e, repo_fault(e), traceback.format_exc()[-1500:]))
                with open(p, 'wb') as f: pickle.dump(r, f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        if not os.path.exists(p) or not os.path.getsize(p): raise Undecided('isolated process died')
        with open(p, 'rb') as f: ok, r = pickle.load(f)
        if ok: return r
        e, repo, tb = r
        if repo: raise Fail('valid request raised %s: %s' % (type(e).__name__, short(str(e), 200)), dict(traceback=tb))
        raise e
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)


def _worker(tasks, tier, seed, path, isolate=False):
    out = []
    try:
        for tk in tasks:
            out.append(isolated(run_task, *tk, tier, seed) if isolate else run_task(*tk, tier, seed))
            with open(path + '.tmp', 'wb') as f:
                pickle.dump(out, f)
            os.replace(path + '.tmp', path)
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(0)


def run_tasks(tasks, tier, seed, jobs, isolate=False):
    """static round-robin over forked workers"""
    jobs = max(1, min(jobs, len(tasks)))
    if jobs == 1:
        return [run_task(*tk, tier, seed) for tk in tasks], []
    d = tempfile.mkdtemp(prefix='vk_')
    pids = []
    try:
        for w in range(jobs):
            mine = tasks[w::jobs]
            p = os.path.join(d, 'w%d' % w)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                _worker(mine, tier, seed, p, isolate)
            pids.append((pid, p, [m[0] for m in mine]))
        res, lost = [], []
        for pid, p, names in pids:
            os.waitpid(pid, 0)
            got = []
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    got = pickle.load(f)
            res += got
            lost += names[len(got):]
        order = {tk[0]: i for i, tk in enumerate(tasks)}
        res.sort(key=lambda r: order[r['name']])
        return res, lost
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default=None, help='run only the tasks whose name contains this text')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VK_JOBS', '8')))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    import torch
    torch.set_num_threads(1)
    prop = mod.PROPERTY
    ctx = Ctx(prop, tier, seed)
    pre = None
    try:
        import e2cnn, e2cnn.nn
        where = os.path.abspath(e2cnn.__file__)
        assert where.startswith(REPO + os.sep), 'e2cnn imported from %s' % where
        mod.build(ctx)
    except Exception as e:
        # the configurations are built with the library itself: an exception inside it while listing them is a violation
        if isinstance(e, (SyntaxError, ImportError)) or not repo_fault(e): raise
        tb = traceback.format_exc()
        pre = dict(name='build', kind='bounded', status='violation', evals=1, obls=[], undecided=[], samples=[], functions=[], notes=[], s=0.,
                   violations=[dict(case='build', message='valid request raised %s: %s' % (type(e).__name__, short(str(e), 200)), info={}, noinput=False, tb=tb[-3000:])])
    tasks = ctx.tasks
    if a.only:
        tasks = [t for t in tasks if a.only in t[0]]
    if a.list:
        for t in tasks: print(t[0])
        return 0
    res, lost = run_tasks(tasks, tier, seed, a.jobs, getattr(mod, 'ISOLATE', False)) if tasks else ([], [])
    if pre: res.append(pre)
    known = load_known(prop)
    viol, knownhits = [], []
    for r in res:
        for v in r['violations']:
            hit = None
            for k in known:
                if k['status'] == 'open' and k['case'] == v['case'] and re.search(k.get('match', ''), v['message']):
                    hit = k
            (knownhits if hit else viol).append((v, hit))
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    lines = []
    for i, (v, _) in enumerate(viol):
        p = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(p, 'w') as f:
            json.dump(dict(property=prop, obligation=v['case'], message=v['message'], input=v['info'], traceback=v['tb'],
                           reproduce='cd %s && ./run.sh %s --only %r' % (VERIF, prop, v['case'])), f, indent=1)
        lines.append(('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if v['noinput'] else ''), v))
    obls = [o for r in res for o in r['obls']]
    n = lambda st: sum(o['n'] for o in obls if o['status'] == st)
    total = sum(o['n'] for o in obls)
    evals = sum(r['evals'] for r in res)
    und = [u for r in res for u in r['undecided']] + ['lost: ' + x for x in lost]
    backends = {}
    for o in obls:
        if o['status'] == 'proved':
            backends.setdefault(o['backend'], [0, 0.]); backends[o['backend']][0] += o['n']; backends[o['backend']][1] += o['s']
    samples = [s for r in res for s in r['samples']][:6]
    if not samples:
        samples = [r['name'] for r in res[:5]]
    cov = dict(obligations=total, discharged=n('proved'), checker_cmd='./run.sh %s' % prop,
               trusted_base=list(getattr(mod, 'TRUSTED', [])),
               functions_under_contract=sorted({f for r in res for f in r['functions']}),
               by_backend={k: dict(obligations=v[0], seconds=round(v[1], 2)) for k, v in backends.items()},
               undischarged=[dict(name=o['name'], reason=o.get('reason', '')) for o in obls if o['status'] != 'proved'][:40],
               bounded_standins=dict(label='bounded, not counted as proved', tasks=sum(r['kind'] == 'bounded' for r in res),
                                     bound=getattr(mod, 'BOUND', ''), evaluations=evals),
               evaluations=evals, distinct_nontrivial=sum(1 for r in res if r['evals'] or r['obls']),
               rule='one task = one configuration of the real code; non-trivial = it evaluated at least one contract clause on it',
               samples=samples, tasks=len(res), undecided=und[:60], undecided_count=len(und),
               explanation=getattr(mod, 'EXPLANATION', ''))
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL if total else 'exploration', coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol), known_findings=len(knownhits))
    if not a.only:
        with open(os.path.join(EVID, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for v, k in knownhits:
        print('KNOWN-FINDING: property=%s %s -- %s' % (prop, v['case'], k['what']))
    for l, v in lines[:12]:
        print(l)
        print('   %s: %s %s' % (v['case'], v['message'], short(json.dumps(v['info']), 500)))
    print('%s: %d tasks, %d obligations (%d discharged), %d bounded evaluations, %d undecided, %d violations, %d known, %.1fs'
          % (prop, len(res), total, n('proved'), evals, len(und), len(viol), len(knownhits), time.time() - t0))
    if a.v or n('unknown'):
        for o in [o for o in obls if o['status'] == 'unknown'][:15]: print('  undischarged: %s: %s' % (o['name'], short(o['reason'], 500 if a.v else 160)))
    if a.v or und:
        for u in und[:15]:
            print('  undecided:', u)
    if a.v:
        for r in sorted(res, key=lambda r: -r['s'])[:12]:
            print('  %.1fs %s %s' % (r['s'], r['name'], r['status']))
    if lines:
        return 1
    if not a.only and (evals == 0 and total == 0):
        print('no contract was evaluated: vacuous run')
        return 3
    return 0
