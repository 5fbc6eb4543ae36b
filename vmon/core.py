"""
Monitoring core: seeded case generation, execution under watch, verdicts, evidence, replay.

A *property* owns a set of *case kinds*.  A case is one execution (or one short history of
operations) of the real code in /repo, driven by a generator seeded from
(VERIF_SEED, property, kind, index); while it runs, monitors compare every observed event with
an independent oracle.  Three verdicts: violated (exit 1 + VIOLATION line + replay file), held on
what was observed (exit 0), inconclusive (exit 3: monitor not reached, harness error, watchdog).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

REGISTRY = collections.OrderedDict()   # property id -> {kind: Kind}


class Kind:
    def __init__(self, fn, quick, thorough, needs):
        self.fn, self.n, self.needs = fn, {'quick': quick, 'thorough': thorough}, needs
        self.name = fn.__name__


def case(pid, quick, thorough, needs=()):
    """register a case generator; needs = event names which must have been observed at least once"""
    def deco(fn):
        REGISTRY.setdefault(pid, collections.OrderedDict())[fn.__name__] = Kind(fn, quick, thorough, needs)
        return fn
    return deco


class Violation(Exception):
    pass


class Skip(Exception):
    """case out of domain (counted, not judged)"""


class Inconclusive(Exception):
    pass


class CpuBudget(BaseException):
    pass


class Monitor:
    """what one worker observed"""

    def __init__(self):
        self.events = collections.Counter()
        self.sigs = set()
        self.evaluations = 0
        self.nontrivial = 0
        self.skipped = 0
        self.samples = {}
        self.violations = []
        self.errors = []
        self._cur = None
        self._nt = False
        self.maxrel = {}

    # ---- recording -------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *key):
        """a distinct non-trivial situation was observed"""
        self._nt = True
        self.sigs.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, obj):
        k = self._cur[0]
        if k not in self.samples:
            self.samples[k] = obj

    def note(self, **kw):
        """describe the current case (written in replay file)"""
        self._desc.update(kw)

    # ---- judging ---------------------------------------------------------------------------
    def fail(self, mech, msg):
        self._record(mech, msg)
        raise Violation(mech)

    def _record(self, mech, msg):
        self.violations.append(dict(kind=self._cur[0], index=self._cur[1], mechanism=mech, message=str(msg)[:3000],
                                    case={k: _short(v) for k, v in self._desc.items()}))

    def check(self, ok, mech, msg=''):
        self.events['oracle:' + mech] += 1
        if not ok:
            self.fail(mech, msg() if callable(msg) else msg)

    def close(self, got, want, mech, rtol=1e-9, atol=0., msg=''):
        """element-wise closeness, shapes included"""
        self.events['oracle:' + mech] += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(mech, f'{msg} shape {g.shape} != expected {w.shape}: got {_short(got)} expected {_short(want)}')
        with np.errstate(all='ignore'):
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = np.argwhere(~np.atleast_1d(ok))[0]
            self.fail(mech, f'{msg} at {i.tolist()}: got {np.atleast_1d(g)[tuple(i)]!r} expected '
                            f'{np.atleast_1d(w)[tuple(i)]!r}; got {_short(got)} expected {_short(want)}')

    def call(self, fn, *a, mech='crash', **kw):
        """code under test on input within its domain: any exception is a violation"""
        self.events['calls'] += 1
        try:
            return fn(*a, **kw)
        except (Violation, CpuBudget, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            self.fail(mech, f'{getattr(fn, "__qualname__", fn)} raised {type(e).__name__}: {e}\n'
                            + ''.join(traceback.format_exception(e)[-6:]))


def _short(v, n=1500):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def rng_for(seed, pid, kind, i):
    h = int.from_bytes(hashlib.blake2b(f'{pid}/{kind}'.encode(), digest_size=8).digest(), 'little')
    return np.random.Generator(np.random.PCG64([seed & 0xffffffff, h, i]))


# ---- scratch ------------------------------------------------------------------------------------
SCRATCH = None


@contextlib.contextmanager
def scratch():
    """fresh current directory, removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(dir=SCRATCH, prefix='c')
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """capture stdout/stderr of code under test"""
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e


# ---- execution ----------------------------------------------------------------------------------
CPU_BUDGET = 60.  # CPU seconds per case: typical cases take < 1


def _run_cases(pid, todo, seed, tier, deadline):
    m = Monitor()
    kinds = REGISTRY[pid]

    over = []

    def on_cpu(*_):
        over.append(1)  # code under test may swallow the exception
        raise CpuBudget()
    signal.signal(signal.SIGVTALRM, on_cpu)
    done = 0
    for kind, i in todo:
        if time.monotonic() > deadline:
            m.events['stopped_by_budget'] += len(todo) - done
            break
        m._cur, m._desc, m._nt = (kind, i), {}, False
        rng = rng_for(seed, pid, kind, i)
        over.clear()
        nv = len(m.violations)
        m.evaluations += 1
        done += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET)
        cwd = os.getcwd()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                kinds[kind].fn(m, rng)
            m.events['cases:' + kind] += 1
        except Violation:
            m.events['cases:' + kind] += 1
        except Skip:
            m.skipped += 1
        except Inconclusive as e:
            m.errors.append(f'{kind}[{i}] inconclusive: {e}')
        except CpuBudget:
            over.append(1)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            # result of the code under test has not the form its interface promises
            tb = ''.join(traceback.format_exception(e)[-8:])
            m._record('malformed-result', f'{type(e).__name__}: {e}\n{tb}')
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.chdir(cwd)
        if over:
            del m.violations[nv:]
            m._record('no-progress', f'case used {CPU_BUDGET} s of CPU (typical: below 1 s) without finishing')
        m.nontrivial += m._nt
        if m.violations and m.violations[-1]['mechanism'] == 'no-progress':
            break
        if len({v['mechanism'] for v in m.violations}) >= 6 or len(m.violations) >= 40:
            m.events['stopped_after_violations'] += 1
            break
    return m


def _worker(pid, todo, seed, tier, deadline, path):
    try:
        m = _run_cases(pid, todo, seed, tier, deadline)
    except BaseException:
        m = Monitor()
        m.errors.append('worker failed: ' + traceback.format_exc()[-3000:])
    with open(path, 'wb') as f:
        d = dict(m.__dict__)
        d.pop('_desc', None)
        pickle.dump(d, f)


def _merge(ms):
    r = Monitor()
    for m in ms:
        r.events.update(m['events'])
        r.sigs |= m['sigs']
        r.evaluations += m['evaluations']
        r.nontrivial += m['nontrivial']
        r.skipped += m['skipped']
        for k, v in m['samples'].items():
            r.samples.setdefault(k, v)
        r.violations += m['violations']
        r.errors += m['errors']
    return r


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def adopt_orphans():
    """processes left behind by a killed or failed case become children of this one"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass


def end_descendants():
    for _ in range(20):
        kids = collections.defaultdict(list)
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    with open(f'/proc/{d}/stat') as f:
                        kids[int(f.read().rsplit(')', 1)[1].split()[1])].append(int(d))
                except (OSError, IndexError, ValueError):
                    pass
        todo, L = [os.getpid()], []
        while todo:
            k = kids.get(todo.pop(), [])
            L += k
            todo += k
        for p in L:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            return
        if not L:
            return
        time.sleep(.05)


def main(pid, replay=None, meta=None):
    global SCRATCH
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    SCRATCH = tempfile.mkdtemp(prefix=f'vmon-{pid}-')
    os.makedirs(EVID, exist_ok=True)
    mpl = os.path.join(SCRATCH, 'mpl')
    shutil.copytree('/opt/mplconfig', mpl) if os.path.isdir('/opt/mplconfig') else os.makedirs(mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = SCRATCH
    parent = os.getpid()
    adopt_orphans()
    try:
        return _main(pid, tier, seed, replay, meta, t0)
    finally:
        if os.getpid() == parent:
            end_descendants()
            shutil.rmtree(SCRATCH, ignore_errors=True)


def _main(pid, tier, seed, replay, meta, t0):
    os.chdir(SCRATCH)
    try:
        import craterstats
        src = os.path.dirname(os.path.abspath(craterstats.__file__))
        if not src.startswith(os.path.join(REPO, 'src')):
            print(f'craterstats imported from {src}')
            return 3
        importlib.import_module(meta['module'])
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: package or monitors cannot be imported')
        return 3

    kinds = REGISTRY[pid]
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier = r['seed'], r['tier']
        todo = [(r['kind'], r['index'])]
        nw = 1
    else:
        todo = [(k.name, i) for k in kinds.values() for i in range(k.n[tier])]
        np.random.Generator(np.random.PCG64(seed & 0xffffffff)).shuffle(todo)  # kinds interleaved: a budget stop is fair
        nw = min(int(os.environ.get('VMON_JOBS', '8')), os.cpu_count() or 1, len(todo))
    limit = float(os.environ.get('VMON_WALL', '780' if tier == 'quick' else '7200'))
    deadline = t0 + limit

    if nw == 1:
        ms = [_run_cases(pid, todo, seed, tier, deadline).__dict__]
    else:
        paths, pids = [], []
        sys.stdout.flush()
        for w in range(nw):
            path = os.path.join(SCRATCH, f'w{w}.pkl')
            chunk = todo[w::nw]
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    d = os.path.join(SCRATCH, f'wd{w}')
                    os.makedirs(d)
                    os.chdir(d)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)    # nothing left behind by a case holds the output open
                    if not os.environ.get('VMON_STDERR'):
                        os.dup2(null, 2)
                    _worker(pid, chunk, seed, tier, deadline, path)
                except BaseException:
                    traceback.print_exc()
                    code = 9
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            paths.append(path)
            pids.append(p)
        end = deadline + 100
        waiting = dict(zip(pids, paths))
        lost = []
        while waiting:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                if time.monotonic() > end:
                    for q in waiting:
                        os.kill(q, signal.SIGKILL)
                        os.waitpid(q, 0)
                    lost += list(waiting.values())
                    break
                time.sleep(.02)
                continue
            if p in waiting:
                path = waiting.pop(p)
                if st != 0:
                    lost.append(path)
        ms = []
        for path in paths:
            try:
                with open(path, 'rb') as f:
                    ms.append(pickle.load(f))
            except Exception:
                x = Monitor().__dict__
                x['errors'] = [f'worker result {os.path.basename(path)} missing']
                ms.append(x)
    m = _merge(ms)

    # ---- verdict --------------------------------------------------------------------------------
    known = [k for k in load_known() if k['property'] == pid and k['status'] == 'known']
    kmech = {k['mechanism']: k for k in known}
    if not replay:
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    fresh = [v for v in m.violations if v['mechanism'] not in kmech]
    m.events['known_finding_hits'] += len(m.violations) - len(fresh)

    by = collections.OrderedDict()
    for v in sorted(fresh, key=lambda v: (v['kind'], v['index'])):
        by.setdefault(v['mechanism'], v)
    rdir = os.path.join(EVID, 'replay')
    if by:
        os.makedirs(rdir, exist_ok=True)
    for n, (mech, v) in enumerate(by.items()):
        path = os.path.join(rdir, f'{pid}-{n}.json') if not replay else replay
        if not replay:
            with open(path, 'w') as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1)
        print(f"  mechanism={mech} kind={v['kind']} index={v['index']} "
              f"count={sum(x['mechanism'] == mech for x in fresh)}\n    " + v['message'].replace('\n', '\n    ')[:2500])
        print(f'VIOLATION property={pid} replay={path}')

    inconclusive = list(dict.fromkeys(m.errors))
    if not replay and not by:
        for k in kinds.values():
            if k.n[tier] and not m.events['cases:' + k.name]:
                inconclusive.append(f'kind {k.name} never completed')
            for e in k.needs:
                if not m.events[e]:
                    inconclusive.append(f'event {e} never observed')
    rule = meta['rule']
    if not replay:
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=m.evaluations, distinct_nontrivial=len(m.sigs), rule=rule,
                                samples=[dict(kind=k, case=json.loads(json.dumps(v, default=_short))) for k, v in
                                         m.samples.items()],
                                nontrivial_cases=m.nontrivial, skipped_out_of_domain=m.skipped,
                                cases_by_kind={k: m.events['cases:' + k] for k in kinds},
                                oracle_comparisons=sum(v for k, v in m.events.items() if k.startswith('oracle:')),
                                events={k: v for k, v in sorted(m.events.items()) if not k.startswith('cases:')},
                                inconclusive=inconclusive[:20], workers=nw),
                  assumptions=meta.get('assumptions', []),
                  wall_s=round(time.monotonic() - t0, 2), violations=len(fresh))
        tmp = os.path.join(EVID, f'.{pid}.json.{os.getpid()}')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, f'{pid}.json'))
    print(f'{pid} {tier} seed={seed}: {m.evaluations} cases, {len(m.sigs)} distinct non-trivial, '
          f"{sum(v for k, v in m.events.items() if k.startswith('oracle:'))} oracle comparisons, "
          f'{m.skipped} skipped, {len(fresh)} violations, {time.monotonic() - t0:.1f} s')
    if by:
        return 1
    if inconclusive:
        for e in inconclusive[:10]:
            print('INCONCLUSIVE: ' + e)
        return 3
    return 0
