"""Boundary monitors: recorders around the public operations and the run loop of a check."""
import argparse
import contextlib
import hashlib
import importlib
import inspect
import io
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from . import gen  # noqa: E402
from .defaults import DEFAULTS  # noqa: E402
from .snap import diff, digest, snap  # noqa: E402

FUNCS = [
    'disaggregate_wind', 'fit_cosine_function', 'disaggregate_humidity', 'calculate_dewpoint_regression',
    'calculate_month_hour_precip_mean', 'disaggregate_temperature', 'get_shift_by_data', 'disagg_prec',
    'disagg_prec_cascade', 'precip_master_station', 'aggregate_precipitation', 'seasonal_subset', 'build_casc',
    'sub_level_index', 'fmin_index', 'disaggregate_radiation', 'potential_radiation', 'bristow_campbell',
    'fit_bristow_campbell_params', 'angstroem', 'fit_angstroem_params', 'read_smet', 'write_smet', 'read_dwd',
    'read_single_knmi_file', 'read_knmi_dataset', 'distribute_equally',
]
UTIL_FUNCS = [
    'hourly_index', 'distribute_equally', 'vapor_pressure', 'dewpoint_temperature', 'linregress', 'get_sun_times',
    'detect_gaps', 'drop_incomplete_days', 'prepare_interpolation_data', 'daily_from_hourly',
    'calculate_mean_daily_course_by_month',
]
STATION = ['disaggregate_wind', 'disaggregate_humidity', 'disaggregate_temperature', 'disaggregate_precipitation',
           'disaggregate_radiation', 'interpolate', 'calc_sun_times']
STATISTICS = ['calc_precipitation_stats', 'calc_wind_stats', 'calc_humidity_stats', 'calc_temperature_stats',
              'calc_radiation_stats', 'to_json', 'from_json']


class CaseAbort(BaseException):
    """Ends the current case after a violation was recorded."""


class HarnessError(Exception):
    pass


class Event:
    __slots__ = ('seq', 'fn', 'args', 'live', 'result', 'exc', 'before', 'after', 'recv', 'rng_before', 'rng_after')

    def __repr__(self):
        return 'Event(%d, %s)' % (self.seq, self.fn)


def rng_digest():
    s = np.random.get_state()
    return hashlib.blake2b(s[1].tobytes() + repr(s[2:]).encode(), digest_size=10).hexdigest()


class Monitor:
    """Collects events, evaluates the oracles of one property and counts what was observed."""

    def __init__(self, prop, known=()):
        self.prop = prop
        self.oracles = getattr(prop, 'ORACLES', {})
        self.every = getattr(prop, 'EVERY', None)
        self.seq = 0
        self.depth = 0
        self.paused = 0
        self.expect = 0
        self.track_rng = getattr(prop, 'TRACK_RNG', False)
        self.deep = getattr(prop, 'SNAPSHOT', True)
        self.events = {}
        self.nested = 0
        self.tags = {}
        self.evaluations = 0
        self.distinct = set()
        self.violations = []
        self.known = known
        self.known_hits = {}
        self.samples = []
        self.case = None
        self.last = None

    # --- counters -----------------------------------------------------------------------------
    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def judged(self, key, nontrivial=True, n=1, sample=None):
        """One oracle evaluation on an input with this key."""
        self.evaluations += n
        if nontrivial:
            d = key if isinstance(key, str) and len(key) == 20 else digest(key)
            if d not in self.distinct:
                self.distinct.add(d)
                if len(self.samples) < 6 and sample is not None:
                    self.samples.append(sample)

    # --- verdicts -----------------------------------------------------------------------------
    def fail(self, msg, key=None, **detail):
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            raise CaseAbort()
        self.violations.append(dict(case=self.case, event=self.last.seq if self.last else None,
                                    fn=self.last.fn if self.last else None, message=str(msg)[:2000],
                                    detail={k: _text(v) for k, v in detail.items()}))
        raise CaseAbort()

    def check(self, cond, msg, **detail):
        if not bool(cond):
            self.fail(msg, **detail)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-9, index=None, **detail):
        """Elementwise comparison, missing values having to agree."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail('%s: shape %r instead of %r' % (msg, got.shape, want.shape), **detail)
        with np.errstate(all='ignore'):
            ok = (np.isnan(got) & np.isnan(want)) | (got == want) | (np.abs(got - want) <= atol + rtol * np.abs(want))
        if not ok.all():
            i = int(np.flatnonzero(~ok.ravel())[0])
            where = ' at %s' % (index[i],) if index is not None and len(index) == got.size else ' at position %d' % i
            self.fail('%s: got %r, expected %r%s (%d of %d differ)' % (
                msg, float(got.ravel()[i]), float(want.ravel()[i]), where, int((~ok).sum()), got.size), **detail)

    @contextlib.contextmanager
    def refused(self):
        """Calls inside are expected to raise."""
        self.expect += 1
        try:
            yield
        finally:
            self.expect -= 1

    @contextlib.contextmanager
    def silent(self):
        """Calls inside are recorded but not judged by the oracles of the property."""
        self.paused += 1
        try:
            yield
        finally:
            self.paused -= 1

    def _state(self, recv):
        if recv is None or not self.deep:
            return None
        try:
            return snap(recv)
        except AttributeError:  # object under construction
            return None

    # --- recording ----------------------------------------------------------------------------
    def call(self, fn, sig, name, args, kwargs, recv=None):
        if self.depth:
            self.nested += 1
            return fn(*args, **kwargs)
        ev = Event()
        ev.seq = self.seq
        self.seq += 1
        ev.fn = name
        ev.recv = recv
        try:
            b = sig.bind(*args, **kwargs)
            known = DEFAULTS.get(name, {})
            if ev.seq % 2:
                # leaving out an argument that has its documented default must not matter
                for k in [k for k, v in b.arguments.items() if k in known and type(v) is type(known[k]) and v == known[k]]:
                    del b.arguments[k]
                args, kwargs = b.args, b.kwargs
            given = set(b.arguments)
            b.apply_defaults()
            live = {k: known[k] if k in known and k not in given else v for k, v in b.arguments.items()}
        except TypeError:
            live = dict(enumerate(args), **kwargs)
        live.pop('self', None)
        live.pop('cls', None)
        ev.live = live
        ev.args = snap(live) if self.deep else live
        ev.before = self._state(recv)
        ev.after = None
        ev.result = ev.exc = None
        ev.rng_before = rng_digest() if self.track_rng else None
        ev.rng_after = None
        self.events[name] = self.events.get(name, 0) + 1
        self.last = ev
        self.depth += 1
        try:
            ev.result = fn(*args, **kwargs)
        except CaseAbort:
            raise
        except Exception as e:  # noqa: BLE001
            ev.exc = e
        finally:
            self.depth -= 1
        self.depth += 1  # oracles may use public objects without being recorded
        try:
            if self.track_rng:
                ev.rng_after = rng_digest()
            ev.after = self._state(recv)
            if ev.exc is not None and not self.expect:
                tb = traceback.extract_tb(ev.exc.__traceback__)
                where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
                self.fail('%s raised %s: %s (%s)' % (name, type(ev.exc).__name__, ev.exc, where), args=live)
            if not self.paused:
                try:
                    if self.every is not None:
                        self.every(ev, self)
                    if ev.exc is None and name in self.oracles:
                        self.oracles[name](ev, self)
                except HarnessError:
                    raise
                except Exception:  # noqa: BLE001
                    self.fail('outcome of %s could not be interpreted: %s' % (name, traceback.format_exc()[-1500:]), args=live)
        finally:
            self.depth -= 1
        if ev.exc is not None:
            raise ev.exc
        return ev.result


def _text(v):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        with pd.option_context('display.max_rows', 60, 'display.max_columns', 20, 'display.width', 200):
            return repr(v)[:6000]
    if isinstance(v, dict):
        return {str(k): _text(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:3000]


CURRENT = [None]


def _wrap(fn, name, recv=False):
    sig = inspect.signature(fn)
    if recv:
        def wrapper(self, *args, **kwargs):
            m = CURRENT[0]
            if m is None:
                return fn(self, *args, **kwargs)
            return m.call(fn, sig, name, (self,) + args, kwargs, recv=self)
    else:
        def wrapper(*args, **kwargs):
            m = CURRENT[0]
            if m is None:
                return fn(*args, **kwargs)
            return m.call(fn, sig, name, args, kwargs)
    wrapper.__name__ = getattr(fn, '__name__', name)
    wrapper.__doc__ = fn.__doc__
    wrapper.__wrapped__ = fn
    return wrapper


def install():
    """Imports the package from the repository and puts the recorders around its public operations."""
    sys.path.insert(0, REPO)
    # never use stale byte code of the package (that of the installed libraries is fine)
    prefix, sys.pycache_prefix = sys.pycache_prefix, os.path.join(VERIF, 'replays', 'no-bytecode')
    import melodist
    import melodist.util

    if not os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('melodist imported from %s' % melodist.__file__)
    sys.pycache_prefix = prefix
    util = melodist.util
    wrapped = {}
    missing = []
    for ns, names in ((melodist, FUNCS), (util, UTIL_FUNCS)):
        for n in names:
            f = getattr(ns, n, None)
            if f is None:
                missing.append(n)
                continue
            w = wrapped.get(n) or _wrap(f, n)
            wrapped[n] = w
            setattr(ns, n, w)
    for cls, names in ((melodist.Station, STATION), (melodist.StationStatistics, STATISTICS)):
        for n in names:
            f = inspect.getattr_static(cls, n, None)
            if f is None:
                missing.append(n)
            elif isinstance(f, classmethod):
                inner = f.__func__
                sig = inspect.signature(inner)

                def cm(c, *args, _inner=inner, _sig=sig, _name=cls.__name__ + '.' + n, **kwargs):
                    m = CURRENT[0]
                    if m is None:
                        return _inner(c, *args, **kwargs)
                    return m.call(_inner, _sig, _name, (c,) + args, kwargs)
                setattr(cls, n, classmethod(cm))
            else:
                setattr(cls, n, _wrap(f, cls.__name__ + '.' + n, recv=True))
    for cls, names in ((melodist.Station, ['data_daily', 'lon', 'lat', 'timezone', 'statistics']),
                       (melodist.StationStatistics, ['data'])):
        for n in names:
            pr = inspect.getattr_static(cls, n, None)
            if isinstance(pr, property) and pr.fset is not None:
                setattr(cls, n, property(pr.fget, _wrap(pr.fset, '%s.%s=' % (cls.__name__, n), recv=True), pr.fdel, pr.__doc__))
    return melodist


# --- running ---------------------------------------------------------------------------------------


def load_known(pid):
    """Keys of the findings of this property that are recorded and not repaired."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding:'):
                    w = line.split(None, 3)
                    if w[1] == 'property=' + pid and w[2].startswith('key='):
                        known[w[2][4:]] = w[3].strip() if len(w) > 3 else ''
    return known


def case_seed(pid, seed, i):
    return int.from_bytes(hashlib.sha256(('%s:%s:%s' % (pid, seed, i)).encode()).digest()[:4], 'big')


def run_cases(prop, seed, cases, known, deadline=None, verbose=False):
    m = Monitor(prop, known)
    CURRENT[0] = m
    errors = []
    done = 0
    sink = io.StringIO()
    for i in cases:
        if deadline is not None and time.time() > deadline:
            break
        s = case_seed(prop.ID, seed, i)
        g = gen.Gen(s)
        np.random.seed(s)
        m.case = i
        m.last = None
        m.depth = m.paused = m.expect = 0
        try:
            with contextlib.redirect_stdout(sink), warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                prop.case(g, m)
        except CaseAbort:
            pass
        except Exception as e:  # noqa: BLE001
            if m.last is not None and isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)) \
                    and not inspect.ismodule(getattr(e, 'obj', None)):
                # the workload could not go on with what the last call had returned
                with contextlib.suppress(CaseAbort):
                    m.fail('outcome of %s could not be used: %s' % (m.last.fn, traceback.format_exc()[-1500:]))
            else:
                errors.append('case %d: %s' % (i, traceback.format_exc()))
            if len(errors) > 20:
                break
        sink.seek(0)
        sink.truncate()
        done += 1
        if len(m.violations) >= 5:
            break
    CURRENT[0] = None
    return dict(done=done, evaluations=m.evaluations, distinct=m.distinct, tags=m.tags, events=m.events,
                nested=m.nested, violations=m.violations, known=m.known_hits, errors=errors, samples=m.samples)


def _worker(prop, seed, cases, known, deadline, conn):
    try:
        r = run_cases(prop, seed, cases, known, deadline)
    except BaseException:  # noqa: BLE001
        r = dict(done=0, evaluations=0, distinct=set(), tags={}, events={}, nested=0, violations=[], known={},
                 errors=[traceback.format_exc()], samples=[])
    conn.send(r)
    conn.close()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--only', type=int)
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    install()
    prop = importlib.import_module('mon.props.' + a.property.lower())
    pid = prop.ID
    known = load_known(pid)

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        n = r['cases'].index(r['case']) + 1
        res = run_cases(prop, r['seed'], r['cases'][:n], known)
        bad = [v for v in res['violations'] if v['case'] == r['case']]
        for v in bad:
            print(json.dumps(v, indent=1))
        print('reproduced' if bad else 'not reproduced')
        return 1 if bad else 0
    if a.only is not None:
        res = run_cases(prop, seed, [a.only], known)
        print(json.dumps({k: (len(v) if isinstance(v, set) else v) for k, v in res.items()}, indent=1, default=str))
        return 1 if res['violations'] else 0

    n = a.cases or prop.N[tier]
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, n))
    deadline = t0 + (420 if tier == 'quick' else 780)
    plans = [list(range(w, n, jobs)) for w in range(jobs)]
    ctx = multiprocessing.get_context('fork')
    procs = []
    for p in plans:
        rc, sc = ctx.Pipe(duplex=False)
        pr = ctx.Process(target=_worker, args=(prop, seed, p, known, deadline, sc))
        pr.start()
        sc.close()
        procs.append((pr, rc))
    results = []
    for pr, rc in procs:
        try:
            results.append(rc.recv())
        except EOFError:
            results.append(dict(done=0, evaluations=0, distinct=set(), tags={}, events={}, nested=0, violations=[],
                                known={}, errors=['worker died'], samples=[]))
        pr.join()

    tags, events = {}, {}
    distinct = set()
    violations, errors, samples = [], [], []
    khits = {}
    for w, r in enumerate(results):
        for src, dst in ((r['tags'], tags), (r['events'], events), (r['known'], khits)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        distinct |= r['distinct']
        violations += [dict(v, worker=w) for v in r['violations']]
        errors += r['errors']
        samples += r['samples'][:2]
    done = sum(r['done'] for r in results)
    evaluations = sum(r['evaluations'] for r in results)
    extra = None
    if not violations and hasattr(prop, 'finish'):
        extra = prop.finish(tags)
        if extra:
            violations.append(dict(case=None, event=None, fn=None, message=extra, detail={}, worker=None))

    need = [t for t in getattr(prop, 'REQUIRED', ()) if not tags.get(t)]
    violations.sort(key=lambda v: (v['case'] is None, v['case']))
    replay = None
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        v = violations[0]
        replay = os.path.join(VERIF, 'replays', '%s-%s-%s-%s.json' % (pid, tier, seed, v['case']))
        with open(replay, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, case=v['case'],
                           cases=plans[v['worker']] if v['worker'] is not None else [],
                           command='./check %s --replay %s' % (pid, replay), violation=v), f, indent=1, default=str)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=prop.RULE,
                            samples=samples[:8], cases_run=done, cases_planned=n,
                            events=dict(sorted(events.items())), nested_calls=sum(r['nested'] for r in results),
                            reached=dict(sorted(tags.items()))),
              assumptions=getattr(prop, 'ASSUMPTIONS', []), violations=len(violations),
              wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for k in khits:
        print('KNOWN-FINDING: property=%s %s (%d times)' % (pid, known[k], khits[k]))
    if violations:
        for v in violations[:5]:
            print('case %s, call %s: %s' % (v['case'], v['fn'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if errors:
        print('check error:\n' + errors[0])
        return 2
    if need or evaluations == 0 or done < 0.2 * n:
        print('inconclusive: property=%s cases %d/%d, evaluations %d, not reached: %s' % (pid, done, n, evaluations, ', '.join(need)))
        return 2
    print('property=%s held on %d evaluations (%d distinct) in %d cases, %.1f s' % (
        pid, evaluations, len(distinct), done, time.time() - t0))
    return 0
