"""Monitor core: runs generated cases of one property against the real code in /repo, compares every observation with
an oracle, and reports what was observed.

A property module defines
    PID, SCENARIOS = [Scenario(name, func, quick_cases), ...], REQUIRE = {counter: minimum}, RULE = text
Each case is `func(m)` with a fresh Monitor `m`, seeded by (property, scenario, seed, index) alone, so every case can be
replayed on its own:  python run_check.py C01 --replay FILE   or   --case scenario:seed:index
"""
import hashlib
import json
import math
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('DCFMON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 45.0  # seconds of cpu time of one case (normal: < 1s), beyond it does not terminate


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """something wrong with the check itself"""


class Inject(Exception):
    """fault injected by a workload"""


class Scenario:
    def __init__(self, name, func, quick, thorough=None):
        self.name, self.func, self.quick = name, func, quick
        self.thorough = thorough or quick * 30


def show(x, depth=0):
    """short printable form of anything"""
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x if not isinstance(x, str) else x[:300]
    if isinstance(x, dict):
        return {str(k)[:60]: show(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        lst = [show(v, depth + 1) for v in x[:80]]
        return lst + ['... %d more' % (len(x) - 80)] if len(x) > 80 else lst
    if hasattr(x, 'isoformat'):
        return str(x)
    return str(x)[:200] if not type(x).__module__.startswith('dcf') else '<%s>' % type(x).__name__


class Monitor:
    """observer of one case: oracle comparisons, counters, recorded inputs"""

    def __init__(self, pid, scenario, seed, index, tier, known=()):
        self.pid, self.scenario, self.seed, self.index, self.tier = pid, scenario, seed, index, tier
        self.rng = random.Random('%s|%s|%s|%s' % (pid, scenario, seed, index))
        self.counts = {}
        self.inputs = {}
        self.sigs = set()
        self.known = known
        self.findings = {}
        self.obs = 0
        self.zero = None  # day of the date 0.0 on float axes
        self.axis = None  # axis of the case

    # --- what happened
    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = show(v)

    def sig(self, *feat):
        """signature of a non trivial situation observed in this case"""
        self.sigs.add((self.scenario,) + tuple(str(f) for f in feat))

    # --- oracles
    def fail(self, what, **detail):
        d = {k: show(v) for k, v in detail.items()}
        raise Violation(what, d)

    def true(self, cond, what, **detail):
        self.obs += 1
        if not cond:
            self.fail(what, **detail)

    def eq(self, got, want, what, rel=1e-9, abs=1e-12, **detail):
        """got == want up to rounding"""
        self.obs += 1
        try:
            g = float(got)
        except (TypeError, ValueError):
            self.fail(what + ' (not a number)', got=got, want=want, **detail)
        w = float(want)
        if math.isnan(w) or math.isinf(w):
            raise HarnessError('reference is not finite: %s %s' % (what, w))
        if not (g == w or math.fabs(g - w) <= max(abs, rel * max(math.fabs(g), math.fabs(w)), 1e-300)):
            self.fail(what, got=g, want=w, tol=max(abs, rel * math.fabs(w)), **detail)

    def same(self, got, want, what, **detail):
        self.obs += 1
        if not (got == want):
            self.fail(what, got=got, want=want, **detail)

    def raises(self, exc, func, what, **detail):
        self.obs += 1
        try:
            got = func()
        except exc as e:
            return e
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(what + ' (other exception)', got=repr(e), want=str(exc), **detail)
        self.fail(what + ' (no exception)', got=got, want=str(exc), **detail)

    def finding(self, key, what, **detail):
        """a defect seen by its own mechanism: known (listed) or a violation"""
        self.obs += 1
        if key in self.known:
            self.findings[key] = self.findings.get(key, 0) + 1
        else:
            self.fail('%s: %s' % (key, what), **detail)


def _blame(exc):
    """True if the exception was raised with frames of the code under test innermost of ours"""
    tb, last = exc.__traceback__, None
    root = os.path.realpath(REPO) + os.sep
    seen = False
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            seen = True
        tb = tb.tb_next
    return seen


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, scenario, seed, index, tier, known):
    m = Monitor(mod.PID, scenario.name, seed, index, tier, known)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    v = err = None
    try:
        scenario.func(m)
    except Violation as e:
        v = dict(what=e.what, detail=e.detail)
    except CaseTimeout:
        v = dict(what='call did not terminate within %.0f s of cpu time' % CASE_CPU_LIMIT, detail={})
    except HarnessError:
        err = traceback.format_exc()
    except Exception as e:
        tbs = traceback.format_exc()
        if _blame(e):
            v = dict(what='unexpected %s: %s' % (type(e).__name__, str(e)[:200]), detail=dict(traceback=tbs[-3000:]))
        else:
            err = tbs
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if v is not None:
        v.update(property=mod.PID, scenario=scenario.name, seed=seed, index=index, tier=tier, inputs=m.inputs)
    return m, v, err


class LineCover:
    """which lines of the code under test ran (sys.monitoring, each line reported once)"""

    def __init__(self):
        self.lines = {}
        self.tool = None

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        self.tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.tool, 'dcfmon')
        except ValueError:
            self.tool = None
            return
        root = os.path.join(REPO, 'dcf') + os.sep

        def line(code, no):
            fn = code.co_filename
            if fn.startswith(root):
                self.lines.setdefault(fn[len(root):], set()).add(no)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)

    def result(self):
        return {k: sorted(v) for k, v in self.lines.items()}


def _worker(mod, jobs, tier, known, deadline, stop, q, wid):
    # a call which never ends but fills memory fails here and not in the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    cov = LineCover()
    cov.start()
    counts, sigs, findings, samples = {}, set(), {}, []
    viols, errs, n, obs, skipped, percase = [], [], 0, 0, 0, {}
    for sc, seed, idx in jobs:
        if stop.is_set() or time.time() > deadline:
            skipped += 1
            continue
        m, v, err = run_case(mod, sc, seed, idx, tier, known)
        n += 1
        obs += m.obs
        percase[sc.name] = percase.get(sc.name, 0) + 1
        for k, c in m.counts.items():
            counts[k] = counts.get(k, 0) + c
        for k, c in m.findings.items():
            findings[k] = findings.get(k, 0) + c
        sigs.update(hashlib.md5(repr(s).encode()).hexdigest()[:12] for s in m.sigs)
        if len(samples) < 1 and m.sigs and m.inputs and not v:
            samples.append(dict(scenario=sc.name, seed=seed, index=idx, oracle_comparisons=m.obs, inputs=m.inputs))
        if v is not None:
            viols.append(v)
            if len(viols) >= 2:
                stop.set()
        if err is not None:
            errs.append('%s:%s:%s\n%s' % (sc.name, seed, idx, err))
            stop.set()
    q.put(dict(n=n, obs=obs, counts=counts, sigs=sigs, findings=findings, samples=samples, viols=viols[:3],
               errs=errs[:1], skipped=skipped, percase=percase, cover=cov.result()))


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e['what'] for e in data.get('findings', ()) if e['property'] == pid}


def run(mod):
    t0 = time.time()
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = known_findings(mod.PID)
    scen = {s.name: s for s in mod.SCENARIOS}
    if '--replay' in args or '--case' in args:
        if '--replay' in args:
            with open(args[args.index('--replay') + 1]) as f:
                r = json.load(f)
            name, s, i, tier = r['scenario'], r['seed'], r['index'], r.get('tier', tier)
        else:
            name, s, i = args[args.index('--case') + 1].split(':')
        m, v, err = run_case(mod, scen[name], int(s), int(i), tier, known)
        print(json.dumps(dict(inputs=m.inputs, counts=m.counts, observations=m.obs, violation=v, error=err,
                              findings=m.findings), indent=1))
        return 2 if err else 1 if v else 0
    only = args[args.index('--only') + 1].split(',') if '--only' in args else None
    jobs = []
    for s in mod.SCENARIOS:
        if only and s.name not in only:
            continue
        for i in range(math.ceil((s.quick if tier == 'quick' else s.thorough) * float(os.environ.get('DCFMON_SCALE', '1')))):
            jobs.append((s, seed, i))
    # the same order for any number of workers, scenarios interleaved
    random.Random(7).shuffle(jobs)
    nw = int(os.environ.get('DCFMON_WORKERS', '0')) or max(1, min(8, os.cpu_count() or 1))
    cap = float(os.environ.get('DCFMON_CAP', '300' if tier == 'quick' else '780'))
    ctx = multiprocessing.get_context('fork')
    stop, q = ctx.Event(), ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(mod, jobs[w::nw], tier, known, t0 + cap, stop, q, w))
             for w in range(nw)]
    for p in procs:
        p.start()
    res, t1 = [], time.time()
    while len(res) < nw:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                time.sleep(1)
                if q.empty():
                    break
            if time.time() - t0 > cap + 150:
                break
    died = nw - len(res)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    out = dict(n=0, obs=0, skipped=0)
    counts, sigs, findings, samples, viols, errs, cover, percase = {}, set(), {}, [], [], [], {}, {}
    for r in res:
        for k in out:
            out[k] += r[k]
        for k, c in r['counts'].items():
            counts[k] = counts.get(k, 0) + c
        for k, c in r['findings'].items():
            findings[k] = findings.get(k, 0) + c
        for k, c in r['percase'].items():
            percase[k] = percase.get(k, 0) + c
        sigs |= r['sigs']
        samples += r['samples']
        viols += r['viols']
        errs += r['errs']
        for k, v in r['cover'].items():
            cover.setdefault(k, set()).update(v)
    ev = dict(property=mod.PID, tier=tier, seed=seed, level='fault_enumeration' if mod.PID in ('C31', 'C39') else 'exploration', wall_s=round(time.time() - t0, 3),
              violations=len(viols),
              coverage=dict(evaluations=out['n'], distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples[:3], oracle_comparisons=out['obs'], cases_per_scenario=percase,
                            observed=dict(sorted(counts.items())),
                            known_findings_observed=findings, cases_not_run_for_time=out['skipped'],
                            lines_of_code_under_test_executed={k: len(v) for k, v in sorted(cover.items())}),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', ())))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.PID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('DCFMON_COVER'):  # for the author: which lines were reached
        with open(os.path.join(os.environ['DCFMON_COVER'], mod.PID + '.json'), 'w') as f:
            json.dump({k: sorted(v) for k, v in cover.items()}, f)
    for k in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (mod.PID, known[k]))
    if viols:
        seen = set()
        for v in viols:
            if v['what'] in seen or len(seen) >= 4:
                continue
            seen.add(v['what'])
            path = os.path.join('evidence', 'replays', '%s-%d.json' % (mod.PID, len(seen)))
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (mod.PID, path))
            print('  %s [%s:%s:%s] %s' % (v['what'], v['scenario'], v['seed'], v['index'],
                                          json.dumps(v['detail'])[:600]))
        return 1
    if errs or died:
        print('ERROR in check %s: %s worker(s) died\n%s' % (mod.PID, died, '\n'.join(errs)))
        return 2
    missing = {k: (counts.get(k, 0), n) for k, n in getattr(mod, 'REQUIRE', {}).items() if counts.get(k, 0) < n}
    if missing and not only and 'DCFMON_SCALE' not in os.environ:
        print('INCONCLUSIVE %s: monitors not reached (seen, required): %s' % (mod.PID, missing))
        return 3
    print('%s held: %d cases, %d oracle comparisons, %d distinct situations, %.1f s%s' % (
        mod.PID, out['n'], out['obs'], len(sigs), time.time() - t0,
        ', %d cases not run for time' % out['skipped'] if out['skipped'] else ''))
    return 0


class Prop:
    """one property: its scenarios (workload + oracle), what must have been reached, how coverage is counted"""

    def __init__(self, pid, scenarios, require=(), rule='', assumptions=()):
        self.PID, self.SCENARIOS = pid, list(scenarios)
        self.REQUIRE = dict(require)
        self.RULE = rule
        self.ASSUMPTIONS = list(assumptions)
