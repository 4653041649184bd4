"""Runs the harnesses of one property: exploration, replay, evidence, verdict."""
import json
import os
import random
import signal
import sys
import threading
import time
import traceback
import multiprocessing as mp
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))

from . import sym as S
from .engine import Engine, NonFinite, PathEnd, Budget
from .ctx import SymCtx, ConcCtx, Discard, ReplayViolation
from . import loader


class Harness(object):
    def __init__(self, name, fn, cfgs, quick=None, tol=1e-6, margins=None, bound=4, max_paths=3000,
                 q_timeout=20000, b_timeout=3000, witnesses=6, must_reach=True, job_s=None, witness_margins=None,
                 witness_core=True, witness_narrow=False):
        self.name, self.fn, self.cfgs = name, fn, cfgs
        self.quick = quick          # number of configurations in the quick tier (None: all)
        self.tol, self.margins, self.bound = tol, margins, bound
        self.max_paths, self.q_timeout, self.b_timeout = max_paths, q_timeout, b_timeout
        self.witnesses = witnesses
        self.must_reach = must_reach
        self.job_s = job_s
        self.witness_margins = witness_margins
        self.witness_core = witness_core
        self.witness_narrow = witness_narrow    # margins on conditions about inputs only, where there is no better witness


class Timeout(Exception):
    pass


def replay(h, cfg, vals, choices, seconds=60):
    """run the harness on the real code; None or (label, detail)."""
    ctx = ConcCtx(cfg, vals, choices, h.tol)

    def alarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    began = time.time()
    st = random.getstate()
    import numpy as np
    np.random.seed(1)
    random.seed(1)
    eng = S.E
    S.set_engine(None)
    import io
    import contextlib
    import warnings
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h.fn(ctx)
        return None, ctx
    except Discard:
        return 'discard', ctx
    except ReplayViolation as e:
        return ('violation', e.label, ''), ctx
    except Timeout:
        return ('violation', 'the code terminates', 'no answer within %d s' % seconds), ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if f.filename.startswith(loader.REPO)), None)
        if where is None and isinstance(e, (AttributeError, NameError, KeyError, IndexError, TypeError)) and \
                tb and tb[-1].filename.startswith(VERIF):
            # the harness itself stumbled over what the code returned
            pass
        return ('violation', 'unexpected %s: %s' % (type(e).__name__, str(e)[:120]),
                '%s:%s' % (where.filename, where.lineno) if where else '%s:%s' % (tb[-1].filename, tb[-1].lineno)), ctx
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(1.0, left - (time.time() - began)))
        random.setstate(st)
        S.set_engine(eng)


class Stop(Exception):
    pass


class Report(object):
    def __init__(self, prop, h, cfg):
        self.prop, self.h, self.cfg = prop, h, cfg
        self.violations = []
        self.unresolved = []
        self.aux = []
        self.replays = 0
        self.spreads = 0
        self.samples = []
        self.labels = {}
        self.reached = 0

    def obligation(self, ctx, cond, label, core):
        E = ctx.E
        self.reached += 1
        r = E.prove(cond, label)
        self.labels[label] = self.labels.get(label, 0) + 1
        if r == 'proved':
            return
        neg = S.not_(cond)
        if r == 'cex' or r == 'unknown':
            if self.try_models(E, neg, label, far=r == 'cex'):
                raise Stop()
            msg = '%s [%s cfg=%s]: %s' % (label, self.h.name, self.cfg, 'solver counterexample did not reproduce on the real code'
                                          if r == 'cex' else 'solver gave no answer')
            (self.unresolved if core else self.aux).append(msg)

    def attempt(self, E, vals, label):
        r, ctx = replay(self.h, self.cfg, vals, E.choices)
        self.replays += 1
        if not isinstance(r, tuple):
            return False
        self.violations.append({'label': r[1], 'obligation': label, 'detail': r[2], 'harness': self.h.name, 'cfg': self.cfg,
                                'values': {k: str(v) for k, v in vals.items()}, 'choices': E.choices})
        return True

    def try_models(self, E, neg, label, far=False):
        """far: the solver has a counterexample; look for one far from the origin too."""
        tried = []
        for bound in (self.h.bound, self.h.bound * 16) + ((self.h.bound * 1024, self.h.bound * 10 ** 5) if far else ()):
            for vals, mg in E.models(neg, limit=3, bound=bound, margins=self.h.margins):
                if any(v == vals for v in tried):
                    continue
                tried.append(vals)
                if self.attempt(E, vals, label):
                    return True
            if tried:
                break
        return False

    def try_spread(self, E, label, count=6):
        """the encoding ends here: replay inputs of this path that the solver picks near scattered points."""
        for vals in E.spread(count, self.h.bound):
            if self.attempt(E, vals, label):
                return True
        return False

    def path_end(self, E, end):
        kind, e = end
        if kind == 'raise' and isinstance(e, Stop):
            return True
        if kind == 'ok':
            if len(self.samples) < 2 or self.replays < self.h.witnesses:
                ms = E.models(None, limit=1, bound=self.h.bound, timeout=1500,
                              margins=self.h.witness_margins or [Fraction(1, 8), Fraction(1, 100), Fraction(1, 10000), Fraction(0)])
                if not ms and self.h.witness_narrow:
                    ms = E.models(None, limit=1, bound=self.h.bound, timeout=1500, margins=self.h.witness_margins, narrows=(True,))
                if not ms:
                    return False
                vals, mg = ms[0]
                r, ctx = replay(self.h, self.cfg, vals, E.choices)
                self.replays += 1
                if len(self.samples) < 2:
                    self.samples.append({'cfg': str(self.cfg), 'decisions': len(E.trail),
                                         'input': {k: float(v) for k, v in list(vals.items())[:12]},
                                         'replay': 'ok' if r is None else str(r)})
                if isinstance(r, tuple):
                    if mg >= Fraction(1, 10000) and self.h.witness_core:
                        self.violations.append({'label': r[1], 'obligation': 'path witness', 'detail': r[2],
                                                'harness': self.h.name, 'cfg': self.cfg,
                                                'values': {k: str(v) for k, v in vals.items()}, 'choices': E.choices})
                        return True
                    self.aux.append('witness of a path failed at the edge of the tolerance: %s %s' % (r[1], self.cfg))
            return False
        # the code raised, or the encoding gave up: is the path possible, and does the real code misbehave here?
        if not isinstance(e, Budget) and E.prove(False, 'path ends without an unexpected exception') == 'proved':
            return False
        if self.try_models(E, None, 'path ends without an unexpected exception'):
            return True
        if kind == 'unsupported' and self.spreads < 8:
            self.spreads += 1
            if self.try_spread(E, 'path leaves the encoding'):
                return True
        where = ''
        tb = traceback.extract_tb(e.__traceback__)
        fr = next((f for f in reversed(tb) if f.filename.startswith(loader.REPO)), None)
        if fr is not None:
            where = ' at %s:%d' % (fr.filename, fr.lineno)
        self.unresolved.append('%s cfg=%s: %s: %s%s' % (self.h.name, self.cfg, type(e).__name__, str(e)[:200], where))
        if os.environ.get('VP_DEBUG'):
            traceback.print_exception(e)
        return False


class TimeUp(BaseException):
    pass


def _alarm(sig, frame):
    signal.setitimer(signal.ITIMER_REAL, 2)     # again, should something swallow it
    raise TimeUp()


def run_job(args):
    prop, hi, ci, deadline = args
    from . import props
    h = props.harnesses(prop)[hi]
    cfg = h.cfgs[ci]
    t0 = time.time()
    dl = deadline
    if h.job_s:
        dl = min(dl, time.time() + h.job_s)
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, dl - time.time() + 5))
    E = Engine(max_paths=h.max_paths, deadline=dl, q_timeout=h.q_timeout, b_timeout=h.b_timeout)
    rep = Report(prop, h, cfg)
    out = {'harness': h.name, 'cfg': str(cfg)}
    try:
        notes = set()

        def body(E):
            ctx = SymCtx(E, cfg, rep)
            h.fn(ctx)

        def onpath(E, end):
            notes.update(E.notes)
            return rep.path_end(E, end)
        E.explore(body, onpath)
        out['notes'] = sorted(notes)
    except TimeUp:
        E.incomplete.append('time limit inside one step')
    except BaseException as e:     # noqa
        out['crash'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-2000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    st = E.stats.dump()
    if h.must_reach and not rep.reached and not rep.violations and not rep.unresolved and 'crash' not in out and not E.incomplete:
        out['crash'] = 'vacuous: no obligation was reached in %s cfg=%s' % (h.name, cfg)
    out.update(stats=st, violations=rep.violations, unresolved=rep.unresolved, aux=rep.aux, replays=rep.replays,
               samples=rep.samples, labels=rep.labels, incomplete=E.incomplete,
               encoded=sorted(loader.world().encoded), wall=time.time() - t0, reached=rep.reached)
    return out


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == prop and e.get('status') == 'known']


def check(prop, tier, seed, only=None, procs=None):
    from . import props
    t0 = time.time()
    hs = props.harnesses(prop)
    limit = props.limit(prop, tier)
    jobs = []
    for hi, h in enumerate(hs):
        n = len(h.cfgs)
        if tier == 'quick' and h.quick is not None:
            n = min(n, h.quick) if h.quick >= 0 else n + h.quick
        for ci in range(n):
            if only and not any(o in '%s %s' % (h.name, h.cfgs[ci]) for o in only):
                continue
            jobs.append((prop, hi, ci, t0 + limit))
    results = []
    k = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    stop_early = True
    if k == 1:
        for j in jobs:
            results.append(run_job(j))
    else:
        with mp.get_context('fork').Pool(k, maxtasksperchild=8) as pool:
            it = pool.imap_unordered(run_job, jobs)
            for _ in jobs:
                try:
                    r = it.next(timeout=max(1, t0 + limit + 60 - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                results.append(r)
                if r['violations'] and stop_early:
                    pool.terminate()
                    break
    return verdict(prop, tier, seed, results, len(jobs), t0)


def verdict(prop, tier, seed, results, njobs, t0):
    from . import props
    info = props.info(prop)
    viol, unres, aux, crash, inc = [], [], [], [], []
    tot = {}
    enc = set()
    labels = {}
    notes = set()
    replays = 0
    samples = []
    for r in sorted(results, key=lambda r: (r['harness'], r['cfg'])):
        viol += r['violations']
        unres += r['unresolved']
        aux += r['aux']
        if 'crash' in r:
            crash.append(r['crash'])
        inc += ['%s %s: %s' % (r['harness'], r['cfg'], x) for x in r['incomplete']]
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        enc |= set(r['encoded'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        notes |= set(r.get('notes', []))
        replays += r['replays']
        samples += r['samples'][:1]
    if os.environ.get('VP_DEBUG'):
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('  %6.1f s  %s %s  %s' % (r['wall'], r['harness'], r['cfg'], {k: round(v, 1) for k, v in r['stats'].items()}))
    kn = known(prop)
    fresh = []
    for v in viol:
        hit = next((e for e in kn if e['harness'] == v['harness'] and str(e.get('cfg', v['cfg'])) == str(v['cfg'])
                    and e['label'] in v['label']), None)
        if hit is None:
            fresh.append(v)
        else:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('branches', 0),
            'traces_validated_against_impl': replays,
            'samples': samples[:6] or [{'note': 'no path completed'}],
            'configurations': njobs,
            'configurations_run': len(results),
            'solver_queries': tot.get('queries', 0),
            'obligations_discharged_by_solver': tot.get('discharged', 0),
            'obligations_posed': tot.get('obligations', 0),
            'obligations_identical_after_normalisation': tot.get('trivial', 0),
            'obligations_by_label': labels,
            'paths_cut_by_assumptions': tot.get('cut', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 3),
            'functions_encoded': sorted(enc),
            'bounds': info['bounds'],
            'outside_the_claim': info['outside'],
            'inconclusive_auxiliary': aux[:20],
            'unresolved': (unres + crash + inc)[:20],
            'exhaustive': not (unres or crash or inc or viol),
        },
        'assumptions': info['assumptions'] + sorted(notes),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d configurations, %d paths, %d obligations (%d discharged), %d queries, %.1f s solver, %d replays, %.1f s' % (
        prop, tier, len(results), tot.get('paths', 0), tot.get('obligations', 0), tot.get('discharged', 0),
        tot.get('queries', 0), tot.get('solver_s', 0.0), replays, time.time() - t0))
    if fresh:
        d = os.path.join(EVIDENCE, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:3]):
            p = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(dict(v, property=prop), f, indent=1, default=str)
            print('  %s: %s (%s) cfg=%s %s' % (v['harness'], v['label'], v['obligation'], v['cfg'], v['detail']))
            print('  input: %s' % ', '.join('%s=%s' % kv for kv in list(v['values'].items())[:24]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if unres or crash or inc:
        for m in (unres + crash + inc)[:12]:
            print('NOT DECIDED: ' + m)
        # the property held on everything that was explored; with too little explored there is no answer
        full = sum(1 for r in results if r['reached'] and not (r['unresolved'] or r['incomplete'] or 'crash' in r))
        if 2 * full < njobs:
            print('%s: no answer, only %d of %d configurations decided' % (prop, full, njobs))
            return 2
        print('%s: partial, %d of %d configurations decided in full' % (prop, full, njobs))
        return 0
    for m in aux[:5]:
        print('auxiliary, not decided: ' + m)
    return 0


def replay_file(path):
    from . import props
    v = json.load(open(path))
    h = next(x for x in props.harnesses(v['property']) if x.name == v['harness'])
    cfg = next((c for c in h.cfgs if json.loads(json.dumps(c)) == v['cfg']), v['cfg'])
    r, ctx = replay(h, cfg, {k: Fraction(x) for k, x in v['values'].items()}, [tuple(c) for c in v['choices']])
    print(r)
    return 1 if isinstance(r, tuple) else 0
