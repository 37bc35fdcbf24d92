"""Running analyses (jobs) in parallel and collecting what they found."""
import multiprocessing
import os
import signal
import sys
import time
import traceback

from .interp import Engine, Budget
from .judge import Finding, show
from .values import Exc, NONE
from .program import Program, AnalysisBroken

REPO = os.environ.get('LARCH_REPO', '/repo')


class Result:
    """What one job found (picklable)."""

    def __init__(self, label):
        self.label = label
        self.findings = []      # Finding
        self.undecided = []     # (prop, text)
        self.incomplete = []
        self.stats = {}
        self.functions = []
        self.cases = 0          # exit states judged
        self.obligations = 0
        self.broken = None
        self.seconds = 0.0
        self.samples = []

    def add(self, prop, rule, where, text, facts=()):
        for f in self.findings:
            if (f.prop, f.rule, f.where) == (prop, rule, where):
                return
        self.findings.append(Finding(prop, rule, where, text, self.label,
                                     facts))

    def doubt(self, prop, text):
        if (prop, text) not in self.undecided and len(self.undecided) < 40:
            self.undecided.append((prop, text))

    def count(self, eng):
        for k, v in eng.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.functions = sorted(set(self.functions) | set(eng.functions))
        self.incomplete = sorted(set(self.incomplete) | set(eng.incomplete))


def describe(st):
    """The facts of a state, in words."""
    out = []
    for n, v in sorted(st.facts.items(), key=repr):
        if any(getattr(x, 'oth', False) for x in n[1:]):
            continue
        out.append(('' if v else 'not: ') + show(n))
    return out


def where_of(eng, op):
    """The construct an operation is anchored at."""
    return op.construct or op.op


def run_operation(prog, res, make, **kw):
    """Analyse one operation on a tree; fills the result."""
    w = make()
    eng = Engine(prog, w, **kw)
    try:
        st = w.build(eng)
        outs = w.start(eng, st)

        def report(w, s, prop, rule, text, v):
            if s.imp:
                res.doubt(prop, '%s (not sure: %s)' % (
                    text, '; '.join(s.imp[:3])))
                return
            res.add(prop, rule, where_of(eng, w), text, describe(s))

        for s, v in outs:
            w.judge(eng, s, v, report)
    except Budget as e:
        eng.incomplete.add(str(e))
    res.cases += w.judged
    res.obligations += w.obligations
    res.count(eng)


def run_foreign(prog, res, make):
    """The operation is called in another thread than the tree's own."""
    w = make()
    eng = Engine(prog, w)
    try:
        st = w.build(eng)
        st.x['thread'] = 'other'
        outs = w.start(eng, st)

        def report(w, s, prop, rule, text, v):
            if s.imp:
                res.doubt('C08', '%s (not sure: %s)' % (
                    text, '; '.join(s.imp[:3])))
                return
            res.add('C08', rule, where_of(eng, w), text, describe(s))

        later = []
        for s, v in outs:
            w.untouched(eng, s, v, report)
            if not isinstance(v, Exc):
                later.append(s)
        for s in later:
            for s2 in w.main_loop(eng, s):
                w.judge(eng, s2, NONE, lambda w, s, prop, rule, text, v: (
                    report(w, s, prop, 'effect once it is processed: ' +
                           rule, 'requested in another thread: ' + text,
                           v)))
    except Budget as e:
        eng.incomplete.add(str(e))
    res.cases += w.judged
    res.obligations += w.obligations
    res.count(eng)


_prog = None


def load():
    global _prog
    if _prog is None:
        sys.setrecursionlimit(20000)
        _prog = Program(REPO)
    return _prog


STARTED = time.time()
JOB_LIMIT = {'quick': 90, 'thorough': 400}
ALL_LIMIT = {'quick': 480, 'thorough': 800}


def too_long(signum, frame):
    raise Budget('time limit of the scenario exceeded')


def run_job(job):
    label, fn, args = job
    res = Result(label)
    t = time.time()
    tier = 'thorough' if 'thorough' in args else 'quick'
    left = ALL_LIMIT[tier] - (t - STARTED)
    if left < 1:
        res.incomplete.append('not analysed: no time left')
        return res
    signal.signal(signal.SIGALRM, too_long)
    signal.setitimer(signal.ITIMER_REAL, min(left, JOB_LIMIT[tier]))
    try:
        fn(load(), res, *args)
    except AnalysisBroken as e:
        res.broken = str(e)
    except Budget as e:
        res.incomplete.append(str(e))
    except RecursionError:
        res.incomplete.append('recursion limit of the analysis')
    except Exception:
        res.incomplete.append('analysis failed: ' +
                              traceback.format_exc()[-600:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.seconds = time.time() - t
    return res


def run_jobs(jobs):
    """jobs: [(label, function, args)] -> [Result]"""
    load()
    n = min(len(jobs), os.cpu_count() or 4, 8)
    if n <= 1 or os.environ.get('LARCH_SERIAL'):
        return [run_job(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(n) as pool:
        return pool.map(run_job, jobs, chunksize=1)
