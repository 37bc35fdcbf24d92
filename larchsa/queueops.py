"""The request queue: histories of requests from other threads.

Requests are opaque functions with opaque arguments, so what is shown for
them holds for all requests. The main loop is modelled by the sources that
are registered with it: a source is called as long as it is registered and
returns true."""
from .values import *
from .core import Scenario
from .interp import Engine, Ctx, Budget
from .program import AnalysisBroken

PRIOS = ('high', None, 'low')
RANK = {'high': 0, None: 1, 'low': 2}


class QueueWorld(Scenario):
    """One SyncQueue, driven by requests."""

    def __init__(self, prog, res, interleave=False, fail=()):
        self.prog = prog
        self.res = res
        self.interleave = interleave
        self.fail = set(fail)
        self.thread = 'origin'
        self.history = ()
        self.building = True

    # ---- the main loop and the requests ------------------------------------
    def lib_call(self, eng, st, name, args, kw, ctx, node):
        short = name.split('.')[-1]
        if short in ('idle_add', 'timeout_add', 'timeout_add_seconds'):
            fns = [a for a in args if isinstance(a, (Clo, Part, ExtFn, Meth))]
            n = st.x.get('nsrc', 0) + 1
            st.x['nsrc'] = n
            if not fns:
                return [(st, Num(1, None))]
            st.x['src'] = st.x.get('src', ()) + ((n, fns[0]),)
            st.x['keep'] = tuple(f for _, f in st.x['src'])
            return [(st, Const(n))]
        if short == 'source_remove':
            ids = [a.v for a in args if isinstance(a, Const)]
            src = st.x.get('src', ())
            if ids and not any(n in ids for n, _ in src):
                self.bad(st, 'C10', 'source removed twice', ctx.where(node),
                         'a source is removed which is not there')
            st.x['src'] = tuple(p for p in src if p[0] not in ids)
            return [(st, TRUE)]
        return None

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        n = fn.name
        if n.startswith('R:'):
            return self.ran(eng, st, n[2:], args, ctx, node)
        return [(st, NONE)]

    def ran(self, eng, st, r, args, ctx, node):
        where = ctx.where(node)
        if tuple(args) != (Sym('a' + r), Sym('b' + r)):
            self.bad(st, 'C09', 'wrong arguments', where,
                     'a request is carried out with other arguments than '
                     'those it was made with')
        w = st.x['waiting']
        mine = [p for p in w if p[0] == r]
        if r in st.x['done'] and not mine:
            self.bad(st, 'C09', 'carried out twice', where,
                     'the request %s is carried out twice' % r)
        if r not in st.x['done']:
            st.x['done'] = st.x['done'] + (r,)
        thread = st.x.get('thread', 'origin')
        if thread != 'origin':
            self.bad(st, 'C08', 'request in a foreign thread', where,
                     'a request made by another thread is carried out in '
                     'that thread')
        if st.x.get('locks'):
            self.bad(st, 'C10', 'lock held during a request', where,
                     'the lock of the queue is held while a request is '
                     'carried out')
        if mine:
            # entries which are repetitions of a request carried out since
            # they were made may have been merged with it
            must = [p for p in w if p not in st.x['opt'] or p[0] == r]
            first = min(must, key=lambda p: RANK[p[1]])
            best = min(mine, key=lambda p: RANK[p[1]])
            if first[0] != r and not st.x.get('racy'):
                self.bad(st, 'C09', 'wrong order', where,
                         'request %s (%s priority) is carried out before '
                         '%s (%s priority), which was made earlier or has '
                         'precedence' % (
                             r, best[1] or 'normal', first[0],
                             first[1] or 'normal'))
            st.x['waiting'] = tuple(p for p in w if p != best)
            st.x['opt'] = tuple(
                p for p in st.x['opt'] if p != best) + tuple(
                p for p in mine if p != best and p not in st.x['opt'])
        if r in self.fail:
            return [(st, Exc(ExcObj('Exception', ()), where, True))]
        return [(st, NONE)]

    def bad(self, st, prop, rule, where, text):
        text = '%s (history: %s)' % (text, ', '.join(self.history))
        if st.imp:
            self.res.doubt(prop, text + ' (not sure: %s)' % st.imp[0])
        else:
            self.res.add(prop, rule, where, text, list(self.history))

    def on_lock(self, eng, st, addr, op, ctx, node):
        if op == 'deadlock':
            self.bad(st, 'C10', 'deadlock', ctx.where(node),
                     'the lock of the queue is acquired while it is held')
        elif op == 'bad release':
            self.bad(st, 'C10', 'bad release', ctx.where(node),
                     'the lock of the queue is released without being held')

    # ---- driving -------------------------------------------------------------
    def build(self, eng):
        self.eng = eng
        BASE[0] = 0
        st = St()
        ci = eng.prog.cls('liblarch.processqueue', 'SyncQueue')
        outs = eng.instantiate_cls(st, ci, [], {}, Ctx(
            None, None, ci.module, ci), None)
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise AnalysisBroken('the queue cannot be constructed')
        st, self.q = outs[0]
        self.cls = ci
        self.push = eng.method_of(ci, 'push')
        if self.push is None:
            raise AnalysisBroken('SyncQueue.push is gone')
        st.roots = (self.q.a,)
        st.x['waiting'] = ()        # (request, priority) in order
        st.x['opt'] = ()            # those which may have been merged
        st.x['done'] = ()
        st.x['src'] = ()
        self.building = False
        return st

    def do_push(self, st, r, prio, thread='other'):
        """-> [state]"""
        out = []
        kw = {} if prio is None else {'priority': Const(prio)}
        was = st.x.get('thread', 'origin')
        st.x['thread'] = thread
        if thread == 'other':
            st.x['opt'] = tuple(o for o in st.x['opt'] if o != (r, prio))
            if (r, prio) not in st.x['waiting']:
                st.x['waiting'] = st.x['waiting'] + ((r, prio),)
            st.x['done'] = tuple(d for d in st.x['done'] if d != r)
        else:
            st.x['done'] = tuple(d for d in st.x['done'] if d != r)
        for s, v in self.eng.call(
                st, Clo(self.push, None, self.q),
                [ExtFn('R:' + r), Sym('a' + r), Sym('b' + r)], kw,
                Ctx(None, None, self.cls.module, self.cls), None):
            s.x['thread'] = was
            if isinstance(v, Exc):
                if not (v.explicit and r in self.fail and
                        thread == 'origin'):
                    self.bad(s, 'C10', 'request refused', v.where,
                             'making a request fails with %s at %s' % (
                                 v.cls, v.where))
                    continue
            self.settled(s, thread, was)
            out.append(s)
        return out

    def process(self, st):
        """The main loop calls its first source once -> [state]"""
        src = st.x.get('src', ())
        if not src:
            return [st]
        n, fn = src[0]
        was = st.x.get('thread', 'origin')
        st.x['thread'] = 'origin'
        before = st.x['done']
        out = []
        for s, v in self.eng.call(st, fn, [], {}, Ctx(
                None, None, self.cls.module, self.cls), None):
            s.x['thread'] = was
            if isinstance(v, Exc):
                self.bad(s, 'C10', 'main loop callback fails', v.where,
                         'processing the queue fails with %s (%s), the '
                         'main loop drops the handler' % (v.cls, v.where))
                s.x['src'] = tuple(p for p in s.x['src'] if p[0] != n)
                self.settled(s, 'origin', was)
                out.append(s)
                continue
            for s2, t in self.eng.truth(s, v):
                if not t:
                    s2.x['src'] = tuple(
                        p for p in s2.x['src'] if p[0] != n)
                self.settled(s2, 'origin', was)
                out.append(s2)
        return out

    def settled(self, st, thread, outer):
        """After an operation: locks free, work waits => a handler is there
        """
        self.res.obligations += 1
        nested = st.x.get('nested')
        if st.x.get('locks') and not nested:
            self.bad(st, 'C10', 'lock not released', 'SyncQueue.push' if
                     thread == 'other' else 'SyncQueue.process_queue',
                     'the lock of the queue is still held when the '
                     'operation is over')
            st.x['locks'] = ()
        if nested:
            return
        if not st.x['src'] and any(
                p not in st.x['opt'] for p in st.x['waiting']):
            self.bad(st, 'C10', 'stalled', 'SyncQueue',
                     'requests are waiting but no handler is registered '
                     'with the main loop')
        if len(st.x['src']) > 1:
            self.bad(st, 'C10', 'two handlers', 'SyncQueue',
                     'two handlers of one queue are registered')

    # ---- interleavings --------------------------------------------------------
    def switch(self, eng, st, point, ctx, node):
        plan = st.x.get('plan')
        if not self.interleave or not plan or self.building or \
                st.x.get('nested'):
            return [st]
        out = [st.copy()]           # the other thread does not run here
        kind, r, prio = plan[0]
        if (kind == 'process') == (st.x.get('thread') == 'origin'):
            return out
        st.x['plan'] = plan[1:]
        st.x['nested'] = True
        st.x['racy'] = True
        saved = st.x.get('thread')
        locks = st.x.get('locks', ())
        st.x['locks'] = ()
        if kind == 'process':
            rs = self.process(st)
        else:
            rs = self.do_push(st, r, prio)
        for s in rs:
            s.x['thread'] = saved
            s.x['nested'] = False
            s.x['locks'] = locks
            out.append(s)
        return out


def names():
    i = 0
    while True:
        i += 1
        yield 'r%d' % i


def drain(w, states, limit=9):
    """Let the main loop run until the queue is empty."""
    final = []
    for st in states:
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            if not s.x['src'] or n >= limit:
                final.append(s)
                continue
            work.extend((x, n + 1) for x in w.process(s))
    return final


def history(prog, res, ops, fail=(), interleave=(), same=False):
    """Analyse one history; ops: 'high', None, 'low', 'process', 'own'."""
    w = QueueWorld(prog, res, bool(interleave), fail)
    w.history = tuple(o or 'normal' for o in ops) + tuple(
        'meanwhile ' + (k if k == 'process' else p or 'normal')
        for k, _, p in interleave)
    eng = Engine(prog, w)
    try:
        st = w.build(eng)
        if interleave:
            st.x['plan'] = tuple(interleave)
        states = [st]
        gen = names()
        asked = []
        for i, o in enumerate(ops):
            nxt = []
            if o != 'process':
                r = 'r%d' % same[i] if isinstance(same, tuple) else \
                    'r1' if same else next(gen)
                if r not in asked:
                    asked.append(r)
            for s in states:
                if o == 'process':
                    nxt.extend(w.process(s))
                elif o == 'own':
                    before = s.x['done']
                    for s2 in w.do_push(s, r, None, 'origin'):
                        if r not in s2.x['done']:
                            w.bad(s2, 'C09', 'not carried out at once',
                                  'SyncQueue.push', 'a request of the '
                                  'thread of the queue is not carried out '
                                  'at once')
                        nxt.append(s2)
                else:
                    nxt.extend(w.do_push(s, r, o))
            states = nxt
        asked += [r for k, r, _ in interleave if k != 'process']
        for s in drain(w, states):
            res.cases += 1
            res.obligations += 1
            left = [r for r in asked if r not in s.x['done'] and not any(
                q[1] == r for q in s.x.get('plan', ()))]
            if left:
                w.bad(s, 'C09', 'not carried out', 'SyncQueue',
                      'the request %s is never carried out' % left[0])
            elif s.x['src'] and not s.x.get('plan'):
                w.bad(s, 'C10', 'busy main loop', 'SyncQueue',
                      'the handler stays registered although nothing is '
                      'left to do')
    except Budget as e:
        eng.incomplete.add(str(e))
    res.count(eng)


def histories(tier):
    """-> [(label, [(ops, fail, interleave, same)])]"""
    import itertools
    depth = 4 if tier == 'quick' else 5
    groups = []
    acts = ('high', None, 'low', 'process')
    for first in ('high', None, 'low', 'own'):
        g = []
        for n in range(0, depth):
            for rest in itertools.product(acts, repeat=n):
                g.append(((first,) + rest, (), (), False))
        groups.append(('histories starting with %s' % (first or 'normal'),
                       g))
    g = []
    for n in range(1, 4):
        for ops in itertools.product(('high', None, 'low'), repeat=n):
            for f in range(n):
                g.append((ops, ('r%d' % (f + 1),), (), False))
    for ops in (('own', None), (None, 'own')):
        g.append((ops, ('r1',), (), False))
    groups.append(('failing requests', g))
    g = []
    for n in range(1, 4):
        for ops in itertools.product(('high', None, 'low', 'process'),
                                     repeat=n):
            g.append((ops, (), (), True))
    # one request repeated among others
    for ops in itertools.product(('high', None, 'low'), repeat=3):
        for who in ((1, 2, 1), (1, 1, 2), (1, 2, 2)):
            g.append((ops, (), (), who))
    groups.append(('repeated requests', g))
    g = []
    for ops in ((), (None,), ('low',), ('high', 'low'), (None, None)):
        for last in ('high', None, 'low', 'process'):
            for p in PRIOS:
                if last == 'process':
                    plan = (('push', 'x1', p),)
                    plans = [plan, plan + (('push', 'x2', None),)]
                else:
                    plan = (('process', None, None),)
                    plans = [plan, plan * 2]
                for pl in plans:
                    g.append((ops + (last,), (), pl, False))
    groups.append(('interleaved threads', g))
    return groups


def queue_job(prog, res, index, tier):
    for ops, fail, inter, same in histories(tier)[index][1]:
        history(prog, res, ops, fail, inter, same)
    res.samples.append({'history': [o or 'normal' for o in ops]})


def queue_jobs(prog, tier):
    return [(label, queue_job, (i, tier))
            for i, (label, _) in enumerate(histories(tier))]
