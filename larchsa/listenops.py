"""Listeners, queued actions and views by name: a client registers and
deregisters listeners (queues actions, asks for views) in some order, then
the tree changes. Listeners and actions are opaque; who is called when, and
with what, is recorded and compared with what the calls of the client ask
for."""
from .values import *
from .viewops import ViewWorld, KIND
from .interp import Ctx
from .run import run_operation

C, P, N = Sym('C'), Sym('P'), Sym('N')


class Steps(ViewWorld):
    """A client makes calls one after another."""
    prop = 'C16'

    def __init__(self, prog, names, steps, changed=(), **kw):
        self.steps = list(steps)
        ViewWorld.__init__(self, prog, names, changed, **kw)
        self.op = '; '.join(show_step(s) for s in self.steps)

    def build(self, eng):
        st = self.make_view(eng)
        self.building = True
        st = self.prepare(eng, st)
        self.building = False
        eng.set_base(st)
        self.base_addrs = frozenset(st.heap)
        return st

    def ghost0(self):
        return {'rows': (), 'bad': (), 'log': (), 'keys': (), 'phase': 0,
                'refs': (), 'acted': ()}

    def prepare(self, eng, st):
        return st

    def ghost(self, st, **kw):
        g = dict(st.x['ghost'])
        g.update(kw)
        st.x['ghost'] = g

    def log(self, st, *entry):
        self.ghost(st, log=st.x['ghost']['log'] + (entry,))

    def key(self, st, name):
        return dict(st.x['ghost']['keys']).get(name)

    def start(self, eng, st):
        work, out = [(st, 0)], []
        while work:
            s, i = work.pop()
            if i == len(self.steps):
                out.append((s, NONE))
                continue
            self.log(s, 'step', i)
            for t, v in self.step(eng, s, self.steps[i], i):
                if isinstance(v, Exc):
                    self.log(t, 'fails', v.cls, v.where)
                work.append((t, i + 1))
        return out

    def step(self, eng, st, step, i):
        what, a = step[0], step[1:]
        return getattr(self, 'do_' + what)(eng, st, *a)

    # ---- steps ---------------------------------------------------------------
    def do_change(self, eng, st, x=C):
        """The filters may change their mind about x, and x tells of it."""
        self.ghost(st, phase=st.x['ghost']['phase'] + 1)
        return self.call_method(eng, st, self.node[x], 'modified', [])

    def do_modified(self, eng, st, x=C):
        return self.call_method(eng, st, self.node[x], 'modified', [])

    def do_del(self, eng, st, x=C):
        return self.call_method(eng, st, self.tree, 'del_node', [x])

    def do_add(self, eng, st, x=N, parent=None):
        out = []
        for s, v in eng.instantiate_cls(st, self.node_cls, [x], {}, Ctx(
                None, None, self.node_cls.module, self.node_cls), None):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            self.newnodes[v.a] = x
            out.extend(self.call_method(
                eng, s, self.tree, 'add_node',
                [v] + ([parent] if parent is not None else [])))
        return out

    newnodes = None

    def who(self, v):
        if isinstance(v, Ref) and v.a in (self.newnodes or {}):
            return self.newnodes[v.a]
        return ViewWorld.who(self, v)

    def untold(self, x, get):
        return False

    def steady(self, x, get):
        return x not in self.changed

    # ---- judging -------------------------------------------------------------
    def judge(self, eng, st, v, report):
        self.newnodes = self.newnodes or {}
        ViewWorld.judge(self, eng, st, v, report)

    def bad(self, rule, text):
        return [(self.prop, rule, text)]


class Listen(Steps):
    """Listeners of one registry. mode: tree, main, view, count."""
    EV = {'tree': 'node-%s', 'main': 'node-%s', 'view': 'node-%s-inview'}

    def __init__(self, prog, names, mode, steps, acts=None, **kw):
        self.mode = mode
        self.acts = acts or {}
        self.newnodes = {}
        Steps.__init__(self, prog, names, steps, count=mode == 'count', **kw)
        self.construct = {'tree': 'MainTree', 'count': 'ViewCount'}.get(
            mode, 'ViewTree')

    def prepare(self, eng, st):
        if self.mode == 'main':
            st, self.mainview = self.one(self.call_method(
                eng, st, self.tree, 'get_main_view', []), 'get_main_view()')
        for ev in ('added', 'modified', 'deleted') \
                if self.mode != 'count' else ('any',):
            outs = self.register(eng, st, 'ref:' + ev, ev)
            st, _ = self.one(outs, 'registration')
        return st

    def registry(self):
        return {'tree': self.main, 'main': getattr(self, 'mainview', None),
                'view': self.view, 'count': self.view}[self.mode]

    def register(self, eng, st, name, ev):
        fn = ExtFn('K:' + name)
        if self.mode == 'count':
            return self.call_method(eng, st, self.registry(),
                                    'register_cllbck', [fn])
        meth = 'register_callback' if self.mode == 'tree' else \
            'register_cllbck'
        out = []
        for s, v in self.call_method(
                eng, st, self.registry(), meth,
                [Const(self.EV[self.mode] % ev), fn]):
            if not isinstance(v, Exc):
                self.ghost(s, keys=s.x['ghost']['keys'] + ((name, v),))
            out.append((s, v))
        return out

    def do_reg(self, eng, st, name, ev, fn=None):
        return self.register(eng, st, name, ev)

    def do_dereg(self, eng, st, name, ev):
        if self.mode == 'count':
            return self.call_method(eng, st, self.registry(),
                                    'unregister_cllbck',
                                    [ExtFn('K:' + name)])
        meth = 'deregister_callback' if self.mode == 'tree' else \
            'deregister_cllbck'
        key = self.key(st, name)
        if key is None:
            key = Const(99)
        return self.call_method(
            eng, st, self.registry(), meth,
            [Const(self.EV[self.mode] % ev), key])

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if not fn.name.startswith('K:'):
            return Steps.ext_call(self, eng, st, fn, args, kw, ctx, node)
        if self.building:
            return [(st, NONE)]
        name = fn.name[2:]
        self.log(st, 'call', name, tuple(args))
        if name in self.acts and name not in st.x['ghost']['acted']:
            self.ghost(st, acted=st.x['ghost']['acted'] + (name,))
            return [(s, v if isinstance(v, Exc) else NONE) for s, v in
                    self.step(eng, st, self.acts[name], 0)]
        return [(st, NONE)]

    def problems(self, st, v):
        current, taints = {}, set()
        events = ('any',) if self.mode == 'count' else (
            'added', 'modified', 'deleted')
        for ev in events:
            current['ref:' + ev] = ev
        i, n = None, 0
        calls = []

        def end():
            step = self.steps[i] if i is not None else None
            if step is None or step[0] in ('reg', 'dereg'):
                if calls:
                    return self.bad('called without an event', '%s is called '
                                    'although nothing happened (%s)' % (
                                        calls[0][0], self.op))
                return []
            seq = {}
            for nm, args in calls:
                seq.setdefault(nm, []).append(args)
            want = {'change': 'modified', 'modified': 'modified',
                    'del': 'deleted', 'add': 'added'}[step[0]]
            want = self.told.get(i, want)
            for ev in events:
                ref = [a for a in seq.get('ref:' + ev, [])]
                others = [nm for nm, e in current.items() if e == ev and
                          nm not in taints]
                if ev in ('any', want) and not ref:
                    longest = max([len(seq.get(nm, ())) for nm in others])
                    return self.bad('listener not called', 'a listener of '
                                    '%s events is not called for %s (%s)' % (
                                        ev, show_step(step), self.op))
                for nm in others:
                    if [k for k in seq.get(nm, [])] != ref:
                        return self.bad(
                            'listener not called' if len(seq.get(
                                nm, [])) < len(ref) else
                            'listener called too often',
                            'listeners of %s events of %s are called %d and '
                            '%d times (or with different arguments) for the '
                            'same %s (%s)' % (
                                ev, self.mode, len(ref), len(seq.get(nm, [])),
                                show_step(step), self.op))
            for nm in seq:
                if nm not in current and nm not in taints:
                    return self.bad('deregistered listener called',
                                    '%s is called for %s although it is not '
                                    'registered (%s)' % (
                                        nm, show_step(step), self.op))
            for nm, e in list(acted):
                apply(e)
            return []

        def apply(step):
            if step[0] == 'reg':
                current[step[1]] = step[2]
            elif step[0] == 'dereg':
                current.pop(step[1], None)
        acted = []
        self.obligations += 1
        for entry in st.x['ghost']['log'] + (('step', None),):
            if entry[0] == 'fails':
                return self.bad('fails', '%s fails with %s at %s (%s)' % (
                    show_step(self.steps[i]), entry[1], entry[2], self.op))
            if entry[0] == 'call':
                nm = entry[1]
                calls.append(entry[1:])
                if nm in self.acts and nm not in [a for a, _ in acted] and \
                        nm not in done:
                    act = self.acts[nm]
                    acted.append((nm, act))
                    taints.add(act[1])
                continue
            p = end()
            if p:
                return p
            if i is not None and self.steps[i][0] in ('reg', 'dereg'):
                apply(self.steps[i])
            self.obligations += len(current)
            if i is None:
                done = set()
            done |= {a for a, _ in acted}
            i, calls, acted, taints = entry[1], [], [], set()
        return []

    told = {}


def show_step(s):
    return '%s(%s)' % (s[0], ', '.join(str(x) for x in s[1:]))


def histories(n, events, most=3):
    """Registrations and deregistrations, in every order."""
    def go(hist, reg, used):
        yield hist
        if len(hist) == n:
            return
        if used < most:
            for ev in events:
                nm = 'ABCDE'[used]
                yield from go(hist + (('reg', nm, ev),), reg + ((nm, ev),),
                              used + 1)
        for nm, ev in reg:
            yield from go(hist + (('dereg', nm, ev),), tuple(
                r for r in reg if r[0] != nm), used)
    return [h for h in go((), (), 0)]


# ---- actions for nodes which are to appear -----------------------------------
class Actions(Steps):
    """Actions are queued; then nodes appear and vanish."""
    prop = 'C17'
    # what the filter says about C in each phase
    KINDS = ('ps', 'ps1', 'ps2', 'ps3', 'ps4')

    def __init__(self, prog, names, steps, answers, acts=None, main=False,
                 **kw):
        self.answers_of_c = answers
        self.acts = acts or {}
        self.newnodes = {}
        self.main_view = main
        fx = dict(kw.pop('fixed', None) or {})
        for k, a in zip(self.KINDS, answers):
            fx[k, C] = a
        fx['sh', C] = answers[0] and fx.get(('in', C), True)
        Steps.__init__(self, prog, names, steps, changed=(), fixed=fx, **kw)
        self.construct = 'FilteredTree.set_callback'

    def steady(self, x, get):
        return True

    def prepare(self, eng, st):
        if self.main_view:
            st, self.view = self.one(self.call_method(
                eng, st, self.tree, 'get_main_view', []), 'get_main_view()')
        return st

    def lib_call(self, eng, st, name, args, kw, ctx, node):
        """The main loop calls what was given to idle_add until that returns
        a false value."""
        short = name.split('.')[-1]
        if not self.building and short in (
                'idle_add', 'timeout_add', 'timeout_add_seconds'):
            i = 0 if short == 'idle_add' else 1
            if len(args) > i and isinstance(
                    args[i], (ExtFn, Clo, Part, Meth)):
                n = st.x.get('nidle', 0) + 1
                st.x['nidle'] = n
                st.x['idle'] = st.x.get('idle', ()) + (
                    (n, args[i], tuple(args[i + 1:])),)
                st.x['keep'] = tuple(st.x.get('keep', ())) + (
                    args[i],) + tuple(args[i + 1:])
                return [(st, Const(-n))]
        if short == 'source_remove' and args and isinstance(
                args[0], Const) and any(
                    args[0].v == -n for n, _, _ in st.x.get('idle', ())):
            st.x['idle'] = tuple(p for p in st.x['idle']
                                 if -p[0] != args[0].v)
            return [(st, TRUE)]
        return Steps.lib_call(self, eng, st, name, args, kw, ctx, node)

    def step(self, eng, st, step, i):
        out = []
        for s, v in Steps.step(self, eng, st, step, i):
            out.extend((t, v) for t in self.idle(eng, s))
        return out

    def idle(self, eng, st):
        """The main loop, until it is at rest (or three rounds)."""
        final, work = [], [(st, 0)]
        while work:
            s, n = work.pop()
            src = s.x.get('idle', ())
            if not src or n >= 4:
                final.append(s)
                continue
            num, fn, args = src[0]
            for s2, v in eng.call(s, fn, list(args), {}, Ctx(
                    None, None, self.node_cls.module, self.node_cls), None):
                if isinstance(v, Exc):
                    self.log(s2, 'fails', v.cls, v.where)
                    v = FALSE
                for s3, t in eng.truth(s2, v):
                    if not t:
                        s3.x['idle'] = tuple(
                            p for p in s3.x['idle'] if p[0] != num)
                    work.append((s3, n + 1))
        return final

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name.startswith('K:'):
            nm = fn.name[2:]
            nd = st.heap[self.ft.a].fields.get('nodes')
            shown = None
            if isinstance(nd, Ref) and isinstance(st.heap.get(nd.a), Cont):
                shown = tuple((x, self.peek(st, nd.a, x))
                              for x in self.names + [N])
            self.log(st, 'ran', nm, tuple(args), shown)
            if nm in self.acts and nm not in st.x['ghost']['acted']:
                self.ghost(st, acted=st.x['ghost']['acted'] + (nm,))
                self.log(st, 'within', nm)
                out = []
                for s, v in Steps.step(self, eng, st, self.acts[nm], 0):
                    self.log(s, 'leave', nm)
                    out.append((s, v if isinstance(v, Exc) else
                                FB(('kr', C))))
                return out
            # an action may return anything
            return [(st, FB(('kr', C)))]
        if fn.name == 'F' and args and self.who(args[0]) == C:
            return [(st, FB((self.KINDS[st.x['ghost']['phase']], C)))]
        return Steps.ext_call(self, eng, st, fn, args, kw, ctx, node)

    def do_queue(self, eng, st, name, x, param=True):
        # A:2 is the same function as A, with another parameter
        args = [x, ExtFn('K:' + name.partition(':')[0])]
        if param:
            args.append(Sym('param' + name))
        return self.call_method(eng, st, self.view, 'queue_action', args)

    def do_refilter(self, eng, st):
        """The filter is taken off and put on again: now it says something
        else."""
        out = []
        for s, v in self.call_method(eng, st, self.view, 'reset_filters', [],
                                     {'refresh': FALSE}):
            self.ghost(s, phase=s.x['ghost']['phase'] + 1)
            out.extend(self.call_method(eng, s, self.view, 'apply_filter',
                                        [Const('f')]) if not isinstance(
                                            v, Exc) else [(s, v)])
        return out

    def problems(self, st, v):
        F = self.getter(st)
        for x in self.names:        # weed out what cannot be
            for y in self.names:
                F('e', x, y)
        phase = 0
        here = {x: bool(F('in', x)) for x in self.names}
        here[N] = False

        def shown(x):
            if not here.get(x):
                return False
            if self.main_view:
                return True
            if x == C:
                return bool(F(self.KINDS[phase], C))
            return bool(F('ps', x))
        waiting = {}            # action -> node
        due = {}                # action -> node: has to run now
        ran = set()
        self.obligations += 1
        i = None

        def queue(a, x):
            if shown(x):
                due[a] = x
            else:
                waiting[a] = x
        for entry in st.x['ghost']['log'] + (('step', None),):
            if entry[0] == 'fails':
                return self.bad('fails', '%s fails with %s at %s (%s)' % (
                    show_step(self.steps[i]), entry[1], entry[2], self.op))
            if entry[0] == 'step':
                self.obligations += len(waiting) + len(due)
                for a, x in due.items():
                    return self.bad('action not run', 'the action %s, queued '
                                    'for %s, does not run although the node '
                                    'is shown after %s (%s)' % (
                                        a, x, show_step(self.steps[i]),
                                        self.op))
                i = entry[1]
                if i is None:
                    break
                step = self.steps[i]
                if step[0] in ('change', 'refilter'):
                    phase += 1
                elif step[0] == 'del':
                    here[step[1] if len(step) > 1 else C] = False
                elif step[0] == 'add':
                    here[step[1] if len(step) > 1 else N] = True
                if step[0] == 'queue':
                    queue(step[1], step[2])
                else:
                    for a, x in list(waiting.items()):
                        if shown(x):
                            due[a] = waiting.pop(a)
            elif entry[0] == 'within':
                act = self.acts[entry[1]]
                if act[0] == 'queue':
                    queue(act[1], act[2])
            elif entry[0] == 'ran':
                a, args, snap = entry[1:]
                self.obligations += 1
                if args and isinstance(args[0], Sym) and \
                        args[0].name.startswith('param%s:' % a):
                    a = args[0].name[5:]
                if a in ran:
                    return self.bad('action runs again', 'the action %s runs '
                                    'a second time during %s (%s)' % (
                                        a, show_step(self.steps[i]), self.op))
                ran.add(a)
                x = due.pop(a, None)
                if x is None:
                    return self.bad('action runs too early', 'the action %s '
                                    'runs during %s although its node is not '
                                    'shown (%s)' % (a, show_step(
                                        self.steps[i]), self.op))
                want = (Sym('param' + a),)
                if self.plain(a):
                    want = (NONE,)
                if args != want:
                    return self.bad('wrong parameter', 'the action %s is '
                                    'given %s and not %s' % (
                                        a, ', '.join(map(str, args)),
                                        want[0]))
                if snap is not None and not self.main_view:
                    n = dict(snap).get(x)
                    if n is not None and not self.value(n, F):
                        return self.bad('action runs too early', 'the action '
                                        '%s runs before %s is shown (%s)' % (
                                            a, x, self.op))
        return []

    def plain(self, a):
        return any(s[0] == 'queue' and s[1] == a and len(s) > 3 and
                   not s[3] for s in self.steps)


# ---- views by name -----------------------------------------------------------
class Named(Steps):
    """Views asked for by name."""
    prop = 'C19'
    newnodes = {}

    def do_view(self, eng, st, tag, name=None, meth='get_viewtree'):
        out = []
        for s, v in self.call_method(
                eng, st, self.tree, meth,
                [] if meth == 'get_main_view' else
                [NONE if name is None else Const(name)],
                {} if meth == 'get_main_view' else {'refresh': FALSE}):
            if isinstance(v, Ref):
                self.ghost(s, refs=s.x['ghost']['refs'] + (
                    (tag, meth, name, v),))
                s.x['keep'] = s.x.get('keep', ()) + (v,)
            out.append((s, v))
        return out

    def problems(self, st, v):
        out = []
        for e in st.x['ghost']['log']:
            if e[0] == 'fails':
                return self.bad('fails', 'fails with %s at %s (%s)' % (
                    e[1], e[2], self.op))
        refs = st.x['ghost']['refs'] + (
            (None, 'get_viewcount' if self.count else 'get_viewtree', 'v',
             self.view),)
        for i, (t1, m1, n1, r1) in enumerate(refs):
            for t2, m2, n2, r2 in refs[:i]:
                self.obligations += 1
                k1 = ('get_viewtree', 'main') if m1 == 'get_main_view' \
                    else (m1, n1)
                k2 = ('get_viewtree', 'main') if m2 == 'get_main_view' \
                    else (m2, n2)
                same = k1 == k2 and k1[1] is not None
                if same and r1 != r2:
                    return self.bad('two views of one name', 'two views are '
                                    'named %s (%s)' % (k1[1], self.op))
                if not same and r1 == r2:
                    return self.bad('one view for two names', '%s and %s are '
                                    'one view (%s)' % (k1[1], k2[1], self.op))
        return out


class Apart(Steps):
    """Changing the filters of one view leaves the other one alone."""
    prop = 'C19'
    newnodes = {}

    def __init__(self, prog, names, steps, other, **kw):
        self.other = other
        Steps.__init__(self, prog, names, steps, **kw)

    def prepare(self, eng, st):
        st, _ = self.one(self.call_method(
            eng, st, self.tree, 'add_filter', [Const('g'), ExtFn('G')]),
            'add_filter()')
        if self.other == 'main':
            st, self.w = self.one(self.call_method(
                eng, st, self.tree, 'get_main_view', []), 'get_main_view()')
        else:
            args = [] if self.other is None else [Const(self.other)]
            st, self.w = self.one(self.call_method(
                eng, st, self.tree, 'get_viewtree', args,
                {'refresh': FALSE}), 'get_viewtree()')
        st.x['keep'] = st.x.get('keep', ()) + (self.w,)
        self.entry = self.snap(st)
        return st

    def snap(self, st):
        o = st.heap[self.ft.a].fields
        nd = o.get('nodes')
        c = st.heap.get(nd.a) if isinstance(nd, Ref) else None
        if not isinstance(c, Cont) or c.kind != 'dict':
            return None
        out = [tuple((x, self.peek(st, nd.a, x)) for x in self.names)]
        recs = dict(c.items) if c.exact else dict(c.vals)
        for x in self.names + [self.root_key]:
            rec = recs.get(x)
            if rec is None or not self.record_ok(st, rec):
                out.append(None)
                continue
            for f in ('parents', 'children'):
                a = self.rec_field(st, rec, f).a
                out.append(tuple((y, self.peek(st, a, y)) for y in
                                 self.names + [self.root_key]))
        return out

    def do_on(self, eng, st, meth, *args):
        """A call about filters of the other view."""
        out = []
        for s, v in self.call_method(eng, st, self.w, meth, [
                Const(a) if isinstance(a, (str, bool)) else a for a in args]):
            if isinstance(v, Exc) and self.other == 'main':
                v = NONE        # refused
            out.append((s, v))
        return out

    def start(self, eng, st):
        self.construct = 'ViewTree'
        out = []
        for s, v in Steps.start(self, eng, st):
            for t, w in self.call_method(eng, s, self.view,
                                         'list_applied_filters', []):
                self.ghost(t, bad=(self.consts(t, w),))
                if self.other == 'main':
                    for u, n in self.call_method(eng, t, self.w,
                                                 'get_all_nodes', []):
                        self.ghost(u, refs=((n, u.heap.get(
                            getattr(n, 'a', None))),))
                        out.append((u, NONE))
                else:
                    out.append((t, NONE))
        return out

    def consts(self, st, v):
        c = st.heap.get(v.a) if isinstance(v, Ref) else None
        if not isinstance(c, Cont) or not c.exact:
            return None
        return tuple(c.items)

    def problems(self, st, v):
        F = self.getter(st)
        for e in st.x['ghost']['log']:
            if e[0] == 'fails':
                return self.bad('fails', 'fails with %s at %s (%s)' % (
                    e[1], e[2], self.op))
        self.obligations += 3
        if st.x['ghost']['rows']:
            return self.bad('views not apart', '%s on one view tells the '
                            'listeners of another one' % self.op)
        if st.x['ghost']['bad'] and st.x['ghost']['bad'][0] not in (
                None, (Const('f'),)):
            return self.bad('views not apart', '%s on one view changes the '
                            'filters of another one' % self.op)
        now = self.snap(st)
        if now is None:
            st.doubt('nodes of the view')
            return []
        val = lambda t: t and tuple((x, self.value(n, F)) for x, n in t)
        a = [val(t) for t in self.entry]
        b = [val(t) for t in now]
        for x, (p, q) in zip(['nodes'] + [(y, f) for y in self.names + [
                'the virtual root'] for f in ('parents', 'children')],
                zip(a, b)):
            if x != 'nodes' and x[0] in self.names and not F('sh', x[0]):
                continue
            if p != q:
                return self.bad('views not apart', '%s on one view changes '
                                'what another one shows' % self.op)
        if self.other == 'main':
            (n, c), = st.x['ghost']['refs']
            if not isinstance(c, Cont) or isinstance(n, Exc):
                st.doubt('nodes of the main view')
                return []
            for x in self.names:
                k = self.value(min(2, sum(1 for i in c.items if i == x))
                               if c.exact else c.mem.get(x, 0), F)
                if bool(k) != bool(F('in', x)):
                    return self.bad('main view filtered', 'after %s, the main '
                                    'view does not show all nodes' % self.op)
        return []


# ---- scenarios ----------------------------------------------------------------
def listen_scenarios(prog, tier='quick'):
    out = []
    long = tier != 'quick'

    def add(mode, steps, acts=None, told=None, **kw):
        fx = {('in', C): True, ('ps', C): True, ('sh', C): True}
        fx.update(kw.pop('fixed', {}))
        changed = kw.pop('changed', ())
        label = 'listeners of %s: %s' % (mode, '; '.join(
            show_step(s) for s in steps))
        if acts:
            label += ' (%s)' % ', '.join('%s: %s' % (k, show_step(v))
                                         for k, v in sorted(acts.items()))

        def make():
            w = Listen(prog, kw.get('names', 'C'), mode, steps, acts=acts,
                       fixed=dict(fx), changed=changed)
            w.told = told or {}
            return w
        out.append((label, make))

    for mode in ('tree', 'main', 'view'):
        for h in histories(5 if long else 4, ('modified', 'deleted')):
            add(mode, h + (('modified',), ('del',)))
        for h in histories(3 if long else 2, ('modified', 'added')):
            add(mode, h + (('add', N), ('modified',)),
                fixed={('in', N): False, ('ps', N): True}, names='CN')
        for h in histories(3, ('modified',)):
            if len(h) == 3:
                add(mode, h[:2] + (('modified',),) + h[2:] + (
                    ('modified',),))
        two = (('reg', 'A', 'modified'), ('reg', 'B', 'modified'))
        for nm in 'AB':
            for act in (('dereg', 'A', 'modified'), ('dereg', 'B', 'modified'),
                        ('reg', 'C', 'modified'), ('reg', 'C', 'deleted')):
                add(mode, two + (('modified',), ('modified',), ('del',)),
                    acts={nm: act})
        add(mode, two + (('modified',), ('modified',)), acts={
            'ref:modified': ('dereg', 'A', 'modified')})
        add(mode, (('dereg', 'Z', 'modified'), ('modified',)))
        add(mode, (('dereg', 'Z', 'reordered'), ('modified',)))
    flip = {'fixed': {('ps', C): True, ('sh', C): False}, 'changed': [C]}
    for h in histories(5 if long else 4, ('any',)):
        add('count', h + (('modified',), ('del',)), **flip)
    two = (('reg', 'A', 'any'), ('reg', 'B', 'any'))
    for nm in 'AB':
        for act in (('dereg', 'A', 'any'), ('dereg', 'B', 'any'),
                    ('reg', 'C', 'any')):
            add('count', two + (('modified',), ('del',)), acts={nm: act},
                **flip)
    add('count', (('dereg', 'Z', 'any'), ('modified',)), **flip)
    return out


def action_scenarios(prog, tier='quick'):
    out = []

    def add(steps, answers, names='C', acts=None, **kw):
        fx = {('in', C): True}
        fx.update(kw.pop('fixed', {}))
        label = 'actions: %s (C shown: %s)%s%s' % (
            '; '.join(show_step(s) for s in steps),
            ', '.join(str(a) for a in answers),
            ' ' + names if names != 'C' else '',
            ' (%s)' % ', '.join('%s: %s' % (k, show_step(v))
                                for k, v in sorted(acts.items()))
            if acts else '')
        if kw.get('main'):
            label += ' main view'
        if kw.get('flat'):
            label += ' flat'
        if kw.get('tag'):
            label += kw.pop('tag')
        out.append((label, lambda: Actions(
            prog, names, steps, answers, acts=acts, fixed=dict(fx), **kw)))

    A, B, D = ('queue', 'A', C), ('queue', 'B', C), ('queue', 'D', P)
    T, U = True, False
    for how in (('change',), ('refilter',)):
        for flat in (False, True):
            k = {'flat': flat}
            add([A, how, how, how], [U, T, U, T], **k)
            add([A, B, how, how, how], [U, T, U, T], **k)
            add([A, ('queue', 'A:2', C), how, how, how], [U, T, U, T], **k)
            add([A, how, B, how, how], [U, T, U, T], **k)
            add([A, how, how, B, how], [U, T, U, T], **k)
            add([A, how, how, how], [T, T, U, T], **k)
            add([A, how, how, how, how], [U, U, T, U, T], **k)
            add([how, A, how, how], [U, T, U, T], **k)
        add([A, D, how, how, how], [U, T, U, T], names='CP')
        add([D, A, how, ('modified', P), how, how], [U, T, U, T],
            names='CP')
        add([A, how, how, how], [U, T, U, T], names='CPX')
    mix = ('change',), ('refilter',)
    add([A, mix[0], mix[1], mix[0]], [U, T, U, T])
    add([A, mix[1], mix[0], mix[1]], [U, T, U, T])
    add([('queue', 'A', C, False), ('change',)], [U, T])
    add([('queue', 'A', C, False), ('change',)], [T, T])
    add([A, ('queue', 'A2', C), ('queue', 'A3', C), ('change',),
         ('change',), ('change',)], [U, T, U, T])
    # actions which queue further actions
    for x in (C, P):
        for a in ([A], [A, B]):
            add(a + [('change',), ('change',), ('change',)], [U, T, U, T],
                acts={'A': ('queue', 'E', x)}, names='CP',
                fixed={('e', P, C): False, ('e', C, P): False})
    # nodes which are not in the tree yet
    new = {('in', N): False, ('ps', N): True}
    add([('queue', 'A', N), ('add', N), ('modified',)], [T], names='CN',
        fixed=new)
    add([('queue', 'A', N), ('queue', 'A:2', C), ('queue', 'A:3', N),
         ('add', N, C), ('change',)], [U, T], names='CN', fixed=new)
    add([A, ('queue', 'A:2', C)], [T], names='C')
    add([A, ('queue', 'A:2', P), ('change',)], [U, T], names='CP')
    add([('queue', 'A', N), ('queue', 'B', N), ('add', N, C)], [T],
        names='CN', fixed=new)
    add([('queue', 'B', N), A, ('add', N, C), ('change',)], [U, T],
        names='CN', fixed=new)
    add([('queue', 'A', N), ('add', N), ('modified',)], [T], names='CN',
        fixed={**new, ('ps', N): False})
    for m in (T, U):
        add([A, ('modified',)], [T], main=True, fixed={('in', C): m})
    add([('queue', 'A', N), ('add', N), ('modified',)], [T], names='CN',
        fixed=new, main=True)
    # the node goes away while the action waits
    add([A, ('del', C), ('modified', P)], [U, U], names='CP')
    add([A, D, ('del', C), ('modified', P)], [U, U], names='CP')
    return out


def named_scenarios(prog, tier='quick'):
    out = []
    tree, count, main = 'get_viewtree', 'get_viewcount', 'get_main_view'

    def add(*asks, **kw):
        steps = [('view', str(i), n, m) for i, (m, n) in enumerate(asks)]
        label = 'views by name: %s%s' % ('; '.join(
            '%s(%s)' % (m, n or '') for m, n in asks),
            ' (counting)' if kw.get('count') else '')
        out.append((label, lambda: Named(
            prog, 'C', steps, fixed={('in', C): True}, **kw)))

    asks = [(tree, 'v'), (tree, 'w'), (tree, None), (count, 'v'),
            (count, None), (main, None), (tree, 'main')]
    for a in asks:
        for b in asks:
            if tier != 'quick':
                for c in asks:
                    add(a, b, c)
            add(a, b)
            if a[0] == count or b[0] == count:
                add(a, b, count=True)
    for a in ((tree, 'w'), (count, 'w')):
        add(a, (tree, None), a)
        add(a, (tree, 'x'), a)
        add((main, None), a, (main, None))

    def apart(other, *steps, **kw):
        out.append(('views apart: %s of %s%s' % ('; '.join(
            show_step(s) for s in steps), other or 'an anonymous view',
            ' (flat)' if kw.get('flat') else ''), lambda: Apart(
                prog, 'CP', steps, other, **kw)))
    for other in ('w', None, 'main'):
        for flat in (False, True):
            for call in (('on', 'apply_filter', 'g'),
                         ('on', 'apply_filter', 'nope'),
                         ('on', 'unapply_filter', 'f'),
                         ('on', 'reset_filters')):
                apart(other, call, flat=flat)
            apart(other, ('on', 'apply_filter', 'g'),
                  ('on', 'unapply_filter', 'g'), flat=flat)
            apart(other, ('on', 'apply_filter', 'g'), ('on', 'reset_filters'),
                  flat=flat)
            if other == 'main':
                for q in ('get_n_nodes', 'get_nodes', 'node_n_children',
                          'list_applied_filters'):
                    apart(other, ('on', q), ('on', 'apply_filter', 'g'),
                          flat=flat)
    return out


def listen_job(prog, res, index, tier):
    label, make = listen_scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def action_job(prog, res, index, tier):
    label, make = action_scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def named_job(prog, res, index, tier):
    label, make = named_scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def jobs(scen, job):
    return lambda prog, tier: [
        (label, job, (i, tier)) for i, (label, _) in enumerate(
            scen(prog, tier))]


listen_jobs = jobs(listen_scenarios, listen_job)
action_jobs = jobs(action_scenarios, action_job)
named_jobs = jobs(named_scenarios, named_job)
