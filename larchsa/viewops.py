"""A filtered view of a tree: what it shows after a change of the tree.

The filter is an arbitrary predicate: whether it lets a node pass is an
undetermined fact, before ('sh') and after ('ps') the change. The view is in
an arbitrary state which fits the tree before the change."""
from .values import *
from .world import TreeWorld
from .judge import Need
from .interp import Engine, Ctx, Budget
from .program import AnalysisBroken
from .treeops import Add
from .run import run_operation

P, C, X, N, D, Q = (Sym(n) for n in 'PCXNDQ')
ROOT = 'virtual root'
KIND = {'F': 'ps', 'G': 'qs', 'H': 'ts'}
EVENTS = ('added', 'deleted', 'modified')


class ViewWorld(TreeWorld):
    op = ''
    construct = ''
    flat = False
    fresh = ()          # names of nodes which are not in the tree yet
    new = None
    judged = 0
    obligations = 0
    max_recursion = 14
    bank = applied = None       # filters and those of them applied
    flips = ()          # filters whose functions say the opposite
    flat_after = None

    def __init__(self, prog, names, changed, flat=False, empty=False,
                 fixed=None, two=False, count=False, **kw):
        kw.setdefault('others', False)
        kw.setdefault('pend_pairs', [])
        self.changed = frozenset(changed)
        self.flat = flat
        self.answers = ('ps', 'qs') if two else ('ps',)   # before
        self.after = self.answers
        self.count = count
        self.empty = empty          # the view shows nothing yet
        fx = {('pe', Sym(n)): True for n in names}
        fx.update({('ce', Sym(n)): True for n in names})
        fx.update(fixed or {})
        TreeWorld.__init__(self, prog, names, fixed=fx, **kw)

    # ---- facts ---------------------------------------------------------------
    def consistent(self, facts):
        return self.derive(facts) and TreeWorld.consistent(self, facts)

    def derive(self, facts):
        """Add what follows from the facts; False if they contradict."""
        get = facts.get
        bad = []
        changed = [True]

        def put(f, v):
            w = get(f)
            if w is None:
                facts[f] = v
                changed[0] = True
            elif w is not v:
                bad.append(f)

        names = self.names
        while changed[0] and not bad:
            changed[0] = False
            for f, v in list(facts.items()):
                if f[0] == 'e' and v:
                    put(('in', f[1]), True)
                    put(('in', f[2]), True)
                    put(('e', f[2], f[1]), False)
                elif f[0] == 'in' and not v:
                    put(('sh', f[1]), False)
                    put(('r', f[1]), False)
                    for y in names:
                        if y != f[1]:
                            put(('e', f[1], y), False)
                            put(('e', y, f[1]), False)
                elif f[0] == 'r' and v:
                    put(('in', f[1]), True)
                    for y in names:
                        if y != f[1]:
                            put(('e', y, f[1]), False)
                elif f[0] in ('vl', 'vr', 'sh') and v and self.empty:
                    return False
            for x in names:
                if get(('in', x)) and not self.others:
                    ups = [('e', y, x) for y in names
                           if y != x and not self.blocked(('e', y, x)) and
                           get(('e', y, x)) is not False]
                    if not ups:
                        put(('r', x), True)
                    elif any(get(u) for u in ups):
                        put(('r', x), False)
                    elif get(('r', x)) is False and len(ups) == 1:
                        put(ups[0], True)
                if get(('sh', x)):
                    put(('in', x), True)
                if not self.empty and get(('in', x)) and \
                        self.steady(x, get):
                    a = get(('sh', x))
                    bs = [get((k, x)) for k in self.answers]
                    if a:
                        for k in self.answers:
                            put((k, x), True)
                    elif a is False and bs.count(None) == 1 and \
                            False not in bs:
                        put((self.answers[bs.index(None)], x), False)
                    elif False in bs:
                        put(('sh', x), False)
                    elif None not in bs:
                        put(('sh', x), True)
                if not self.empty:
                    self.derive_links(x, get, put)
        return not bad

    def fact(self, get, *f):
        if f[0] == 'e' and (f[1] == f[2] or self.blocked(f)):
            return False
        return get(f)

    def untold(self, x, get):
        """Is it certain (None: unknown) that the operation does not tell
        anybody about x?"""
        return True

    def steady(self, x, get):
        """Is it out of the question that the filters changed their mind
        about x?"""
        return x not in self.changed or self.untold(x, get) is True

    def refused(self, F):
        return False

    def derive_links(self, x, get, put):
        cand = []
        sx = get(('sh', x))
        for p in self.names:
            if p == x:
                continue
            l = ('vl', p, x)
            if self.flat:
                put(l, False)
                continue
            e = False if self.blocked(('e', p, x)) else get(('e', p, x))
            sp, v = get(('sh', p)), get(l)
            three = (e, sp, sx)
            if False in three:
                put(l, False)
            elif three == (True, True, True):
                put(l, True)
            elif v:
                put(('e', p, x), True)
                put(('sh', p), True)
                put(('sh', x), True)
            elif v is False and three.count(True) == 2:
                put((('e', p, x), ('sh', p), ('sh', x))[three.index(None)],
                    False)
            if get(l) is not False:
                cand.append(l)
        r = ('vr', x)
        if get(r):
            put(('sh', x), True)
            for l in cand:
                put(l, False)
        elif get(('sh', x)):
            if not cand:
                put(r, True)
            elif any(get(l) for l in cand):
                put(r, False)
            elif get(r) is False and len(cand) == 1:
                put(cand[0], True)
        elif sx is False:
            put(r, False)

    def close(self, facts):
        TreeWorld.close(self, facts)

    def vl(self, p, x):
        if p == x or self.flat or self.empty or self.blocked(('e', p, x)):
            return 0
        return FV(('vl', p, x))

    def vr(self, x):
        return 0 if self.empty else FV(('vr', x))

    def sh(self, x):
        return 0 if self.empty else FV(('sh', x))

    # ---- entry ----------------------------------------------------------------
    def build(self, eng):
        st = self.make_view(eng)
        self.building = False
        eng.set_base(st)
        self.base_addrs = frozenset(st.heap)
        return st

    def one(self, outs, what):
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise AnalysisBroken('%s fails' % what)
        return outs[0]

    def make_view(self, eng):
        BASE[0] = 0
        st = TreeWorld.build(self, eng)
        self.building = True
        if self.count:
            return self.make_count(eng, st)
        bank = self.bank
        if bank is None:
            bank = [('f', 'F', {'flat': True} if self.flat else None)]
            if len(self.answers) > 1:
                bank.append(('g', 'G', None))
        applied = [n for n, _, _ in bank] if self.applied is None else \
            self.applied
        for name, fn, par in bank:
            st, _ = self.one(self.call_method(
                eng, st, self.tree, 'add_filter',
                [Const(name), ExtFn(fn), self.params(st, par)]),
                'add_filter()')
        st, self.view = self.one(self.call_method(
            eng, st, self.tree, 'get_viewtree', [Const('v')],
            {'refresh': FALSE}), 'get_viewtree()')
        found = [a for a, o in st.heap.items() if isinstance(o, Inst) and
                 not isinstance(o.cls, str) and o.cls.name == 'FilteredTree']
        if len(found) != 1:
            raise AnalysisBroken('FilteredTree of a view not found')
        self.ft = Ref(found[0])
        for name in applied:
            st, _ = self.one(self.call_method(
                eng, st, self.view, 'apply_filter', [Const(name)],
                {'refresh': FALSE}), 'apply_filter()')
        self.set_flat(st)
        for ev in EVENTS:
            st, _ = self.one(self.call_method(
                eng, st, self.view, 'register_cllbck',
                [Const('node-%s-inview' % ev), ExtFn('V:' + ev)]),
                'register_cllbck()')
        self.generalise_view(st)
        return self.finish(eng, st)

    def params(self, st, par):
        if par is None:
            return NONE
        return st.new(Cont('dict', items=tuple(
            (Const(k), v if not isinstance(v, (bool, str)) else Const(v))
            for k, v in par.items())))

    def make_count(self, eng, st):
        """A counting view instead of a filtered one."""
        for name, fn in (('f', 'F'), ('g', 'G')):
            st, _ = self.one(self.call_method(
                eng, st, self.tree, 'add_filter',
                [Const(name), ExtFn(fn)]), 'add_filter()')
        st, self.view = self.one(self.call_method(
            eng, st, self.tree, 'get_viewcount', [Const('v')],
            {'refresh': FALSE}), 'get_viewcount()')
        self.ft = self.view
        for name in ('f', 'g')[:len(self.answers)]:
            st, _ = self.one(self.call_method(
                eng, st, self.view, 'apply_filter', [Const(name)],
                {'refresh': FALSE}), 'apply_filter()')
        st, _ = self.one(self.call_method(
            eng, st, self.view, 'register_cllbck', [ExtFn('V:count')]),
            'register_cllbck()')
        o = st.heap[self.view.a]
        fields = dict(o.fields)
        # a refresh leaves it initialized
        if 'initialized' in fields:
            fields['initialized'] = TRUE
        st.heap[self.view.a] = Inst(o.cls, fields, o.tag)
        nd = fields.get('nodes')
        cont = st.heap.get(nd.a) if isinstance(nd, Ref) else None
        if not isinstance(cont, Cont) or not cont.exact or cont.items:
            raise AnalysisBroken('the nodes of a new counting view are not '
                                 'what they used to be')
        kw = {}
        if cont.kind == 'dict':
            raise AnalysisBroken('nodes of a counting view are a dict')
        st.heap[nd.a] = cont.with_(
            exact=False, items=(), mem={x: self.sh(x) for x in self.names},
            oth='no', **kw)
        return self.finish(eng, st)

    def counted(self, st):
        view = st.x['ghost'].get('view', self.view)
        nd = st.heap[view.a].fields.get('nodes')
        if not isinstance(nd, Ref) or not isinstance(
                st.heap.get(nd.a), Cont):
            return None
        return tuple(self.peek(st, nd.a, x) for x in self.names)

    def count_problems(self, st, F):
        out = []
        a_nodes = self.a_nodes(st)
        now = self.counted(st)
        if now is None:
            st.doubt('nodes of the counting view')
            return out
        for x, n in zip(self.names, now):
            n = self.value(n, F)
            inn = self.value(self.peek(st, a_nodes, x), F)
            want = bool(inn and self.passes(F, x))
            self.obligations += 1
            if bool(n) != want or n > 1:
                out.append(('C15', 'wrong count', 'after %s, %s %s' % (
                    self.op, x, 'is counted more than once' if n > 1 and want
                    else 'passes the filters but is not counted' if want
                    else 'is counted but does not pass the filters' if inn
                    else 'is counted but is not in the tree')))
        if out:
            return out
        tot = lambda c: sum(self.value(n, F) for n in c)
        last = sum(1 for x in self.names if F('sh', x))
        for ev, args, where, snap in st.x['ghost']['rows']:
            self.obligations += 1
            if snap is None:
                st.doubt('nodes of the counting view')
                return out
            n = tot(snap)
            if n == last:
                out.append(('C15', 'told without a change', 'during %s, '
                            'listeners are told at %s although the number '
                            'did not change' % (self.op, where)))
                return out
            last = n
        if tot(now) != last and 'view' not in st.x['ghost']:
            out.append(('C15', 'change not told', 'during %s, listeners are '
                        'not told that the number changed' % self.op))
        return out

    def set_flat(self, st):
        """The flat flag is worked out by a refresh: set it like that."""
        o = st.heap[self.ft.a]
        f = [k for k in o.fields if k.endswith('flat')]
        if len(f) != 1:
            raise AnalysisBroken('the flat flag of FilteredTree is gone')
        fields = dict(o.fields)
        fields[f[0]] = mkbool(self.flat)
        st.heap[self.ft.a] = Inst(o.cls, fields, o.tag)

    def generalise_view(self, st):
        o = st.heap[self.ft.a]
        for f in ('nodes', 'root_id'):
            if f not in o.fields:
                raise AnalysisBroken('field %s of FilteredTree is gone' % f)
        self.root_key = o.fields['root_id']
        nd = o.fields['nodes']
        cont = st.heap.get(nd.a) if isinstance(nd, Ref) else None
        if not isinstance(cont, Cont) or cont.kind != 'dict' or \
                not cont.exact or [k for k, _ in cont.items] != [
                    self.root_key]:
            raise AnalysisBroken('the nodes of a new view are not what '
                                 'they used to be')
        rec = cont.items[0][1]
        vals = {self.root_key: rec}
        if not self.record_ok(st, rec):
            raise AnalysisBroken('the records of a view are not what they '
                                 'used to be')
        ch = self.rec_field(st, rec, 'children')
        st.heap[ch.a] = st.heap[ch.a].with_(
            exact=False, items=(), mem={x: self.vr(x) for x in self.names},
            oth='no')
        self.roles[ch.a] = ('vchildren', ROOT)
        for x in self.names:
            mem = {p: self.vl(p, x) for p in self.names if p != x}
            mem[self.root_key] = self.vr(x)
            pa = st.new(Cont('list', exact=False, mem=mem))
            ch = st.new(Cont('list', exact=False, mem={
                c: self.vl(x, c) for c in self.names if c != x}))
            vals[x] = st.new(Cont('dict', items=(
                (Const('parents'), pa), (Const('children'), ch))))
        mem = {x: self.sh(x) for x in self.names}
        mem[self.root_key] = 1
        st.heap[nd.a] = cont.with_(exact=False, items=(), mem=mem,
                                   vals=vals, oth='no')
        self.recs = vals

    def record_ok(self, st, rec):
        c = st.heap.get(rec.a) if isinstance(rec, Ref) else None
        return isinstance(c, Cont) and c.kind == 'dict' and c.exact and {
            k for k, _ in c.items} == {Const('parents'), Const('children')}

    def rec_field(self, st, rec, name):
        for k, v in st.heap[rec.a].items:
            if k == Const(name):
                return v
        raise AnalysisBroken('record of a view without %s' % name)

    def finish(self, eng, st):
        st.roots = tuple(st.roots) + (self.view.a, self.ft.a)
        for a, o in list(st.heap.items()):
            if isinstance(o, Inst) and o.tag is None and \
                    not isinstance(o.cls, str):
                st.heap[a] = Inst(o.cls, o.fields, ('main',))
        st.x['ghost'] = self.ghost0()
        return st

    def ghost0(self):
        return {'rows': (), 'bad': ()}

    # ---- the environment --------------------------------------------------------
    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name in KIND:
            x = self.who(args[0]) if args else None
            if x is None:
                st.doubt('filter asked about an unknown node')
                return [(st, Top('filter'))]
            self.asked(st, fn.name, x, args, kw)
            kind = KIND[fn.name]
            if kind in self.flips:
                return [(t, mkbool(not v)) for t, v in eng.fork(
                    st, (kind, x))]
            return [(st, FB((kind, x)))]
        if fn.name.startswith('V:'):
            if not self.building:
                g = dict(st.x['ghost'])
                g['rows'] += ((fn.name[2:], tuple(args), ctx.where(node)) + (
                    (self.counted(st),) if self.count else ()),)
                st.x['ghost'] = g
            return [(st, NONE)]
        return TreeWorld.ext_call(self, eng, st, fn, args, kw, ctx, node)

    def asked(self, st, fn, x, args, kw):
        pass

    def who(self, v):
        if isinstance(v, Ref):
            role = self.roles.get(v.a)
            if role and role[0] == 'node':
                return role[1]
            if self.new is not None and v == self.new:
                return N
        return None

    # ---- judging ---------------------------------------------------------------
    def getter(self, st):
        def F(*fact):
            if fact[0] == 'e' and (fact[1] == fact[2] or
                                   self.blocked(fact)):
                return False
            if fact[0] in ('sh', 'vl', 'vr') and self.empty:
                return False
            if fact[0] == 'vl' and self.flat:
                return False
            v = st.facts.get(fact)
            if v is None:
                raise Need(fact)
            return v
        return F

    def peek(self, st, a, x):
        c = st.heap[a]
        if c.exact:
            return min(2, sum(1 for it in c.items if (
                it[0] if c.kind == 'dict' else it) == x))
        return c.mem.get(x, 0)

    def value(self, m, F):
        if isinstance(m, FV):
            return 1 if F(*m.name) else 0
        return m

    def judge(self, eng, st, v, report):
        work, n = [st], 0
        while work:
            s = work.pop()
            n += 1
            if n > 4000:
                eng.incomplete.add('case split of %s' % self.op)
                return
            try:
                problems = self.problems(s, v)
            except Need as need:
                work.extend(x for x, _ in eng.fork(s, need.fact))
                continue
            self.judged += 1
            for prop, rule, text in problems:
                report(self, s, prop, rule, text, v)

    def passes(self, F, x):
        return all(F(k, x) for k in self.after)

    def rows0(self, F):
        """The paths of the rows on entry."""
        out, work = set(), [(x,) for x in self.names if F('sh', x) and
                            F('vr', x)]
        while work:
            p = work.pop()
            out.add(p)
            if self.flat:
                continue
            for y in self.names:
                if y not in p and F('sh', y) and F('e', p[-1], y) and \
                        F('sh', p[-1]):
                    work.append(p + (y,))
        return out

    def problems(self, st, v):
        F = self.getter(st)
        out = []
        if self.refused(F):
            return self.unchanged(st, F)
        if isinstance(v, Exc):
            for prop in ('C15',) if self.count else ('C11', 'C12', 'C13'):
                out.append((prop, 'fails', '%s fails with %s at %s' % (
                    self.op, v.cls, v.where)))
            return out
        for x in self.changed:
            if F('in', x) and F('sh', x) != self.passes(F, x) and \
                    self.untold(x, lambda f: F(*f)):
                return out      # cannot be: contradicts 'steady'
        if self.count:
            return self.count_problems(st, F)
        names = self.names
        a_nodes = self.a_nodes(st)
        inn = {x: self.value(self.peek(st, a_nodes, x), F) for x in names}
        link = {}
        for p in names:
            for c in names:
                if p != c:
                    a = self.value(self.peek(
                        st, self.a_children(st, p), c), F)
                    link[p, c] = bool(a and inn[p] and inn[c])
        want = {x: bool(inn[x] and self.passes(F, x)) for x in names}
        nd = st.heap[self.ft.a].fields.get('nodes')
        if not isinstance(nd, Ref):
            st.doubt('nodes of the view')
            return out
        self.obligations += len(names)
        shown = {x: self.value(self.peek(st, nd.a, x), F) for x in names}
        for x in names:
            if bool(shown[x]) != want[x]:
                out.append(('C11', 'node not shown' if want[x] else
                            'node shown', 'after %s, %s %s' % (
                                self.op, x, 'passes the filters but is not '
                                'shown' if want[x] else
                                'is shown but does not pass the filters'
                                if inn[x] else 'is shown but is not in the '
                                'tree')))
        if out:
            return out + self.events(st, F, shown, nd, None)
        # links
        flat = self.flat if self.flat_after is None else self.flat_after
        wl = {(p, c): link[p, c] and want[p] and want[c] and not flat
              for p, c in link}
        wr = {x: want[x] and not any(wl[p, x] for p in names if p != x)
              for x in names}
        cont = st.heap[nd.a]
        recs = dict(cont.items) if cont.exact else dict(cont.vals)
        if not self.peek(st, nd.a, self.root_key):
            out.append(('C12', 'virtual root lost', 'after %s the view has '
                        'no virtual root' % self.op))
            return out

        def mem(x, kind, y):
            rec = recs.get(x)
            if rec is None or not self.record_ok(st, rec):
                st.doubt('record of a view')
                return None
            r = self.rec_field(st, rec, kind)
            if not isinstance(r, Ref) or not isinstance(
                    st.heap.get(r.a), Cont):
                st.doubt('record of a view')
                return None
            return self.value(self.peek(st, r.a, y), F)
        seen_l = {}
        for x in names:
            if not shown[x]:
                continue
            for p in names + [self.root_key]:
                if p == x:
                    continue
                isroot = p == self.root_key
                w = wr[x] if isroot else wl[p, x]
                self.obligations += 2
                a = mem(x, 'parents', p)
                b = mem(p, 'children', x) if isroot or shown[p] else 0
                seen_l[p, x] = b
                pn = 'the virtual root' if isroot else p
                if a is None or b is None:
                    continue
                if bool(a) != w or a > 1:
                    out.append(('C12', 'wrong parent in the view',
                                'after %s, %s is %s the parents of %s in '
                                'the view%s' % (
                                    self.op, pn, 'not among' if not a else
                                    'twice among' if a > 1 and w else
                                    'among', x, self.but(w, a))))
                if bool(b) != w or b > 1:
                    out.append(('C12', 'wrong child in the view',
                                'after %s, %s is %s the children of %s in '
                                'the view%s' % (
                                    self.op, x, 'not among' if not b else
                                    'twice among' if b > 1 and w else
                                    'among', pn, self.but(w, b))))
        # children lists must not mention hidden nodes
        for x in names:
            if shown[x]:
                continue
            for p in names + [self.root_key]:
                if p != x and (p == self.root_key or shown[p]):
                    b = mem(p, 'children', x)
                    self.obligations += 1
                    if b:
                        out.append(('C12', 'hidden child in the view',
                                    'after %s, %s is not shown but is among '
                                    'the children of %s in the view' % (
                                        self.op, x, 'the virtual root'
                                        if p == self.root_key else p)))
        if out:
            return out
        return out + self.events(st, F, shown, nd, (wl, wr))

    def unchanged(self, st, F):
        """A refused operation leaves the view alone."""
        if any(F('in', x) and F('sh', x) != self.passes(F, x)
               for x in self.changed):
            return []
        if st.x['ghost']['rows']:
            return self.events(st, F, None, None, None)
        return []

    def but(self, w, n):
        return ', as it should be once' if w and n > 1 else \
            ' although it has to be' if w else ' although it must not be'

    # ---- the events ------------------------------------------------------------
    def events(self, st, F, shown, nd, links):
        out = []
        rows = self.rows0(F)
        names = set(self.names)
        told = set()
        for ev, args, where in st.x['ghost']['rows']:
            self.obligations += 1
            if len(args) < 2:
                out.append(('C13', 'event without a path',
                            'the %s event at %s has no path' % (ev, where)))
                break
            x, path = args[0], args[1]
            if not isinstance(path, Tup) or not all(
                    y in names for y in path.items) or x not in names:
                if isinstance(path, Tup) and isinstance(x, (Sym, Const)):
                    out.append(('C13', 'wrong path', '%s event for %s with '
                                'the path %s' % (ev, x, show_path(
                                    getattr(path, 'items', ())))))
                    break
                st.doubt('path of an event')
                return out
            p = tuple(path.items)
            sp = show_path(p)
            if not p or p[-1] != x:
                out.append(('C13', 'wrong path', 'during %s, the %s event '
                            'of %s has the path %s' % (self.op, ev, x, sp)))
                break
            if ev == 'added':
                if p in rows:
                    out.append(('C13', 'row added twice',
                                'during %s, the row %s is announced as added '
                                'although it is there already' % (
                                    self.op, sp)))
                    break
                if len(p) > 1 and p[:-1] not in rows:
                    out.append(('C13', 'row added before its parent',
                                'during %s, the row %s is announced as added '
                                'while there is no row %s' % (
                                    self.op, sp, show_path(p[:-1]))))
                    break
                rows.add(p)
                told.add(p)
            elif ev == 'deleted':
                if p not in rows:
                    out.append(('C13', 'row deleted twice',
                                'during %s, the row %s is announced as '
                                'deleted although it is not there' % (
                                    self.op, sp)))
                    break
                if any(r[:len(p)] == p and r != p for r in rows):
                    out.append(('C13', 'row deleted before its children',
                                'during %s, the row %s is announced as '
                                'deleted while there are rows below it' % (
                                    self.op, sp)))
                    break
                rows.discard(p)
            else:
                told.add(p)
                if p not in rows:
                    out.append(('C13', 'modified row is not there',
                                'during %s, the row %s is announced as '
                                'modified although it is not there' % (
                                    self.op, sp)))
                    break
        if out or links is None:
            return out
        wl, wr = links
        want, work = set(), [(x,) for x in self.names if wr[x]]
        while work:
            p = work.pop()
            want.add(p)
            work.extend(p + (y,) for y in self.names
                        if y not in p and wl[p[-1], y])
        for p in sorted(want - rows, key=repr):
            out.append(('C13', 'row not announced',
                        'after %s the view has the row %s, which was never '
                        'announced' % (self.op, show_path(p))))
            return out
        for p in sorted(rows - want, key=repr):
            out.append(('C13', 'vanished row not announced',
                        'after %s the view has no row %s any more, which was '
                        'never announced' % (self.op, show_path(p))))
            return out
        for x in self.announced(F):
            for p in sorted(want, key=repr):
                self.obligations += 1
                if p[-1] == x and p not in told:
                    out.append(('C13', 'modified row not announced',
                                'during %s, nobody is told about the '
                                'modified row %s' % (
                                    self.op, show_path(p))))
        return out

    def announced(self, F):
        """Nodes about whose rows the view has to tell."""
        return ()


def show_path(p):
    return '/' + '/'.join(getattr(x, 'name', str(x)) for x in p)


# ---- operations ---------------------------------------------------------------
class VNode(ViewWorld):
    """A method of a node is called."""
    on, meth, args = C, '', ()
    told = ()

    def start(self, eng, st):
        self.construct = 'FilteredTree'
        return self.call_method(eng, st, self.node[self.on], self.meth,
                                list(self.args))

    def announced(self, F):
        return [x for x in self.told if F('in', x)]


class VTree(ViewWorld):
    """A method of the tree is called."""
    meth, args, kw = '', (), {}
    told = ()

    def start(self, eng, st):
        self.construct = 'FilteredTree'
        return self.call_method(eng, st, self.tree, self.meth,
                                list(self.args), dict(self.kw))

    def announced(self, F):
        return [x for x in self.told if F('in', x)]


class VModified(VNode):
    op, meth = 'a change of C', 'modified'
    told = (C,)

    def untold(self, x, get):
        return x != C


class VAncestors(VModified):
    """The filters may also change their mind about the ancestors: about
    those reached by way of shown ones, and of ones which do not stay on
    display."""

    def untold(self, x, get):
        v = self.reached(x, get, ())
        return None if v is None else not v

    def reached(self, x, get, below):
        if x == C:
            return True
        out = []
        for y in self.names:
            if y == x or y in below:
                continue
            stays = both(get(('sh', y)), both(*(get((k, y)) for k in self.answers)))
            out.append(both(
                self.fact(get, 'e', x, y),
                some(get(('sh', x)), None if stays is None else not stays),
                self.reached(y, get, below + (x,))))
        return some(*out)


class VRefresh(VTree):
    op, meth, args = 'a refresh of C', 'refresh_node', (C,)
    told = (C,)

    def untold(self, x, get):
        return x != C


def both(*vals):
    if False in vals:
        return False
    return None if None in vals else True


def some(*vals):
    if True in vals:
        return True
    return None if None in vals else False


class VLink(VNode):
    op, meth, args = 'C got the parent P', 'add_parent', (P,)
    told = (P, C)

    def untold(self, x, get):
        return x not in (P, C)

    def refused(self, F):
        return any(F('e', *l) for l in ((C, P),)) or any(
            F('e', C, y) and F('e', y, P) for y in self.names
            if y not in (C, P)) or any(
            F('e', C, y) and F('e', y, z) and F('e', z, P)
            for y in self.names for z in self.names
            if len({y, z, C, P}) == 4)


class VUnlink(VNode):
    op, meth, args = 'C lost the parent P', 'remove_parent', (P,)
    told = (P, C)

    def untold(self, x, get):
        return x not in (P, C)


class VMove(VTree):
    op, meth, args = 'C was moved below P', 'move_node', (C, P)
    refused = VLink.refused

    def linked(self, get):
        """C gets the new parent P."""
        e = get(('e', P, C))
        return both(get(('in', P)), None if e is None else not e)

    def lost(self, get):
        """C loses a parent other than P."""
        return some(*(self.fact(get, 'e', y, C) for y in self.names
                      if y not in (P, C)))

    def moved(self, x, get):
        if x == P:
            return self.linked(get)
        if x == C:
            return some(self.linked(get), self.lost(get))
        return self.fact(get, 'e', x, C)

    def untold(self, x, get):
        v = self.moved(x, get)
        return None if v is None else not v

    def announced(self, F):
        return [x for x in (P, C) if F('in', x) and self.moved(
            x, lambda f: F(*f))]


class VRoot(VMove):
    op, meth, args = 'C was moved to the top level', 'move_node', (C,)

    def refused(self, F):
        return False

    def linked(self, get):
        return False

    def moved(self, x, get):
        if x == C:
            return some(*(self.fact(get, 'e', y, C) for y in self.names))
        return self.fact(get, 'e', x, C)

    def announced(self, F):
        return [C] if self.moved(C, lambda f: F(*f)) else []


class VDel(VTree):
    op, meth, args = 'C was removed', 'del_node', (C,)

    def untold(self, x, get):
        if x == C:
            return False
        v = some(self.fact(get, 'e', x, C), self.fact(get, 'e', C, x))
        return None if v is None else not v


class VDelAll(VTree):
    op, meth, args = 'C and all below were removed', 'del_node', (C,)
    kw = {'recursive': TRUE}

    def untold(self, x, get):
        """Only parents of removed nodes are told about."""
        if x == C:
            return False
        e = lambda p, c: self.fact(get, 'e', p, c)
        below = {y: some(e(C, y), *(both(e(C, z), e(z, y))
                                    for z in self.names
                                    if z not in (C, y)))
                 for y in self.names if y != C}
        v = some(below[x], e(x, C), *(both(e(x, y), below[y])
                                      for y in below if y != x))
        return None if v is None else not v


class VAdd(VTree):
    """N (with relationships of its own) is added"""
    op = 'N was added'
    meth = 'add_node'
    below = None
    make_new = Add.make_new
    obj = Add.obj
    rel = (None, None)

    def __init__(self, *a, **kw):
        self.rel = kw.pop('rel')
        self.below = kw.pop('below', None)
        VTree.__init__(self, *a, **kw)

    def start(self, eng, st):
        self.construct = 'FilteredTree'
        self.new = self.make_new(eng, st)
        return self.call_method(
            eng, st, self.tree, 'add_node',
            [self.new] + ([self.below] if self.below else []))

    def links(self, x, get):
        """May x become a relative of N?"""
        l = []
        for a, b in ((x, N), (N, x)):
            l.append(get(('np', a, b)) if a in (self.rel[0], N) and b in (
                N, self.rel[1]) else False)
            l.append(get(('pend', a, b)) if Tup((a, b)) in self.waiting
                     else False)
        return some(*l)

    @property
    def waiting(self):
        return [Tup((Sym(a), Sym(b))) for a, b in self.pend_pairs]

    def untold(self, x, get):
        if x == N or x == self.below:
            return False
        v = self.links(x, get)
        return None if v is None else not v


class VRefilter(ViewWorld):
    """The filters are taken off and put on again."""
    op = 'the filters were applied anew'

    def start(self, eng, st):
        self.construct = 'FilteredTree.refilter'
        out = []
        for s, v in self.call_method(eng, st, self.view, 'reset_filters', [],
                                     {'refresh': FALSE}):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            out.extend(self.call_method(eng, s, self.view, 'apply_filter',
                                        [Const('f')]))
        return out

    def untold(self, x, get):
        return False


class CUnapply(ViewWorld):
    op = 'the second filter was taken off'

    def __init__(self, *a, **kw):
        ViewWorld.__init__(self, *a, two=True, **kw)
        self.after = ('ps',)

    def start(self, eng, st):
        self.construct = 'unapply_filter'
        return self.call_method(eng, st, self.view, 'unapply_filter',
                                [Const('g')])

    def steady(self, x, get):
        return True

    def untold(self, x, get):
        return False


class CApply(ViewWorld):
    op = 'a second filter was applied'

    def __init__(self, *a, **kw):
        ViewWorld.__init__(self, *a, **kw)
        self.after = ('ps', 'qs')

    def start(self, eng, st):
        self.construct = 'apply_filter'
        return self.call_method(eng, st, self.view, 'apply_filter',
                                [Const('g')])

    def steady(self, x, get):
        return True

    def untold(self, x, get):
        return False


class CSame(ViewWorld):
    """A call which must not change what is shown or counted."""
    meth, args = '', ()

    def __init__(self, *a, **kw):
        self.op, self.meth, self.args = kw.pop('call')
        ViewWorld.__init__(self, *a, **kw)

    def start(self, eng, st):
        self.construct = self.meth
        return self.call_method(eng, st, self.view, self.meth,
                                list(self.args))

    def steady(self, x, get):
        return True

    def untold(self, x, get):
        return False


class CNew(ViewWorld):
    """A counting view is made, and a filter is applied to it."""
    op = 'a counting view was made'

    def __init__(self, *a, **kw):
        ViewWorld.__init__(self, *a, empty=True, **kw)

    def start(self, eng, st):
        self.construct = 'ViewCount.__init__'
        out = []
        for s, v in self.call_method(eng, st, self.tree, 'get_viewcount',
                                     [Const('w')]):
            if isinstance(v, Exc) or not isinstance(v, Ref):
                out.append((s, v))
                continue
            g = dict(s.x['ghost'])
            g['view'] = v
            s.x['ghost'] = g
            out.extend(self.call_method(eng, s, v, 'apply_filter',
                                        [Const('f')]))
        return out

    def untold(self, x, get):
        return False


class CHistory(ViewWorld):
    """A counting view is made and used for a while.

    A small model says which filters are in force at the end, and whether
    the view had to look at all the nodes since they are."""

    def __init__(self, *a, **kw):
        self.steps = kw.pop('steps')
        bank = {'f': 'ps', 'g': 'qs'}
        applied, ready, known = [], False, False
        for step in self.steps:
            what, args = step[0], step[1:]
            if what == 'make':
                ready = known = args[0]
            elif what == 'apply':
                if args[0] in bank and args[0] not in applied:
                    applied.append(args[0])
                    if not args[1]:
                        known = False if not ready else known and 'later'
                    elif not ready or known == 'later':
                        ready = known = True
            elif what == 'unapply':
                if args[0] in applied:
                    applied.remove(args[0])
                    known = True
            elif what == 'remove':
                bank.pop(args[0], None)
                known = False
            elif what == 'add':
                bank[args[0]] = KIND[args[1]]
                known = False
            else:
                known = True
        self.valid = known is True
        self.force = [bank.get(n) for n in applied]
        self.op = ', '.join(' '.join([x[0]] + [
            str(y) for y in x[1:]]) for x in self.steps)
        ViewWorld.__init__(self, *a, empty=True, **kw)

    def start(self, eng, st):
        self.construct = 'ViewCount'
        front, out = [(st, None)], []
        for step in self.steps:
            what, args = step[0], step[1:]
            new = []
            for s, w in front:
                kw = {}
                if what == 'make':
                    o, meth, pos = self.tree, 'get_viewcount', [Const('w')]
                    kw = {'refresh': mkbool(args[0])}
                elif what == 'apply':
                    o, meth, pos = w, 'apply_filter', [Const(args[0])]
                    if not args[1]:
                        kw = {'refresh': FALSE}
                elif what == 'unapply':
                    o, meth, pos = w, 'unapply_filter', [Const(args[0])]
                elif what == 'remove':
                    o, meth, pos = self.tree, 'remove_filter', [
                        Const(args[0])]
                elif what == 'add':
                    o, meth, pos = self.tree, 'add_filter', [
                        Const(args[0]), ExtFn(args[1])]
                else:
                    o, meth, pos = self.tree, 'refresh_all', []
                for t, v in self.call_method(eng, s, o, meth, pos, kw):
                    if isinstance(v, Exc):
                        out.append((t, v))
                        continue
                    if what == 'make':
                        if not isinstance(v, Ref):
                            out.append((t, v))
                            continue
                        g = dict(t.x['ghost'])
                        g['view'] = v
                        t.x['ghost'] = g
                        t.roots = tuple(t.roots) + (v.a,)
                        new.append((t, v))
                    else:
                        new.append((t, w))
            front = new
        return out + [(s, NONE) for s, _ in front]

    def untold(self, x, get):
        return False

    def passes(self, F, x):
        return all(k is not None and F(k, x) for k in self.force)

    def count_problems(self, st, F):
        if not self.valid:
            return []
        g = dict(st.x['ghost'])
        g['rows'] = ()
        st.x['ghost'] = g
        return ViewWorld.count_problems(self, st, F)


class CModify(ViewWorld):
    """An update is asked for from outside."""
    op = 'an update of C'

    def start(self, eng, st):
        self.construct = 'ViewCount.modify'
        return self.call_method(eng, st, self.view, 'modify', [C])

    def untold(self, x, get):
        return x != C


class VState(ViewWorld):
    """A listener asks for the current state."""
    op = 'a request for the current state'

    def start(self, eng, st):
        self.construct = 'FilteredTree.get_current_state'
        return self.call_method(eng, st, self.view, 'get_current_state', [])

    def untold(self, x, get):
        return True

    def rows0(self, F):
        return set()


def scenarios(prog, tier='quick'):
    out = []

    def add(label, cls, names, changed, **kw):
        out.append((label, lambda: cls(
            prog, list(names), [Sym(x) for x in changed], **kw)))

    base = {('in', C): True}
    nopc = {('in', C): True, ('in', P): True, ('e', P, C): False}
    pc = {('in', C): True, ('in', P): True, ('e', P, C): True}
    new = {('in', N): False, ('pe', N): True, ('ce', N): True}
    for flat in (False, True):
        f = ' (flat)' if flat else ''
        add('a change of a node' + f, VModified, 'CPX', 'C', flat=flat,
            fixed=base)
        if not flat:
            add('a change of a node with ancestors', VAncestors, 'CPX',
                'CPX', fixed=base)
        add('a refresh of a node' + f, VRefresh, 'CP', 'C', flat=flat,
            fixed=base)
        add('a change of a node, two filters' + f, VModified, 'CP', 'C',
            flat=flat, fixed=base, two=True)
        add('a new parent, two filters' + f, VLink, 'CP', 'C', flat=flat,
            fixed=nopc, two=True)
        add('a new parent' + f, VLink, 'CPX', 'CP', flat=flat, fixed=nopc)
        add('a lost parent' + f, VUnlink, 'CPX', 'CP', flat=flat, fixed=pc)
        for kind in ('P', 'C', 'X', ''):
            add('a move, filters depend on %s' % (kind or 'nothing') + f,
                VMove, 'CPX', kind, flat=flat, fixed=base)
        add('a move to the top' + f, VRoot, 'CPX', 'CP', flat=flat,
            fixed=base)
        for x in ((True, False) if not flat else (None,)):
            fx = dict(base)
            lab = ''
            if x is not None:
                fx['e', C, P] = x
                lab = ' with' + ('' if x else 'out') + ' a child'
            add('a removed node' + lab + f, VDel, 'CPX', 'CPX', flat=flat,
                fixed=fx)
            add('removed nodes' + lab + f, VDelAll, 'CPX', 'CPX', flat=flat,
                fixed=fx)
        add('a new node below Q' + f, VAdd, ['N', 'Q', 'X'], 'NQ', flat=flat,
            fixed={**new, ('in', Q): True}, rel=(None, None), below=Q)
        add('a new node with a parent' + f, VAdd, ['N', 'Q', 'X'], 'NQ',
            flat=flat, fixed=new, rel=(Q, None),
            pend_pairs=[('Q', 'N')])
        add('a new node with a child' + f, VAdd, ['N', 'D', 'X'], 'N',
            flat=flat, fixed=new, rel=(None, D),
            pend_pairs=[('N', 'D')])
        add('a new node with relatives' + f, VAdd, ['N', 'Q', 'D'], 'NQ',
            flat=flat, fixed={**new, ('e', D, Q): False}, rel=(Q, D))
        add('refiltering' + f, VRefilter, 'CP', 'CP', flat=flat)
        add('refiltering an empty view' + f, VRefilter, 'CPX', 'CPX',
            flat=flat, empty=True)
        add('the current state' + f, VState, 'CPX', '', flat=flat)
    # long ways down and up: the links are given
    Y = Sym('Y')

    def tree_of(*links):
        fx = {('in', Sym(x)): True for x in 'CPXY'}
        fx.update({('e', Sym(a), Sym(b)): a + b in links
                   for a in 'CPXY' for b in 'CPXY' if a != b})
        return fx
    for lab, links in (('long chain', ('CX', 'XY')),
                       ('diamond below', ('CX', 'CY', 'XY'))):
        add('a new parent above a ' + lab, VLink, 'CPXY', 'C',
            fixed=tree_of(*links))
        links = ('PC',) + links
        add('a lost parent above a ' + lab, VUnlink, 'CPXY', 'C',
            fixed=tree_of(*links))
        add('a removed node above a ' + lab, VDel, 'CPXY', '',
            fixed=tree_of(*links))
        add('removed nodes, a ' + lab, VDelAll, 'CPXY', '',
            fixed=tree_of(*links))
        add('a change above a ' + lab, VModified, 'CPXY', 'C',
            fixed=tree_of(*links))
        add('refiltering a ' + lab, VRefilter, 'CPXY', 'CPXY', empty=True,
            fixed=tree_of(*links))
    for lab, links in (('two parents', ('PX', 'PY', 'XC', 'YC')),
                       ('a long chain above', ('PX', 'XY', 'YC'))):
        add('a change below ' + lab, VAncestors, 'CPXY', 'CPXY',
            fixed=tree_of(*links))
        add('a removed node below ' + lab, VDel, 'CPXY', 'C',
            fixed=tree_of(*links))
        add('the current state with ' + lab, VState, 'CPXY', '',
            fixed=tree_of(*links))
    two = ('XP', 'YP')
    add('a lost parent in two places', VUnlink, 'CPXY', 'C',
        fixed=tree_of('PC', *two))
    add('a new parent in two places', VLink, 'CPXY', 'C',
        fixed=tree_of(*two))
    add('a removed node in two places', VDel, 'CPXY', '',
        fixed=tree_of('PC', 'XC', 'YC', *two))
    add('a change in two places', VModified, 'CPXY', 'C',
        fixed=tree_of('PC', 'XC', *two))
    add('refiltering two places', VRefilter, 'CPXY', 'CPXY', empty=True,
        fixed=tree_of('PC', *two))
    for kind in ('VDel', 'VDelAll', 'VModified'):
        # here C is in two places and X below it
        add('%s of a node above others in two places' % kind,
            globals()[kind], 'CPXY', 'C' if kind == 'VModified' else '',
            fixed=tree_of('PC', 'YC', 'CX'))
    if tier == 'thorough':
        for flat in (False, True):
            add('refiltering three nodes' + (' (flat)' if flat else ''),
                VRefilter, 'CPX', 'CPX', flat=flat)
        add('a change of a node, four nodes', VModified, 'CPXY', 'C',
            fixed=base)
        add('a new parent, four nodes', VLink, 'CPXY', 'C', fixed=nopc)
        add('a lost parent, four nodes', VUnlink, 'CPXY', 'C', fixed=pc)
        add('a move, four nodes', VMove, 'CPXY', '', fixed=base)
        add('a removed node, four nodes', VDel, 'CPXY', '', fixed=base)
        add('removed nodes, four nodes', VDelAll, 'CPXY', '', fixed=base)
        add('refiltering, four nodes', VRefilter, 'CPXY', 'CPXY')
    return out


def count_scenarios(prog, tier='quick'):
    out = []

    def add(label, cls, names, changed, **kw):
        out.append(('counting, ' + label, lambda: cls(
            prog, list(names), [Sym(x) for x in changed], flat=True,
            count=True, **kw)))

    base = {('in', C): True}
    nopc = {('in', C): True, ('in', P): True, ('e', P, C): False}
    pc = {('in', C): True, ('in', P): True, ('e', P, C): True}
    new = {('in', N): False, ('pe', N): True, ('ce', N): True}
    add('a change of a node', VModified, 'CPX', 'C', fixed=base)
    add('a change of a node, two filters', VModified, 'CP', 'C', fixed=base,
        two=True)
    add('a refresh of a node', VRefresh, 'CP', 'C', fixed=base)
    add('an update', CModify, 'CP', 'C')
    add('a new parent', VLink, 'CPX', 'CP', fixed=nopc)
    add('a lost parent', VUnlink, 'CPX', 'CP', fixed=pc)
    add('a move', VMove, 'CPX', 'CPX', fixed=base)
    add('a move to the top', VRoot, 'CPX', 'CPX', fixed=base)
    add('a removed node', VDel, 'CPX', 'CPX', fixed=base)
    add('removed nodes', VDelAll, 'CPX', 'CPX', fixed=base)
    add('a new node below Q', VAdd, 'NQX', 'N',
        fixed={**new, ('in', Q): True}, rel=(None, None), below=Q)
    add('a new node with relatives', VAdd, 'NQD', 'N',
        fixed={**new, ('e', D, Q): False}, rel=(Q, D))
    add('a second filter', CApply, 'CPX', 'CPX')
    add('the second filter off', CUnapply, 'CPX', 'CPX')
    add('a new view', CNew, 'CPX', 'CPX')
    made, lazy = ('make', True), ('make', False)
    f, g = ('apply', 'f', True), ('apply', 'g', True)
    f0, g0 = ('apply', 'f', False), ('apply', 'g', False)
    for steps in (
            [made], [lazy, f], [made, f, ('unapply', 'f')],
            [lazy, ('unapply', 'f')], [lazy, ('all',)],
            [lazy, f, g, ('unapply', 'f')], [made, f0, g],
            [lazy, f0, ('unapply', 'f')], [lazy, g0, f0, ('unapply', 'f')],
            [lazy, f0, g], [made, f0, ('all',)], [lazy, f0, ('all',)],
            [made, f, ('unapply', 'f'), f], [made, f0, ('unapply', 'f')],
            [made, f, g, ('unapply', 'g'), ('unapply', 'f')],
            [made, ('apply', 'nope', True)], [lazy, ('apply', 'nope', True),
                                              f],
            [made, f, ('remove', 'f'), ('all',)],
            [made, f, ('remove', 'f'), ('unapply', 'f')],
            [made, f, g, ('remove', 'f'), ('unapply', 'g')],
            [made, f, ('remove', 'f'), ('add', 'f', 'H'), ('all',)],
            [made, f, ('remove', 'f'), ('unapply', 'f'),
             ('add', 'f', 'H'), f]):
        add('; '.join(' '.join(map(str, x)) for x in steps), CHistory,
            'CP' if len(steps) > 2 else 'CPX', 'CP', steps=steps)
    for what, meth, name in (
            ('the same filter was applied again', 'apply_filter', 'f'),
            ('a filter which does not exist was applied', 'apply_filter',
             'nope'),
            ('a filter which is not applied was taken off', 'unapply_filter',
             'g')):
        add(what, CSame, 'CP', 'CP', call=(what, meth, (Const(name),)))
    return out


def count_job(prog, res, index, tier):
    label, make = count_scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def count_jobs(prog, tier):
    return [(label, count_job, (i, tier)) for i, (label, _) in enumerate(
        count_scenarios(prog, tier))]


def view_job(prog, res, index, tier):
    label, make = scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def view_jobs(prog, tier):
    return [(label, view_job, (i, tier)) for i, (label, _) in enumerate(
        scenarios(prog, tier))]
