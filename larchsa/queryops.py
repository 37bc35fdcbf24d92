"""Questions to trees, nodes and views: what they answer, and that asking
changes nothing."""
from collections import Counter
from .values import *
from .viewops import ViewWorld, ROOT
from .world import TreeWorld
from .judge import Need
from .interp import Ctx
from .program import AnalysisBroken
from .run import run_operation

P, C, X, Y, D, Q = (Sym(n) for n in 'PCXYDQ')


# questions which are not about links, paths or positions
MEMBERSHIP = ('get_all_nodes', 'get_nodes', 'get_n_nodes', 'is_displayed')


class Query(ViewWorld):
    """One question to one object."""
    listener = 'V:'
    away = ()       # names of nodes which are not in the tree

    def __init__(self, prog, names, ask, order=None, **kw):
        """ask: (target, method, args, kw, answer)"""
        self.target, self.meth, self.args, self.kw, self.answer = ask
        self.order = {k: [Sym(x) for x in v]
                      for k, v in (order or {}).items()}
        if order:
            fx = dict(kw.pop('fixed', None) or {})
            names = list(names)
            away = self.away
            for x in names:
                fx['in', Sym(x)] = x not in away
                if x in away:
                    for y in names:
                        if x != y:
                            fx['e', Sym(x), Sym(y)] = False
                            fx['e', Sym(y), Sym(x)] = False
                            fx['pend', Sym(x), Sym(y)] = False
                            fx['pend', Sym(y), Sym(x)] = False
                    continue
                fx['ps', Sym(x)] = True
                for y in names:
                    if x != y and y not in away:
                        fx['e', Sym(x), Sym(y)] = y in order.get(x, '')
                fx['r', Sym(x)] = not any(x in v for k, v in order.items()
                                          if k != ROOT)
            kw['fixed'] = fx
        ViewWorld.__init__(self, prog, names, [], **kw)
        self.static = self.target == 'main'
        self.op = '%s()' % self.meth

    # ---- entry -------------------------------------------------------------
    def build(self, eng):
        st = self.make_view(eng)
        self.building = True
        st, _ = self.one(self.call_method(
            eng, st, self.tree, 'add_filter', [Const('g'), ExtFn('G')]),
            'add_filter()')
        if self.order:
            self.derive(st.facts)
            self.exactify(st)
        outs = self.call_method(eng, st, self.tree, 'get_main_view', [])
        st, self.mainview = self.one(outs, 'get_main_view()')
        for ev in ('added', 'deleted', 'modified'):
            st, _ = self.one(self.call_method(
                eng, st, self.mainview, 'register_cllbck',
                [Const('node-' + ev), ExtFn(self.listener + ev)]), 'register_cllbck()')
        self.building = False
        eng.set_base(st)
        self.base_addrs = frozenset(st.heap)
        self.entry = self.observe(st)
        return st

    def exactify(self, st):
        """The lists of the tree and the view in the given order."""
        for a, c in list(st.heap.items()):
            if not isinstance(c, Cont) or c.exact or c.kind != 'list':
                continue
            role = self.roles.get(a)
            key = None
            if role and role[0] in ('children', 'vchildren', 'root'):
                key = ROOT if role[0] in ('root', 'vchildren') else role[1]
            for x, rec in self.recs.items():
                if x == self.root_key or key is not None:
                    continue
                if self.rec_field(st, rec, 'children').a == a:
                    key = x
            seq = self.order.get(getattr(key, 'name', key))
            have = {}
            for m, n in c.mem.items():
                if isinstance(n, FV):
                    n = st.facts.get(n.name)
                    if n is None:
                        raise AnalysisBroken('%s is not fixed' % (m,))
                have[m] = 1 if n else 0
            xs = [m for m, n in have.items() if n]
            if seq is not None and sorted(map(repr, xs)) == sorted(
                    map(repr, seq)):
                xs = list(seq)
            st.heap[a] = c.with_(exact=True, items=tuple(xs), mem={})

    def start(self, eng, st):
        self.construct = '%s.%s' % (self.target, self.meth)
        o = {'main': self.mainview, 'view': self.view, 'tree': self.tree,
             'count': self.view,
             'node': self.node[C]}[self.target]
        args = [st.new(Cont('list', items=tuple(a[1:])))
                if isinstance(a, tuple) else a for a in self.args]
        kw = {k: st.new(Cont('list', items=tuple(a[1:])))
              if isinstance(a, tuple) else a for k, a in self.kw.items()}
        return self.call_method(eng, st, o, self.meth, args, kw)

    def untold(self, x, get):
        return True

    def notified(self, eng, st, event, x, ctx, node):
        if not self.building:
            g = dict(st.x['ghost'])
            g['rows'] += ((event, (x,), ctx.where(node)),)
            st.x['ghost'] = g

    # ---- what can be observed ----------------------------------------------
    def observe(self, st):
        """{what: address or value} of everything that can be seen."""
        out = {'the nodes of the tree': self.a_nodes(st),
               'the waiting relationships': self.a_pend(st),
               'the top level': self.a_root(st)}
        for x in self.names:
            out['the parents of %s' % x] = self.a_parents(st, x)
            out['the children of %s' % x] = self.a_children(st, x)
        fields = st.heap[self.ft.a].fields
        for f in ('nodes', 'applied_filters'):
            if isinstance(fields.get(f), Ref):
                out['%s of the view' % f] = fields[f].a
        nd = fields.get('nodes')
        c = st.heap.get(nd.a) if isinstance(nd, Ref) else None
        if isinstance(c, Cont) and c.kind == 'dict':
            recs = dict(c.items) if c.exact else dict(c.vals)
            for x, rec in recs.items():
                if not self.record_ok(st, rec):
                    continue
                for f in ('parents', 'children'):
                    r = self.rec_field(st, rec, f)
                    if isinstance(r, Ref):
                        out['%s of %s in the view' % (f, x)] = r.a
        return {k: (a, st.heap[a]) for k, a in out.items()
                if isinstance(st.heap.get(a), Cont)}

    def content(self, c, F):
        if c.exact:
            xs = [it[0] if c.kind == 'dict' else it for it in c.items]
            if c.kind == 'list':
                return ('seq', tuple(xs))
            return ('bag', Counter(xs))
        bag = Counter()
        for m, n in c.mem.items():
            n = self.value(n, F)
            if n:
                bag[m] = n
        return ('bag', bag)

    def same_content(self, a, b):
        if a[0] == b[0]:
            return a[1] == b[1]
        return Counter(a[1]) == Counter(b[1])

    # ---- judging ------------------------------------------------------------
    def problems(self, st, v):
        F = self.getter(st)
        out = []
        for ev, args, where in st.x['ghost']['rows']:
            out.append(('C18', 'a question calls listeners', '%s calls a '
                        'listener at %s' % (self.op, where)))
            return out
        now = self.observe(st)
        for k, (a, c) in self.entry.items():
            self.obligations += 1
            if k not in now:
                if 'in the view' in k:
                    x = k.split(' of ')[1].split(' ')[0]
                    if any(x == n.name and not F('sh', n)
                           for n in self.names):
                        continue
                st.doubt(k)
                return out
            if not self.same_content(self.content(c, F),
                                     self.content(now[k][1], F)):
                out.append(('C18', 'a question changes the answer to others',
                            '%s changes %s' % (self.op, k)))
        if isinstance(v, Ref) and v.a in self.base_addrs and isinstance(
                st.heap.get(v.a), Cont):
            what = [k for k, (a, c) in now.items() if a == v.a]
            out.append(('C18', 'insides handed out', '%s returns the very '
                        'object which holds %s' % (
                            self.op, what[0] if what else
                            'data of the tree')))
        if out:
            return out
        want = self.answer(self, F) if self.answer else None
        if want is None:
            return out
        self.obligations += 1
        return self.compare(st, v, want, F)

    def wrong(self, st, text):
        where = ', '.join('%s below %s' % (n[2], n[1])
                          for n, t in sorted(st.facts.items(), key=repr)
                          if t and n[0] == ('e' if self.static else 'vl'))
        who = {'main': 'the main view', 'count': 'a counting view', 'view': 'a view', 'tree': 'the tree',
               'node': 'node C'}[self.target]
        text = '%s(%s) of %s %s%s' % (
            self.meth, ', '.join(map(str, self.args)), who, text,
            ' (%s)' % where if where else '')
        if self.target == 'count':
            return [('C15', 'wrong answer', text)]
        out = [('C19', 'wrong answer', text)] if self.static else []
        if not self.static or self.meth not in MEMBERSHIP:
            out.append(('C23', 'wrong answer', text))
        return out

    def compare(self, st, v, want, F):
        kind, w = want
        if isinstance(v, Exc):
            if kind == 'raise':
                return []
            return self.wrong(st, 'fails with %s at %s' % (v.cls, v.where))
        if kind == 'raise':
            return self.wrong(st, 'does not fail')
        if kind == 'val':
            got = v
            if isinstance(v, (FV, FB)):
                got = mkbool(bool(F(*v.name)))
            if not isinstance(got, (Const, Ref, Tup)) and not (
                    isinstance(got, Sym) and got in self.names):
                st.doubt('answer %s' % (got,))
                return []
            if got != w and not (isinstance(got, Const) and isinstance(
                    w, Const) and type(w.v) in (bool, int) and
                    type(got.v) in (bool, int) and got.v == w.v):
                return self.wrong(st, 'is %s and not %s' % (
                    self.show(got), self.show(w)))
            return []
        c = st.heap.get(v.a) if isinstance(v, Ref) else None
        if isinstance(v, Tup):
            got = ('seq', tuple(v.items))
        elif isinstance(c, Cont):
            got = self.content(c, F)
        else:
            if isinstance(v, Const):
                return self.wrong(st, 'is %s' % self.show(v))
            st.doubt('answer %s' % (v,))
            return []
        if kind == 'list' and got[0] == 'seq':
            ok = tuple(w) == got[1]
        else:
            ok = Counter(list(w)) == Counter(got[1])
        if not ok:
            return self.wrong(st, 'is %s and not %s' % (
                self.show_all(got[1]), self.show_all(w)))
        return []

    def show(self, v):
        if isinstance(v, Tup):
            return '/' + '/'.join(map(str, v.items))
        return str(v)

    def show_all(self, xs):
        if isinstance(xs, Counter):
            xs = list(xs.elements())
        return '[%s]' % ', '.join(sorted(map(self.show, xs)))

    # ---- specification -------------------------------------------------------
    def has(self, F, x):
        return bool(F('in' if self.static or self.target in (
            'node', 'tree') else 'sh', x))

    def link(self, F, p, c):
        if p == c:
            return False
        return bool(F('e' if self.static or self.target in (
            'node', 'tree') else 'vl', p, c))

    def ups(self, F, x):
        return [p for p in self.names if self.link(F, p, x)]

    def downs(self, F, x):
        seq = self.order.get(x.name if x is not None else ROOT)
        if x is None:
            xs = [c for c in self.names if self.has(F, c) and
                  not self.ups(F, c)]
        else:
            xs = [c for c in self.names if self.link(F, x, c)]
        if seq is not None and set(seq) == set(xs):
            return list(seq)
        return xs

    def paths(self, F, x):
        ups = self.ups(F, x)
        if not ups:
            return [(x,)]
        return [p + (x,) for u in ups for p in self.paths(F, u)]

    def below(self, F, x):
        return sum(1 + self.below(F, c) for c in self.downs(F, x))


def val(f):
    def g(w, F):
        r = f(w, F)
        if r is None:
            return ('val', NONE)
        if isinstance(r, bool):
            return ('val', mkbool(r))
        if isinstance(r, int):
            return ('val', Const(r))
        return ('val', r)
    return g


def bag(f):
    return lambda w, F: ('set', f(w, F))


def seq(f):
    return lambda w, F: ('list', f(w, F))


def nth(xs, n):
    return ('val', xs[n]) if n < len(xs) else ('raise', None)


def after(w, F, x, p):
    ups = w.ups(F, x)
    if p is None and len(ups) > 1:
        return None         # any of them
    xs = w.downs(F, p if p is not None else ups[0] if ups else None)
    i = xs.index(x) + 1
    return xs[i] if i < len(xs) else None


def nodes(w, F):
    return [x for x in w.names if w.has(F, x)]


def passing(w, F):
    return [x for x in nodes(w, F) if F('qs', x)]


WITH = {'withfilters': ('list', Const('g'))}
BOTH = [{'withfilters': ('list', Const(a), Const(b))} for a, b in ('fg', 'gf')]


def passing_both(w, F):
    return [x for x in passing(w, F) if F('ps', x)]


def at_path(*path):
    def f(w, F):
        p = tuple(path)
        ok = w.has(F, p[-1]) and p in w.paths(F, p[-1])
        return p[-1] if ok else None
    return val(f)


def questions(target):
    """(label, method, args, kw, answer, needs C)"""
    view = target == 'view'
    q = [
        ('get_all_nodes', (), {}, bag(nodes), False),
        ('get_nodes', (), {}, bag(nodes), False),
        ('get_n_nodes', (), {}, val(lambda w, F: len(nodes(w, F))), False),
        ('get_nodes', (), WITH, bag(passing), False),
        ('get_n_nodes', (), WITH, val(lambda w, F: len(passing(w, F))),
         False),
    ] + [q for kw in BOTH for q in (
        ('get_nodes', (), kw, bag(passing_both), False),
        ('get_n_nodes', (), kw,
         val(lambda w, F: len(passing_both(w, F))), False))] + [
        ('is_displayed', (C,), {}, val(lambda w, F: w.has(F, C)), False),
        ('get_paths_for_node', (C,), {},
         bag(lambda w, F: [Tup(p) for p in w.paths(F, C)]), True),
        ('get_paths_for_node', (), {}, bag(lambda w, F: [Tup(())]), False),
        ('get_node_for_path', (Tup((C,)),), {}, at_path(C), False),
        ('get_node_for_path', (Tup((P, C)),), {}, at_path(P, C), False),
        ('get_node_for_path', (Tup((X, P, C)),), {}, at_path(X, P, C),
         False),
        ('get_node_for_path', (Tup(()),), {}, val(lambda w, F: None), False),
        ('node_has_child', (C,), {},
         val(lambda w, F: bool(w.downs(F, C))), True),
        ('node_all_children', (C,), {},
         seq(lambda w, F: w.downs(F, C)), True),
        ('node_all_children', (), {},
         seq(lambda w, F: w.downs(F, None)), False),
        ('node_n_children', (C,), {},
         val(lambda w, F: len(w.downs(F, C))), True),
        ('node_n_children', (), {},
         val(lambda w, F: len(w.downs(F, None))), False),
        ('node_n_children', (C, TRUE), {},
         val(lambda w, F: w.below(F, C)), True),
        ('node_n_children', (), {'recursive': TRUE},
         val(lambda w, F: w.below(F, None)), False),
        ('node_parents', (C,), {}, bag(lambda w, F: w.ups(F, C)), True),
        ('node_has_parent', (C,), {},
         val(lambda w, F: bool(w.ups(F, C))), True),
    ]
    q.append(('print_tree', (TRUE,), {}, None, False))
    q.append(('get_node', (C,), {}, None, True))
    q.append(('list_applied_filters', (), {},
              bag(lambda w, F: [Const('f')] if view else []), False))
    if view:
        q.append(('get_node_for_path', (Tup((C, P)),), {}, at_path(C, P),
                  False))
    return q


def of_nodes():
    return [
        ('get_id', (), {}, val(lambda w, F: C), True),
        ('get_parents', (), {}, bag(lambda w, F: w.ups(F, C)), True),
        ('get_children', (), {}, seq(lambda w, F: w.downs(F, C)), True),
        ('has_parent', (), {}, val(lambda w, F: bool(w.ups(F, C))), True),
        ('has_parent', (P,), {}, val(lambda w, F: w.link(F, P, C)), True),
        ('has_child', (), {}, val(lambda w, F: bool(w.downs(F, C))), True),
        ('has_child', (P,), {}, val(lambda w, F: w.link(F, C, P)), True),
        ('get_n_children', (), {},
         val(lambda w, F: len(w.downs(F, C))), True),
        ('get_child_index', (P,), {},
         lambda w, F: None if w.link(F, C, P) else ('val', NONE), True),
    ]


def of_trees():
    return [
        ('has_node', (C,), {}, val(lambda w, F: w.has(F, C)), False),
        ('get_node', (C,), {}, lambda w, F: (
            'val', w.node[C]) if w.has(F, C) else ('raise', None), False),
        ('list_filters', (), {}, bag(lambda w, F: [Const('f'), Const('g')]),
         False),
    ]


class Again(Query):
    """All questions, a change, all questions again, and so on, in a given
    tree: an answer must not be one of the past."""

    listener = 'M:'

    def __init__(self, prog, names, target, changes, order, **kw):
        self.changes = changes
        self.newnodes = {}
        self.away = [x for x in names if not any(x in v for v in
                                                 order.values())]
        self.edges0 = frozenset((Sym(p), Sym(c)) for p in order if p != ROOT
                                for c in order[p])
        Query.__init__(self, prog, names, (target, 'get_all_nodes', (), {},
                                           None), order=order, **kw)
        self.graph = (frozenset(x for x in self.names
                                if x.name not in self.away),
                      self.edges0, frozenset())
        self.pending = frozenset()
        self.op = 'questions after ' + ', '.join(
            '%s(%s)' % (c[0], ', '.join(c[1:])) for c in changes)

    # ---- the tree as it has to be ---------------------------------------------
    def has(self, F, x):
        nodes, edges, hidden = self.graph
        return x in nodes and (self.static or x not in hidden)

    def link(self, F, p, c):
        return (p, c) in self.graph[1] and self.has(F, p) and self.has(F, c)

    def downs(self, F, x):
        if x is None:
            return [c for c in self.names if self.has(F, c) and
                    not self.ups(F, c)]
        return [c for c in self.names if self.link(F, x, c)]

    @staticmethod
    def changed_graph(g, change):
        nodes, edges, hidden = g
        what = change[0]
        a = [Sym(x) for x in change[1:]]
        if what == 'add_parent':
            edges = edges | {(a[1], a[0])}
        elif what == 'add_child':
            edges = edges | {(a[0], a[1])}
        elif what == 'add':
            nodes = nodes | {a[0]}
            if a[1:]:
                edges = edges | {(a[1], a[0])}
        elif what == 'remove_parent':
            edges = edges - {(a[1], a[0])}
        elif what == 'set_parent':
            edges = frozenset(e for e in edges if e[1] != a[0]) | {
                (a[1], a[0])}
        elif what == 'del_node':
            edges = frozenset(e for e in edges if a[0] not in e)
            nodes = nodes - {a[0]}
        elif what == 'hide':
            hidden = hidden | {a[0]}
        elif what == 'show':
            hidden = hidden - {a[0]}
        return nodes, edges, hidden

    def do(self, eng, st, change):
        what = change[0]
        a = [Sym(x) for x in change[1:]]
        if what == 'del_node':
            return self.call_method(eng, st, self.tree, what, a)
        if what == 'add':
            out = []
            for s, v in eng.instantiate_cls(st, self.node_cls, [a[0]], {},
                                            Ctx(None, None,
                                                self.node_cls.module,
                                                self.node_cls), None):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                self.newnodes[v.a] = a[0]
                self.node[a[0]] = v
                s.roots = tuple(s.roots) + (v.a,)
                out.extend(self.call_method(eng, s, self.tree, 'add_node',
                                            [v] + a[1:]))
            return out
        if what in ('hide', 'show'):
            return self.call_method(eng, st, self.node[a[0]], 'modified', [])
        return self.call_method(eng, st, self.node[a[0]], what, a[1:])

    def who(self, v):
        if isinstance(v, Ref) and v.a in self.newnodes:
            return self.newnodes[v.a]
        return Query.who(self, v)

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name == 'F' and args:
            x = self.who(args[0])
            if x in self.names:
                return [(st, mkbool(x not in st.x['hidden']))]
        return Query.ext_call(self, eng, st, fn, args, kw, ctx, node)

    # ---- driving ---------------------------------------------------------------
    def start(self, eng, st):
        self.construct = {'main': 'Tree', 'view': 'FilteredTree'}[self.target]
        o = {'main': self.mainview, 'view': self.view}[self.target]
        st.x['hidden'] = self.graph[2]
        F = self.getter(st)
        st.x['told'] = frozenset(p for x in self.names if self.has(F, x)
                                 for p in self.paths(F, x))
        states = [st]
        for change in (None,) + tuple(self.changes):
            if change:
                self.graph = self.changed_graph(self.graph, change)
                nxt = []
                for s in states:
                    s.x['hidden'] = self.graph[2]
                    for t, v in self.do(eng, s, change):
                        if isinstance(v, Exc):
                            self.found(t, self.wrong(
                                t, 'fails with %s at %s' % (v.cls, v.where)))
                        elif not self.static:
                            self.compare_rows(t, self.getter(t))
                        nxt.append(t)
                states = nxt
            states = [t for s in states for t in self.ask_all(eng, s, o)]
        return [(s, NONE) for s in states]

    def replay(self, st, rows):
        """The rows after the events, or problems."""
        rows = set(rows)
        for ev, args, where in st.x['ghost']['rows']:
            if len(args) < 2 or not isinstance(args[1], Tup) or \
                    not args[1].items or args[1].items[-1] != args[0]:
                return None, self.event('wrong path', '%s event with the '
                                        'path %s' % (ev, args[1:]))
            p = tuple(args[1].items)
            sp = self.show(args[1])
            if ev == 'added':
                if p in rows:
                    return None, self.event('row added twice', 'the row %s '
                                            'is announced twice' % sp)
                if p[:-1] and p[:-1] not in rows:
                    return None, self.event(
                        'row added before its parent', 'the row %s is '
                        'announced before that of its parent' % sp)
                rows.add(p)
            elif p not in rows:
                return None, self.event(
                    'modified row is not there' if ev == 'modified' else
                    'row deleted twice', 'the row %s is announced as %s '
                    'although it is not there' % (sp, ev))
            elif ev == 'deleted':
                if any(r[:-1] == p for r in rows):
                    return None, self.event(
                        'row deleted before its children', 'the row %s is '
                        'announced as deleted while there are rows below '
                        'it' % sp)
                rows.discard(p)
        return rows, []

    def event(self, rule, text):
        return [('C13', rule, text)]

    def compare_rows(self, st, F):
        rows, bad = self.replay(st, st.x['told'])
        if not bad:
            st.x['told'] = frozenset(rows)
            want = {p for x in self.names if self.has(F, x)
                    for p in self.paths(F, x)}
            for p in sorted(want - rows, key=repr)[:1]:
                bad = self.event('row not announced', 'the view has the row '
                                 '%s, which was never announced' %
                                 self.show(Tup(p)))
            for p in sorted(rows - want, key=repr)[:1]:
                bad = self.event('vanished row not announced', 'the view '
                                 'has no row %s any more, which was never '
                                 'announced' % self.show(Tup(p)))
        g = dict(st.x['ghost'])
        g['rows'] = ()
        st.x['ghost'] = g
        self.found(st, bad)

    def found(self, st, problems):
        g = dict(st.x['ghost'])
        g['bad'] = g.get('bad', ()) + tuple(problems)
        st.x['ghost'] = g

    def ask_all(self, eng, st, o):
        F = self.getter(st)
        states = [st]

        def ask(meth, args, kw, want):
            nonlocal states
            nxt = []
            for s in states:
                for t, v in self.call_method(eng, s, o, meth, list(args),
                                             dict(kw)):
                    self.obligations += 1
                    self.meth, self.args = meth, args
                    self.found(t, self.compare(t, v, want, F))
                    nxt.append((t, v))
            states = [t for t, _ in nxt]
            return nxt
        here = [x for x in self.names if self.has(F, x)]
        ask('get_all_nodes', (), {}, ('set', here))
        ask('get_nodes', (), {}, ('set', here))
        ask('get_n_nodes', (), {}, ('val', Const(len(here))))
        for x in self.names:
            ask('is_displayed', (x,), {}, ('val', mkbool(x in here)))
        for x in here:
            paths = self.paths(F, x)
            ask('get_paths_for_node', (x,), {}, ('set', [
                Tup(p) for p in paths]))
            for p in paths[-2:]:
                ask('get_node_for_path', (Tup(p),), {}, ('val', x))
            ask('node_parents', (x,), {}, ('set', self.ups(F, x)))
            ask('node_n_children', (x, TRUE), {},
                ('val', Const(self.below(F, x))))
        for x in here + [None]:
            arg = (x,) if x is not None else ()
            want = self.downs(F, x)
            ask('node_n_children', arg, {}, ('val', Const(len(want))))
            got = ask('node_all_children', arg, {}, ('set', want))
            if len(got) != 1 or not isinstance(got[0][1], Ref):
                continue
            c = got[0][0].heap.get(got[0][1].a)
            if not isinstance(c, Cont) or not c.exact or sorted(
                    map(repr, c.items)) != sorted(map(repr, want)):
                continue
            seq = list(c.items)
            for i, y in enumerate(seq):
                ask('node_nth_child', (x if x is not None else NONE,
                                       Const(i)), {}, ('val', y))
                if x is not None or not self.ups(F, y):
                    ask('next_node', (y,) + arg, {}, (
                        'val', seq[i + 1] if i + 1 < len(seq) else NONE))
        return states

    def wrong(self, st, text):
        out = Query.wrong(self, st, text)
        if not self.static:
            out.append(('C11' if self.meth in MEMBERSHIP else 'C12',
                        'wrong answer', out[0][2] if out else
                        '%s(%s) of a view %s' % (self.meth, ', '.join(
                            map(str, self.args)), text)))
        return out

    def notified(self, eng, st, event, x, ctx, node):
        return

    def problems(self, st, v):
        bad = st.x['ghost'].get('bad', ())
        return [(p, r, '%s (%s)' % (t, self.op)) for p, r, t in bad[:4]]

    def untold(self, x, get):
        return True


AGAIN = [
    # (children of each node, sequences of changes)
    ({ROOT: 'XY', 'X': 'P', 'P': 'C'},
     [[('add_parent', 'P', 'Y')], [('add_parent', 'C', 'X')],
      [('add_parent', 'P', 'Y'), ('remove_parent', 'P', 'X')],
      [('add_parent', 'C', 'Y'), ('remove_parent', 'C', 'P')],
      [('remove_parent', 'P', 'X'), ('add_parent', 'P', 'Y')],
      [('hide', 'X'), ('show', 'X')], [('hide', 'P'), ('show', 'P')],
      [('hide', 'C'), ('add_parent', 'C', 'Y'), ('show', 'C')],
      [('hide', 'P'), ('set_parent', 'P', 'Y'), ('show', 'P')],
      [('set_parent', 'P', 'Y'), ('set_parent', 'P', 'X')],
      [('set_parent', 'C', 'Y'), ('set_parent', 'P', 'C')],
      [('del_node', 'P')], [('del_node', 'X')], [('del_node', 'C')],
      [('del_node', 'Y'), ('remove_parent', 'P', 'X')],
      [('add_parent', 'X', 'Y'), ('hide', 'X'), ('show', 'X')]]),
    ({ROOT: 'XY', 'X': 'P', 'Y': 'P', 'P': 'C'},
     [[('remove_parent', 'P', 'X')], [('remove_parent', 'P', 'Y')],
      [('remove_parent', 'P', 'Y'), ('remove_parent', 'P', 'X')],
      [('hide', 'X')], [('hide', 'Y'), ('show', 'Y')],
      [('hide', 'P'), ('show', 'P')], [('add_parent', 'Y', 'X')],
      [('add_parent', 'C', 'X'), ('remove_parent', 'P', 'Y')],
      [('del_node', 'X')], [('del_node', 'P')],
      [('hide', 'C'), ('remove_parent', 'P', 'X'), ('show', 'C')]]),
    ({ROOT: 'XYPC'},
     [[('add_parent', 'C', 'P'), ('add_parent', 'P', 'Y'),
       ('add_parent', 'Y', 'X')],
      [('set_parent', 'C', 'P'), ('set_parent', 'Y', 'P'),
       ('set_parent', 'X', 'P'), ('remove_parent', 'C', 'P')],
      [('add_parent', 'C', 'X'), ('add_parent', 'C', 'Y'),
       ('hide', 'X'), ('hide', 'Y'), ('show', 'X')]]),
    ({ROOT: 'P', 'P': 'C'},
     [[('add', 'X'), ('add_parent', 'P', 'X'), ('add_parent', 'C', 'X')],
      [('add', 'X', 'C'), ('add_parent', 'X', 'P'), ('add', 'Y', 'X')],
      [('add', 'X', 'P'), ('set_parent', 'C', 'X'), ('add', 'Y', 'C'),
       ('remove_parent', 'X', 'P')],
      [('add', 'X', 'C'), ('del_node', 'P'), ('add', 'Y', 'X')],
      [('add', 'X', 'C'), ('hide', 'C'), ('add', 'Y', 'C'),
       ('show', 'C')],
      [('hide', 'P'), ('add', 'X', 'P'), ('show', 'P'), ('del_node', 'C')],
      [('add', 'X'), ('add_child', 'X', 'C'), ('add_child', 'X', 'P'),
       ('remove_parent', 'C', 'P')]]),
    ({ROOT: 'P', 'P': 'XCY'},
     [[('remove_parent', 'C', 'P'), ('add_parent', 'C', 'P')],
      [('hide', 'X'), ('hide', 'Y'), ('show', 'X')],
      [('set_parent', 'C', 'X'), ('set_parent', 'Y', 'X'),
       ('remove_parent', 'X', 'P')],
      [('del_node', 'X'), ('add_parent', 'Y', 'C')],
      [('hide', 'P'), ('remove_parent', 'C', 'P'), ('show', 'P')]]),
]


def legal(g, names):
    """The changes which can be made."""
    nodes, edges, hidden = g
    here = [x for x in names if Sym(x) in nodes]
    kids = {}
    for p, c in edges:
        kids.setdefault(p.name, set()).add(c.name)

    def below(x):
        out, work = {x}, [x]
        while work:
            for c in kids.get(work.pop(), ()):
                if c not in out:
                    out.add(c)
                    work.append(c)
        return out
    out = []
    for c in here:
        for p in here:
            if p != c and c not in kids.get(p, ()) and p not in below(c):
                out.append(('add_parent', c, p))
                if any(c in k for k in kids.values()):
                    out.append(('set_parent', c, p))
            if c in kids.get(p, ()):
                out.append(('remove_parent', c, p))
        out.append(('show' if Sym(c) in hidden else 'hide', c))
        out.append(('del_node', c))
    for x in names:
        if Sym(x) not in nodes:
            out.append(('add', x))
            out.extend(('add', x, p) for p in here)
            break
    return out


SHAPES = [{ROOT: 'XY', 'X': 'P', 'P': 'C'},
          {ROOT: 'XY', 'X': 'P', 'Y': 'P', 'P': 'C'},
          {ROOT: 'X', 'X': 'PC', 'P': 'C'},
          {ROOT: 'XY', 'X': 'PC', 'Y': 'PC'}]


def pairs(stride):
    """Every (stride-th) pair of changes in some trees."""
    n = 0
    for order in SHAPES:
        names = 'CPXY'
        edges = frozenset((Sym(p), Sym(c)) for p in order if p != ROOT
                          for c in order[p])
        g = (frozenset(Sym(x) for x in names if any(
            x in v for v in order.values())), edges, frozenset())
        for one in legal(g, names):
            g1 = Again.changed_graph(g, one)
            for two in legal(g1, names):
                n += 1
                if n % stride == 0:
                    yield order, [one, two]


def again_scenarios(prog, tier='quick'):
    out = []
    todo = [(o, c) for o, seqs in AGAIN for c in seqs]
    todo += list(pairs(1 if tier == 'thorough' else 17))
    for order, changes in todo:
        for changes in [changes]:
            for target in ('view', 'main'):
                if target == 'main' and any(
                        c[0] in ('hide', 'show') for c in changes):
                    continue
                out.append(('again, %s: %s in %s' % (
                    target, ', '.join('%s(%s)' % (c[0], ', '.join(c[1:]))
                                      for c in changes),
                    ' '.join('%s>%s' % (k if k != ROOT else '', v)
                             for k, v in order.items())),
                    lambda target=target, changes=changes, order=order:
                    Again(prog, 'CPXY', target, changes, order)))
    return out


def scenarios(prog, tier='quick'):
    out = []

    def add(label, names, ask, **kw):
        out.append((label, lambda: Query(prog, names, ask, **kw)))

    def sh(*xs):
        fx = {}
        for x in xs:
            fx['in', x] = True
            fx['ps', x] = True
        return fx

    for target in ('view', 'main', 'node', 'tree'):
        qs = of_nodes() if target == 'node' else of_trees() \
            if target == 'tree' else questions(target)
        for meth, args, kw, answer, here in qs:
            lab = '%s: %s(%s)' % (target, meth, ', '.join(
                [str(a) for a in args] + sorted(kw)))
            fx = sh(C) if here else {}
            heavy = target == 'main' and meth in (
                'get_nodes', 'get_n_nodes', 'node_n_children')
            names = 'CP' if heavy and tier == 'quick' else 'CPX'
            add(lab, names, (target, meth, args, kw, answer), fixed=fx)
            if here and target != 'node':
                add(lab + ' (absent)', 'CP', (target, meth, args, kw, None),
                    fixed={('in', C): False})
                if target == 'view':
                    add(lab + ' (hidden)', 'CP', (
                        target, meth, args, kw, None),
                        fixed={('in', C): True, ('ps', C): False})
            if target == 'view' and meth in (
                    'get_all_nodes', 'get_paths_for_node', 'node_parents',
                    'node_all_children', 'node_n_children'):
                add(lab + ' (flat)', names, (target, meth, args, kw, answer),
                    fixed=fx, flat=True)
    add('count: get_n_nodes()', 'CPX', (
        'count', 'get_n_nodes', (), {},
        val(lambda w, F: len([x for x in w.names if F('sh', x)]))),
        count=True)
    # places in lists
    shapes = {'below a parent': {ROOT: 'P', 'P': 'XCY'},
              'first below a parent': {ROOT: 'P', 'P': 'CXY'},
              'last below a parent': {ROOT: 'P', 'P': 'YXC'},
              'at the top': {ROOT: 'PCXY'},
              'last at the top': {ROOT: 'XYPC'},
              'with children': {ROOT: 'CP', 'C': 'YX'},
              'below a shared parent': {ROOT: 'XY', 'X': 'P', 'Y': 'P',
                                        'P': 'C'},
              'shared': {ROOT: 'XP', 'P': 'CY', 'X': 'YC'}}
    for shape, order in shapes.items():
        for target in ('view', 'main'):
            def a(meth, args, answer, kw={}):
                add('%s: %s(%s), C %s' % (target, meth, ', '.join(
                    map(str, args)), shape), 'CPXY',
                    (target, meth, args, kw, answer), order=order)
            below = {'shared': [P, X], 'below a parent': [None, P],
                     'last below a parent': [None, P]}.get(shape, [None])
            for p in below:
                a('next_node', (C,) + ((p,) if p is not None else ()),
                  val(lambda w, F, p=p: after(w, F, C, p)))
            for n in (0, 1, 2):
                a('node_nth_child', (P, Const(n)),
                  lambda w, F, n=n: nth(w.downs(F, P), n))
            a('node_nth_child', (NONE, Const(0)),
              lambda w, F: nth(w.downs(F, None), 0))
            a('node_nth_child', (NONE, Const(1)),
              lambda w, F: nth(w.downs(F, None), 1))
            for meth, args, kw, answer, here in questions(target):
                if meth in ('node_all_children', 'get_paths_for_node',
                            'node_n_children', 'node_parents',
                            'get_all_nodes', 'get_node_for_path'):
                    a(meth, args, answer, kw)
        for n in (0, 1):
            add('node: get_nth_child(%d), C %s' % (n, shape), 'CPXY', (
                'node', 'get_nth_child', (Const(n),), {},
                lambda w, F, n=n: nth(w.downs(F, C), n)), order=order)
        add('node: get_child_index(X), C %s' % shape, 'CPXY', (
            'node', 'get_child_index', (X,), {}, val(
                lambda w, F: w.downs(F, C).index(X)
                if X in w.downs(F, C) else None)), order=order)
        add('node: get_children(), C %s' % shape, 'CPXY', (
            'node', 'get_children', (), {}, seq(
                lambda w, F: w.downs(F, C))), order=order)
    return out + again_scenarios(prog, tier)


def query_job(prog, res, index, tier):
    label, make = scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def query_jobs(prog, tier):
    return [(label, query_job, (i, tier)) for i, (label, _) in enumerate(
        scenarios(prog, tier))]


def count_jobs(prog, tier):
    return [j for j in query_jobs(prog, tier) if j[0].startswith('count')]


def main_jobs(prog, tier):
    return [j for j in query_jobs(prog, tier) if j[0].startswith(
        ('main', 'again, main'))]


def view_jobs(prog, tier):
    return [j for j in query_jobs(prog, tier)
            if j[0].startswith('again, view')]
