"""The abstract main tree: arbitrary trees around a few named nodes.

Every named individual stands for an arbitrary node; all other nodes are
summarised. Membership in the lists of the tree on entry is given by facts:

  ('in', x)       x is in the tree
  ('e', p, c)     p is a parent of c (both lists, by the invariant)
  ('r', x)        x is at top level
  ('pend', p, c)  the relationship p -> c waits for one of its ends
  ('pe', x) ('ce', x)   parents / children of x are enabled
  ('othp', x) ('othc', x)   x has other (unnamed) parents / children
"""
from .values import *
from .core import Scenario
from .interp import Engine, Ctx
from .program import AnalysisBroken


def sym(n):
    return Sym(n)


class TreeWorld(Scenario):
    """Builds the entry states of operations on the main tree."""

    def __init__(self, prog, names, fixed=None, with_tree=True, others=True,
                 thread='origin', pending_others=True, pend_pairs=None,
                 blocked=None):
        self.prog = prog
        self.names = [Sym(n) for n in names]
        self.fixed = dict(fixed or {})
        self.others = others
        self.pending_others = pending_others
        self.thread = thread
        self.pend_pairs = pend_pairs
        self.blocked = blocked or (lambda fact: False)
        self.roles = {}      # address -> (role, individual)
        self.building = True
        self.eng = None

    lasting = ('e', 'in', 'pend')

    # ---- facts ------------------------------------------------------------
    def consistent(self, facts):
        edges = []
        get = facts.get
        for n, v in facts.items():
            k = n[0]
            if k == 'e' and v:
                p, c = n[1], n[2]
                if get(('in', p)) is False or get(('in', c)) is False:
                    return False
                if get(('r', c)) or get(('e', c, p)):
                    return False
                if get(('pe', c)) is False or get(('ce', p)) is False:
                    return False
                if get(('pend', p, c)):
                    return False
                if p.oth and get(('othp', c)) is False or \
                        c.oth and get(('othc', p)) is False:
                    return False
                edges.append((p, c))
            elif k == 'r':
                x = n[1]
                if v:
                    if get(('in', x)) is False or get(('othp', x)):
                        return False
                elif get(('in', x)) and get(('othp', x)) is False:
                    if all(get(('e', p, x)) is False
                           for p in self.names if p != x):
                        if not any(f[0] == 'e' and f[2] == x and w and
                                   f[1].oth for f, w in facts.items()):
                            return False
            elif k == 'pend' and v:
                if get(('in', n[1])) and get(('in', n[2])):
                    return False
                if n[1] == n[2]:
                    return False
            elif k == 'in' and not v:
                x = n[1]
                if get(('othp', x)) or get(('othc', x)):
                    return False
            elif k == 'othp' and v and get(('pe', n[1])) is False:
                return False
            elif k == 'othc' and v and get(('ce', n[1])) is False:
                return False
        if len(edges) > 2 and not acyclic(edges):
            return False
        return self.extra_consistent(facts)

    def extra_consistent(self, facts):
        return True

    def close(self, facts):
        """Facts implied by others."""
        for n, v in list(facts.items()):
            if n[0] == 'e' and v:
                for x in n[1:3]:
                    facts.setdefault(('in', x), True)
            elif n[0] == 'r' and v:
                facts.setdefault(('in', n[1]), True)

    # ---- containers ---------------------------------------------------------
    def hint(self, st, cont, elem):
        o = cont.origin
        if o is None:
            return None
        if isinstance(elem, Sym):
            if elem.isint:
                return None
            if o[0] == 'nodes':
                return FV(('in', elem))
            if o[0] == 'root':
                return FV(('r', elem))
            if o[0] == 'parents':
                return self.edge(elem, o[1])
            if o[0] == 'children':
                return self.edge(o[1], elem)
            return None
        if o[0] == 'pend' and isinstance(elem, Tup) and \
                len(elem.items) == 2 and all(
                    isinstance(x, Sym) for x in elem.items):
            if elem.items[0] == elem.items[1]:
                return 0
            return FV(('pend',) + elem.items)
        if o[0] in ('nodes', 'root', 'parents', 'children', 'pend'):
            return 0
        return None

    def edge(self, p, c):
        if p == c or self.blocked(('e', p, c)):
            return 0
        return FV(('e', p, c))

    def on_draw(self, st, cont, elem):
        self.close(st.facts)
        return True

    def lazy_value(self, eng, st, addr, key):
        role = self.roles.get(addr)
        if role and role[0] == 'nodes' and isinstance(key, Sym):
            return self.make_node(eng, st, key)
        if isinstance(key, (Sym, Tup)):
            return Top('value of an anonymous key')
        return Top('value of an unknown key')

    def make_node(self, eng, st, x):
        ci = self.node_cls
        init = eng.prog.find_method(ci, '__init__')
        if init is None:
            raise AnalysisBroken('TreeNode has no constructor')
        was, self.building = self.building, True
        na = st.na
        if x.oth and x.name[1:].isdigit():
            # addresses of their own: an address has one role in all states
            st.na = 1000000 + 1000 * int(x.name[1:])
        outs = eng.instantiate_cls(
            st, ci, [x], {}, Ctx(None, None, ci.module, ci), None)
        self.building = was
        if x.oth and x.name[1:].isdigit():
            st.na = na
        s, r = outs[0]
        if isinstance(r, Exc) or s is not st:
            raise AnalysisBroken('TreeNode cannot be constructed: %r' % r)
        self.generalise_node(st, r, x)
        return r

    def others_of(self, kind, x):
        if not self.others or self.blocked((kind, x)):
            return 'no'
        return FV((kind, x))

    def generalise_node(self, st, r, x):
        o = st.heap[r.a]
        for f in ('parents', 'children'):
            if f not in o.fields:
                raise AnalysisBroken('field %s of a node is gone' % f)
        par = Cont('list', exact=False, origin=('parents', x), mem={
            p: self.edge(p, x) for p in self.names if p != x},
            oth=self.others_of('othp', x))
        chi = Cont('list', exact=False, origin=('children', x), mem={
            c: self.edge(x, c) for c in self.names if c != x},
            oth=self.others_of('othc', x))
        pr, cr = o.fields['parents'], o.fields['children']
        for ref in (pr, cr):
            if not isinstance(ref, Ref) or not isinstance(
                    st.heap.get(ref.a), Cont):
                raise AnalysisBroken('links of a node are not containers')
        st.heap[pr.a] = par.with_(kind=st.heap[pr.a].kind)
        st.heap[cr.a] = chi.with_(kind=st.heap[cr.a].kind)
        self.roles[pr.a] = ('parents', x)
        self.roles[cr.a] = ('children', x)
        fields = dict(o.fields)
        fields['tree'] = self.main
        if 'parents_enabled' in fields:
            fields['parents_enabled'] = FB(('pe', x))
        if 'children_enabled' in fields:
            fields['children_enabled'] = FB(('ce', x))
        st.heap[r.a] = Inst(o.cls, fields, ('node', x))
        self.roles[r.a] = ('node', x)

    # ---- entry state ----------------------------------------------------------
    def build(self, eng):
        """-> the entry state, with self.tree, self.main, self.root ..."""
        self.eng = eng
        prog = eng.prog
        BASE[0] = 0
        st = St()
        tree_cls = prog.cls('liblarch', 'Tree')
        self.node_cls = prog.cls('liblarch', 'TreeNode')
        main_cls = prog.cls('liblarch.tree', 'MainTree')
        th, self.thread = self.thread, 'origin'
        outs = eng.instantiate_cls(st, tree_cls, [], {}, Ctx(
            None, None, tree_cls.module, tree_cls), None)
        self.thread = th
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise AnalysisBroken('Tree() cannot be constructed')
        st, self.tree = outs[0]
        found = [a for a, o in st.heap.items()
                 if isinstance(o, Inst) and o.cls is main_cls]
        if len(found) != 1:
            raise AnalysisBroken('MainTree of a Tree not found')
        self.main = Ref(found[0])
        m = st.heap[self.main.a]
        for f in ('nodes', 'root', 'pending_relationships'):
            if f not in m.fields:
                raise AnalysisBroken('field %s of MainTree is gone' % f)
        self.rootnode = m.fields['root']
        rt = st.heap[self.rootnode.a]
        self.nodes = m.fields['nodes']
        self.pend = m.fields['pending_relationships']
        self.rootch = rt.fields['children']
        self.rootpa = rt.fields['parents']
        st.heap[self.rootnode.a] = Inst(rt.cls, dict(rt.fields), ('main',))
        st.heap[self.main.a] = Inst(m.cls, dict(m.fields), ('main',))
        t = st.heap[self.tree.a]
        st.heap[self.tree.a] = Inst(t.cls, t.fields, ('main',))
        self.roles[self.nodes.a] = ('nodes', None)
        self.roles[self.pend.a] = ('pend', None)
        self.roles[self.rootch.a] = ('root', None)
        self.roles[self.rootpa.a] = ('rootparents', None)
        vals = {}
        for x in self.names:
            vals[x] = self.make_node(eng, st, x)
        self.node = vals
        st.heap[self.nodes.a] = st.heap[self.nodes.a].with_(
            exact=False, items=(), origin=('nodes',), vals=vals,
            mem={x: FV(('in', x)) for x in self.names},
            oth='maybe' if self.others else 'no')
        st.heap[self.rootch.a] = st.heap[self.rootch.a].with_(
            exact=False, items=(), origin=('root',),
            mem={x: FV(('r', x)) for x in self.names},
            oth='maybe' if self.others else 'no')
        pairs = self.pend_pairs
        if pairs is None:
            pairs = [(p.name, c.name) for p in self.names
                     for c in self.names if p != c]
        pairs = [(Sym(p), Sym(c)) for p, c in pairs]
        inv = [x for x in self.names if any(x in pr for pr in pairs)]
        for p in self.names:
            for c in self.names:
                if p != c and (p, c) not in pairs:
                    st.facts[('pend', p, c)] = False
        shapes = (Tup((PLACE, PLACE)),) + tuple(
            t for x in inv for t in (
                Tup((x, PLACE)), Tup((PLACE, x))))
        po = self.others and self.pending_others
        st.heap[self.pend.a] = st.heap[self.pend.a].with_(
            exact=False, items=(), origin=('pend',),
            mem={Tup((p, c)): FV(('pend', p, c)) if (p, c) in pairs else 0
                 for p in self.names for c in self.names if p != c},
            oth='maybe' if po else 'no',
            shapes=shapes if po else ())
        st.facts.update(self.fixed)
        self.close(st.facts)
        if not others_ok(self):
            for x in self.names:
                st.facts[('othp', x)] = False
                st.facts[('othc', x)] = False
        if not self.consistent(st.facts):
            raise AnalysisBroken('inconsistent entry facts')
        st.roots = tuple(sorted(
            [self.tree.a, self.main.a, self.rootnode.a] +
            [r.a for r in vals.values()]))
        self.listen(eng, st)
        # the tree and everything it already references is 'main'
        for a, o in list(st.heap.items()):
            if isinstance(o, Inst) and o.tag is None and \
                    not isinstance(o.cls, str):
                st.heap[a] = Inst(o.cls, o.fields, ('main',))
        st.x['ghost'] = self.ghost0()
        self.building = False
        eng.set_base(st)
        self.base_addrs = frozenset(st.heap)
        return st

    def ghost0(self):
        return {}

    def listen(self, eng, st):
        """Register one outside listener per event."""
        for ev in ('node-added', 'node-modified', 'node-deleted'):
            outs = self.call_method(eng, st, self.main, 'register_callback',
                                    [Const(ev), ExtFn('L:' + ev)])
            if len(outs) != 1 or outs[0][0] is not st or isinstance(
                    outs[0][1], Exc):
                raise AnalysisBroken('listeners cannot be registered')

    def call_method(self, eng, st, ref, name, args, kw=None):
        ci = st.heap[ref.a].cls
        m = eng.method_of(ci, name)
        if m is None:
            raise AnalysisBroken('%s.%s is gone' % (ci.name, name))
        return eng.call(st, Clo(m, None, ref), args, kw or {},
                        Ctx(None, None, ci.module, ci), None)

    # ---- the main loop --------
    def lib_call(self, eng, st, name, args, kw, ctx, node):
        short = name.split('.')[-1]
        if short in ('idle_add', 'timeout_add', 'timeout_add_seconds'):
            fns = [a for a in args if isinstance(a, (Clo, Part, Meth))]
            n = st.x.get('nsrc', 0) + 1
            st.x['nsrc'] = n
            if fns:
                st.x['src'] = st.x.get('src', ()) + ((n, fns[0]),)
                st.x['keep'] = tuple(f for _, f in st.x['src'])
            return [(st, Const(n))]
        if short == 'source_remove':
            ids = [a.v for a in args if isinstance(a, Const)]
            st.x['src'] = tuple(p for p in st.x.get('src', ())
                                if p[0] not in ids)
            return [(st, TRUE)]
        return None

    def main_loop(self, eng, st, limit=12):
        """Let the main loop run until no source is left -> [state]"""
        st.x['thread'] = 'origin'
        final, work = [], [(st, 0)]
        while work:
            s, n = work.pop()
            src = s.x.get('src', ())
            if not src:
                final.append(s)
                continue
            if n >= limit:
                s.doubt('the main loop does not come to rest')
                final.append(s)
                continue
            num, fn = src[0]
            for s2, v in eng.call(s, fn, [], {}, Ctx(
                    None, None, self.node_cls.module, self.node_cls), None):
                if isinstance(v, Exc):
                    s2.x['src'] = tuple(
                        p for p in s2.x['src'] if p[0] != num)
                    work.append((s2, n + 1))
                    continue
                for s3, t in eng.truth(s2, v):
                    if not t:
                        s3.x['src'] = tuple(
                            p for p in s3.x['src'] if p[0] != num)
                    work.append((s3, n + 1))
        return final

    # ---- the environment ------------------------------------------------------
    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name.startswith('L:'):
            if args:
                self.notified(eng, st, fn.name[2:], args[0], ctx, node)
            return [(st, NONE)]
        return [(st, Top('outside call'))]

    def notified(self, eng, st, event, x, ctx, node):
        return

    # ---- reading the final state -----------------------------------------------
    def field(self, st, ref, name):
        v = st.heap[ref.a].fields.get(name)
        if not isinstance(v, Ref):
            raise AnalysisBroken('field %s is gone' % name)
        return v

    def a_nodes(self, st):
        return self.field(st, self.main, 'nodes').a

    def a_pend(self, st):
        return self.field(st, self.main, 'pending_relationships').a

    def a_root(self, st):
        return self.field(st, self.rootnode, 'children').a

    def obj(self, st, x):
        return self.node[x]

    def a_parents(self, st, x):
        return self.field(st, self.obj(st, x), 'parents').a

    def a_children(self, st, x):
        return self.field(st, self.obj(st, x), 'children').a

    def same(self, st, a, x, fact):
        """Is the membership of x in container a syntactically unchanged?"""
        c = st.heap[a]
        if c.exact:
            return False
        m = c.mem.get(x)
        return isinstance(m, FV) and m.name == fact

    def count(self, st, a, x):
        """[(state, number of occurrences: 0, 1, 2)]"""
        c = st.heap[a]
        if c.exact:
            n = sum(1 for it in c.items
                    if (it[0] if c.kind == 'dict' else it) == x)
            return [(st, min(2, n))]
        m = c.mem.get(x, 0)
        if isinstance(m, FV):
            return [(s, 1 if b else 0) for s, b in self.eng.fork(st, m.name)]
        return [(st, m)]


def others_ok(w):
    return w.others


def acyclic(edges):
    succ = {}
    for p, c in edges:
        succ.setdefault(p, []).append(c)
    state = {}

    def go(x):
        state[x] = 1
        for y in succ.get(x, ()):
            if state.get(y) == 1 or (y not in state and not go(y)):
                return False
        state[x] = 2
        return True
    return all(go(x) for x in list(succ) if x not in state)
