"""The operations on a tree, what they have to do, and in which trees."""
from .values import *
from .judge import Operation, SAME, ANY
from .interp import Ctx
from .program import AnalysisBroken

P, C, X, N, D, Q = (Sym(n) for n in 'PCXNDQ')


def no_named_above_anon(f):
    """Anonymous nodes have anonymous parents only."""
    return f[0] == 'e' and not f[1].oth and f[2].oth


def few(*kinds):
    """Block the anonymous relatives but those of the given kinds."""
    kinds = set(kinds)

    def blocked(f):
        if f[0] in ('othp', 'othc'):
            return not f[1].oth and f not in kinds
        return no_named_above_anon(f)
    return blocked


def chain(*xs):
    """Facts: xs[0] is the parent of xs[1], which is the parent ..."""
    return {('e', a, b): True for a, b in zip(xs, xs[1:])}


def none_below(c, xs):
    return {('e', c, x): False for x in xs if x != c}


class OnNode(Operation):
    """A method of a TreeNode"""
    on = C
    meth = ''
    args = ()

    def start(self, eng, st):
        self.construct = 'TreeNode.' + self.meth
        return self.call_method(eng, st, self.node[self.on], self.meth,
                                list(self.args))


class OnTree(Operation):
    """A method of a Tree"""
    meth = ''
    args = ()

    def start(self, eng, st):
        self.construct = 'Tree.' + self.meth
        return self.call_method(eng, st, self.tree, self.meth,
                                list(self.args))


class Link(Operation):
    """P becomes a parent of C"""

    def fits(self, item, F):
        return None

    def expect(self, item, F):
        if item == ('e', P, C):
            return F(*item) or self.link_ok(P, C, F)
        if item == ('pend', P, C):
            if F('in', P) and F('in', C):
                return False
            return F(*item) or self.wants(F)
        if item == ('r', C) and F('in', C):
            if self.link_ok(P, C, F) and not F('e', P, C):
                return False
        return SAME

    def refused(self, F):
        return (F('in', P) and F('in', C) and F('pe', C) and F('ce', P) and
                not F('e', P, C) and self.cycle(P, C, F))

    def props_of(self, item, e):
        if item == ('e', P, C) and not e:
            return ('C24', 'C22', 'C02')
        if item[0] == 'pend':
            return ('C05', 'C24')
        return ('C24',)


class AddParent(Link, OnNode):
    op, meth, on, args = 'add_parent()', 'add_parent', C, (P,)

    def wants(self, F):
        return F('pe', C)


class TreeAddParent(Link, OnTree):
    op, meth, args = 'Tree.add_parent()', 'add_parent', (C, P)

    def wants(self, F):
        return F('pe', C)


class AddChild(Link, OnNode):
    op, meth, on, args = 'add_child()', 'add_child', P, (C,)

    def wants(self, F):
        return F('ce', P)


class Self(OnNode):
    """A node cannot be its own parent."""
    def __init__(self, *a, **kw):
        self.meth = kw.pop('meth')
        self.op = self.meth + '() with the node itself'
        self.on, self.args = C, (C,)
        OnNode.__init__(self, *a, **kw)

    def refused(self, F):
        return True

    def more(self, st, v, F):
        for a in (self.a_parents(st, C), self.a_children(st, C)):
            if self.peek(st, a, C) not in (0,):
                return [('C02', 'node linked to itself',
                         'after %s, the node is its own parent' % self.op)]
        if self.peek(st, self.a_pend(st), Tup((C, C))) not in (0,):
            return [('C02', 'node waits for itself',
                     'after %s, the node waits for itself as a parent' %
                     self.op)]
        return []


class RemoveParent(OnNode):
    op, meth, on, args = 'remove_parent()', 'remove_parent', C, (P,)

    def expect(self, item, F):
        if item == ('e', P, C):
            return False
        if item == ('pend', P, C):
            return ANY
        if item == ('r', C) and F('e', P, C):
            return not (F('othp', C) or any(
                F('e', y, C) for y in self.names if y not in (P, C)))
        return SAME

    def props_of(self, item, e):
        return ('C24',)


class Move(Operation):
    prop = 'C21'
    to = P

    def done(self, F):
        """Is the move carried out?"""
        if not F('pe', C):
            return False
        if self.to is None or not F('in', self.to):
            return True
        return F('ce', self.to) and not self.cycle(self.to, C, F)

    def expect(self, item, F):
        to = self.to
        if item[0] in ('e', 'pend') and item[2] == C and self.done(F):
            if item[0] == 'e':
                return item[1] == to and F('in', to)
            return item[1] == to and not F('in', to)
        if item == ('r', C) and self.done(F):
            return to is None or not F('in', to)
        return SAME

    def refused(self, F):
        return (self.to is not None and F('pe', C) and F('in', self.to) and
                F('ce', self.to) and self.cycle(self.to, C, F))

    def props_of(self, item, e):
        if item == ('e', P, C) and not e:
            return ('C21', 'C22', 'C02')
        if item[0] == 'pend':
            return ('C21', 'C05')
        return ('C21',)


class SetParent(Move, OnNode):
    op, meth, on, args = 'set_parent()', 'set_parent', C, (P,)


class MoveNode(Move, OnTree):
    op, meth, args = 'move_node()', 'move_node', (C, P)


class MoveToRoot(Move, OnTree):
    op, meth, args, to = 'move_node() to the top level', 'move_node', \
        (C,), None


class Remove(OnTree):
    op, meth, args = 'del_node()', 'del_node', (C,)
    prop = 'C04'
    recursive = False

    def gone(self, F):
        if not F('in', C):
            return ()
        if not self.recursive:
            return (C,)
        out, work = [], [C]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.append(x)
            work.extend(y for y in self.names if y != x and F('e', x, y))
        return out

    def expect(self, item, F):
        gone = self.gone(F)
        if any(x in gone for x in item[1:]):
            return False
        if item[0] == 'r' and gone:
            x = item[1]
            if any(F('e', g, x) for g in gone):
                if F('othp', x):
                    return False
                return not any(F('e', y, x) for y in self.names
                               if y != x and y not in gone)
        return SAME

    def refused(self, F):
        return not F('in', C)


class RemoveAll(Remove):
    op, args, recursive = 'recursive del_node()', (C, TRUE), True


class Add(OnTree):
    """add_node(): N is a new node; it may already wait for relatives."""
    op, meth = 'add_node()', 'add_node'
    prop = 'C05'
    parent = None

    def __init__(self, *a, **kw):
        # N may wait for the parent Q and the child D
        self.rel = kw.pop('rel')
        OnTree.__init__(self, *a, **kw)

    def start(self, eng, st):
        self.construct = 'Tree.add_node'
        r = self.make_new(eng, st)
        self.new = r
        args = [r] + ([self.parent] if self.parent else [])
        return self.call_method(eng, st, self.tree, 'add_node', args)

    def make_new(self, eng, st):
        """The object of N before it is added."""
        ci = self.node_cls
        was, self.building = self.building, True
        outs = eng.instantiate_cls(
            st, ci, [N], {}, Ctx(None, None, ci.module, ci), None)
        self.building = was
        s, r = outs[0]
        if len(outs) != 1 or s is not st or isinstance(r, Exc):
            raise AnalysisBroken('TreeNode cannot be constructed')
        o = st.heap[r.a]
        fields = dict(o.fields)
        for f, k in (('parents_enabled', 'pe'), ('children_enabled', 'ce')):
            if f in fields:
                fields[f] = FB((k, N))
        st.heap[r.a] = Inst(o.cls, fields, ('node', N))
        pr = fields.get('pending_relationships')
        if not isinstance(pr, Ref):
            raise AnalysisBroken('nodes do not keep pending relationships')
        mem = {}
        if self.rel[0]:
            mem[Tup((self.rel[0], N))] = FV(('np', self.rel[0], N))
        if self.rel[1]:
            mem[Tup((N, self.rel[1]))] = FV(('np', N, self.rel[1]))
        st.heap[pr.a] = st.heap[pr.a].with_(
            exact=False, items=(), mem=mem, oth='no')
        st.roots = st.roots + (r.a,)
        return r

    def obj(self, st, x):
        if x == N and st.facts.get(('in', N)) is False:
            return self.new
        return self.node[x]

    def problems(self, st, v):
        self.getter(st)('in', N)
        return OnTree.problems(self, st, v)

    def extra_consistent(self, facts):
        for n, v in facts.items():
            # a node whose parents are disabled does not wait for one
            if n[0] == 'np' and v:
                if n[2] == N and facts.get(('pe', N)) is False:
                    return False
                if n[1] == N and facts.get(('ce', N)) is False:
                    return False
        return True

    def wants(self, p, c, F):
        if (p, c) == (self.parent, N):
            return True
        if (p, N) == (self.rel[0], c) or (N, c) == (p, self.rel[1]):
            if F('np', p, c):
                return True
        return F('pend', p, c)

    def expect(self, item, F):
        if F('in', N):
            return SAME
        if item == ('in', N):
            return True
        k = item[0]
        if k in ('e', 'pend') and N in item[1:]:
            p, c = item[1:]
            other = p if c == N else c
            if not self.wants(p, c, F):
                return False
            if k == 'pend':
                return not F('in', other)
            return bool(F('in', other) and F('ce', p) and F('pe', c))
        if item == ('r', N):
            return not any(self.expect(('e', y, N), F)
                           for y in self.names if y != N)
        if k == 'r' and F('r', item[1]):
            return not self.expect(('e', N, item[1]), F)
        return SAME

    def refused(self, F):
        return F('in', N)

    def props_of(self, item, e):
        if item[0] == 'e' and not e:
            return ('C05', 'C22', 'C24')
        if item[0] == 'in' or (item[0] == 'e' and
                               item[1] == self.parent):
            return ('C05', 'C24')
        return ('C05',)

    def more(self, st, v, F):
        """The new object is what the tree hands out, and it belongs to it"""
        if self.refused(F) or isinstance(v, Exc):
            return []
        c = st.heap[self.a_nodes(st)]
        val = c.vals.get(N)
        out = []
        if val is not None and val != self.new:
            out.append(('C24', 'wrong object', 'after add_node(), the tree '
                        'hands out another object for the node'))
        t = st.heap[self.new.a].fields.get('tree')
        if t is not None and t != self.main:
            out.append(('C05', 'node without its tree', 'after add_node(), '
                        'the node does not know its tree'))
        return out


class AddBelow(Add):
    op = 'add_node() below a parent'
    parent = P

    def refused(self, F):
        return F('in', N)


class AddCycle(Add):
    """The new node waits for an ancestor of its parent as a child (or the
    like): which of the relationships is dropped is not specified."""
    op = 'add_node() with circular pending relationships'

    def expect(self, item, F):
        if F('in', N):
            return SAME
        if N in item[1:] and item != ('in', N):
            return ANY
        if item[0] == 'r':
            return ANY
        return Add.expect(self, item, F)


class AddCycleBelow(AddCycle):
    op = 'add_node() below a parent with circular pending relationships'
    parent = P

    def may_raise(self, F):
        return True


class DisableParents(OnNode):
    op, meth, on, args = ('set_parents_enabled(False)',
                          'set_parents_enabled', C, (FALSE,))
    prop = 'C22'

    def expect(self, item, F):
        if item[0] == 'e' and item[2] == C:
            return False
        if item[0] == 'pend' and item[2] == C:
            return ANY
        if item == ('r', C):
            return True
        return SAME

    def flags(self, F):
        return {('pe', C): False}


class EnableParents(OnNode):
    op, meth, on, args = ('set_parents_enabled(True)',
                          'set_parents_enabled', C, (TRUE,))
    prop = 'C22'

    def flags(self, F):
        return {('pe', C): True}


class DisableChildren(OnNode):
    op, meth, on, args = ('set_children_enabled(False)',
                          'set_children_enabled', P, (FALSE,))
    prop = 'C22'

    def expect(self, item, F):
        if item[0] == 'e' and item[1] == P:
            return False
        if item[0] == 'pend' and item[1] == P:
            return ANY
        if item[0] == 'r' and F('e', P, item[1]):
            x = item[1]
            return not (F('othp', x) or any(
                F('e', y, x) for y in self.names if y not in (P, x)))
        return SAME

    def flags(self, F):
        return {('ce', P): False}


class EnableChildren(OnNode):
    op, meth, on, args = ('set_children_enabled(True)',
                          'set_children_enabled', P, (TRUE,))
    prop = 'C22'

    def flags(self, F):
        return {('ce', P): True}


class Refresh(Operation):
    """The tree stays as it is, listeners are told about the node."""
    prop = 'C07'
    which = (C,)
    every = False

    def more(self, st, v, F):
        if isinstance(v, Exc):
            return []
        ev = st.x['ghost']['events']
        out = []
        if any(x in self.names and not F('in', x) for _, x in ev) or (
                ev and not self.which and not self.every):
            out.append(('C07', 'told about an absent node', '%s tells about '
                        'a node which is not in the tree' % self.op))
        for x in self.which:
            if F('in', x) and ('node-modified', x) not in ev and \
                    len(ev) < 3:
                out.append(('C07', 'not told about a refreshed node',
                            '%s does not tell about the node' % self.op))
        return out


class RefreshNode(Refresh, OnTree):
    op, meth, args = 'refresh_node()', 'refresh_node', (C,)


class Modified(Refresh, OnNode):
    op, meth, on, args = 'modified()', 'modified', C, ()


class RefreshAll(Refresh, OnTree):
    op, meth, args = 'refresh_all()', 'refresh_all', ()
    every = True


class RefreshRoot(Refresh, OnNode):
    """The root is no node: nobody is told about it."""
    op, meth, args, which = 'modified() of the root', 'modified', (), ()

    def start(self, eng, st):
        self.construct = 'TreeNode.modified'
        out = []
        for s, r in self.call_method(eng, st, self.tree, 'get_node',
                                     [NONE]):
            if isinstance(r, Exc):
                out.append((s, r))
            else:
                out += self.call_method(eng, s, r, self.meth, [])
        return out


class AddBelowItself(Add):
    """A new node which is to be its own parent"""
    op = 'add_node() below the node itself'
    parent = N

    def refused(self, F):
        return True

    def more(self, st, v, F):
        for a in (self.a_children(st, N), self.a_parents(st, N)):
            if self.peek(st, a, N) not in (0,):
                return [('C02', 'node linked to itself',
                         'after %s, the node is its own parent' % self.op)]
        if self.peek(st, self.a_pend(st), Tup((N, N))) not in (0,):
            return [('C02', 'node waits for itself',
                     'after %s, the node waits for itself as a parent' %
                     self.op)]
        return []


class Late(Operation):
    """Another thread requests a link between P and C; before its turn comes
    the thread of the tree does something else."""
    requests = {
        'add_parent': (C, 'add_parent', (P,), 'C24'),
        'add_child': (P, 'add_child', (C,), 'C24'),
        'set_parent': (C, 'set_parent', (P,), 'C21'),
        'move_node': (None, 'move_node', (C, P), 'C21'),
        'Tree.add_parent': (None, 'add_parent', (C, P), 'C24'),
    }
    interim = {
        'children of the parent disabled': (
            P, 'set_children_enabled', (FALSE,), 'C22'),
        'parents of the child disabled': (
            C, 'set_parents_enabled', (FALSE,), 'C22'),
        'child removed': (None, 'del_node', (C,), 'C04'),
        'parent removed': (None, 'del_node', (P,), 'C04'),
        'linked the other way round': (P, 'add_parent', (C,), 'C02'),
        'linked to another parent': (C, 'add_parent', (X,), None),
    }

    def __init__(self, prog, names, req, mean, **kw):
        self.req, self.mean = req, mean
        self.op = '%s() in another thread (%s meanwhile)' % (req, mean)
        Operation.__init__(self, prog, names, **kw)
        self.prop = self.interim[mean][3] or self.requests[req][3]

    def do(self, eng, st, what):
        on, meth, args = what[:3]
        return self.call_method(eng, st, self.node[on] if on else self.tree,
                                meth, list(args))

    def start(self, eng, st):
        on, meth = self.requests[self.req][:2]
        self.construct = ('TreeNode.' if on else 'Tree.') + meth
        st.x['thread'] = 'other'
        out = []
        for s, v in self.do(eng, st, self.requests[self.req]):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s.x['thread'] = 'origin'
            for t, v in self.do(eng, s, self.interim[self.mean]):
                if isinstance(v, Exc) and not v.explicit:
                    out.append((t, v))
                    continue
                out += [(u, NONE) for u in self.main_loop(eng, t)]
        return out

    def flags(self, F):
        on, meth, args = self.interim[self.mean][:3]
        if meth == 'set_children_enabled':
            return {('ce', on): False}
        if meth == 'set_parents_enabled':
            return {('pe', on): False}
        return {}

    def expect(self, item, F):
        on, meth, args = self.interim[self.mean][:3]
        k = item[0]
        if k == 'e':
            p, c = item[1:]
            if meth == 'set_children_enabled' and p == on:
                return False
            if meth == 'set_parents_enabled' and c == on:
                return False
            if meth == 'del_node' and args[0] in (p, c):
                return False
            if (on, meth) == (C, 'add_parent'):
                moved = self.requests[self.req][3] == 'C21' and \
                    self.link_ok(P, C, F)
                if c == C and p in (P, X):
                    if p == X and moved:
                        return False
                    return F(*item) or self.link_ok(p, C, F)
            if P not in (p, c) and C not in (p, c):
                return SAME
            return ANY
        if k == 'in':
            return not (meth == 'del_node' and item[1] == args[0]) and SAME
        return ANY

    def props_of(self, item, e):
        if item[0] == 'e' and self.interim[self.mean][3] is None:
            return (self.requests[self.req][3],)
        return (self.prop,)


class AddAgain(Add):
    """A node is added, removed and the same object added again."""
    op = 'add_node() of a node which was added and removed before'

    def start(self, eng, st):
        self.construct = 'Tree.add_node'
        self.new = self.make_new(eng, st)
        front = [(st, NONE)]
        for meth, args in (('add_node', [self.new]), ('del_node', [N]),
                           ('add_node', [self.new])):
            nxt = []
            for s, v in front:
                nxt += [(s, v)] if isinstance(v, Exc) else \
                    self.call_method(eng, s, self.tree, meth, args)
            front = nxt
        return front

    def expect(self, item, F):
        if item in (('in', N), ('r', N)):
            return True
        if N in item[1:]:
            return False
        return ANY if item[0] == 'r' else SAME

    def refused(self, F):
        return False

    def problems(self, st, v):
        return [p for p in Add.problems(self, st, v) if p[0] != 'C07']


class Ordered(Add):
    """Another thread makes two requests of some priorities."""
    prop = 'C09'
    kinds = {'add': ('add_node', ('node-added', N)),
             'refresh': ('refresh_node', ('node-modified', C)),
             'modified': ('modified', ('node-modified', D)),
             'remove': ('del_node', ('node-deleted', X))}
    rank = {'high': 0, 'normal': 1, 'low': 2, None: 2}

    def __init__(self, prog, names, first, second, **kw):
        self.pair = first, second
        self.op = ', then '.join(
            self.kinds[k][0] + '() of %s priority' % (p or 'no given')
            for k, p in self.pair) + ' in another thread'
        Add.__init__(self, prog, names, **kw)

    def start(self, eng, st):
        self.construct = 'Tree.' + self.kinds[self.pair[0][0]][0]
        self.new = self.make_new(eng, st)
        st.x['thread'] = 'other'
        front = [(st, NONE)]
        for k, p in self.pair:
            nxt = []
            for s, v in front:
                if isinstance(v, Exc):
                    nxt.append((s, v))
                    continue
                on, args = self.tree, [{'add': self.new, 'refresh': C,
                                        'remove': X}.get(k)]
                if k == 'modified':
                    on, args = self.node[D], []
                nxt += self.call_method(
                    eng, s, on, self.kinds[k][0], args,
                    {'priority': Const(p)} if p and k != 'remove' else {})
            front = nxt
        out = []
        for s, v in front:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out += [(t, NONE) for t in self.main_loop(eng, s)]
        return out

    def problems(self, st, v):
        if isinstance(v, Exc):
            return [('C09', 'unexpected %s' % v.cls, '%s fails with %s at %s'
                     % (self.op, v.cls, v.where))]
        ev = st.x['ghost']['events']
        want = sorted(self.pair, key=lambda kp: self.rank[kp[1]])
        want = [self.kinds[k][1] for k, _ in want]
        got = [e for e in ev if e in want]
        self.obligations += 1
        if got != want:
            return [('C09', 'wrong order' if sorted(got, key=repr) == sorted(
                want, key=repr) else 'not carried out', '%s: listeners are '
                'told %s and not %s' % (self.op, *(
                    ', '.join('%s %s' % e for e in x) or 'nothing'
                    for x in (got, want))))]
        return []


def orders(prog, tier='quick'):
    out = []
    fixed = {('in', x): True for x in (C, D, X)}
    fixed['in', N] = False
    for k in 'CDXN':
        for j in 'CDXN':
            if k != j:
                fixed['e', Sym(k), Sym(j)] = False
    asks = [(k, p) for k in Ordered.kinds for p in Ordered.rank
            if k != 'remove' or p == 'normal']
    for a in asks:
        for b in asks:
            if a[0] != b[0] and (
                    'add' in (a[0], b[0]) or tier == 'thorough' or
                    'remove' in (a[0], b[0])):
                out.append(('order of %s %s, %s %s' % (a + b), lambda a=a, b=b:
                            Ordered(prog, ['N', 'C', 'D', 'X'], a, b,
                                    rel=(None, None), others=False,
                                    fixed=fixed, pend_pairs=[],
                                    pending_others=False)))
    return out


def scenarios(prog, tier='quick'):
    """-> [(label, function making the operation)]"""
    out = []

    def add(label, cls, names, **kw):
        out.append((label, lambda: cls(prog, names, **kw)))

    nab = no_named_above_anon
    PC = [('P', 'C')]
    clean = {('e', C, P): False, ('e', C, X): False}
    clean2 = {('e', C, P): False, ('e', X, P): False}
    clean3 = {('e', C, P): False, ('e', C, X): True, ('e', X, P): False}
    for cls, own in ((AddParent, C), (TreeAddParent, C), (AddChild, P),
                     (SetParent, C), (MoveNode, C)):
        n = cls.__name__
        base = {('in', own): True}
        pp = PC + [('X', 'C')]
        add(n + ' two nodes', cls, ['P', 'C'], fixed=base, blocked=nab)
        add(n + ' bystander', cls, ['P', 'C', 'X'],
            fixed={**base, **clean}, blocked=few(('othp', C)),
            pend_pairs=pp, pending_others=False)
        add(n + ' bystander below', cls, ['P', 'C', 'X'],
            fixed={**base, **clean2}, blocked=few(('othp', C)),
            pend_pairs=pp, pending_others=False)
        add(n + ' closed world', cls, ['P', 'C', 'X'], fixed=base,
            others=False, pend_pairs=pp)
        add(n + ' ancestor', cls, ['P', 'C', 'X'],
            fixed={**base, **chain(C, X, P)}, blocked=nab, pend_pairs=pp)
        add(n + ' far ancestor', cls, ['P', 'C', 'X', 'Y'],
            fixed={**base, **chain(C, Sym('X'), Sym('Y'), P)},
            blocked=few(('othp', P)), pend_pairs=PC, pending_others=False)
        add(n + ' far ancestor, closed', cls, ['P', 'C', 'X', 'Y'],
            fixed=base, others=False, pend_pairs=PC)
    for m in ('add_parent', 'add_child', 'set_parent'):
        out.append(('Self ' + m, lambda m=m: Self(
            prog, ['C', 'X'], fixed={('in', C): True}, blocked=nab,
            meth=m)))
    for cls in (RemoveParent, DisableParents, MoveToRoot, EnableParents):
        n = cls.__name__
        add(n, cls, ['P', 'C'], fixed={('in', C): True}, blocked=nab)
        add(n + ' bystander', cls, ['P', 'C', 'X'], fixed={('in', C): True},
            blocked=few(('othp', C)), pend_pairs=PC + [('X', 'C')],
            pending_others=False)
        add(n + ' closed world', cls, ['P', 'C', 'X'],
            fixed={('in', C): True}, others=False)
    for cls in (DisableChildren, EnableChildren):
        n = cls.__name__
        add(n, cls, ['P', 'C'], fixed={('in', P): True},
            blocked=few(('othc', P)), pending_others=False)
        add(n + ' closed world', cls, ['P', 'C', 'X'],
            fixed={('in', P): True}, others=False)
    add('Remove', Remove, ['C', 'X'])
    add('Remove child', Remove, ['C', 'X', 'P'],
        fixed={('e', X, C): False, ('pend', X, C): False},
        pend_pairs=[('C', 'P'), ('C', 'X')],
        blocked=lambda f: nab(f) and f[1] != C)
    add('Remove closed world', Remove, ['C', 'X', 'P', 'D'], others=False,
        fixed={('in', C): True, ('in', X): True, ('in', P): True},
        pend_pairs=[('C', 'D'), ('D', 'C')])
    add('RemoveAll', RemoveAll, ['C', 'X', 'D'], others=False)
    add('RemoveAll four', RemoveAll, ['C', 'X', 'D', 'P'], others=False,
        fixed={('in', C): True, ('in', X): True, ('in', D): True},
        pend_pairs=[('X', 'D'), ('D', 'X')])
    nothing = {('e', D, Q): False, ('e', D, P): False}
    for cls in (Add, AddBelow):
        n = cls.__name__
        par = ['P'] if cls is AddBelow else []

        def pairs(names):
            all_ = [('Q', 'N'), ('N', 'D'), ('P', 'N'), ('Q', 'D')]
            return [x for x in all_ if x[0] in names and x[1] in names]

        def fx(names):
            return {k: v for k, v in nothing.items()
                    if all(x.name in names for x in k[1:])}
        for extra in (['Q'], ['D'], ['Q', 'D']):
            names = ['N'] + extra + par
            kw = dict(rel=(Q if 'Q' in names else None,
                           D if 'D' in names else None),
                      fixed=fx(names), pend_pairs=pairs(names))
            lab = n + ' with ' + ' '.join(extra)
            if tier == 'thorough' or len(names) < 4:
                add(lab + ' closed world', cls, names, others=False, **kw)
            if len(extra) == 1 and (tier == 'thorough' or cls is Add):
                add(lab, cls, names, blocked=few(),
                    **kw)
    add('Add with circular pending Q', AddCycle, ['N', 'Q'], others=False,
        rel=(Q, Q), pend_pairs=[('Q', 'N'), ('N', 'Q')])
    add('Add with circular pending Q D', AddCycle, ['N', 'Q', 'D'],
        others=False, rel=(Q, D), fixed={('e', D, Q): True},
        pend_pairs=[('Q', 'N'), ('N', 'D')])
    add('AddBelow with circular pending D', AddCycleBelow, ['N', 'P', 'D'],
        others=False, rel=(None, D), fixed={('e', D, P): True},
        pend_pairs=[('P', 'N'), ('N', 'D')])
    add('AddBelow with circular pending P', AddCycleBelow, ['N', 'P'],
        others=False, rel=(None, P), pend_pairs=[('P', 'N'), ('N', 'P')])
    for cls in (RefreshNode, Modified, RefreshAll):
        add(cls.__name__, cls, ['C', 'X'], blocked=nab)
    add('RefreshAll closed world', RefreshAll, ['C', 'X'], others=False)
    add('RefreshRoot', RefreshRoot, ['C'], blocked=nab)
    add('AddAgain', AddAgain, ['N', 'Q', 'D'], others=False, rel=(Q, D),
        fixed={('in', N): False, ('e', D, Q): False},
        pend_pairs=[('Q', 'N'), ('N', 'D')])
    add('AddBelowItself', AddBelowItself, ['N', 'D'], others=False,
        rel=(None, D), pend_pairs=[('N', 'D')])
    able = {(k, x): True for k in ('pe', 'ce') for x in (P, C, X)}
    here = {('in', x): True for x in (P, C, X)}
    nopend = dict(pend_pairs=[], pending_others=False, others=False)
    for req in Late.requests:
        for mean in Late.interim:
            fixed = {**able, **here}
            if tier != 'thorough':
                fixed[('e', P, C)] = False
            add('Late %s, %s' % (req, mean), Late, ['P', 'C', 'X'],
                req=req, mean=mean, fixed=fixed, **nopend)
    return out
