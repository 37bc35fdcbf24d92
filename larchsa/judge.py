"""Judging exit states of operations on the main tree."""
from .values import *
from .world import TreeWorld
from .program import AnalysisBroken

SAME = 'same'
ANY = 'any'


class Need(Exception):
    """The value of a fact is needed to go on."""

    def __init__(self, fact):
        Exception.__init__(self, fact)
        self.fact = fact


class Finding:
    """A violation: property, rule, construct and the state that shows it"""

    def __init__(self, prop, rule, where, text, scenario, facts=()):
        self.prop = prop
        self.rule = rule
        self.where = where
        self.text = text
        self.scenario = scenario
        self.facts = facts

    @property
    def ident(self):
        return (self.prop, self.rule, self.where)

    def __repr__(self):
        return '%s [%s] %s: %s (in %s)' % (
            self.prop, self.rule, self.where, self.text, self.scenario)


def show(fact):
    kind, rest = fact[0], [getattr(x, 'name', x) for x in fact[1:]]
    words = {'in': '%s is in the tree', 'r': '%s is at top level',
             'e': '%s is a parent of %s',
             'pend': '%s -> %s is pending',
             'pe': 'parents of %s are enabled',
             'ce': 'children of %s are enabled',
             'othp': '%s has further parents',
             'othc': '%s has further children',
             'np': 'the new node waits for %s -> %s'}
    try:
        return words[kind] % tuple(rest)
    except (KeyError, TypeError):
        return '%s%r' % (kind, tuple(rest))


class Operation(TreeWorld):
    """One operation on an arbitrary tree, with its specification."""
    op = ''             # what is called, for messages
    prop = 'C24'        # the property which specifies the effects
    construct = ''      # the anchor: public method

    def start(self, eng, st):
        """-> [(state, outcome)] of the operation"""
        raise NotImplementedError

    def expect(self, item, F):
        """The membership of item after the operation."""
        return SAME

    def refused(self, F):
        """Does the operation have to be refused?"""
        return False

    def may_raise(self, F):
        """May it raise (on purpose)?"""
        return self.refused(F)

    def flags(self, F):
        """{(flag, x): expected value} for changed flags"""
        return {}

    def unimplemented(self, why):
        raise AnalysisBroken(why)

    # ---- ghosts ------------------------------------------------------------
    def ghost0(self):
        return {'snap': {}, 'added': (), 'deleted': (), 'events': (),
                'bad': ()}

    def peek(self, st, a, x):
        c = st.heap[a]
        if c.exact:
            return min(2, sum(1 for it in c.items if (
                it[0] if c.kind == 'dict' else it) == x))
        return c.mem.get(x, 0)

    def links(self, st, x):
        """What the tree says about x: {item: membership}."""
        out = {}
        pa, ch = self.a_parents(st, x), self.a_children(st, x)
        for y in self.names:
            if y != x:
                out[('p', y)] = self.peek(st, pa, y)
                out[('c', y)] = self.peek(st, ch, y)
        out[('r',)] = self.peek(st, self.a_root(st), x)
        return out

    def notified(self, eng, st, event, x, ctx, node):
        if self.building:
            return
        g = dict(st.x['ghost'])
        where = ctx.where(node)
        inn = None
        if isinstance(x, Sym) and not x.oth and x in self.node:
            inn = self.peek(st, self.a_nodes(st), x)
            if isinstance(inn, FV):
                inn = st.facts.get(inn.name)
                inn = None if inn is None else (1 if inn else 0)
            snap = dict(g['snap'])
            now = self.links(st, x)
            snap[x] = now
            if event == 'node-added':
                for y in self.names:
                    if y != x:
                        d = dict(snap.get(y) or self.links0(y))
                        d[('c', x)] = now[('p', y)]
                        d[('p', x)] = now[('c', y)]
                        if now[('c', y)] != 0:
                            d[('r',)] = self.peek(st, self.a_root(st), y)
                        snap[y] = d
            g['snap'] = snap
            bad = g['bad']
            if event == 'node-added':
                if x in g['added']:
                    bad += (('told twice that the node was added', x, where),)
                g['added'] += (x,)
                if inn == 0:
                    bad += (('told that the node was added before it is',
                             x, where),)
            elif event == 'node-deleted':
                if x in g['deleted']:
                    bad += (('told twice that the node is gone', x, where),)
                g['deleted'] += (x,)
                if inn == 1:
                    bad += (('told that the node is gone while it is there',
                             x, where),)
            g['bad'] = tuple(dict.fromkeys(bad))
        if len(g['events']) < 3:
            ev = (event, x if isinstance(x, Sym) and not x.oth else None)
            if ev not in g['events']:
                g['events'] += (ev,)
        st.x['ghost'] = g

    def links0(self, x):
        """The links of x on entry."""
        out = {}
        for y in self.names:
            if y != x:
                out[('p', y)] = self.edge(y, x)
                out[('c', y)] = self.edge(x, y)
        out[('r',)] = FV(('r', x))
        return out

    # ---- judging -------------------------------------------------------------
    def getter(self, st):
        def F(*fact):
            if fact[0] == 'e' and (
                    fact[1] == fact[2] or self.blocked(fact)):
                return False
            if fact[0] in ('othp', 'othc') and (
                    not self.others or self.blocked(fact)):
                return False
            v = st.facts.get(fact)
            if v is None:
                raise Need(fact)
            return v
        return F

    def value(self, m, F):
        if isinstance(m, FV):
            return 1 if F(*m.name) else 0
        return m

    def pairs(self):
        return [(p, c) for p in self.names for c in self.names if p != c]

    def cycle(self, p, c, F, skip=None):
        """On entry: is p below c (or c itself)?"""
        seen, work = set(), [c]
        while work:
            x = work.pop()
            if x == p:
                return True
            if x in seen:
                continue
            seen.add(x)
            for y in self.names:
                if y != x and F('e', x, y):
                    work.append(y)
        return False

    def link_ok(self, p, c, F):
        return (F('in', p) and F('in', c) and F('ce', p) and F('pe', c) and
                not self.cycle(p, c, F))

    def judge(self, eng, st, v, report):
        """Look at one exit state (and its case splits)."""
        work, n = [st], 0
        while work:
            s = work.pop()
            n += 1
            if n > 4000:
                eng.incomplete.add('case split of %s' % self.op)
                return
            try:
                problems = self.problems(s, v)
            except Need as need:
                work.extend(x for x, _ in eng.fork(s, need.fact))
                continue
            self.judged += 1
            for prop, rule, text in problems:
                report(self, s, prop, rule, text, v)

    def untouched(self, eng, st, v, report):
        """Called in another thread: the tree is as it was."""
        self.judged += 1
        if isinstance(v, Exc) and not v.explicit:
            report(self, st, 'C08', 'unexpected %s' % v.cls,
                   '%s in another thread fails with %s at %s' % (
                       self.op, v.cls, v.where), v)
            return
        if st.x['ghost']['events']:
            report(self, st, 'C08', 'listeners called in another thread',
                   '%s in another thread calls the listeners there' %
                   self.op, v)
        work = [st]
        while work:
            s = work.pop()
            F = self.getter(s)
            try:
                for x in self.names:
                    now = self.links(s, x)
                    now['in',] = self.peek(s, self.a_nodes(s), x)
                    was = self.links0(x)
                    was['in',] = FV(('in', x))
                    for k, m in now.items():
                        self.obligations += 1
                        if m != was[k] and self.value(m, F) != \
                                self.value(was[k], F):
                            report(self, s, 'C08',
                                   'tree changed in another thread',
                                   '%s in another thread changes the tree '
                                   'there (%s of %s)' % (self.op, {
                                       'p': 'the parents', 'r': 'the place',
                                       'c': 'the children',
                                       'in': 'the presence'}[k[0]], x), v)
                            return
            except Need as n:
                work.extend(y for y, _ in eng.fork(s, n.fact))

    judged = 0
    obligations = 0

    def problems(self, st, v):
        F = self.getter(st)
        out = []
        g = st.x['ghost']
        if isinstance(v, Exc):
            if not v.explicit:
                out.append((self.prop, 'unexpected %s' % v.cls,
                            '%s fails with %s at %s' % (
                                self.op, v.cls, v.where)))
                for extra in self.crash_props:
                    out.append((extra, 'unexpected %s' % v.cls,
                                '%s fails with %s at %s' % (
                                    self.op, v.cls, v.where)))
                return out
            if not self.may_raise(F):
                out.append((self.prop, 'refused',
                            '%s is refused (%s at %s) although nothing is '
                            'wrong with it' % (self.op, v.cls, v.where)))
                return out
        refused = self.refused(F)
        self.unsure = lambda x: self.others_now(st, x, F) is not False
        nodes, root, pend = (
            self.a_nodes(st), self.a_root(st), self.a_pend(st))
        fin = {}
        raw = {}
        for x in self.names:
            raw['in', x] = self.peek(st, nodes, x)
            raw['r', x] = self.peek(st, root, x)
        for p, c in self.pairs():
            raw['ch', p, c] = self.peek(st, self.a_children(st, p), c)
            raw['pa', p, c] = self.peek(st, self.a_parents(st, c), p)
            raw['pend', p, c] = self.peek(st, pend, Tup((p, c)))

        def same(kind, item):
            m = raw[(kind,) + item[1:]]
            e = item if item[0] != 'e' else None
            if e is None:
                d = self.edge(item[1], item[2])
                return m == d
            if item[0] == 'pend' and m == 0 and \
                    st.facts.get(item) is False:
                return True
            return isinstance(m, FV) and m.name == item

        def val(kind, *xs):
            return self.value(raw[(kind,) + xs], F)

        # C01: both sides agree, no duplicates, both ends exist
        changed = []
        for p, c in self.pairs():
            item = ('e', p, c)
            if same('ch', item) and same('pa', item):
                if self.still(raw, p) and self.still(raw, c):
                    self.obligations += 1
                    continue
            self.obligations += 3
            a, b = val('ch', p, c), val('pa', p, c)
            if (a > 0) != (b > 0):
                out.append((
                    'C01', 'sides disagree',
                    'after %s, %s is %s the children of %s but %s is %s the '
                    'parents of %s' % (
                        self.op, c, 'among' if a else 'not among', p,
                        p, 'among' if b else 'not among', c)))
            if a > 1 or b > 1:
                out.append((
                    'C01', 'duplicate link',
                    'after %s, %s is linked twice below %s' % (
                        self.op, c, p)))
            if a or b:
                for x in (p, c):
                    if not val('in', x):
                        out.append((
                            'C01', 'dangling link',
                            'after %s, %s -> %s is a link although %s is '
                            'not in the tree' % (self.op, p, c, x)))
                if a and b and not F(*item):
                    changed.append((p, c))
        # C02: no cycle through a new link
        for p, c in changed:
            self.obligations += 1
            seen, work = set(), [c]
            while work:
                x = work.pop()
                if x == p:
                    out.append((
                        'C02', 'cycle',
                        '%s creates the link %s -> %s although %s is '
                        'below %s' % (self.op, p, c, p, c)))
                    break
                if x in seen:
                    continue
                seen.add(x)
                work.extend(y for y in self.names
                            if y != x and val('ch', x, y))
        # C03: at top level exactly if in the tree without parents
        for x in self.names:
            unch = (same('r', ('r', x)) and self.still(raw, x) and
                    all(same('pa', ('e', p, x)) for p in self.names
                        if p != x) and self.oth_same(st, x))
            self.obligations += 1
            if unch:
                continue
            r, inn = val('r', x), val('in', x)
            if r > 1:
                out.append(('C03', 'duplicate at top level',
                            'after %s, %s is twice at top level' % (
                                self.op, x)))
            has = any(val('pa', p, x) for p in self.names if p != x)
            if not has:
                has = self.others_now(st, x, F)
            if r and not inn:
                out.append(('C03', 'removed node at top level',
                            'after %s, %s is at top level although it is '
                            'not in the tree' % (self.op, x)))
            elif r and has:
                out.append(('C03', 'child at top level',
                            'after %s, %s is at top level although it has '
                            'a parent' % (self.op, x)))
            elif inn and not r and has is False:
                out.append(('C03', 'lost node',
                            'after %s, %s is in the tree but neither at '
                            'top level nor below a parent' % (self.op, x)))
        # the specified effect
        for x in self.names:
            for kind in ('in', 'r'):
                self.effect(out, (kind, x), same, val, kind, F, refused)
        for p, c in self.pairs():
            self.effect(out, ('e', p, c), same, val, 'ch', F, refused)
            self.effect(out, ('pend', p, c), same, val, 'pend', F, refused)
        for (flag, x), want in self.flags(F).items():
            self.obligations += 1
            have = self.flag_now(st, flag, x, F)
            if have is not None and have != want:
                out.append(('C22', 'flag',
                            'after %s, %s' % (
                                self.op, 'it is not the case that ' if want
                                else 'it is still the case that ') +
                            show((flag, x))))
        # C07: events
        for rule, x, where in g['bad']:
            out.append(('C07', rule, '%s: %s about %s at %s' % (
                self.op, rule, x, where)))
        if refused and g['events']:
            out.append(('C06', 'event of a refused operation',
                        '%s is refused but listeners are told %s' % (
                            self.op, g['events'][0][0])))
        for x in self.names:
            self.obligations += 1
            was, now = FV(('in', x)), raw['in', x]
            if now != was:
                was, now = F('in', x), self.value(now, F)
                if now and not was and x not in g['added']:
                    out.append(('C07', 'not told about a new node',
                                '%s adds %s without telling' % (self.op, x)))
                if was and not now and x not in g['deleted']:
                    out.append(('C07', 'not told about a removed node',
                                '%s removes %s without telling' % (
                                    self.op, x)))
                if was and now and x in g['added']:
                    out.append(('C07', 'told about a node already there',
                                '%s tells again that %s was added' % (
                                    self.op, x)))
                now_in = bool(now)
            else:
                now_in = None
            if now == was and isinstance(now, FV):
                if x in g['added'] or x in g['deleted']:
                    out.append((
                        'C07', 'wrong event', '%s tells that %s was added '
                        'or removed, which did not happen' % (self.op, x)))
            base = g['snap'].get(x) or self.links0(x)
            for k, m in self.links(st, x).items():
                if m == base.get(k):
                    continue
                if self.value(m, F) == self.value(base.get(k, 0), F):
                    continue
                if now_in is None:
                    now_in = bool(self.value(raw['in', x], F))
                if not now_in:
                    break
                what = {'p': 'the parents', 'c': 'the children',
                        'r': 'the place at top level'}[k[0]]
                out.append(('C07', 'not told about changed links',
                            '%s changes %s of %s and does not tell about '
                            'it afterwards' % (self.op, what, x)))
                break
        return out + self.more(st, v, F)

    def more(self, st, v, F):
        return []

    crash_props = ()

    def still(self, raw, x):
        m = raw['in', x]
        return isinstance(m, FV) and m.name == ('in', x)

    def effect(self, out, item, same, val, kind, F, refused):
        self.obligations += 1
        if refused:
            if same(kind, item):
                return
            if bool(val(kind, *item[1:])) != F(*item):
                out.append(('C06', 'refused operation has an effect',
                            'the refused %s changes whether %s' % (
                                self.op, show(item))))
            return
        e = self.expect(item, F)
        if e == ANY:
            return
        if e == SAME:
            if same(kind, item):
                return
            e = F(*item)
        have = bool(val(kind, *item[1:]))
        if have == e:
            return
        if item[0] == 'r' and e and self.unsure(item[1]):
            return          # whether it has parents is not known: see C03
        for prop in self.props_of(item, e):
            out.append((prop, 'wrong effect', '%s: %s be true afterwards '
                        'that %s' % (self.op, 'it should' if e else
                                     'it should not', show(item))))

    def props_of(self, item, e):
        return (self.prop,)

    def flag_now(self, st, flag, x, F):
        f = {'pe': 'parents_enabled', 'ce': 'children_enabled'}[flag]
        v = st.heap[self.obj(st, x).a].fields.get(f)
        if isinstance(v, FB):
            return F(*v.name)
        if isinstance(v, Const):
            return bool(v.v)
        return None

    def oth_same(self, st, x):
        c = st.heap[self.a_parents(st, x)]
        return not c.exact and c.oth == self.others_of('othp', x)

    def others_now(self, st, x, F):
        c = st.heap[self.a_parents(st, x)]
        if c.exact:
            return any(it not in self.names for it in c.items)
        if any(m in (1, 2) and k not in self.names
               for k, m in c.mem.items()):
            return True
        if c.oth == 'no':
            return False
        if c.oth == 'some':
            return True
        if isinstance(c.oth, FV):
            return F(*c.oth.name)
        return None
