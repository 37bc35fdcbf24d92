"""Facts, comparisons, truth, canonical forms: the abstract domain."""
from .values import *

TRUNC = 6


class Scenario:
    """What surrounds the analysed code. Subclassed by the checks."""
    thread = 'origin'
    descending = False

    def consistent(self, facts):
        return True

    lasting = ()        # kinds of facts kept of absorbed elements

    def hint(self, st, cont, elem):
        """Membership of elem in cont: 0, 1, FV or None (unknown)."""
        return None

    def on_draw(self, st, cont, elem):
        """elem (fresh, anonymous) was drawn from cont. False: infeasible"""
        return True

    def lazy_value(self, eng, st, addr, key):
        return Top('value of an anonymous key')

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        return [(st, NONE)]

    def lib_call(self, eng, st, name, args, kw, ctx, node):
        return None

    def lib_attr(self, eng, st, name):
        return None

    def ext_method(self, eng, st, obj, name, args, kw, ctx, node):
        return None

    def sym_method(self, eng, st, sym, name, args, kw, ctx, node):
        return None

    max_recursion = 5

    def on_recursion(self, eng, st, fi, bound, args, kw, ctx, node):
        return None

    def intercept(self, eng, st, fi, bound, args, kw, ctx, node):
        return None

    def on_return(self, eng, st, fi, bound, args, value):
        return

    def on_mut(self, eng, st, addr, op, elem, ctx, node):
        return

    def on_setattr(self, eng, st, ref, name, value, ctx, node):
        return

    def on_read(self, eng, st, addr, op, ctx, node):
        return

    def on_lock(self, eng, st, addr, op, ctx, node):
        return

    def switch(self, eng, st, point, ctx, node):
        """Another thread may run here -> [state]"""
        return [st]


PLAIN = {}


def plain_fact(n):
    r = PLAIN.get(n)
    if r is None:
        if len(PLAIN) > 200000:
            PLAIN.clear()
        r = PLAIN[n] = isplain(n)
    return r


class Core:
    """Operations on the abstract domain that need the scenario."""

    def fork(self, st, name):
        """-> [(state, truth)] of a fact."""
        v = st.facts.get(name)
        if v is not None:
            return [(st, v)]
        out = []
        other = st.copy()
        for s, val in ((other, True), (st, False)):
            s.facts[name] = val
            if self.scen.consistent(s.facts) and (
                    not s.alts or self.settle(s)):
                out.append((s, val))
        if not out:
            self.stats['infeasible'] += 1
        self.stats['forks'] += 1
        return out

    def settle(self, st):
        """Keep the alternatives (left by joins) that are still possible."""
        again = True
        while again:
            again = False
            groups = []
            for g in st.alts:
                left = set()
                for alt in g:
                    rest = []
                    for n, v in alt:
                        w = st.facts.get(n)
                        if w is None:
                            rest.append((n, v))
                        elif w is not v:
                            break
                    else:
                        left.add(frozenset(rest))
                if not left:
                    return False
                if frozenset() in left:
                    continue
                if len(left) == 1:
                    for n, v in left.pop():
                        st.facts[n] = v
                    if not self.scen.consistent(st.facts):
                        return False
                    again = True
                    continue
                groups.append(frozenset(left))
            st.alts = tuple(groups)
        return True

    @staticmethod
    def reduce_alts(alts):
        """A smaller equivalent set of alternatives."""
        alts = set(alts)
        if len(alts) > 400:
            return alts
        again = True
        while again:
            again = False
            for a in list(alts):
                if a not in alts:
                    continue
                for n, v in a:
                    b = a ^ {(n, v), (n, not v)}
                    if b in alts:
                        alts -= {a, b}
                        alts.add(a - {(n, v)})
                        again = True
                        break
        small = sorted(alts, key=len)
        out = []
        for a in small:
            if not any(b <= a for b in out):
                out.append(a)
        return set(out)

    def both(self, st, why=None):
        s2 = st.copy()
        if why:
            st.doubt(why)
            s2.doubt(why)
        return [(s2, True), (st, False)]

    # ---- equality -------------------------------------------------------
    def eq(self, st, a, b):
        """-> [(state, bool)]"""
        if a == b and not isinstance(a, (Opq, Num)):
            return [(st, True)]
        if isinstance(a, FB) or isinstance(b, FB):
            if not isinstance(a, FB):
                a, b = b, a
            out = []
            for s, v in self.fork(st, a.name):
                out.extend(self.eq(s, mkbool(v), b))
            return out
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, bool(a.v == b.v))]
            except Exception:
                return [(st, False)]
        if isinstance(a, Num) or isinstance(b, Num):
            if not isinstance(a, Num):
                a, b = b, a
            if isinstance(b, Const) and isinstance(b.v, int):
                if (a.lo is not None and b.v < a.lo) or \
                        (a.hi is not None and b.v > a.hi):
                    return [(st, False)]
                return self.both(st, 'comparison of unknown numbers')
            if isinstance(b, (Num, Opq)) or (
                    isinstance(b, Sym) and b.isint):
                return self.both(st, 'comparison of unknown numbers')
            return [(st, False)]
        if isinstance(a, Opq) or isinstance(b, Opq):
            if not isinstance(a, Opq):
                a, b = b, a
            if a.tag == 'str' and (
                    isinstance(b, (Ref, Tup)) or b == NONE):
                return [(st, False)]
            return self.both(st, 'comparison of an untracked value')
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.oth and b.oth:
                if a.isint or b.isint:
                    return self.both(st)
                r = self.same_anon(st, a, b)
                if r is not None:
                    return [(st, r)]
                return self.both(st)
            return [(st, False)]
        if isinstance(a, Sym) and isinstance(b, Const):
            if a.isint and isinstance(b.v, int):
                return self.both(st)
            return [(st, False)]
        if isinstance(b, Sym) and isinstance(a, Const):
            return self.eq(st, b, a)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, False)]
            return self.eq_seq(st, a.items, b.items)
        if isinstance(a, PathV) or isinstance(b, PathV):
            if not isinstance(a, PathV):
                a, b = b, a
            if isinstance(b, PathV):
                if a.suffix and b.suffix and \
                        isinstance(a.suffix[-1], Sym) and \
                        isinstance(b.suffix[-1], Sym) and \
                        not (a.suffix[-1].oth and b.suffix[-1].oth) and \
                        a.suffix[-1] != b.suffix[-1]:
                    return [(st, False)]
                return self.both(st, 'comparison of paths')
            if isinstance(b, Tup):
                if len(b.items) < len(a.suffix):
                    return [(st, False)]
                return self.both(st, 'comparison of paths')
            return [(st, False)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.heap[a.a], st.heap[b.a]
            if isinstance(x, Cont) and isinstance(y, Cont):
                return self.eq_cont(st, a, x, b, y)
            if isinstance(x, Inst) and not isinstance(x.cls, str) and \
                    self.prog.find_method(x.cls, '__eq__'):
                return self.both(st, '__eq__ is defined')
            return [(st, False)]
        return [(st, False)]

    def same_anon(self, st, a, b):
        """Are two different anonymous individuals known to be different?"""
        d = st.x.get('distinct', ())
        if frozenset((a, b)) in d:
            return False
        return None

    def eq_seq(self, st, xs, ys):
        states = [st]
        out = []
        for x, y in zip(xs, ys):
            nxt = []
            for s in states:
                for s2, r in self.eq(s, x, y):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            states = nxt
        out.extend((s, True) for s in states)
        return out

    def eq_cont(self, st, ra, x, rb, y):
        lists = ('list',)
        if (x.kind in lists) != (y.kind in lists) or \
                (x.kind == 'dict') != (y.kind == 'dict'):
            return [(st, False)]
        if x.exact and y.exact and not x.items or \
                y.exact and not y.items:
            r = ra if not (x.exact and not x.items) else rb
            return [(s, not b) for s, b in self.nonempty(st, r.a)]
        if x.exact and not x.items:
            return [(s, not b) for s, b in self.nonempty(st, rb.a)]
        if x.exact and y.exact and x.kind in ('list', 'deque'):
            if len(x.items) != len(y.items):
                return [(st, False)]
            return self.eq_seq(st, x.items, y.items)
        # compare as sets of the named elements
        ex, ey = self.abstracted(x), self.abstracted(y)
        keys = [k for k in list(ex.mem) + [
            k for k in ey.mem if k not in ex.mem]]
        states = [(st, ex.mem, ey.mem)]
        out = []
        for k in keys:
            nxt = []
            for s, mx, my in states:
                for s1, bx in self.mem_of(s, ex, k):
                    for s2, by in self.mem_of(s1, ey, k):
                        if bx != by:
                            out.append((s2, False))
                        else:
                            nxt.append((s2, mx, my))
            states = nxt
        for s, _, _ in states:
            if ex.oth == 'no' and ey.oth == 'no':
                if x.kind == 'list' and len(keys) > 1 and \
                        not (x.exact and y.exact):
                    out.extend(self.both(s, 'comparison of lists'))
                else:
                    out.append((s, True))
            elif x.kind != 'list' and ex.oth == ey.oth and \
                    ex.origin is not None and ex.origin == ey.origin and \
                    ex.origin[0] != 'facts':
                out.append((s, True))
            else:
                out.extend(self.both(s, 'comparison of containers'))
        return out

    def mem_of(self, st, c, k):
        """Membership of a *named* key of an abstract container."""
        m = c.mem.get(k, 0)
        if isinstance(m, FV):
            return self.fork(st, m.name)
        return [(st, m > 0)]

    # ---- truth ----------------------------------------------------------
    def truth(self, st, v):
        """-> [(state, bool)]"""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, FB):
            return self.fork(st, v.name)
        if isinstance(v, Sym):
            if v.isint:
                return self.both(st)
            return [(st, True)]
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, PathV):
            if v.suffix:
                return [(st, True)]
            return self.both(st, 'truth of a path')
        if isinstance(v, Num):
            if (v.lo is not None and v.lo > 0) or \
                    (v.hi is not None and v.hi < 0):
                return [(st, True)]
            return self.both(st, 'truth of an unknown number')
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Cont):
                return self.nonempty(st, v.a)
            if not isinstance(o.cls, str):
                for m in ('__bool__', '__len__'):
                    if self.prog.find_method(o.cls, m):
                        return self.both(st, '%s is defined' % m)
            return [(st, True)]
        if isinstance(v, View):
            if v.kind in ('keys', 'values', 'items', 'rev') and \
                    isinstance(v.src, Ref):
                if v.kind == 'rev':
                    return [(st, True)]
                return self.nonempty(st, v.src.a)
            return self.both(st, 'truth of an iterator')
        if isinstance(v, Opq):
            if v.tag == 'str' or v.tag.startswith('val:'):
                return self.both(st)
            return self.both(st, 'branch on ' + v.tag)
        return [(st, True)]

    def nonempty(self, st, a):
        """-> [(state, bool)]"""
        c = st.heap[a]
        if c.exact:
            return [(st, bool(c.items))]
        if any(m in (1, 2) for m in c.mem.values()):
            return [(st, True)]
        out = []
        states = [st]
        for k, m in list(c.mem.items()):
            if isinstance(m, FV):
                nxt = []
                for s in states:
                    for s2, b in self.fork(s, m.name):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                states = nxt
        for s in states:
            for s2, b in self.has_others(s, a):
                out.append((s2, b))
        return out

    def has_others(self, st, a):
        c = st.heap[a]
        if c.exact or c.oth == 'no':
            return [(st, False)]
        if c.oth == 'some':
            return [(st, True)]
        if isinstance(c.oth, FV):
            return self.fork(st, c.oth.name)
        s2 = st.copy()
        s2.heap[a] = c.with_(oth='some')
        st.heap[a] = c.with_(oth='no')
        return [(s2, True), (st, False)]

    def contains(self, st, a, v):
        """-> [(state, bool)]: is v an element (a key) of container a?"""
        c = st.heap[a]
        if c.exact:
            out = []
            states = [st]
            for it in c.items:
                k = it[0] if c.kind == 'dict' else it
                nxt = []
                for s in states:
                    for s2, r in self.eq(s, k, v):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                states = nxt
                if not states:
                    break
            out.extend((s, False) for s in states)
            return out
        if v in c.mem:
            m = c.mem[v]
            if isinstance(m, FV):
                return self.fork(st, m.name)
            return [(st, m > 0)]
        if isinstance(v, (Opq, Num)):
            return self.both(st, 'membership of an untracked value')
        if isinstance(v, Const) and not isinstance(v.v, (str, int)):
            return [(st, False)]
        if isinstance(v, FB):
            out = []
            for s, b in self.fork(st, v.name):
                out.extend(self.contains(s, a, mkbool(b)))
            return out
        h = self.scen.hint(st, c, v)
        if isinstance(h, FV):
            c2 = c.with_(mem=dict(c.mem))
            c2.mem[v] = h
            st.heap[a] = c2
            return self.fork(st, h.name)
        if h is not None:
            return [(st, bool(h))]
        if c.oth == 'no':
            # an unnamed individual may be one of the anonymous ones we know
            return [(st, False)]
        if not anons(v) and not isinstance(v, Const):
            return [(st, False)]
        out = []
        for s, b in self.has_others(st, a):
            if not b:
                out.append((s, False))
                continue
            for val in (True, False):
                s2 = s.copy() if val else s
                c3 = s2.heap[a]
                c3 = c3.with_(mem=dict(c3.mem))
                c3.mem[v] = 1 if val else 0
                s2.heap[a] = c3
                out.append((s2, val))
        return out

    def abstracted(self, c):
        """The abstract form of an exact container."""
        if not c.exact:
            return c
        mem, vals, oth, shapes = {}, {}, 'no', []
        for it in c.items:
            k, v = (it if c.kind == 'dict' else (it, None))
            if c.kind in ('dict', 'set'):
                mem[k] = 1
            else:
                mem[k] = min(2, mem.get(k, 0) + 1)
            if c.kind == 'dict':
                vals[k] = v
        return c.with_(exact=False, items=(), mem=mem, vals=vals, oth=oth,
                       shapes=tuple(shapes))

    def to_abstract(self, st, a):
        c = st.heap[a]
        if c.exact:
            st.heap[a] = self.abstracted(c)
        return st.heap[a]

    # ---- canonical forms ------------------------------------------------
    def reach(self, st, through_cont=True):
        """Addresses and frames reachable from the active frames/roots."""
        seen, seenf = set(), set()
        work = list(st.roots)
        heap, base = st.heap, self.base
        for a, o in base.items():
            o2 = heap.get(a)
            if o2 is not o and o2 is not None:
                work.extend(o2.links)
        seen.update(base)
        for fid in st.x.get('active', ()) + self.base_frames:
            work.append(('f', fid))
        for it in st.iters.values():
            refs(it, work)
            if it[0] == 'live':
                work.append(it[1])
        for v in st.x.get('keep', ()) + st.x.get('tmp', ()):
            refs(v, work)
        for v in st.defaults.values():
            refs(v, work)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                if x[1] in seenf or x[1] not in st.frames:
                    continue
                seenf.add(x[1])
                for k, v in st.frames[x[1]].items():
                    if k == '$parent':
                        if v is not None:
                            work.append(('f', v))
                    else:
                        refs(v, work)
                continue
            if x in seen or x not in st.heap:
                continue
            seen.add(x)
            work.extend(st.heap[x].links)
        return seen, seenf

    def live_anons(self, st):
        live = set()
        seen, seenf = set(), set()
        work = [('f', fid) for fid in st.x.get('active', ()) +
                self.base_frames]
        for v in st.x.get('keep', ()) + st.x.get('tmp', ()):
            anons(v, live)
            refs(v, work)
        for it in st.iters.values():
            for x in it[2:]:
                if isinstance(x, (V, tuple)):
                    anons(x, live)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                if x[1] in seenf or x[1] not in st.frames:
                    continue
                seenf.add(x[1])
                for k, v in st.frames[x[1]].items():
                    if k == '$parent':
                        if v is not None:
                            work.append(('f', v))
                        continue
                    anons(v, live)
                    refs(v, work)
                continue
            if x in seen or x not in st.heap:
                continue
            seen.add(x)
            o = st.heap[x]
            if isinstance(o, Inst) and not (
                    o.tag and o.tag[0] == 'main'):
                for v in o.fields.values():
                    anons(v, live)
                    if o.tag is None:
                        refs(v, work)
        live.update(v for v in st.x.get('pinned', ()))
        return live

    base = {}       # the objects of the entry state
    base_frames = ()    # and the variables captured by its functions

    def set_base(self, st):
        """From now on the objects of st are there in all states."""
        BASE[0] = st.na
        self.base = dict(st.heap)
        self.base_frames = tuple(sorted(
            f for f, vs in st.frames.items() if '$captured' in vs))

    def norm(self, st):
        """Drop garbage, forget dead anonymous individuals."""
        seen, seenf = self.reach(st)
        if len(st.heap) > len(seen) or any(
                a not in seen for a in st.heap):
            for a in [a for a in st.heap if a not in seen]:
                del st.heap[a]
        act = st.x.get('active', ())
        for f in [f for f in st.frames if f not in seenf and f not in act]:
            del st.frames[f]
        live = self.live_anons(st)
        iterated = {it[1] for it in st.iters.values() if it[0] == 'live'}
        for a in list(st.heap):
            c = st.heap[a]
            if not isinstance(c, Cont):
                continue
            if c.exact:
                dead = c.anon_keys - live
                if (dead or len(c.items) > TRUNC) and a not in iterated:
                    c = self.abstracted(c)
                elif dead or len(c.items) > TRUNC:
                    st.doubt('list grows while it is iterated')
                    continue
                else:
                    continue
            if c.anon_keys - live:
                st.heap[a] = self.absorb(st, c, live)
        dead = set()
        for n in st.facts:
            if not plain_fact(n):
                anons(n, dead)
        dead -= live
        if dead:
            for n in [n for n in st.facts
                      if not isplain(n) and anons(n) & dead]:
                del st.facts[n]
        d = st.x.get('distinct')
        if d:
            st.x['distinct'] = frozenset(
                p for p in d if all(q in live or not q.oth for q in p))
        self.scen_forget(st, live)

    def scen_forget(self, st, live):
        f = getattr(self.scen, 'forget', None)
        if f:
            f(st, live)

    def facts_of(self, st, k, dead):
        """What is known of an element which is about to be absorbed."""
        if len(dead) != 1:
            return frozenset()
        x, = dead
        out = []
        for f, v in st.facts.items():
            if v is True and f[0] in self.scen.lasting and x in f:
                f2 = tuple(PLACE if y == x else y for y in f)
                if isplain(f2):
                    out.append(f2)
        return frozenset(out)

    def absorb(self, st, c, live):
        mem, vals = {}, {}
        oth, shapes = c.oth, list(c.shapes)
        origin = c.origin
        known = None        # what is known of the rest: {shape: facts}
        if origin is not None and origin[0] == 'facts':
            known = dict(origin[1])
        elif origin is None and oth == 'no':
            known = {}
        changed = False
        for k, m in c.mem.items():
            dead = anons(k) - live
            if not dead:
                mem[k] = m
                if k in c.vals:
                    vals[k] = c.vals[k]
                continue
            changed = True
            if isinstance(m, FV):
                m2 = st.facts.get(m.name)
                if m2 is not None:
                    m = 1 if m2 else 0
            if m == 0:
                continue
            h = self.scen.hint(st, c, k)
            by_origin = isinstance(h, FV) and st.facts.get(h.name) is True
            if m in (1, 2):
                if isinstance(oth, FV) and st.facts.get(oth.name) is True:
                    pass
                elif oth != 'some':
                    oth = 'some'
                if not by_origin:
                    origin = None
            else:
                if oth == 'no' or (isinstance(oth, FV) and
                                   st.facts.get(oth.name) is not True):
                    oth = 'maybe'
            sh = template(k, dead)
            if known is not None:
                fs = self.facts_of(st, k, dead)
                if sh in known:
                    fs &= known[sh]
                known[sh] = fs
            if sh not in shapes:
                shapes.append(sh)
                shapes.sort(key=repr)
        if not changed:
            return c
        if known is not None:
            origin = ('facts', tuple(sorted(
                ((sh, fs) for sh, fs in known.items() if fs),
                key=repr))) if any(known.values()) else None
        return c.with_(mem=mem, vals=vals, oth=oth, shapes=tuple(shapes),
                       origin=origin)

    def key(self, st, extra=()):
        """A canonical, hashable description of the state."""
        amap, imap, fmap = {}, {}, {}
        order = []
        forder = []

        def addr(a):
            if a <= BASE[0]:
                return -a
            if a not in amap:
                amap[a] = len(amap)
                order.append(a)
            return amap[a]

        def ind(s):
            if not s.oth or s.name == '~':
                return s.name
            if s not in imap:
                imap[s] = '~%s%d' % ('i' if s.isint else '', len(imap))
            return imap[s]

        def frame(f):
            if f not in fmap:
                fmap[f] = len(fmap)
                forder.append(f)
            return fmap[f]

        def val(v):
            if isinstance(v, V):
                if v.plain:
                    return v
                if isinstance(v, Sym):
                    return ind(v)
                if isinstance(v, Ref):
                    return ('@', addr(v.a))
                if isinstance(v, Clo):
                    return ('clo', v.fi, None if v.fid is None else
                            frame(v.fid), None if v.bound is None
                            else val(v.bound))
                return (v.__class__.__name__,) + tuple(
                    [val(x) for x in v._k])
            if isinstance(v, FV):
                return v if v.plain else ('FV', val(v.name))
            if isinstance(v, tuple):
                return v if isplain(v) else tuple([val(x) for x in v])
            if isinstance(v, frozenset):
                if isplain(v):
                    return v
                return frozenset([val(x) for x in sorted(v, key=repr)])
            if isinstance(v, dict):
                return ('d', frozenset(
                    [(val(k), val(x)) for k, x in v.items()]))
            try:
                hash(v)
                return v
            except TypeError:
                return repr(v)

        parts = []
        base = self.base
        heap = st.heap
        lim = BASE[0]
        for a, o in base.items():
            o2 = heap.get(a)
            if o2 is not o and (o2 is None or o2.ck != o.ck):
                order.append(a)
        for r in st.roots:
            if r > lim:
                addr(r)
        for fid in st.x.get('active', ()) + self.base_frames:
            frame(fid)
        for k, it in sorted(st.iters.items(), key=lambda p: repr(p[0])):
            if it[0] == 'live':
                parts.append((k, 'live', addr(it[1])) + tuple(
                    val(x) for x in it[2:]))
            else:
                parts.append((k,) + tuple(val(x) for x in it))
        i = j = 0
        late = []
        while i < len(order) or j < len(forder):
            if j < len(forder):
                f = st.frames.get(forder[j])
                j += 1
                if f is None:
                    continue
                parts.append(tuple(
                    (k, val(f[k]) if k != '$parent' else
                     (None if f[k] is None else frame(f[k])))
                    for k in sorted(f)))
                continue
            a = order[i]
            i += 1
            if a <= lim:
                parts.append(a)
            o = st.heap.get(a)
            if o is None:
                parts.append('gone')
            elif isinstance(o, Inst):
                p, rest = o.ck
                parts.append(p)
                for k, v in rest:
                    parts.append((k, val(v)))
            elif o.exact:
                p, rest = o.ck
                parts.append(p)
                if rest is not None:
                    parts.append(tuple([val(x) for x in rest]))
            else:
                p, rest = o.ck
                parts.append(p)
                mem, vals = rest[0], rest[1]
                if mem:
                    late.append(mem)
                if vals:
                    parts.append(tuple([(val(k), val(v)) for k, v in vals]))
                for x in rest[2:]:
                    parts.append(val(x))
        for mem in late:
            parts.append(frozenset([(val(k), val(m)) for k, m in mem]))
        fp, fa = [], []
        for it in st.facts.items():
            (fp if plain_fact(it[0]) else fa).append(it)
        parts.append(frozenset(fp))
        if fa:
            parts.append(frozenset([(val(k), v) for k, v in fa]))
        if st.alts:
            parts.append(frozenset(st.alts))
        parts.append(val(st.trace))
        parts.append(bool(st.imp))
        parts.append(st.stack)
        xs = {k: v for k, v in st.x.items()
              if k not in ('active', 'witness', 'pinned')}
        parts.append(val(xs))
        parts.append(val(tuple(extra)))
        return tuple(parts)

    def dedupe(self, outs, floor=12):
        """outs: list of tuples whose first element is a state."""
        if len(outs) < floor:
            return outs
        seen, res = {}, []
        for o in outs:
            v = o[-1] if len(o) == 2 else o[1:]
            if isinstance(v, Exc):
                v = ('exc', v.obj, v.where)
            elif isinstance(v, tuple):
                v = tuple(('exc', x.obj, x.where) if isinstance(x, Exc)
                          else x for x in v)
            k = self.key(o[0], (v,))
            if k in seen:
                self.stats['merged'] += 1
                continue
            seen[k] = True
            res.append(o)
        return res
