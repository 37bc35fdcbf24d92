"""Abstract semantics of lists, deques, sets and dictionaries."""
from .values import *


def exc(name, ctx, node, *args):
    return Exc(ExcObj(name, tuple(args)), ctx.where(node) if ctx else '?')


class Containers:

    # ---- primitive mutators --------------------------------------------
    def touched(self, st, a, op, elem, ctx, node, size=True):
        if size:
            for k, it in list(st.iters.items()):
                if it[0] == 'live' and it[1] == a and \
                        st.heap[a].kind in ('dict', 'set'):
                    st.iters[k] = ('live', a, it[2], it[3], it[4], it[5],
                                   True)
        self.scen.on_mut(self, st, a, op, elem, ctx, node)

    def put_mem(self, st, a, v, m, val=None, setval=False, **kw):
        c = st.heap[a]
        mem = dict(c.mem)
        mem[v] = m
        vals = c.vals
        if setval:
            vals = dict(vals)
            vals[v] = val
        elif m == 0 and v in vals:
            vals = dict(vals)
            del vals[v]
        st.heap[a] = c.with_(mem=mem, vals=vals, **kw)

    def add(self, st, a, v, ctx, node, pos=None, op='append'):
        """Add an element to a list/deque/set -> [state]"""
        c = st.heap[a]
        if c.kind == 'set':
            out = []
            for s, b in self.contains(st, a, v):
                if not b:
                    c = s.heap[a]
                    if c.exact:
                        s.heap[a] = c.with_(items=c.items + (v,))
                    else:
                        self.put_mem(s, a, v, 1)
                    self.touched(s, a, 'add', v, ctx, node)
                out.append(s)
            return out
        if c.exact:
            items = list(c.items)
            if pos is None:
                items.append(v)
            else:
                items.insert(pos, v)
            if len(items) > 60:
                st.doubt('long list')
                items = items[:60]
            st.heap[a] = c.with_(items=tuple(items))
            self.touched(st, a, op, v, ctx, node)
            return [st]
        out = []
        if v in c.mem or not anons(v):
            for s, b in self.contains(st, a, v):
                c = s.heap[a]
                m = c.mem.get(v, 0)
                if isinstance(m, FV):
                    m = 1 if b else 0
                self.put_mem(s, a, v, min(2, m + 1))
                self.touched(s, a, op, v, ctx, node)
                out.append(s)
            return out
        self.put_mem(st, a, v, 1)
        self.touched(st, a, op, v, ctx, node)
        return [st]

    def weaken(self, st, c):
        """An anonymous element was taken out of the rest."""
        if c.oth == 'some' or isinstance(c.oth, FV):
            return 'maybe'
        return c.oth

    def take(self, st, a, v, ctx, node, op='remove'):
        """Remove one occurrence of v, known to be contained -> [state]"""
        c = st.heap[a]
        if c.exact:
            items = list(c.items)
            for i, it in enumerate(items):
                k = it[0] if c.kind == 'dict' else it
                if k == v:
                    del items[i]
                    break
            else:
                # equal to an anonymous individual
                for i, it in enumerate(items):
                    k = it[0] if c.kind == 'dict' else it
                    if anons(k):
                        del items[i]
                        break
                st.doubt('removal of an individual not known by name')
            st.heap[a] = c.with_(items=tuple(items))
            self.touched(st, a, op, v, ctx, node)
            return [st]
        m = c.mem.get(v, 1)
        if anons(v):
            self.put_mem(st, a, v, 0, oth=self.weaken(st, c))
        elif m == 2:
            self.put_mem(st, a, v, 1)
        else:
            self.put_mem(st, a, v, 0)
        # a live iterator over a list skips the element after a removed one
        for k, it in list(st.iters.items()):
            if it[0] == 'live' and it[1] == a and c.kind in (
                    'list', 'deque') and isinstance(it[3], frozenset):
                visited = v in it[3] or v == it[5] or anons(v)
                if visited:
                    st.iters[k] = ('live', a, it[2], it[3], 'skip', it[5],
                                   it[6])
        self.touched(st, a, op, v, ctx, node)
        return [st]

    def clear(self, st, a, ctx, node):
        c = st.heap[a]
        st.heap[a] = Cont(c.kind, dflt=c.dflt)
        for k, it in list(st.iters.items()):
            if it[0] == 'live' and it[1] == a and c.kind in ('list', 'deque'):
                st.iters[k] = ('seq', (), 0)
        self.touched(st, a, 'clear', None, ctx, node)

    def setitem(self, st, a, k, v, ctx, node):
        """dict item assignment -> [state]"""
        out = []
        for s, b in self.contains(st, a, k):
            c = s.heap[a]
            if c.exact:
                if b:
                    items = tuple((x, v) if x == k else (x, y)
                                  for x, y in c.items)
                    if items == c.items and not any(
                            x == k for x, _ in c.items):
                        s.doubt('assignment to an anonymous key')
                else:
                    items = c.items + ((k, v),)
                s.heap[a] = c.with_(items=items)
            else:
                self.put_mem(s, a, k, 1, v, True)
            self.touched(s, a, 'setitem', k, ctx, node, size=not b)
            out.append(s)
        return out

    def lookup(self, st, a, k):
        """Value of a key known to be contained (mutates st)."""
        c = st.heap[a]
        if c.exact:
            for x, y in c.items:
                if x == k:
                    return y
            st.doubt('value of an anonymous key')
            return Top('value of an anonymous key')
        if k in c.vals:
            return c.vals[k]
        v = self.scen.lazy_value(self, st, a, k)
        c = st.heap[a]
        m = c.mem.get(k, 1)
        self.put_mem(st, a, k, m, v, True)
        return v

    # ---- drawing elements ----------------------------------------------
    def named(self, c):
        return [k for k, m in c.mem.items() if m != 0]

    def draw_anon(self, st, a, note=True):
        """A fresh anonymous element of the rest of an abstract container:
        [(state, element)]. The rest is known not to be empty."""
        c = st.heap[a]
        out = []
        shapes = c.shapes or (PLACE,)
        for i, sh in enumerate(shapes):
            s = st.copy() if i < len(shapes) - 1 else st
            e = self.instantiate(s, sh)
            c2 = s.heap[a]
            if c2.origin is not None and c2.origin[0] == 'facts':
                who = anons(e)
                for f in dict(c2.origin[1]).get(sh, ()):
                    for x in who:
                        f2 = tuple(x if y == PLACE else y for y in f)
                        s.facts[f2] = True
                h = None
            else:
                h = self.scen.hint(s, c2, e)
            if isinstance(h, FV):
                if s.facts.get(h.name) is False:
                    continue
                s.facts[h.name] = True
                self.put_mem(s, a, e, h)
            else:
                self.put_mem(s, a, e, 1)
            if not self.scen.on_draw(s, s.heap[a], e):
                continue
            if not self.scen.consistent(s.facts) or (
                    s.alts and not self.settle(s)):
                continue
            out.append((s, e))
        return out

    def instantiate(self, st, sh):
        if sh == PLACE:
            return st.fresh()
        if isinstance(sh, Tup):
            return Tup(self.instantiate(st, x) for x in sh.items)
        if isinstance(sh, PathV):
            return PathV(sh.base, tuple(
                self.instantiate(st, x) for x in sh.suffix))
        return sh

    def pick(self, st, a):
        """Any element of an abstract container, known not to be empty:
        [(state, element)]"""
        c = st.heap[a]
        out = []
        for k in self.named(c):
            for s, b in self.mem_of(st.copy(), c, k):
                if b:
                    out.append((s, k))
        for s, b in self.has_others(st, a):
            if b:
                out.extend(self.draw_anon(s, a))
        return out

    # ---- copies and algebra --------------------------------------------
    def as_cont(self, st, v, ctx, node):
        """An iterable as a (detached) Cont of its elements:
        [(state, Cont | Exc)]"""
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Cont):
                self.scen.on_read(self, st, v.a, 'iter', ctx, node)
                if o.kind == 'dict':
                    if o.exact:
                        return [(st, Cont('list', items=[
                            k for k, _ in o.items]))]
                    return [(st, o.with_(kind='list', vals={}, gen=None))]
                return [(st, o)]
            if not isinstance(o.cls, str):
                m = self.prog.find_method(o.cls, '__iter__')
                if m:
                    out = []
                    for s, r in self.call(st, Clo(m, None, v), [], {}, ctx,
                                          node):
                        if isinstance(r, Exc):
                            out.append((s, r))
                        else:
                            out.extend(self.as_cont(s, r, ctx, node))
                    return out
            return [(st, exc('TypeError', ctx, node))]
        if isinstance(v, Tup):
            return [(st, Cont('list', items=v.items))]
        if isinstance(v, View):
            if v.kind == 'iter':
                return self.as_cont(st, v.src, ctx, node)
            if v.kind == 'rev':
                out = []
                for s, c in self.as_cont(st, v.src, ctx, node):
                    if not isinstance(c, Exc) and c.exact:
                        c = c.with_(items=tuple(reversed(c.items)))
                    out.append((s, c))
                return out
            if v.kind == 'enum':
                out = []
                for s, c in self.as_cont(st, v.src, ctx, node):
                    if isinstance(c, Exc):
                        out.append((s, c))
                    elif c.exact:
                        start = v._k[2] if len(v._k) > 2 else 0
                        out.append((s, Cont('list', items=[
                            Tup((Const(start + i), x))
                            for i, x in enumerate(c.items)])))
                    else:
                        n = Num(0, None)
                        out.append((s, self.map_cont(
                            c, lambda x: Tup((n, x)))))
                return out
            if v.kind in ('keys', 'values', 'items'):
                a = v.src.a
                o = st.heap[a]
                self.scen.on_read(self, st, a, 'iter', ctx, node)
                f = {'keys': lambda k, x: k, 'values': lambda k, x: x,
                     'items': lambda k, x: Tup((k, x))}[v.kind]
                if o.exact:
                    return [(st, Cont('list', items=[
                        f(k, x) for k, x in o.items]))]
                if v.kind == 'keys':
                    return [(st, o.with_(kind='list', vals={}, gen=None))]
                mem = {}
                for k in self.named(o):
                    x = self.lookup(st, a, k)
                    mem[f(k, x)] = o.mem[k]
                # the rest: pairs/values are looked up when drawn
                return [(st, Cont(
                    'list', exact=False, mem=mem, oth=o.oth,
                    shapes=(('dict', a, v.kind),) if o.oth != 'no' else (),
                    origin=None))]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [(st, Cont('list', items=[Const(ch) for ch in v.v]))]
        if isinstance(v, PathV):
            st.doubt('elements of a path')
            return [(st, Cont('list', exact=False, oth='maybe',
                              mem={x: 1 for x in v.suffix}))]
        if isinstance(v, Opq):
            st.doubt('iteration over ' + v.tag)
            return [(st, Cont('list', exact=False, oth='maybe'))]
        return [(st, exc('TypeError', ctx, node))]

    def map_cont(self, c, f):
        mem = {}
        for k, m in c.mem.items():
            if m != 0:
                mem[f(k)] = m
        shapes = tuple(f(s) for s in (c.shapes or (PLACE,))
                       if not isinstance(s, tuple))
        return Cont('list', exact=False, mem=mem, oth=c.oth, shapes=shapes)

    def combine(self, st, op, x, y, kind='set'):
        """Set algebra -> [(state, Cont)]"""
        if x.exact and y.exact:
            pass
        X, Y = self.abstracted(x), self.abstracted(y)
        keys = list(X.mem) + [k for k in Y.mem if k not in X.mem]
        states = [(st, {})]
        for k in keys:
            nxt = []
            for s, mem in states:
                mx, my = X.mem.get(k, 0), Y.mem.get(k, 0)
                if k not in X.mem and X.oth != 'no':
                    h = self.scen.hint(s, X, k)
                    mx = h if h is not None else (
                        'u' if anons(k) else 0)
                if k not in Y.mem and Y.oth != 'no':
                    h = self.scen.hint(s, Y, k)
                    my = h if h is not None else (
                        'u' if anons(k) else 0)
                # shortcuts that need no decision
                if op == '-' and my == 0 or op == '|' and my == 0:
                    if mx != 'u':
                        m2 = dict(mem)
                        m2[k] = mx if isinstance(mx, FV) else min(1, mx)
                        nxt.append((s, m2))
                        continue
                for s1, bx in self.decide(s, mx):
                    if op in '-&' and not bx:
                        m2 = dict(mem)
                        m2[k] = 0
                        nxt.append((s1, m2))
                        continue
                    for s2, by in self.decide(s1, my):
                        r = {'-': bx and not by, '&': bx and by,
                             '|': bx or by, '^': bx != by}[op]
                        m2 = dict(mem)
                        m2[k] = 1 if r else 0
                        nxt.append((s2, m2))
            states = nxt
        if op == '-':
            oth = X.oth if X.oth == 'no' or Y.oth == 'no' else 'maybe'
            if X.origin is not None and X.origin == Y.origin and \
                    X.origin[0] != 'facts' and X.oth == Y.oth:
                oth = 'no'
        elif op == '&':
            oth = 'no' if 'no' in (X.oth, Y.oth) else 'maybe'
            if X.origin is not None and X.origin == Y.origin and \
                    X.origin[0] != 'facts':
                oth = X.oth
        else:
            oth = 'some' if 'some' in (X.oth, Y.oth) else (
                X.oth if Y.oth == 'no' else
                Y.oth if X.oth == 'no' else
                X.oth if X.oth == Y.oth else 'maybe')
        origin = X.origin if op == '-' and Y.oth == 'no' else None
        shapes = tuple(X.shapes) + tuple(
            z for z in Y.shapes if z not in X.shapes)
        out = []
        for s, mem in states:
            if X.oth == 'no' and Y.oth == 'no' and not any(
                    isinstance(m, FV) for m in mem.values()):
                out.append((s, Cont(kind, items=[
                    k for k in keys if mem[k]])))
            else:
                out.append((s, Cont(kind, exact=False, mem=mem, oth=oth,
                                    shapes=shapes, origin=origin)))
        return out

    def decide(self, st, m):
        if isinstance(m, FV):
            return self.fork(st, m.name)
        if m == 'u':
            return self.both(st)
        return [(st, m > 0)]

    def dedup_cont(self, c, kind='set'):
        if c.exact:
            items = []
            for x in c.items:
                if x not in items:
                    items.append(x)
            return Cont(kind, items=items)
        mem = {k: (m if isinstance(m, FV) else min(1, m))
               for k, m in c.mem.items()}
        return c.with_(kind=kind, mem=mem, vals={}, gen=None)

    def length(self, st, a):
        """-> [(state, value)]"""
        c = st.heap[a]
        if c.exact:
            return [(st, Const(len(c.items)))]
        out = []
        states = [(st, 0)]
        for k, m in list(c.mem.items()):
            nxt = []
            for s, n in states:
                if isinstance(m, FV):
                    for s2, b in self.fork(s, m.name):
                        nxt.append((s2, n + b))
                elif m == 2:
                    nxt.append((s, n + 1000))
                else:
                    nxt.append((s, n + m))
            states = nxt
        for s, n in states:
            for s2, b in self.has_others(s, a):
                if b:
                    out.append((s2, Num((n % 1000) + 1 + n // 1000 * 2,
                                        None, 'len')))
                elif n >= 1000:
                    out.append((s2, Num(n % 1000 + 2 * (n // 1000), None,
                                        'len')))
                else:
                    out.append((s2, Const(n)))
        return out

    # ---- iteration ------------------------------------------------------
    def start_iter(self, st, v, ctx, node):
        """-> [(state, iterator record | Exc)]"""
        if isinstance(v, View) and v.kind == 'iter':
            v = v.src
        if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont):
            c = st.heap[v.a]
            self.scen.on_read(self, st, v.a, 'iter', ctx, node)
            return [(st, ('live', v.a, 'keys' if c.kind == 'dict' else '',
                          frozenset() if not c.exact else 0, '', None,
                          False))]
        if isinstance(v, View) and v.kind in ('keys', 'values', 'items') \
                and isinstance(v.src, Ref):
            c = st.heap[v.src.a]
            self.scen.on_read(self, st, v.src.a, 'iter', ctx, node)
            return [(st, ('live', v.src.a, v.kind,
                          frozenset() if not c.exact else 0, '', None,
                          False))]
        if isinstance(v, View) and v.kind == 'rev' and \
                isinstance(v.src, Ref):
            c = st.heap[v.src.a]
            if isinstance(c, Cont) and not c.exact:
                # removal of visited elements is harmless going backwards,
                # unvisited ones disappear: keep it live, never skipping
                return [(st, ('live', v.src.a, 'rev', frozenset(), '', None,
                              False))]
        if isinstance(v, View) and v.kind == 'enum' and \
                isinstance(v.src, Ref) and \
                not st.heap[v.src.a].exact:
            return [(st, ('live', v.src.a, 'enum', frozenset(), '', None,
                          False))]
        out = []
        for s, c in self.as_cont(st, v, ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
            elif c.exact:
                out.append((s, ('seq', c.items, 0)))
            else:
                r = s.new(c.with_(kind='list'))
                out.append((s, ('live', r.a, '', frozenset(), '', None,
                                False)))
        return out

    def elem_view(self, st, a, kind, k):
        if kind == 'values':
            return self.lookup(st, a, k)
        if kind == 'items':
            return Tup((k, self.lookup(st, a, k)))
        if kind == 'enum':
            return Tup((Num(0, None), k))
        return k

    def advance(self, st, it_id, ctx, node):
        """-> [(state, element | None (end) | Exc)]"""
        it = st.iters[it_id]
        if it[0] == 'seq':
            if it[2] < len(it[1]):
                st.iters[it_id] = ('seq', it[1], it[2] + 1)
                return [(st, it[1][it[2]])]
            return [(st, None)]
        _, a, kind, pos, flag, cur, resized = it
        c = st.heap[a]
        if resized and c.kind in ('dict', 'set'):
            return [(st, exc('RuntimeError', ctx, node,
                             Const('size changed during iteration')))]
        if c.exact and isinstance(pos, int):
            if pos < len(c.items):
                x = c.items[pos]
                st.iters[it_id] = ('live', a, kind, pos + 1, flag, None,
                                   resized)
                if c.kind == 'dict':
                    return [(st, {'values': x[1],
                                  'items': Tup(x)}.get(kind, x[0]))]
                if kind == 'enum':
                    return [(st, Tup((Const(pos), x)))]
                return [(st, x)]
            return [(st, None)]
        if isinstance(pos, int):
            # became abstract while iterated
            st.doubt('list abstracted while it is iterated')
            pos = frozenset()
        if c.exact:
            c = self.to_abstract(st, a)
        out = []
        # named elements are visited in one fixed relative order (and its
        # reverse, when the scenario asks so); anonymous ones at any point
        todo = [k for k, m in c.mem.items()
                if m != 0 and k not in pos and not anons(k)]
        todo.sort(key=repr, reverse=self.scen.descending)
        states = [st]
        for k in todo:
            nxt = []
            for s in states:
                for s2, b in self.decide(s, c.mem[k]):
                    if b:
                        rem = [k] + todo[todo.index(k) + 1:]
                        out.extend(self.advance_to(s2, it_id, a, kind, pos,
                                                   flag, rem))
                    else:
                        nxt.append(s2)
            states = nxt
        for s in states:
            out.extend(self.advance_to(s, it_id, a, kind, pos, flag, []))
        return out

    def advance_to(self, st, it_id, a, kind, pos, flag, rem):
        """rem: remaining named candidates, the first is there for sure"""
        if flag != 'skip':
            return self.step(st, it_id, a, kind, pos, rem[:1])
        # one of the following elements is passed over
        out = []
        for s, b in self.has_others(st.copy(), a):
            if b:
                s.iters[it_id] = ('live', a, kind, pos, '', None, False)
                out.extend(self.step(s, it_id, a, kind, pos, rem[:1]))
            elif not rem:
                s.iters[it_id] = ('live', a, kind, pos, '', None, False)
                out.extend(self.step(s, it_id, a, kind, pos, []))
        if rem:
            pos2 = pos | {rem[0]}
            st.iters[it_id] = ('live', a, kind, pos2, '', None, False)
            out.extend(self.advance(st, it_id, None, None))
        return out

    def step(self, st, it_id, a, kind, pos, rem):
        out = []
        for k in rem:
            s = st.copy()
            s.iters[it_id] = ('live', a, kind, pos | {k}, '', k, False)
            out.append((s, self.elem_view(s, a, kind, k)))
        seen_oth = PLACE in pos
        s = st.copy()
        for s2, b in self.has_others(s, a):
            if not b:
                if not rem:
                    out.append((s2, None))
                continue
            if not rem and seen_oth:
                out.append((s2.copy(), None))
            c = s2.heap[a]
            sp = [x for x in c.shapes if isinstance(x, tuple)]
            if sp:
                out.extend(self.draw_dict_view(s2, it_id, a, pos, sp[0]))
                continue
            for s3, e in self.draw_anon(s2, a):
                s3.iters[it_id] = ('live', a, kind, pos | {PLACE}, '', e,
                                   False)
                out.append((s3, self.elem_view(s3, a, kind, e)))
        return out

    def draw_dict_view(self, st, it_id, a, pos, shape):
        """Elements of list(d.items()): keys are drawn from d itself."""
        _, da, vk = shape
        out = []
        if da not in st.heap:
            st.doubt('values of a lost dictionary')
            st.iters[it_id] = ('live', a, '', pos | {PLACE}, '', None, False)
            return [(st, Top('value'))]
        d = st.heap[da]
        if d.exact:
            self.to_abstract(st, da)
        for s, e in self.draw_anon(st, da):
            s.iters[it_id] = ('live', a, '', pos | {PLACE}, '', None, False)
            x = self.lookup(s, da, e)
            out.append((s, x if vk == 'values' else Tup((e, x))))
        return out
