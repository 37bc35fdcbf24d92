"""The GTK model: a most general view tells it about rows which come, change
and go; after each event the rows of the store are compared with those of
the view.

The store is what Gtk.TreeStore documents: rows in some order (any order, if
it is sorted), found through iterators. An iterator is a pointer to a row; it
may outlive its row, and a later row may get the memory of a freed one.
Nodes, their identifiers and the functions of the columns are opaque."""
from .values import *
from .conts import exc
from .core import Scenario
from .interp import Ctx, Budget, Engine
from .program import AnalysisBroken

MODEL = ('liblarch_gtk.treemodel', 'TreeModel')
FNS = ('K:one', 'K:two')        # functions of the columns 1 and 2


def P(*names):
    return tuple(Sym(n) for n in names)


def show_path(p):
    return '/' + '/'.join(x.name for x in p)


class Store(Scenario):
    """Gtk.TreeStore, for the object self.model."""
    ordered = True      # not sorted: rows stay where they are put
    sort_column = 1
    model = None
    where_store = 'TreeModel'

    def __init__(self, prog, res):
        self.prog = prog
        self.res = res

    # ---- iterators -----------------------------------------------------------
    def rows(self, st):
        return st.x['rows']

    def row(self, st, p):
        for r in st.x['rows']:
            if r[0] == p:
                return r
        return None

    def new_iter(self, st, p):
        return st.new(Inst('ext:TreeIter', {'ptr': Const(p)}))

    def set_iter(self, st, it, p):
        st.heap[it.a] = Inst('ext:TreeIter', {
            'ptr': NONE if p is None else Const(p)})

    def is_iter(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap[v.a], Inst) and \
            st.heap[v.a].cls == 'ext:TreeIter'

    def ptr(self, eng, st, it, ctx, node, what):
        """-> ('ok', ptr) | ('none',) | ('bad', outcome)"""
        if it == NONE:
            return ('none',)
        if not self.is_iter(st, it):
            if isinstance(it, (Sym, Const, Tup)):
                return ('bad', [(st, exc('TypeError', ctx, node))])
            st.doubt('an iterator is not tracked')
            return ('bad', [(st, Top('iterator'))])
        p = st.heap[it.a].fields['ptr']
        if p == NONE:
            return ('dead',)
        if self.row(st, p.v) is None:
            self.bad(st, 'iterator of a removed row is used',
                     ctx.where(node), '%s is called with an iterator whose '
                     'row was removed' % what)
            return ('bad', [(st, NONE)])
        return ('ok', p.v)

    def children(self, st, p):
        return [r for r in st.x['rows'] if r[1] == p]

    # ---- the methods of the store ----------------------------------------------
    def ext_method(self, eng, st, obj, name, args, kw, ctx, node):
        if not isinstance(obj, Ref):
            return None
        o = st.heap[obj.a]
        if isinstance(o, Inst) and o.cls == 'ext:TreeIter':
            if name == 'copy':
                return [(st, st.new(o))]
            return None
        if self.is_model(st, obj):
            m = getattr(self, 's_' + name, None)
            if m is None:
                return None
            if kw:
                order = {'insert': ('parent', 'position', 'row'),
                         'append': ('parent', 'row'),
                         'prepend': ('parent', 'row')}.get(name, ())
                args = list(args) + [kw[k] for k in order if k in kw]
            return m(eng, st, list(args), ctx, node)
        return self.other_method(eng, st, obj, o, name, args, kw, ctx, node)

    def other_method(self, eng, st, obj, o, name, args, kw, ctx, node):
        return None

    def is_model(self, st, obj):
        o = st.heap[obj.a]
        return isinstance(o, Inst) and not isinstance(o.cls, str) and \
            (o.cls.module.name, o.cls.name) == MODEL

    def s___init__(self, eng, st, args, ctx, node):
        st.x['ncols'] = len(args)
        return [(st, NONE)]

    def s_iter_is_valid(self, eng, st, args, ctx, node):
        it = args[0] if args else NONE
        if not self.is_iter(st, it):
            return [(st, exc('TypeError', ctx, node))]
        p = st.heap[it.a].fields['ptr']
        return [(st, mkbool(p != NONE and
                            self.row(st, p.v) is not None))]

    def s_get_value(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'get_value')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('TypeError', ctx, node))]
        if r[0] == 'dead':
            return [(st, NONE)]
        col = args[1]
        vals = self.row(st, r[1])[2]
        if not isinstance(col, Const) or not isinstance(col.v, int):
            st.doubt('a column is not known')
            return [(st, Top('value of a row'))]
        if not 0 <= col.v < len(vals):
            return [(st, NONE)]
        return [(st, vals[col.v])]

    def s_get_iter_first(self, eng, st, args, ctx, node):
        rows = self.children(st, None)
        return [(st, self.new_iter(st, rows[0][0]) if rows else NONE)]

    def s_iter_nth_child(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'iter_nth_child')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'dead':
            return [(st, NONE)]
        n = args[1]
        if not isinstance(n, Const):
            st.doubt('a position is not known')
            return [(st, Top('row'))]
        rows = self.children(st, r[1] if r[0] == 'ok' else None)
        if not isinstance(n.v, int):
            return [(st, exc('TypeError', ctx, node))]
        if not 0 <= n.v < len(rows):
            return [(st, NONE)]
        return [(st, self.new_iter(st, rows[n.v][0]))]

    def s_iter_children(self, eng, st, args, ctx, node):
        return self.s_iter_nth_child(
            eng, st, [args[0] if args else NONE, Const(0)], ctx, node)

    def s_iter_n_children(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0] if args else NONE, ctx, node,
                     'iter_n_children')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'dead':
            return [(st, Const(0))]
        return [(st, Const(len(self.children(
            st, r[1] if r[0] == 'ok' else None))))]

    def s_iter_has_child(self, eng, st, args, ctx, node):
        out = []
        for s, v in self.s_iter_n_children(eng, st, args, ctx, node):
            out.append((s, mkbool(v.v > 0) if isinstance(v, Const) else v))
        return out

    def s_iter_next(self, eng, st, args, ctx, node):
        return self.beside(eng, st, args, ctx, node, 'iter_next', 1)

    def s_iter_previous(self, eng, st, args, ctx, node):
        return self.beside(eng, st, args, ctx, node, 'iter_previous', -1)

    def beside(self, eng, st, args, ctx, node, what, d):
        r = self.ptr(eng, st, args[0], ctx, node, what)
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('AttributeError', ctx, node))]
        if r[0] == 'dead':
            return [(st, NONE)]
        rows = [x[0] for x in self.children(st, self.row(st, r[1])[1])]
        i = rows.index(r[1]) + d
        return [(st, self.new_iter(st, rows[i])
                 if 0 <= i < len(rows) else NONE)]

    def s_iter_parent(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'iter_parent')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('TypeError', ctx, node))]
        p = self.row(st, r[1])[1] if r[0] == 'ok' else None
        return [(st, NONE if p is None else self.new_iter(st, p))]

    def s_append(self, eng, st, args, ctx, node):
        return self.s_insert(eng, st, [args[0], Const(-1)] + args[1:], ctx,
                             node)

    def s_prepend(self, eng, st, args, ctx, node):
        return self.s_insert(eng, st, [args[0], Const(0)] + args[1:], ctx,
                             node)

    def s_insert(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'insert')
        if r[0] == 'bad':
            return r[1]
        parent = r[1] if r[0] == 'ok' else None
        vals = self.values_of(st, args[2]) if len(args) > 2 else None
        if vals is None:
            if len(args) > 2 and args[2] != NONE:
                st.doubt('the values of a row are not known')
            vals = (NONE,) * st.x['ncols']
        if len(vals) != st.x['ncols']:
            return [(st, exc('ValueError', ctx, node))]
        pos = args[1]
        sib = [i for i, x in enumerate(st.x['rows']) if x[1] == parent]
        if not self.ordered:
            places = range(len(sib) + 1)
        elif isinstance(pos, Const) and isinstance(pos.v, int):
            places = [len(sib) if pos.v < 0 else min(pos.v, len(sib))]
        else:
            st.doubt('a position is not known')
            places = [len(sib)]
        out = []
        for k in places:
            for p in self.pointers(st):
                s = st.copy()
                rows = list(s.x['rows'])
                rows.insert(sib[k] if k < len(sib) else len(rows),
                            (p, parent, tuple(vals)))
                s.x['rows'] = tuple(rows)
                s.x['free'] = tuple(f for f in s.x['free'] if f != p)
                out.append((s, self.new_iter(s, p)))
        return out

    def values_of(self, st, v):
        if isinstance(v, Tup):
            return tuple(v.items)
        if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont) and \
                st.heap[v.a].exact:
            return tuple(st.heap[v.a].items)
        return None

    def pointers(self, st):
        """The memory a new row may get: new, or that of a freed row."""
        used = [r[0] for r in st.x['rows']] + list(st.x['free'])
        return [max(used, default=-1) + 1] + list(st.x['free'])

    def s_remove(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'remove')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('TypeError', ctx, node))]
        if r[0] == 'dead':
            return [(st, FALSE)]
        rows = [x[0] for x in self.children(st, self.row(st, r[1])[1])]
        i = rows.index(r[1]) + 1
        nxt = rows[i] if i < len(rows) else None
        gone, more = {r[1]}, True
        while more:
            more = {x[0] for x in st.x['rows'] if x[1] in gone} - gone
            gone |= more
        st.x['rows'] = tuple(x for x in st.x['rows'] if x[0] not in gone)
        st.x['free'] = st.x['free'] + tuple(sorted(gone))
        self.set_iter(st, args[0], nxt)
        return [(st, mkbool(nxt is not None))]

    def s_set_value(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'set_value')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('TypeError', ctx, node))]
        if r[0] == 'dead':
            return [(st, NONE)]
        return self.put(st, r[1], {args[1]: args[2]})

    def s_set(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'set')
        if r[0] == 'bad':
            return r[1]
        if r[0] == 'none':
            return [(st, exc('TypeError', ctx, node))]
        if r[0] == 'dead':
            return [(st, NONE)]
        rest = args[1:]
        if len(rest) == 2 and self.values_of(st, rest[0]) is not None:
            ks, vs = [self.values_of(st, x) for x in rest]
            if vs is not None and len(ks) == len(vs):
                return self.put(st, r[1], dict(zip(ks, vs)))
        elif len(rest) == 1 and isinstance(rest[0], Ref) and \
                isinstance(st.heap[rest[0].a], Cont) and \
                st.heap[rest[0].a].kind == 'dict' and \
                st.heap[rest[0].a].exact:
            return self.put(st, r[1], dict(st.heap[rest[0].a].items))
        elif len(rest) % 2 == 0 and all(isinstance(k, Const)
                                        for k in rest[::2]):
            return self.put(st, r[1], dict(zip(rest[::2], rest[1::2])))
        st.doubt('the columns to be set are not known')
        return [(st, NONE)]

    def put(self, st, p, new):
        rows = list(st.x['rows'])
        i = [r[0] for r in rows].index(p)
        vals = list(rows[i][2])
        moved = False
        for col, v in new.items():
            if not isinstance(col, Const) or not isinstance(col.v, int):
                st.doubt('a column is not known')
                continue
            if 0 <= col.v < len(vals):
                moved = moved or (col.v == self.sort_column and
                                  not self.ordered and vals[col.v] != v)
                vals[col.v] = v
        row = (p, rows[i][1], tuple(vals))
        rows[i] = row
        if not moved:
            st.x['rows'] = tuple(rows)
            return [(st, NONE)]
        del rows[i]
        sib = [j for j, x in enumerate(rows) if x[1] == row[1]]
        out = []
        for k in range(len(sib) + 1):
            s = st.copy()
            rs = list(rows)
            rs.insert(sib[k] if k < len(sib) else len(rs), row)
            s.x['rows'] = tuple(rs)
            out.append((s, NONE))
        return out

    def s_clear(self, eng, st, args, ctx, node):
        st.x['free'] = st.x['free'] + tuple(r[0] for r in st.x['rows'])
        st.x['rows'] = ()
        return [(st, NONE)]

    # ---- between the events ------------------------------------------------------
    def tidy(self, eng, st):
        """A canonical form: garbage goes, pointers get new numbers."""
        seen, _ = eng.reach(st)
        for a in [a for a in st.heap if a not in seen and a > BASE[0]]:
            del st.heap[a]
        new, rows = {}, []
        for r in self.in_order(st.x['rows']):
            new[r[0]] = len(new)
            rows.append((new[r[0]], None if r[1] is None else new[r[1]],
                         r[2]))
        st.x['rows'] = tuple(rows)
        free = []
        for a in sorted(st.heap):
            o = st.heap[a]
            if isinstance(o, Inst) and o.cls == 'ext:TreeIter' and \
                    o.fields['ptr'] != NONE:
                p = o.fields['ptr'].v
                if p not in new:
                    new[p] = len(new)
                    free.append(new[p])
                if new[p] != p:
                    st.heap[a] = Inst('ext:TreeIter', {
                        'ptr': Const(new[p])})
        st.x['free'] = tuple(free)

    def in_order(self, rows):
        out = []

        def go(p):
            for r in rows:
                if r[1] == p:
                    out.append(r)
                    go(r[0])
        go(None)
        return out

    def bad(self, st, rule, where, text):
        raise NotImplementedError


def dead_counters(prog, ci):
    """Attributes which are only read to be changed themselves."""
    import ast
    stored, loaded = set(), set()

    for fi in ci.methods.values():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Attribute):
                stored.add(n.target.attr)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loaded.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                loaded.add(n.value)
    return stored - loaded


class Mirror(Store):
    """The model and the view it shows."""

    def __init__(self, prog, res, label, first, fixed, toggles, steps,
                 ordered=True, modify=True, columns=False):
        Store.__init__(self, prog, res)
        self.label = label
        self.first = [tuple(p) for p in first]
        self.fixed = set(fixed)
        self.toggles = list(toggles)
        self.steps = steps
        self.ordered = ordered
        self.modify = modify
        self.columns = columns
        self.events = 0
        self.checked = 0
        self.quiet = False

    # ---- the view and its nodes --------------------------------------------------
    def other_method(self, eng, st, obj, o, name, args, kw, ctx, node):
        if not isinstance(o, Inst):
            return None
        if o.cls == 'ext:View':
            m = getattr(self, 'v_' + name, None)
            return m(eng, st, list(args) + list(kw.values()), ctx, node) \
                if m else None
        if o.cls == 'ext:Node' and name == 'get_id':
            return [(st, o.fields['id'])]
        return None

    def v_register_cllbck(self, eng, st, args, ctx, node):
        if len(args) < 2 or not isinstance(args[0], Const):
            st.doubt('a listener is registered in an unknown way')
            return [(st, Top('registration'))]
        st.x['cb'] = st.x['cb'] + ((args[0].v, args[1]),)
        st.x['keep'] = tuple(st.x.get('keep', ())) + (args[1],)
        return [(st, Const(len(st.x['cb'])))]

    def v_get_current_state(self, eng, st, args, ctx, node):
        states = [st]
        for p in self.first:
            nxt = []
            for s in states:
                nxt.extend(self.tell(eng, s, 'added', p))
            states = nxt
        return [(s, NONE) for s in states]

    def v_get_node(self, eng, st, args, ctx, node):
        x = args[0] if args else NONE
        if x not in self.node:
            return [(st, exc('ValueError', ctx, node))]
        return [(st, self.node[x])]

    def v_is_displayed(self, eng, st, args, ctx, node):
        x = args[0] if args else NONE
        shown = any(p[-1] == x for p in st.x['shown'])
        if st.x['now'] == ('deleted', x):
            return [(s, mkbool(b)) for s, b in eng.both(st)]
        return [(st, mkbool(shown))]

    def v_get_paths_for_node(self, eng, st, args, ctx, node):
        x = args[0] if args else NONE
        return [(st, st.new(Cont('list', items=[
            Tup(p) for p in sorted(st.x['shown'], key=repr)
            if p[-1] == x])))]

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name.startswith('K:'):
            x = None
            if args and isinstance(args[0], Ref):
                x = st.heap[args[0].a].fields.get('id')
            if x is None:
                self.bad(st, 'column function gets no node',
                         ctx.where(node), 'the function of a column is '
                         'called with something else than the node')
                return [(st, Top('value of a column'))]
            return [(st, Opq('val:%s:%s:%d' % (
                fn.name[2:], x.name, dict(st.x['ver'])[x])))]
        return [(st, NONE)]

    def consistent(self, facts):
        return True

    # ---- building ----------------------------------------------------------------
    def build(self, eng):
        self.eng = eng
        BASE[0] = 0
        st = St()
        ci = eng.prog.cls(*MODEL)
        names = sorted({x for p in self.first + list(self.fixed) +
                        self.toggles for x in p}, key=repr)
        self.node = {}
        for x in names:
            self.node[x] = st.new(Inst('ext:Node', {'id': x}))
        self.view = st.new(Inst('ext:View', {}))
        st.x.update(rows=(), free=(), cb=(), keep=(), shown=frozenset(),
                    ver=tuple((x, 0) for x in names), now=None, ncols=0,
                    fns=FNS, told=(), history=())
        st.roots = tuple(r.a for r in self.node.values()) + (self.view.a,)
        types = st.new(Cont('list', items=[
            st.new(Cont('list', items=[Bi('str'), ExtFn(f)]))
            for f in FNS]))
        # the tables handed over may be kept
        outs = eng.instantiate_cls(st, ci, [self.view, types], {}, Ctx(
            None, None, ci.module, ci), None)
        outs = [(s, v) for s, v in outs]
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise AnalysisBroken('the model cannot be constructed: %r' % (
                outs,))
        st, self.model = outs[0]
        st.roots = st.roots + (self.model.a,)
        if st.x['ncols'] != 3:
            raise AnalysisBroken('the model has %d columns' % st.x['ncols'])
        self.counters = dead_counters(eng.prog, ci)
        m = eng.method_of(ci, 'connect_model')
        if m is None:
            raise AnalysisBroken('TreeModel.connect_model is gone')
        states = []
        for s, v in eng.call(st, Clo(m, None, self.model), [], {}, Ctx(
                None, None, ci.module, ci), None):
            if isinstance(v, Exc):
                self.bad(s, 'fails', v.where, 'connecting the model fails '
                         'with %s' % v.cls)
                continue
            self.compare(s, 'the model is connected', None)
            states.append(s)
        return states

    # ---- events ------------------------------------------------------------------
    def tell(self, eng, st, ev, path):
        """-> [state]"""
        x = path[-1]
        shown = set(st.x['shown'])
        if ev == 'added':
            shown.add(path)
        elif ev == 'deleted':
            shown.discard(path)
        st.x['shown'] = frozenset(shown)
        st.x['now'] = (ev, x)
        st.x['history'] += ((ev, path),)
        kind = 'node-%s-inview' % ev
        fns = [f for e, f in st.x['cb'] if e == kind]
        if not fns:
            self.bad(st, 'event without a listener', MODEL[1],
                     'the model does not listen to %s' % kind)
            return []
        states = [st]
        for f in fns:
            nxt = []
            for s in states:
                for t, v in eng.call(s, f, [x, Tup(path)], {}, Ctx(
                        None, None, self.prog.cls(*MODEL).module,
                        self.prog.cls(*MODEL)), None):
                    if isinstance(v, Exc):
                        self.bad(t, 'fails', v.where, 'the model fails with '
                                 '%s when it is told that %s was %s' % (
                                     v.cls, show_path(path), ev))
                    else:
                        nxt.append(t)
            states = nxt
        return states

    def compare(self, st, what, told):
        """The rows of the store against those of the view."""
        self.checked += 1
        rows = {r[0]: r for r in st.x['rows']}

        def path(r):
            up = () if r[1] is None else path(rows[r[1]])
            return up + (r[2][0],)
        have = [path(r) for r in st.x['rows']]
        for p in have:
            if have.count(p) > 1:
                return self.wrong(st, 'row shown twice', 'after %s, the '
                                  'model has the row %s twice' % (
                                      what, self.words(p)))
            if p not in st.x['shown']:
                return self.wrong(st, 'row which is not in the view',
                                  'after %s, the model has the row %s, '
                                  'which the view does not show' % (
                                      what, self.words(p)))
        for p in sorted(st.x['shown'], key=repr):
            if p not in have:
                return self.wrong(st, 'row missing', 'after %s, the model '
                                  'has no row %s, which the view shows' % (
                                      what, show_path(p)))
        for r, p in zip(st.x['rows'], have):
            x = r[2][0]
            fresh = told is None or p == told
            for i, f in enumerate(st.x['fns']):
                v = r[2][i + 1]
                want = 'val:%s:%s:%d' % (f[2:], x.name,
                                         dict(st.x['ver'])[x])
                if isinstance(v, Opq) and v.tag == want:
                    continue
                if not fresh and isinstance(v, Opq) and v.tag.split(
                        ':')[2:3] == [x.name]:
                    if v.tag.split(':')[1] in [g[2:] for g in (
                            FNS[i], 'K:new') if g != FNS[1 - i]]:
                        continue
                if isinstance(v, Opq) and v.top:
                    st.doubt('a value of a row is not known')
                return self.wrong(
                    st, 'wrong value in a row', 'after %s, column %d of the '
                    'row %s does not have the value of its node' % (
                        what, i + 1, show_path(p)))
        return True

    def words(self, p):
        return '/' + '/'.join(getattr(x, 'name', str(x)) for x in p)

    def wrong(self, st, rule, text):
        ev = st.x['history'][-1][0] if st.x['history'] else 'added'
        where = [f for e, f in st.x['cb'] if e == 'node-%s-inview' % ev]
        self.bad(st, rule, getattr(getattr(where[0], 'fi', None), 'qual',
                                   MODEL[1]) if where else MODEL[1], text)
        return False

    def bad(self, st, rule, where, text):
        hist = ', '.join('%s %s' % (e, show_path(p) if isinstance(
            p, tuple) else p) for e, p in st.x['history'])
        text = '%s (events: %s; %s)' % (text, hist, 'rows stay in order' if
                                        self.ordered else 'sorted rows')
        if st.imp:
            self.res.doubt('C20', text + ' (not sure: %s)' % st.imp[0])
        else:
            self.res.add('C20', rule, where, text, [hist])

    def moves(self, st):
        """The events the view may send next."""
        shown = st.x['shown']
        out = []
        for p in self.toggles:
            if p in shown:
                if not any(q[:-1] == p for q in shown):
                    out.append(('deleted', p))
            elif len(p) == 1 or p[:-1] in shown:
                out.append(('added', p))
        if self.modify:
            for p in sorted(shown, key=repr):
                out.append(('modified', p))
        if self.columns and 'K:new' not in st.x['fns']:
            out.extend([('column', 1), ('column', 2)])
        return out

    def drop(self, st):
        for a in [self.model.a]:
            o = st.heap[a]
            f = dict(o.fields)
            hit = False
            for k in self.counters:
                if isinstance(f.get(k), (Const, Num)) and f[k] != Const(0):
                    f[k] = Const(0)
                    hit = True
            if hit:
                st.heap[a] = Inst(o.cls, f, o.tag)

    def age(self, st):
        """Values are those of now (1) or older ones (0)."""
        ver = dict(st.x['ver'])
        rows = []
        for p, up, vals in st.x['rows']:
            new = []
            for v in vals:
                if isinstance(v, Opq) and v.tag.startswith('val:'):
                    _, f, x, n = v.tag.split(':')
                    v = Opq('val:%s:%s:%d' % (
                        f, x, int(n) == ver.get(Sym(x))))
                new.append(v)
            rows.append((p, up, tuple(new)))
        st.x['rows'] = tuple(rows)
        st.x['ver'] = tuple((x, 1) for x, _ in st.x['ver'])

    def run(self, eng):
        front = self.build(eng)
        seen = set()
        for n in range(self.steps + 1):
            keep = []
            for s in front:
                self.drop(s)
                self.age(s)
                self.tidy(eng, s)
                h = s.x.pop('history')
                k = eng.key(s)
                s.x['history'] = h
                if k not in seen:
                    seen.add(k)
                    keep.append(s)
            front = []
            if n == self.steps:
                break
            for s in keep:
                for ev, p in self.moves(s):
                    t = s.copy()
                    self.events += 1
                    front.extend(self.after(eng, t, ev, p))
        self.states = len(seen)

    def after(self, eng, st, ev, p):
        if ev == 'column':
            return self.column(eng, st, p)
        if ev == 'modified':
            st.x['ver'] = tuple((x, v + 1 if x == p[-1] else v)
                                for x, v in st.x['ver'])
        out = []
        for s in self.tell(eng, st, ev, p):
            if self.compare(s, 'the row %s was %s' % (show_path(p), ev),
                            p):
                out.append(s)
        return out

    def column(self, eng, st, n):
        ci = self.prog.cls(*MODEL)
        m = eng.method_of(ci, 'set_column_function')
        if m is None:
            raise AnalysisBroken('TreeModel.set_column_function is gone')
        st.x['history'] += (('new function for column', n),)
        fns = list(st.x['fns'])
        fns[n - 1] = 'K:new'
        st.x['fns'] = tuple(fns)
        out = []
        for s, v in eng.call(st, Clo(m, None, self.model), [
                Const(n), ExtFn('K:new')], {}, Ctx(
                    None, None, ci.module, ci), None):
            if isinstance(v, Exc):
                self.bad(s, 'fails', v.where, 'set_column_function fails '
                         'with %s' % v.cls)
            elif v != TRUE:
                self.bad(s, 'column function not replaced', 'TreeModel.'
                         'set_column_function', 'the function of a column '
                         'is not accepted')
            else:
                out.append(s)
        return out


# ---- the scenarios --------------------------------------------------------------
A, B, X, Y = P('A', 'B', 'X', 'Y')
AX, AY, BX, BY = (A, X), (A, Y), (B, X), (B, Y)
AB, ABX = (A, B), (A, B, X)


def scenarios(tier):
    deep = 2 if tier == 'thorough' else 0
    out = []

    def add(label, first, toggles, steps, **kw):
        for ordered in (True, False):
            out.append((label + (', rows in order' if ordered else
                                 ', sorted rows'),
                        dict(first=first, fixed=first, toggles=toggles,
                             steps=steps + deep - (not ordered),
                             ordered=ordered, **kw)))
    add('two parents', [(A,), (B,)], [AX, AY, BX], 6)
    add('two parents with children', [(A,), (B,), AX, AY], [AX, AY, BX], 6,
        modify=False)
    add('both parents have both', [(A,), (B,), AX, BX], [AX, AY, BX, BY], 5,
        modify=False)
    add('at top level and below', [(A,)], [(X,), AX, (Y,)], 6)
    add('a parent at two places', [(A,), (B,)], [AB, ABX, BX], 6)
    add('parents come and go', [(A,), AX], [(A,), AX, (B,), BX], 6,
        modify=False)
    add('three levels come and go', [], [(A,), AB, ABX, (B,), BX], 7,
        modify=False)
    add('functions of columns change', [(A,), AX], [AX, (X,)], 5,
        columns=True)
    add('one level', [(A,)], [(A,), (B,), (X,), (Y,)], 6, modify=False)
    return out


def gtk_job(prog, res, index, tier):
    label, kw = scenarios(tier)[index]
    w = Mirror(prog, res, label, **kw)
    eng = Engine(prog, w)
    try:
        w.run(eng)
    except Budget as e:
        eng.incomplete.add(str(e))
    res.cases += w.checked
    res.obligations += w.checked
    res.count(eng)


def gtk_jobs(prog, tier):
    return [('GTK model: ' + label, gtk_job, (i, tier))
            for i, (label, _) in enumerate(scenarios(tier))]
