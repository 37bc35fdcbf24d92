"""The tree widget: columns are built from a description, rows are dragged
and dropped, nodes are collapsed and expanded.

The widgets of GTK are opaque: what they are told is recorded, what they are
asked is answered as documented. The store and its iterators are those of
gtkops. The view below is a most general one: after each move it tells the
model of rows which went and came."""
from .values import *
from .conts import exc
from .gtkops import Mirror, MODEL, FNS, P, show_path
from .interp import Ctx, Budget, Engine
from .program import AnalysisBroken

WIDGET = ('liblarch_gtk', 'TreeView')
GTK, GDK = 'gi.repository.Gtk.', 'gi.repository.Gdk.'
ENUMS = {
    'TreeViewDropPosition': ('BEFORE', 'AFTER', 'INTO_OR_BEFORE',
                             'INTO_OR_AFTER'),
    'SortType': ('ASCENDING', 'DESCENDING'),
    'SelectionMode': ('NONE', 'SINGLE', 'BROWSE', 'MULTIPLE'),
}
FLAGS = {
    'TargetFlags': {'SAME_APP': 1, 'SAME_WIDGET': 2, 'OTHER_APP': 4,
                    'OTHER_WIDGET': 8},
    'DragAction': {'DEFAULT': 1, 'COPY': 2, 'MOVE': 4, 'LINK': 8},
    'ModifierType': {'BUTTON1_MASK': 256, 'BUTTON2_MASK': 512},
    'StateFlags': {'NORMAL': 0, 'ACTIVE': 1, 'PRELIGHT': 2, 'SELECTED': 4},
}
BEFORE, AFTER, INTO, ONTO = range(4)
POSITIONS = ('before', 'after', 'into', 'onto')


POINT = (5, 7)      # where the mouse is when it drops


class Widget(Mirror):
    prop = 'C25'

    def __init__(self, prog, res, label, links, prop='C25'):
        self.links0 = {x: tuple(ps) for x, ps in links}
        rows = self.all_paths(self.links0)
        self.order = [x for x, _ in links]
        self.prop = prop
        Mirror.__init__(self, prog, res, label, rows, rows, [], 0)

    # ---- the tree --------------------------------------------------------------
    def all_paths(self, links):
        """Rows, parents before their children."""
        out = []

        def go(p, x):
            out.append(p + (x,))
            for y, ps in links.items():
                if x in ps:
                    go(p + (x,), y)
        for x, ps in links.items():
            if not ps:
                go((), x)
        return out

    def below(self, links, x):
        out, more = set(), [x]
        while more:
            y = more.pop()
            for z, ps in links.items():
                if y in ps and z not in out:
                    out.add(z)
                    more.append(z)
        return out

    # ---- building ----------------------------------------------------------------
    def description(self, st):
        """Column functions K:one, K:two for the columns 1 and 2."""
        cols = []
        for name, fn in (('one', FNS[0]), ('two', FNS[1])):
            cols.append((Const(name), self.column(st, fn)))
        return st.new(Cont('dict', items=cols))

    def column(self, st, fn, **more):
        d = [(Const('value'), st.new(Cont('list', items=[
            Bi('str'), ExtFn(fn)])))]
        d += [(Const(k), v) for k, v in more.items()]
        return st.new(Cont('dict', items=d))

    def build(self, eng):
        self.eng = eng
        BASE[0] = 0
        st = St()
        names = self.order
        self.node = {x: st.new(Inst('ext:Node', {'id': x})) for x in names}
        self.view = st.new(Inst('ext:View', {}))
        self.tree = st.new(Inst('ext:Tree', {}))
        self.things = {k: st.new(Inst('ext:' + k, {})) for k in (
            'TreeSelection', 'SelectionData', 'Context', 'Source',
            'SourceModel')}
        st.x.update(rows=(), free=(), cb=(), keep=(), shown=frozenset(),
                    ver=tuple((x, 0) for x in names), now=None, ncols=0,
                    fns=FNS, told=(), history=(), calls=(), gone=frozenset(),
                    watch=(), refused=(), taken=(),
                    links=tuple(self.links0.items()), acts=())
        st.roots = tuple(r.a for r in self.node.values()) + tuple(
            r.a for r in self.things.values()) + (
                self.view.a, self.tree.a)
        self.model = None
        self.widget = None
        ci = eng.prog.cls(*WIDGET)
        desc = self.description(st)
        outs = eng.instantiate_cls(st, ci, [self.view, desc], {}, Ctx(
            None, None, ci.module, ci), None)
        good = []
        for s, v in outs:
            if isinstance(v, Exc):
                self.bad(s, 'fails', v.where, 'the widget cannot be built: '
                         '%s' % v.cls)
            else:
                good.append((s, v))
        states = []
        for s, v in good:
            self.widget = v
            models = [Ref(a) for a, o in s.heap.items() if isinstance(
                o, Inst) and not isinstance(o.cls, str) and
                (o.cls.module.name, o.cls.name) == MODEL]
            if len(models) != 1:
                raise AnalysisBroken('the widget has %d models' %
                                     len(models))
            self.model = models[0]
            s.roots = s.roots + (v.a, self.model.a)
            states.append(s)
        if len(states) > 1:
            raise AnalysisBroken('the widget is built in several ways')
        return states

    def meth(self, eng, st, name, args, kw=None):
        """-> [(state, value)]"""
        ci = eng.prog.cls(*WIDGET)
        m = eng.method_of(ci, name)
        if m is None:
            raise AnalysisBroken('TreeView.%s is gone' % name)
        return eng.call(st, Clo(m, None, self.widget), args, kw or {},
                        Ctx(None, None, ci.module, ci), None)

    def good(self, outs, what):
        """States which did not fail; what fails is reported."""
        out = []
        for s, v in outs:
            if isinstance(v, Exc):
                self.bad(s, 'fails', v.where, '%s fails with %s' % (
                    what, v.cls))
            else:
                out.append(s)
        return out

    def note(self, st, *entry):
        st.x['calls'] = st.x['calls'] + (entry,)

    # ---- GTK ------------------------------------------------------------------
    def lib_attr(self, eng, st, name):
        for mod in (GTK, GDK):
            if name.startswith(mod):
                part = name[len(mod):].split('.')
                if len(part) == 2 and part[1] in ENUMS.get(part[0], ()):
                    return Const(ENUMS[part[0]].index(part[1]))
                if len(part) == 2 and part[1] in FLAGS.get(part[0], {}):
                    return Const(FLAGS[part[0]][part[1]])
        return None

    def lib_call(self, eng, st, name, args, kw, ctx, node):
        if name == GTK + 'TreePath' or name.startswith(GTK + 'TreePath.new'):
            idx = self.indices(st, args[0] if args else Tup(()))
            if idx is None:
                st.doubt('a path is not known')
                return [(st, Top('path'))]
            return [(st, self.new_path(st, idx))]
        if name == GTK + 'drag_get_source_widget':
            return [(st, self.things['Source'])]
        if name.startswith((GTK, 'gi.repository.GObject.')):
            short = name.split('.')[-1]
            if short in ('__init__', 'show', 'show_all'):
                return [(st, NONE)]
            if args and self.widget is not None and args[0] == self.widget:
                self.note(st, 'widget', short, tuple(args[1:]) + tuple(
                    kw.values()))
                st.x['keep'] = tuple(st.x['keep']) + tuple(args)
                return [(st, NONE)]
            if short[:1].isupper():
                if args or kw:
                    st.doubt('a widget is made with arguments')
                return [(st, self.thing(st, short))]
            if short in ('parse_args', 'init'):
                return [(st, NONE)]
        return None

    def thing(self, st, kind):
        n = st.x.get('nobj', 0) + 1
        st.x['nobj'] = n
        r = st.new(Inst('ext:gtk', {'kind': Const(kind), 'n': Const(n)}))
        st.x['keep'] = tuple(st.x['keep']) + (r,)
        return r

    def new_path(self, st, idx):
        return st.new(Inst('ext:TreePath', {
            'idx': Tup([Const(i) for i in idx])}))

    def indices(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Inst) and o.cls == 'ext:TreePath':
                return tuple(x.v for x in o.fields['idx'].items)
            if isinstance(o, Cont) and o.exact and all(
                    isinstance(x, Const) and isinstance(x.v, int)
                    for x in o.items):
                return tuple(x.v for x in o.items)
        if isinstance(v, Tup) and all(isinstance(x, Const) and isinstance(
                x.v, int) for x in v.items):
            return tuple(x.v for x in v.items)
        if isinstance(v, Const) and isinstance(v.v, int):
            return (v.v,)
        if isinstance(v, Const) and isinstance(v.v, str):
            try:
                return tuple(int(x) for x in v.v.split(':'))
            except ValueError:
                return ()
        return None

    def at(self, st, idx):
        """Indices -> pointer"""
        p = None
        if not idx:
            return None
        for i in idx:
            rows = self.children(st, p)
            if not 0 <= i < len(rows):
                return None
            p = rows[i][0]
        return p

    def where(self, st, p):
        r = self.row(st, p)
        i = [x[0] for x in self.children(st, r[1])].index(p)
        return ((i,) if r[1] is None else self.where(st, r[1]) + (i,))

    def path_of(self, st, p):
        """Pointer -> path of the view"""
        r = self.row(st, p)
        up = () if r[1] is None else self.path_of(st, r[1])
        return up + (r[2][0],)

    def ptr_of(self, st, path):
        for r in st.x['rows']:
            if self.path_of(st, r[0]) == path:
                return r[0]
        return None

    # ---- more of the store ----------------------------------------------------
    def pointers(self, st):
        """Only memory some iterator still points to matters."""
        used = [r[0] for r in st.x['rows']] + list(st.x['free'])
        held = {o.fields['ptr'].v for o in st.heap.values()
                if isinstance(o, Inst) and o.cls == 'ext:TreeIter' and
                o.fields['ptr'] != NONE} & set(st.x['watch'])
        return [max(used, default=-1) + 1] + [
            p for p in st.x['free'] if p in held]

    def s_get_iter(self, eng, st, args, ctx, node):
        idx = self.indices(st, args[0])
        if idx is None:
            st.doubt('a path is not known')
            return [(st, Top('iterator'))]
        p = self.at(st, idx)
        if p is None:
            return [(st, exc('ValueError', ctx, node))]
        return [(st, self.new_iter(st, p))]

    s_get_iter_from_string = s_get_iter

    def s_get_path(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'get_path')
        if r[0] == 'bad':
            return r[1]
        if r[0] != 'ok':
            return [(st, exc('TypeError', ctx, node))]
        return [(st, self.new_path(st, self.where(st, r[1])))]

    def s_get_string_from_iter(self, eng, st, args, ctx, node):
        r = self.ptr(eng, st, args[0], ctx, node, 'get_string_from_iter')
        if r[0] == 'bad':
            return r[1]
        if r[0] != 'ok':
            return [(st, exc('TypeError', ctx, node))]
        return [(st, Const(':'.join(map(str, self.where(st, r[1])))))]

    def s_connect(self, eng, st, args, ctx, node):
        st.x['keep'] = tuple(st.x['keep']) + tuple(args[1:])
        st.x['acts'] = st.x['acts'] + (
            (Const('model:' + str(getattr(args[0], 'v', ''))),
             tuple(args[1:])),)
        return [(st, Const(1))]

    def s_set_sort_func(self, eng, st, args, ctx, node):
        self.note(st, 'model', 'set_sort_func', tuple(args))
        st.x['keep'] = tuple(st.x['keep']) + tuple(args)
        return [(st, NONE)]

    def s_set_sort_column_id(self, eng, st, args, ctx, node):
        self.note(st, 'model', 'set_sort_column_id', tuple(args))
        return [(st, NONE)]

    def s_get_sort_column_id(self, eng, st, args, ctx, node):
        return [(st, Tup((Const(1), Const(st.x.get('sortorder', 0)))))]

    # ---- widgets ----------------------------------------------------------------
    def other_method(self, eng, st, obj, o, name, args, kw, ctx, node):
        if not isinstance(o, Inst):
            return None
        args = list(args)
        if not isinstance(o.cls, str):
            if (o.cls.module.name, o.cls.name) != WIDGET:
                return None
            m = getattr(self, 'w_' + name, None)
            if m:
                return m(eng, st, args + list(kw.values()), ctx, node)
            self.note(st, 'widget', name, tuple(args) + tuple(kw.values()))
            st.x['keep'] = tuple(st.x['keep']) + tuple(args)
            if name.startswith(('get_', 'row_', 'is_')):
                st.doubt('the widget is asked %s' % name)
                return [(st, Top('%s()' % name))]
            return [(st, NONE)]
        if o.cls == 'ext:gtk':
            if name == 'get_tree_view':
                return [(st, self.widget)]
            if name in ('get_background_color', 'to_color', 'copy'):
                return [(st, self.thing(st, 'Color'))]
            if name.startswith(('get_', 'is_')):
                st.doubt('a widget is asked %s' % name)
                return [(st, Top('%s()' % name))]
            self.note(st, obj, name, tuple(args) + tuple(
                Tup((Const(k), v)) for k, v in sorted(kw.items())))
            st.x['keep'] = tuple(st.x['keep']) + tuple(args)
            return [(st, NONE)]
        if o.cls == 'ext:TreePath':
            idx = o.fields['idx']
            if name == 'get_indices':
                return [(st, st.new(Cont('list', items=idx.items)))]
            if name == 'get_depth' or name == '__len__':
                return [(st, Const(len(idx.items)))]
            if name in ('to_string', '__str__'):
                return [(st, Const(':'.join(str(x.v) for x in idx.items)))]
            if name == 'copy':
                return [(st, st.new(o))]
            return None
        m = getattr(self, '%s_%s' % ({
            'ext:TreeSelection': 'sel', 'ext:SelectionData': 'data',
            'ext:Source': 'src', 'ext:SourceModel': 'srcmodel',
            'ext:Tree': 'tree', 'ext:Context': 'context'}.get(
                o.cls, 'none'), name), None)
        if m:
            return m(eng, st, args + list(kw.values()), ctx, node)
        return Mirror.other_method(self, eng, st, obj, o, name, args, kw,
                                   ctx, node)

    def w_get_model(self, eng, st, args, ctx, node):
        return [(st, self.model)]

    def w_get_selection(self, eng, st, args, ctx, node):
        return [(st, self.things['TreeSelection'])]

    def w_get_style_context(self, eng, st, args, ctx, node):
        return [(st, self.thing(st, 'Style'))]

    def w_row_expanded(self, eng, st, args, ctx, node):
        out = []
        for s, b in eng.both(st):
            self.note(s, 'expanded?', b)
            out.append((s, mkbool(b)))
        return out

    def w_get_dest_row_at_pos(self, eng, st, args, ctx, node):
        d = st.x.get('drop')
        self.checked += 1
        if [a.v for a in args[:2] if isinstance(a, Const)] != list(
                POINT) and all(isinstance(a, Const) for a in args):
            self.bad(st, 'wrong place', 'TreeView.on_drag_data_received',
                     'GTK is asked about another place than that of the drop')
        if d is None:
            return [(st, NONE)]
        path, pos = d
        p = self.ptr_of(st, path)
        return [(st, Tup((self.new_path(st, self.where(st, p)),
                          Const(pos))))]

    def w_connect(self, eng, st, args, ctx, node):
        st.x['acts'] = st.x['acts'] + ((args[0], tuple(args[1:])),)
        st.x['keep'] = tuple(st.x['keep']) + tuple(args[1:])
        return [(st, Const(len(st.x['acts'])))]

    def sel_get_selected_rows(self, eng, st, args, ctx, node):
        ps = [self.new_path(st, self.where(st, self.ptr_of(st, p)))
              for p in st.x['picked']]
        return [(st, Tup((self.model, st.new(Cont('list', items=ps)))))]

    def sel_set_mode(self, eng, st, args, ctx, node):
        self.note(st, 'selection', 'set_mode', tuple(args))
        return [(st, NONE)]

    def sel_count_selected_rows(self, eng, st, args, ctx, node):
        return [(st, Const(len(st.x['picked'])))]

    def data_get_target(self, eng, st, args, ctx, node):
        return [(st, Opq('target'))]

    def data_set(self, eng, st, args, ctx, node):
        if len(args) > 2:
            st.x['data'] = args[2]
        return [(st, NONE)]

    def data_get_data(self, eng, st, args, ctx, node):
        return [(st, st.x.get('data', Const(b'')))]

    def data_get_length(self, eng, st, args, ctx, node):
        d = st.x.get('data', Const(b''))
        if isinstance(d, Const):
            return [(st, Const(len(d.v)))]
        return [(st, Top('length'))]

    def src_get_model(self, eng, st, args, ctx, node):
        return [(st, self.things['SourceModel'])]

    # the model of the other widget: rows as here, of other nodes
    def srcmodel_get_iter(self, eng, st, args, ctx, node):
        idx = self.indices(st, args[0])
        if idx is None:
            st.doubt('a path is not known')
            return [(st, Top('iterator'))]
        p = self.at(st, idx)
        if p is None:
            return [(st, exc('ValueError', ctx, node))]
        return [(st, st.new(Inst('ext:SourceIter', {
            'path': Tup(self.path_of(st, p))})))]

    srcmodel_get_iter_from_string = srcmodel_get_iter

    def srcmodel_get_value(self, eng, st, args, ctx, node):
        o = st.heap[args[0].a] if isinstance(args[0], Ref) else None
        if not isinstance(o, Inst) or o.cls != 'ext:SourceIter':
            if self.is_iter(st, args[0]):
                return [(st, Sym('mixedup'))]
            return [(st, exc('TypeError', ctx, node))]
        if args[1] != Const(0):
            return [(st, Top('value'))]
        path = o.fields['path'].items
        if any(x in st.x['taken'] for x in path):
            self.bad(st, 'iterator of a removed row is used', ctx.where(node),
                     'the row of %s was removed by the function which was '
                     'called for a row before it' % path[-1])
        return [(st, Sym('other' + path[-1].name))]

    def srcmodel_iter_is_valid(self, eng, st, args, ctx, node):
        o = st.heap[args[0].a]
        return [(st, mkbool(not any(x in st.x['taken'] for x in o.fields[
            'path'].items)))]

    def v_get_basetree(self, eng, st, args, ctx, node):
        return [(st, self.tree)]

    def v_queue_action(self, eng, st, args, ctx, node):
        self.note(st, 'view', 'queue_action', tuple(args))
        st.x['keep'] = tuple(st.x['keep']) + tuple(args)
        return [(st, NONE)]

    # ---- moving nodes -------------------------------------------------------------
    def tree_has_node(self, eng, st, args, ctx, node):
        return [(st, mkbool(args[0] in dict(st.x['links'])))]

    def tree_move_node(self, eng, st, args, ctx, node):
        x = args[0]
        to = args[1] if len(args) > 1 else NONE
        self.note(st, 'move', x, to)
        links = dict(st.x['links'])
        if x not in links or to != NONE and to not in links:
            return [(st, exc('ValueError', ctx, node))]
        if x == to:
            return [(st, TRUE)]
        if x in st.x['refused'] or to in self.below(links, x):
            return [(st, exc('Exception', ctx, node))]
        first = not links[x] or to == NONE
        links[x] = () if to == NONE else (to,)
        old = set(st.x['shown'])
        new = self.all_paths(links)
        st.x['links'] = tuple(links.items())
        come = [('added', p) for p in new if p not in old]
        go = [('deleted', p) for p in sorted(
            old - set(new), key=lambda p: (-len(p), repr(p)))]
        st.x['gone'] = st.x['gone'] | frozenset(p for _, p in go)
        st.x['watch'] = tuple({o.fields['ptr'].v for o in st.heap.values()
                               if isinstance(o, Inst) and
                               o.cls == 'ext:TreeIter' and
                               o.fields['ptr'] != NONE})
        states = [st]
        for ev, p in (go + come if first else come + go):
            nxt = []
            for s in states:
                nxt.extend(self.tell(eng, s, ev, p))
            states = nxt
        return [(s, TRUE) for s in states]

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name.startswith('D:'):
            # the function may take the node out of the other widget
            self.note(st, 'given', fn.name, tuple(args))
            st.x['taken'] = st.x['taken'] + tuple(
                x for x in self.order if args and
                args[0] == Sym('other' + x.name))
            return [(st, NONE)]
        return Mirror.ext_call(self, eng, st, fn, args, kw, ctx, node)

    # ---- reports ----------------------------------------------------------------
    def bad(self, st, rule, where, text):
        text = '%s (%s)' % (text, self.label)
        if st.imp:
            self.res.doubt(self.prop, text + ' (not sure: %s)' % st.imp[0])
        else:
            self.res.add(self.prop, rule, where, text, [self.label])


# ---- drag and drop ---------------------------------------------------------------
class Drag(Widget):
    """Rows are picked, dragged and dropped."""

    def __init__(self, prog, res, label, links, picks, drops, info=0,
                 refused=()):
        Widget.__init__(self, prog, res, label, links)
        self.picks, self.drops = picks, drops
        self.info = info
        self.refused = tuple(refused)

    def handler(self, st, signal):
        """Who is connected to a signal of the widget?"""
        out = []
        for sig, rest in st.x['acts']:
            if isinstance(sig, Const) and sig.v.replace('_', '-') == signal:
                out.append(rest)
        return out

    def emit(self, eng, st, signal, args):
        hs = self.handler(st, signal)
        if not hs:
            self.bad(st, 'signal without a handler', 'TreeView.set_dnd_name',
                     'nobody listens to %s' % signal)
            return []
        ci = eng.prog.cls(*WIDGET)
        outs = [(st, NONE)]
        for h in hs:
            nxt = []
            for s, v in outs:
                if isinstance(v, Exc):
                    nxt.append((s, v))
                else:
                    nxt.extend(eng.call(
                        s, h[0], [self.widget] + args + list(h[1:]), {},
                        Ctx(None, None, ci.module, ci), None))
            outs = nxt
        return outs

    def run(self, eng):
        front = self.build(eng)
        nxt = []
        for s in front:
            s.x['refused'] = self.refused
            nxt.extend(self.good(self.meth(
                eng, s, 'show', []), 'show()'))
        front, nxt = nxt, []
        for s in front:
            nxt.extend(self.good(self.meth(
                eng, s, 'set_dnd_name', [Const('here')]), 'set_dnd_name()'))
        front, nxt = nxt, []
        for name in ('there', 'elsewhere', 'away'):
            for s in front:
                nxt.extend(self.good(self.meth(
                    eng, s, 'set_dnd_external', [
                        Const(name), ExtFn('D:' + name)]),
                    'set_dnd_external()'))
            front, nxt = nxt, []
        for s in front:
            if frozenset(self.path_of(s, r[0]) for r in s.x['rows']) != \
                    frozenset(self.first):
                raise AnalysisBroken('the model does not show the rows')
            if not self.targets(s):
                continue
            for picked in self.picks:
                for drop in self.drops:
                    self.label_now = '%s dragged %s' % (
                        ', '.join(map(show_path, picked)) or 'nothing',
                        'outside of the rows' if drop is None else
                        '%s %s' % (POSITIONS[drop[1]], show_path(drop[0])))
                    self.one_drag(eng, s.copy(), picked, drop)

    def targets(self, st):
        """The targets the widget told GTK about last -> {name: info}"""
        self.infos = {}
        for kind in ('enable_model_drag_source', 'enable_model_drag_dest'):
            got = [c for c in st.x['calls'] if c[:2] == ('widget', kind)]
            self.obligations()
            if not got:
                self.bad(st, 'no drag and drop', 'TreeView.set_dnd_external',
                         '%s() is not called' % kind)
                return False
            lst = got[-1][2][1 if kind.endswith('source') else 0]
            c = st.heap[lst.a] if isinstance(lst, Ref) else None
            if not isinstance(c, Cont) or not c.exact:
                raise AnalysisBroken('the list of targets is not followed')
            infos = {}
            for t in c.items:
                if isinstance(t, Tup) and any(isinstance(
                        x, (ExtFn, Tup, Meth, Clo)) for x in t.items):
                    self.bad(st, 'wrong targets', 'TreeView.'
                             'set_dnd_external', 'a target given to GTK is '
                             'not a name, a scope and a number')
                    return False
                if not isinstance(t, Tup) or len(t.items) != 3 or not \
                        all(isinstance(x, Const) for x in t.items):
                    raise AnalysisBroken('a target is not followed')
                infos[t.items[0].v] = (t.items[2].v, t.items[1].v)
            names = ('here', 'there', 'elsewhere', 'away')
            if set(infos) != set(names):
                self.bad(st, 'wrong targets', 'TreeView.set_dnd_external',
                         'the targets given to GTK are %s' % ', '.join(
                             sorted(infos)))
                return False
            nums = [infos[n][0] for n in names]
            if len(set(nums)) != len(nums):
                self.bad(st, 'wrong targets', 'TreeView.set_dnd_external',
                         'two targets have the same number')
                return False
            if infos['here'][1] != 2:
                self.bad(st, 'wrong targets', 'TreeView.set_dnd_name',
                         'rows of other widgets are accepted as own rows')
                return False
            if self.infos and self.infos != infos:
                self.bad(st, 'wrong targets', 'TreeView.set_dnd_external',
                         'rows are offered under other numbers than they '
                         'are accepted')
                return False
            self.infos = infos
        return True

    def obligations(self, n=1):
        self.checked += n

    def one_drag(self, eng, st, picked, drop):
        label = self.label
        self.label = '%s; %s' % (label, self.label_now)
        try:
            st.x.update(picked=tuple(picked), drop=drop, calls=(),
                        gone=frozenset(), data=Const(b''))
            where = 'TreeView.on_drag_data_get'
            ctxt, data = self.things['Context'], self.things['SelectionData']
            names = {0: 'here', 1: 'there', 2: 'elsewhere', 3: 'away'}
            info = Const(self.infos[names[self.info]][0]) \
                if self.info in names else Const(77)
            front = [st]
            if picked is not None:
                front = self.good(self.emit(eng, st, 'drag-data-get', [
                    ctxt, data, info, Const(0)]), 'dragging')
            for s in front:
                if not isinstance(s.x['data'], Const):
                    s.doubt('the dragged data are not followed')
                for t in self.good(self.emit(
                        eng, s, 'drag-data-received',
                        [ctxt, Const(POINT[0]), Const(POINT[1]), data,
                         info, Const(0)]),
                        'dropping'):
                    self.events += 1
                    self.judge(t, picked or (), drop)
        finally:
            self.label = label

    def judge(self, st, picked, drop):
        where = 'TreeView.on_drag_data_received'
        moves = [c[1:] for c in st.x['calls'] if c[0] == 'move']
        given = [c[1:] for c in st.x['calls'] if c[0] == 'given']
        if drop is None:
            to = NONE
        elif drop[1] in (BEFORE, AFTER):
            to = drop[0][-2] if len(drop[0]) > 1 else NONE
        else:
            to = drop[0][-1]
        ids = [p[-1] for p in picked]
        say = lambda x: 'the top level' if x == NONE else str(x)
        if self.info == 0:
            for f, a in given:
                return self.bad(st, 'wrong function', where, 'the function '
                                'of another target is called')
            for x, y in moves:
                self.obligations()
                if x not in ids:
                    return self.bad(st, 'other node moved', where, '%s is '
                                    'moved, which was not dragged' % x)
                if y != to:
                    return self.bad(st, 'wrong parent', where, '%s is moved '
                                    'below %s and not %s' % (
                                        x, say(y), say(to)))
                if sum(m[0] == x for m in moves) > ids.count(x):
                    return self.bad(st, 'moved twice', where, '%s is moved '
                                    'again' % x)
            for p in picked:
                self.obligations()
                if p not in st.x['gone'] and p[-1] not in [
                        m[0] for m in moves]:
                    return self.bad(st, 'node not moved', where, '%s was '
                                    'dragged, but is not moved' % p[-1])
            return
        for x, y in moves:
            return self.bad(st, 'other node moved', where, '%s is moved '
                            'although nothing of this widget was dragged'
                            % x)
        name = {1: 'D:there', 2: 'D:elsewhere', 3: 'D:away'}.get(
            self.info)
        if name is None or to == NONE:
            want = []
        else:
            want = [(name, (Sym('other' + x.name), to)) for x in ids]
        self.obligations(len(want) + 1)
        for g in given:
            if g not in want:
                return self.bad(st, 'wrong function call', where, 'the '
                                'function %s is called with %s' % (
                                    g[0][2:], ', '.join(map(str, g[1]))))
        for i, w in enumerate(want):
            # a row may be gone, because of an earlier one
            lost = set(picked[i]) & {q[-1] for q in picked[:i]}
            if given.count(w) > want.count(w) or (
                    w not in given and not lost):
                return self.bad(st, 'wrong function call', where, 'the '
                                'function %s is not called once for the '
                                'dragged node %s' % (w[0][2:], w[1][0]))


A, B, C, X, Y, Z = P('A', 'B', 'C', 'X', 'Y', 'Z')
FLAT = [(A, ()), (B, ()), (C, ())]
DEEP = [(A, ()), (X, (A,)), (Y, (A,)), (B, ())]
MANY = [(A, ()), (B, ()), (X, (A, B)), (C, ())]
DOWN = [(A, ()), (B, (A,)), (X, (B,)), (C, ())]


def drag_scenarios(tier):
    out = []

    def add(label, links, picks, drops, **kw):
        for pk in picks:
            out.append(('%s; %s' % (label, ', '.join(map(show_path, pk)) or
                                    'nothing'),
                        dict(links=links, picks=[pk], drops=drops, **kw)))

    def drops(links, positions=(BEFORE, AFTER, INTO, ONTO)):
        w = Widget.all_paths(Widget, dict((x, p) for x, p in links))
        return [None] + [(p, k) for p in w for k in positions]
    for name, links in (('three nodes', FLAT), ('two levels', DEEP),
                        ('two parents', MANY), ('three levels', DOWN)):
        rows = Widget.all_paths(Widget, dict(links))
        ones = [(p,) for p in rows]
        twos = [(p, q) for i, p in enumerate(rows) for q in rows[i + 1:]]
        more = [tuple(rows)]
        add(name, links, [()] + ones, drops(links))
        add(name, links, twos + more, drops(links, (BEFORE, INTO)))
        for i in (1, 2, 3, 4):
            add('%s, from elsewhere (%d)' % (name, i), links,
                [()] + ones[:2] + [tuple(rows[:3])],
                drops(links, (BEFORE, INTO)), info=i)
        for x in rows[0][-1], rows[1][-1]:
            add('%s, %s cannot be moved' % (name, x), links,
                [(rows[0], rows[1]), tuple(rows)], drops(links, (INTO,)),
                refused=(x,))
    return out


def drag_job(prog, res, index, tier):
    label, kw = drag_scenarios(tier)[index]
    w = Drag(prog, res, label, **kw)
    eng = Engine(prog, w)
    try:
        w.run(eng)
    except Budget as e:
        eng.incomplete.add(str(e))
    res.cases += w.events
    res.obligations += w.checked
    res.count(eng)


def drag_jobs(prog, tier):
    return [('drag and drop: ' + label, drag_job, (i, tier))
            for i, (label, _) in enumerate(drag_scenarios(tier))]


# ---- columns, selections, collapsed rows -----------------------------------------
STRANGE = Sym('Unknown')


class Columns(Widget):
    """A widget is built from a description, then asked to do something."""

    def __init__(self, prog, res, label, links, cols, tasks, absent=()):
        Widget.__init__(self, prog, res, label, links, 'C26')
        self.cols = cols            # [(name, options)]
        self.tasks = tasks
        self.absent = tuple(absent)
        self.first = [p for p in self.first if p[-1] not in self.absent]
        self.fixed = set(self.first)

    # ---- building ----------------------------------------------------------------
    def description(self, st):
        self.renderers = {}
        items = []
        for name, o in self.cols:
            more = {k: Const(v) for k, v in o.items() if k in (
                'order', 'new_column', 'title', 'visible', 'expandable',
                'resizable', 'sorting')}
            if o.get('sorting_func'):
                more['sorting_func'] = ExtFn('S:' + name)
            if o.get('renderer'):
                r = self.thing(st, 'CellRenderer')
                self.renderers[name] = r
                st.roots = st.roots + (r.a,)
                more['renderer'] = st.new(Cont('list', items=[
                    Const(o['renderer']), r]))
            items.append((Const(name), self.column(
                st, 'K:' + name, **more)))
        return st.new(Cont('dict', items=items))

    def in_order_of(self):
        last = 9999
        keyed = []
        for name, o in self.cols:
            keyed.append((o.get('order', last), name, o))
            last += 1
        return [(n, o) for _, n, o in sorted(keyed, key=lambda k: k[:2])]

    def run(self, eng):
        for s in self.build(eng):
            if not self.built(s):
                continue
            for task in self.tasks:
                self.label_now = show_task(task)
                label = self.label
                self.label = '%s; %s' % (label, self.label_now)
                t = s.copy()
                t.x['calls'] = ()
                try:
                    self.events += 1
                    getattr(self, 't_' + task[0])(eng, t, *task[1:])
                finally:
                    self.label = label

    def told(self, st, obj, name):
        """The arguments of the calls of a method, in order"""
        return [c[2] for c in st.x['calls'] if c[0] == obj and c[1] == name]

    def value(self, args, key, i):
        for a in args:
            if isinstance(a, Tup) and len(a.items) == 2 and \
                    a.items[0] == Const(key):
                return a.items[1]
        args = [a for a in args if not (isinstance(a, Tup) and
                                        len(a.items) == 2 and isinstance(
                                            a.items[0], Const) and
                                        isinstance(a.items[0].v, str))]
        return args[i] if i < len(args) else None

    def number(self, st, fn):
        """The column of the model with the values of a function"""
        got = set()
        for r in st.x['rows']:
            for i, v in enumerate(r[2]):
                if isinstance(v, Opq) and v.tag.startswith(
                        'val:%s:' % fn):
                    got.add(i)
        return got.pop() if len(got) == 1 else None

    def built(self, st):
        where = 'TreeView.__init__'
        self.checked += 1
        if st.x['ncols'] != len(self.cols) + 1:
            self.bad(st, 'column missing', where, 'the model has %d columns '
                     'for %d described' % (st.x['ncols'] - 1,
                                           len(self.cols)))
            return False
        self.num, self.col, self.painters = {}, {}, {}
        packs = [(c[0], c[2]) for c in st.x['calls'] if c[1] in (
            'pack_start', 'pack_end') and isinstance(c[0], Ref)]
        attrs = [(c[0], c[2]) for c in st.x['calls'] if
                 c[1] == 'add_attribute' and isinstance(c[0], Ref)]
        for c in st.x['calls']:
            if c[1] == 'set_attributes' and isinstance(c[0], Ref):
                attrs += [(c[0], (c[2][0],) + t.items) for t in c[2][1:]
                          if isinstance(t, Tup)]
        self.checked += 2
        for what, got in (('put into a column', packs),
                          ('given values of the model', attrs)):
            if len(got) != len(self.cols):
                self.bad(st, 'values not shown', where, '%d cells are %s for '
                         '%d described columns' % (
                             len(got), what, len(self.cols)))
                return False
        for name, o in self.cols:
            n = self.number(st, name)
            self.checked += 3
            if n is None:
                self.bad(st, 'column missing', where, 'no column of the '
                         'model has the values of column %s' % name)
                return False
            self.num[name] = n
            cells = [(c, a) for c, a in attrs if len(a) > 2 and
                     a[2] == Const(n)]
            if len(cells) != 1:
                self.bad(st, 'values not shown', where, 'the values of '
                         'column %s are shown in %d cells' % (
                             name, len(cells)))
                return False
            col, a = cells[0]
            want = o.get('renderer', 'markup')
            if a[1] != Const(want):
                self.bad(st, 'wrong attribute', where, 'the values of column '
                         '%s are given to the attribute %s and not %s' % (
                             name, a[1], want))
                return False
            if name in self.renderers and a[0] != self.renderers[name]:
                self.bad(st, 'wrong renderer', where, 'the values of column '
                         '%s are shown by another renderer' % name)
                return False
            if (col, a[0]) not in [(c, p[0]) for c, p in packs]:
                self.bad(st, 'wrong renderer', where, 'the renderer of '
                         'column %s is not in its column' % name)
                return False
            self.col[name] = col
            fns = [c[2] for c in st.x['calls'] if c[0] == col and
                   c[1] == 'set_cell_data_func' and c[2][0] == a[0]]
            self.checked += 1
            if not fns or fns[-1][1] == NONE:
                self.bad(st, 'no colours', where, 'the cells of column %s '
                         'can never be coloured' % name)
                return False
            self.painters[name] = (fns[-1][1], a[0], tuple(
                fns[-1][2:]) or (NONE,))
        shown = [c[2][0] for c in st.x['calls'] if c[0] == 'widget' and
                 c[1] == 'append_column']
        if any(c[0] == 'widget' and c[1] == 'insert_column'
               for c in st.x['calls']):
            self.unsure(st, 'columns are inserted')
            return False
        want = []
        for name, o in self.in_order_of():
            if o.get('new_column', True) or not want:
                if self.col[name] in want:
                    self.bad(st, 'columns not in order', where, 'column %s '
                             'has no column of its own' % name)
                    return False
                want.append(self.col[name])
            elif self.col[name] != want[-1]:
                self.bad(st, 'columns not in order', where, 'column %s is '
                         'not in the column of the one before it' % name)
                return False
        self.checked += len(want)
        if shown != want:
            self.bad(st, 'columns not in order', where, 'the columns of the '
                     'widget are not those described, in their order')
            return False
        users = list(self.col.values())
        for name, o in self.cols:
            if users.count(self.col[name]) > 1:
                continue
            for what, key, dflt, gtk in (
                    ('set_visible', 'visible', True, True),
                    ('set_expand', 'expandable', False, False),
                    ('set_resizable', 'resizable', True, False),
                    ('set_title', 'title', None, None)):
                if dflt is None and key not in o:
                    continue
                got = self.told(st, self.col[name], what)
                have = got[-1][0] if got else Const(gtk)
                self.checked += 1
                if isinstance(have, Const) and have != Const(
                        o.get(key, dflt)):
                    self.bad(st, 'wrong option', where, '%s(%s) for column '
                             '%s, which was described otherwise' % (
                                 what, have, name))
                    return False
            ids = self.told(st, self.col[name], 'set_sort_column_id')
            want = None
            if o.get('sorting_func'):
                want = self.num[name]
            elif 'sorting' in o:
                want = self.num.get(o['sorting'])
            if want is not None:
                self.checked += 1
                if not ids or ids[-1][0] != Const(want):
                    self.bad(st, 'wrong sorting', where, 'column %s is not '
                             'sorted by the column described' % name)
                    return False
            if o.get('sorting_func'):
                fns = [c[2] for c in st.x['calls'] if c[:2] == (
                    'model', 'set_sort_func') and c[2][0] == Const(
                        self.num[name])]
                self.checked += 1
                if not fns:
                    self.bad(st, 'wrong sorting', where, 'the function which '
                             'sorts column %s is not used' % name)
                    return False
                self.sorters = getattr(self, 'sorters', {})
                self.sorters[name] = fns[-1]
        return True

    def unsure(self, st, why):
        self.res.doubt(self.prop, '%s (%s)' % (why, self.label))

    # ---- tasks ----------------------------------------------------------------------
    def ask(self, eng, st, name, args):
        return self.good(self.meth(eng, st, name, args), '%s()' % name)

    def expect(self, st, where, got, want, text):
        """The last call of a kind is what was asked for."""
        self.checked += 1
        if not got or tuple(got[-1][:len(want)]) != tuple(want):
            if got and any(isinstance(a, Opq) and a.top for a in got[-1]):
                return self.unsure(st, 'a call is not followed')
            self.bad(st, 'wrong call', 'TreeView.' + where, text)

    def t_visible(self, eng, st, name, value):
        for s in self.ask(eng, st, 'set_col_visible', [
                Const(name), Const(value)]):
            self.expect(s, 'set_col_visible', self.told(
                s, self.col[name], 'set_visible'), [Const(value)],
                'column %s is not %s' % (name, 'shown' if value else
                                         'hidden'))
            self.alone(s, name, 'set_visible')

    def t_resizable(self, eng, st, name, value):
        for s in self.ask(eng, st, 'set_col_resizable', [
                Const(name), Const(value)]):
            self.expect(s, 'set_col_resizable', self.told(
                s, self.col[name], 'set_resizable'), [Const(value)],
                'set_resizable(%s) is not called for column %s' % (
                    value, name))
            self.alone(s, name, 'set_resizable')

    def alone(self, st, name, what):
        for n, c in self.col.items():
            if c != self.col[name] and self.told(st, c, what):
                self.bad(st, 'other column changed', 'TreeView.set_col_' +
                         what[4:], '%s() is called for column %s' % (
                             what, n))

    def t_search(self, eng, st, name):
        for s in self.ask(eng, st, 'set_main_search_column', [Const(name)]):
            self.expect(s, 'set_main_search_column', self.told(
                s, 'widget', 'set_search_column'), [Const(self.num[name])],
                'column %s is not searched' % name)

    def t_expander(self, eng, st, name):
        for s in self.ask(eng, st, 'set_expander_column', [Const(name)]):
            got = self.told(s, 'widget', 'set_property')
            if not got:
                got = [(Const('expander-column'),) + a for a in self.told(
                    s, 'widget', 'set_expander_column')]
            self.expect(s, 'set_expander_column', got, [
                Const('expander-column'), self.col[name]],
                'column %s is not the one with the expander' % name)

    def t_sort(self, eng, st, name, order):
        for s in self.ask(eng, st, 'set_sort_column', [
                Const(name), Const(order)]):
            self.expect(s, 'set_sort_column', self.told(
                s, 'model', 'set_sort_column_id'), [
                    Const(self.num[name]), Const(order)],
                'the rows are not sorted by column %s' % name)
            for t, v in self.meth(eng, s, 'get_sort_column', []):
                self.checked += 1
                if v != Tup((Const(name), Const(order))) and not (
                        isinstance(v, Opq) and v.top):
                    self.bad(t, 'wrong answer', 'TreeView.get_sort_column',
                             'get_sort_column() does not answer %s' % name)

    def t_names(self, eng, st):
        for s, v in self.meth(eng, st, 'get_columns', []):
            self.checked += 1
            c = s.heap[v.a] if isinstance(v, Ref) else None
            if isinstance(c, Cont) and c.exact:
                got = [x.v for x in c.items if isinstance(x, Const)]
            elif isinstance(v, Tup):
                got = [x.v for x in v.items if isinstance(x, Const)]
            elif isinstance(v, Exc):
                self.good([(s, v)], 'get_columns()')
                continue
            else:
                self.unsure(s, 'the names of columns are not followed')
                continue
            if sorted(got) != sorted(n for n, _ in self.cols):
                self.bad(s, 'wrong answer', 'TreeView.get_columns',
                         'get_columns() answers %s' % ', '.join(got))

    def t_sorter(self, eng, st, name, order):
        """GTK compares two rows."""
        a = self.sorters[name]
        rows = [r[0] for r in st.x['rows'] if r[1] is None][:2]
        st.x['sortorder'] = order
        args = [self.model] + [self.new_iter(st, p) for p in rows] + \
            list(a[2:])
        xs = [self.row(st, p)[2][0] for p in rows]
        ci = self.prog.cls(*WIDGET)
        for s, v in eng.call(st, a[1], args, {}, Ctx(
                None, None, ci.module, ci), None):
            if isinstance(v, Exc):
                self.good([(s, v)], 'comparing two rows')
                continue
            got = [c[1:] for c in s.x['calls'] if c[0] == 'sorted']
            self.checked += 2
            want = (name, (self.node[xs[0]], self.node[xs[1]],
                           Const(order)))
            if got != [want]:
                self.bad(s, 'wrong sorting', 'TreeView._sort_func', 'the '
                         'function which sorts column %s is not called once '
                         'with the nodes of the rows and the order' % name)
            elif v != Opq('sorted:' + name):
                self.bad(s, 'wrong sorting', 'TreeView._sort_func', 'the '
                         'answer of the function which sorts column %s is '
                         'not used' % name)

    def t_color(self, eng, st, name):
        outs = self.meth(eng, st, 'set_bg_color', [ExtFn('K:new'),
                                                   Const(name)])
        known = name in self.num
        for s, v in outs:
            if isinstance(v, Exc):
                if known or v.cls != 'ValueError':
                    self.bad(s, 'fails', v.where, 'set_bg_color() fails with '
                             '%s' % v.cls)
                    continue
            elif not known:
                self.bad(s, 'not refused', 'TreeView.set_bg_color', 'a '
                         'column which does not exist is accepted')
                continue
            p = self.first[0]
            for t in self.tell(eng, s, 'modified', p):
                vals = self.row(t, self.ptr_of(t, p))[2]
                for n, k in self.num.items():
                    self.checked += 1
                    fn = 'new' if n == name else n
                    v = vals[k]
                    if isinstance(v, Opq) and v.top:
                        self.unsure(t, 'a value is not followed')
                    elif not isinstance(v, Opq) or not v.tag.startswith(
                            'val:%s:%s:' % (fn, p[-1].name)):
                        self.bad(t, 'wrong value', 'TreeView.set_bg_color',
                                 'column %s has not the value of its '
                                 'function after set_bg_color(%s)' % (
                                     n, name))

    def intercept(self, eng, st, fi, bound, args, kw, ctx, node):
        if fi.name == 'brightness' and not bound:
            return [(s, Const(0.25 if b else 0.75)) for s, b in eng.both(st)]
        return None

    def t_paint(self, eng, st, name, color):
        """GTK draws the cells of all columns."""
        ci = self.prog.cls(*WIDGET)
        front = [st]
        if color:
            front = [t for s in self.ask(
                eng, st, 'set_bg_color', [ExtFn('K:new'), Const(color)])
                for p in self.first for t in self.tell(
                    eng, s, 'modified', p)][-1:]
        for s in front:
            for r in [r for r in s.x['rows'] if r[1] is None]:
                path = (r[2][0],)
                fn, cell, data = self.painters[name]
                t0 = s.copy()
                t0.x['calls'] = ()
                for t in self.good(eng.call(t0, fn, [
                        self.col[name], cell, self.model, self.new_iter(
                            t0, r[0])] + list(data), {}, Ctx(
                                None, None, ci.module, ci), None),
                        'drawing a cell'):
                    got = [a[1] for a in self.told(t, cell, 'set_property')
                           if a[0] in (Const('cell-background'), Const(
                               'background'))]
                    self.checked += 1
                    want = r[2][self.num[color]] if color else None
                    if color and (not got or got[-1] != want):
                        if got and isinstance(got[-1], Opq) and got[-1].top:
                            self.unsure(t, 'a colour is not followed')
                            continue
                        self.bad(t, 'wrong colour', 'TreeView.'
                                 '_celldatafunction', 'a cell of column %s '
                                 'in the row %s does not get the colour of '
                                 'its node' % (name, show_path(path)))
                    elif not color and any(g != NONE for g in got):
                        self.bad(t, 'wrong colour', 'TreeView.'
                                 '_celldatafunction', 'a cell gets a colour '
                                 'although no column has colours')

    def t_selected(self, eng, st, picked):
        st.x['picked'] = tuple(picked)
        for s, v in self.meth(eng, st, 'get_selected_nodes', []):
            self.checked += 1
            c = s.heap[v.a] if isinstance(v, Ref) else None
            got = None
            if isinstance(c, Cont) and c.exact:
                got = list(c.items)
            elif isinstance(v, Tup):
                got = list(v.items)
            elif isinstance(v, Exc):
                self.good([(s, v)], 'get_selected_nodes()')
                continue
            if got is None and isinstance(v, Const):
                self.bad(s, 'wrong answer', 'TreeView.get_selected_nodes',
                         'the answer is %s' % v)
            elif got is None:
                self.unsure(s, 'the selected nodes are not followed')
            elif got != [p[-1] for p in picked]:
                self.bad(s, 'wrong answer', 'TreeView.get_selected_nodes',
                         'the answer is [%s]' % ', '.join(map(str, got)))

    def t_multiple(self, eng, st, value):
        for s in self.ask(eng, st, 'set_multiple_selection',
                          [Const(value)]):
            self.expect(s, 'set_multiple_selection', self.told(
                s, 'selection', 'set_mode'), [Const(3 if value else 1)],
                'the mode of the selection is not the one asked for')

    def t_separator(self, eng, st, func):
        fn = ExtFn('B:sep') if func else NONE
        ci = self.prog.cls(*WIDGET)
        for s in self.ask(eng, st, 'set_row_separator_func', [fn]):
            got = self.told(s, 'widget', 'set_row_separator_func')
            self.checked += 1
            if not got:
                self.bad(s, 'no separators', 'TreeView.'
                         'set_row_separator_func', 'GTK is not told')
                continue
            a = got[-1]
            if a[0] == NONE:
                if func:
                    self.bad(s, 'no separators', 'TreeView.'
                             'set_row_separator_func', 'GTK is not told')
                continue
            p = s.x['rows'][0][0]
            x = self.row(s, p)[2][0]
            for t, v in eng.call(s, a[0], [self.model, self.new_iter(
                    s, p)] + list(a[1:] or (NONE,)), {}, Ctx(
                        None, None, ci.module, ci), None):
                if isinstance(v, Exc):
                    self.good([(t, v)], 'asking for a separator')
                    continue
                calls = [c for c in t.x['calls'] if c[0] == 'sep']
                want = [('sep', (self.node[x],))] if func else []
                if calls != want:
                    self.bad(t, 'wrong separators', 'TreeView.'
                             '_separator_func', 'the function is not called '
                             'with the node of the row')
                elif func and v != Opq('separator') or \
                        not func and v not in (FALSE, NONE):
                    self.bad(t, 'wrong separators', 'TreeView.'
                             '_separator_func', 'the answer is not that of '
                             'the function')

    def t_again(self, eng, st):
        """The widget is shown again: nothing changes."""
        for s in self.ask(eng, st, 'show', []):
            have = [self.path_of(s, r[0]) for r in s.x['rows']]
            self.checked += 1
            if sorted(have, key=repr) != sorted(self.first, key=repr):
                self.bad(s, 'rows shown twice', 'TreeView.show', 'showing '
                         'the widget again changes the rows')
                continue
            p = self.first[-1]
            for t in self.tell(eng, s, 'deleted', p):
                if len(t.x['rows']) != len(self.first) - 1:
                    self.bad(t, 'rows shown twice', 'TreeView.show', 'a row '
                             'is still there after it was deleted')

    # rows of a node are collapsed, expanded
    def turned(self, st, what):
        """Rows turned, as paths of the view"""
        out = []
        for a in self.told(st, 'widget', what):
            idx = self.indices(st, a[0]) if a else None
            p = self.at(st, idx) if idx else None
            out.append(None if p is None else self.path_of(st, p))
        return out

    def t_turn(self, eng, st, how, path, later=None):
        what = {'collapse': 'collapse_row', 'expand': 'expand_row'}[how]
        other = {'collapse': 'expand_row', 'expand': 'collapse_row'}[how]
        name = how + '_node'
        ci = self.prog.cls(*WIDGET)
        x = path[-1]
        for s in self.ask(eng, st, name, [Tup(path)]):
            want = sorted((p for p in s.x['shown'] if p[-1] == x), key=repr)
            front = [s]
            self.checked += 1
            if want and self.told(s, 'view', 'queue_action'):
                self.bad(s, 'turned twice', 'TreeView.' + name, 'the row of '
                         '%s is turned, and again by an action which waits '
                         'for it' % x)
                continue
            if not want:
                acts = self.told(s, 'view', 'queue_action')
                self.checked += 1
                if len(acts) != 1 or acts[0][0] != x:
                    self.bad(s, 'nothing waits', 'TreeView.' + name, 'no '
                             'action waits for %s to be shown' % x)
                    continue
                if self.turned(s, what) or self.turned(s, other):
                    self.bad(s, 'wrong row', 'TreeView.' + name, 'a row is '
                             'turned although %s is not shown' % x)
                    continue
                front = []
                for t in self.tell(eng, s, 'added', later):
                    a = acts[0]
                    t.x['calls'] = ()
                    front.extend(self.good(eng.call(
                        t, a[1], list(a[2:3]) or [NONE], {}, Ctx(
                            None, None, ci.module, ci), None),
                        'the waiting action'))
                want = [later]
            for t in front:
                got = self.turned(t, what)
                self.checked += len(want) + 1
                if self.turned(t, other):
                    self.bad(t, 'wrong row', 'TreeView.' + name, '%s() is '
                             'called' % other)
                elif set(got) != set(want):
                    self.bad(t, 'wrong row', 'TreeView.' + name, '%s() is '
                             'called for %s and not %s' % (
                                 what, self.many(got), self.many(want)))

    def many(self, ps):
        return ', '.join('a row which is not there' if p is None else
                         show_path(p) for p in ps) or 'no row'

    def t_signal(self, eng, st, how, path):
        """The user turned a row."""
        signal = 'row-' + how
        hs = [r for sig, r in st.x['acts'] if isinstance(sig, Const) and
              sig.v.replace('_', '-') == signal]
        self.checked += 1
        if len(hs) != 1:
            return self.bad(st, 'signal without a handler',
                            'TreeView.__init__', '%d handlers of %s' % (
                                len(hs), signal))
        p = self.ptr_of(st, path)
        ci = self.prog.cls(*WIDGET)
        args = [self.widget, self.new_iter(st, p), self.new_path(
            st, self.where(st, p))] + list(hs[0][1:])
        for s in self.good(eng.call(st, hs[0][0], args, {}, Ctx(
                None, None, ci.module, ci), None), signal):
            got = self.told(s, 'widget', 'emit')
            self.checked += 1
            if len(got) != 1 or len(got[0]) < 2 or got[0][0] != Const(
                    'node-' + how):
                self.bad(s, 'wrong signal', 'TreeView.__emit', 'node-%s is '
                         'not emitted once' % how)
            elif isinstance(got[0][1], Tup) and tuple(
                    got[0][1].items) != path:
                self.bad(s, 'wrong signal', 'TreeView.__emit', 'node-%s is '
                         'emitted with %s instead of %s' % (
                             how, self.many([got[0][1].items]),
                             show_path(path)))

    def t_toggle(self, eng, st, hows, path, other=None, late=None):
        """A row gets its first child, after its node was collapsed or
        expanded (and before or after that another one was collapsed or
        expanded)."""
        hs = [r for sig, r in st.x['acts'] if isinstance(sig, Const) and
              sig.v.replace('_', '-') == 'model:row-has-child-toggled']
        if not hs:
            return self.bad(st, 'signal without a handler',
                            'TreeView.__init__', 'rows which get children '
                            'are not expanded')
        ci = self.prog.cls(*WIDGET)
        front = [st]
        for how, row in ([('collapse', other)] if other else []) + [
                (how, path) for how in hows] + ([late] if late else []):
            front = [t for s in front for t in self.ask(
                eng, s, how + '_node', [Tup(row)])]
        for s in front:
            s.x['calls'] = ()
            p = self.ptr_of(s, path)
            for h in hs:
                for t in self.good(eng.call(s, h[0], [
                        self.model, self.new_path(s, self.where(s, p)),
                        self.new_iter(s, p)] + list(h[1:]), {}, Ctx(
                            None, None, ci.module, ci), None),
                        'row-has-child-toggled'):
                    self.checked += 1
                    got = self.turned(t, 'expand_row')
                    was = [c[1] for c in t.x['calls'] if c[0] == 'expanded?']
                    closed = hows[-1:] == ('collapse',)
                    if any(q != path for q in got):
                        self.bad(t, 'wrong row', 'TreeView.on_child_toggled',
                                 'another row is expanded')
                    elif closed and got:
                        self.bad(t, 'collapsed node expanded', 'TreeView.'
                                 'on_child_toggled', 'the row of a collapsed '
                                 'node is expanded')
                    elif not closed and not got and True not in was:
                        self.bad(t, 'row not expanded', 'TreeView.'
                                 'on_child_toggled', 'a row which gets '
                                 'children is not expanded')

    def ext_call(self, eng, st, fn, args, kw, ctx, node):
        if fn.name.startswith('S:'):
            self.note(st, 'sorted', fn.name[2:], tuple(args))
            return [(st, Opq('sorted:' + fn.name[2:]))]
        if fn.name.startswith('B:'):
            self.note(st, 'sep', tuple(args))
            return [(st, Opq('separator'))]
        return Widget.ext_call(self, eng, st, fn, args, kw, ctx, node)


def show_task(task):
    return '%s %s' % (task[0], ', '.join(
        show_path(a) if isinstance(a, tuple) and a and isinstance(
            a[0], Sym) else 'then %s %s' % (a[0], show_path(a[1])) if
        isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple)
        else str(a) for a in task[1:] if a is not None))


def widget_scenarios(tier):
    out = []

    def add(label, links, cols, tasks, **kw):
        out.append((label, dict(links=links, cols=cols, tasks=tasks, **kw)))
    plain = [('one', {}), ('two', {})]

    def about(names):
        t = [('names',), ('again',), ('color', 'none')]
        t += [('paint', n, c) for n in names for c in [None] + names]
        for n in names:
            t += [('visible', n, False), ('visible', n, True),
                  ('resizable', n, False), ('resizable', n, True),
                  ('search', n), ('expander', n), ('sort', n, 0),
                  ('sort', n, 1), ('color', n)]
        return t
    add('columns in natural order', FLAT, plain, about(['one', 'two']))
    add('columns with an order', FLAT,
        [('one', {'order': 3}), ('two', {'order': 1}), ('last', {}),
         ('three', {'order': 2, 'renderer': 'text'})],
        about(['one', 'two', 'three', 'last']))
    add('two columns of the same order', FLAT,
        [('one', {'order': 1}), ('two', {'order': 0}),
         ('also', {'order': 1, 'renderer': 'text'})],
        about(['one', 'two', 'also']))
    add('described columns', FLAT,
        [('one', {'title': 'First', 'visible': False}),
         ('two', {'expandable': True, 'resizable': False,
                  'renderer': 'markup'}),
         ('three', {'title': 'Third', 'order': 5, 'renderer': 'pixbuf'})],
        about(['one', 'two', 'three']))
    add('cells in one column', FLAT,
        [('one', {'renderer': 'text'}),
         ('two', {'new_column': False, 'renderer': 'pixbuf'}),
         ('three', {})], about(['one', 'two', 'three']))
    add('the first column is not a new one', FLAT,
        [('one', {'new_column': False}),
         ('two', {'new_column': False, 'renderer': 'pixbuf'}),
         ('three', {})], about(['one', 'three']))
    add('sorted columns', FLAT,
        [('one', {'sorting': 'one'}), ('two', {'sorting_func': True}),
         ('three', {'sorting': 'one'}),
         ('four', {'sorting_func': True, 'order': 1})],
        about(['one', 'two']) + [
            ('sorter', n, o) for n in ('two', 'four') for o in (0, 1)])
    for name, links in (('three nodes', FLAT), ('two levels', DEEP),
                        ('two parents', MANY), ('three levels', DOWN)):
        rows = Widget.all_paths(Widget, dict(links))
        tasks = [('selected', ())] + [('selected', (p,)) for p in rows] + [
            ('selected', tuple(rows)), ('selected', tuple(rows[1:3])),
            ('multiple', True), ('multiple', False), ('separator', True),
            ('separator', False)]
        for p in rows:
            for hows in ((), ('collapse',), ('expand',), ('collapse',
                         'expand'), ('expand', 'collapse'),
                         ('collapse', 'collapse', 'expand')):
                tasks.append(('toggle', hows, p))
                tasks += [('toggle', hows, p, q) for q in rows
                          if q[-1] not in p and p[-1] not in q]
                if len(hows) < 2:
                    tasks += [('toggle', hows, p, None, (how, q))
                              for q in rows for how in ('collapse', 'expand')
                              if q[-1] not in p and p[-1] not in q]
            for how in ('collapse', 'expand'):
                tasks += [('turn', how, p), ('signal', how + (
                    'd' if how[-1] == 'e' else 'ed'), p)]
        add(name, links, plain, tasks)
        gone = rows[-1]
        add('%s, %s is hidden' % (name, gone[-1]), links, plain, [
            ('turn', how, gone, gone) for how in ('collapse', 'expand')],
            absent=(gone[-1],))
    return out


def widget_job(prog, res, index, tier):
    label, kw = widget_scenarios(tier)[index]
    w = Columns(prog, res, label, **kw)
    eng = Engine(prog, w)
    try:
        w.run(eng)
    except Budget as e:
        eng.incomplete.add(str(e))
    res.cases += w.events
    res.obligations += w.checked
    res.count(eng)


def widget_jobs(prog, tier):
    return [('widget: ' + label, widget_job, (i, tier))
            for i, (label, _) in enumerate(widget_scenarios(tier))]
