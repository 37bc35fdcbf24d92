"""Abstract semantics of builtins, of container methods and of the
few library calls the repository uses."""
import ast

from .values import *
from .conts import exc

EXC_BASES = {
    'BaseException': None, 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException',
    'LookupError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception',
    'AssertionError': 'Exception', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OSError': 'Exception',
    'IOError': 'OSError', 'UnicodeError': 'ValueError',
    'ImportError': 'Exception', 'MemoryError': 'Exception',
    'Warning': 'Exception', 'DeprecationWarning': 'Warning',
    'UserWarning': 'Warning', 'ListenerError': 'Exception',
}


def is_exc_name(n):
    return n.split('.')[-1] in EXC_BASES


NAMES = {
    'len', 'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted',
    'reversed', 'enumerate', 'range', 'zip', 'any', 'all', 'min', 'max',
    'sum', 'print', 'str', 'repr', 'isinstance', 'issubclass', 'getattr',
    'setattr', 'hasattr', 'callable', 'bool', 'int', 'float', 'id', 'iter',
    'next', 'map', 'filter', 'type', 'super', 'object', 'hash', 'abs',
    'open', 'vars', 'dir', 'format', 'round', 'delattr', 'divmod', 'chr',
    'ord', 'input', 'bytes', 'property', 'staticmethod', 'classmethod',
    'globals', 'locals',
}

QUIET = ('traceback.', 'logging.', 'sys.', 'warnings.', 'time.', 'os.')


def plain(st, v):
    """The Python value of a constant ((value,)) or of a sequence of
    constants, else None."""
    if isinstance(v, Const):
        return (v.v,)
    items = None
    if isinstance(v, Tup):
        items = v.items
    elif st is not None and isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, Cont) and c.exact and c.kind in ('list', 'deque'):
            items = c.items
    if items is None or not all(isinstance(x, Const) for x in items):
        return None
    return tuple(x.v for x in items)


class Builtins:

    def is_builtin(self, n):
        return n in NAMES or n in EXC_BASES

    def each(self, outs, f):
        res = []
        for s, v in outs:
            if isinstance(v, Exc):
                res.append((s, v))
            else:
                res.extend(f(s, v))
        return res

    # ---- builtin functions ----------------------------------------------
    def builtin(self, st, name, args, kw, ctx, node):
        if name in EXC_BASES:
            return [(st, ExcObj(name, tuple(args)))]
        m = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kw, ctx, node)
        if name == 'print':
            return [(st, NONE)]
        if name in ('str', 'repr', 'format'):
            if len(args) == 1 and isinstance(args[0], Const) and \
                    isinstance(args[0].v, str) and name == 'str':
                return [(st, args[0])]
            if len(args) == 1 and isinstance(args[0], Sym) and \
                    not args[0].isint and name == 'str':
                return [(st, args[0])]
            if len(args) == 1 and isinstance(args[0], Const) and \
                    isinstance(args[0].v, int) and name == 'str':
                return [(st, Const(str(args[0].v)))]
            return [(st, STR)]
        if name in ('id', 'hash', 'abs', 'round', 'float', 'ord', 'divmod'):
            return [(st, Num(None, None))]
        if name == 'callable':
            if args and isinstance(args[0], (Clo, Part, ExtFn, Bi, Cls,
                                             Meth)):
                return [(st, TRUE)]
            if args and isinstance(args[0], (Const, Tup, Sym)):
                return [(st, FALSE)]
        if name == 'object':
            return [(st, st.new(Inst('ext:object', {})))]
        st.doubt('builtin %s' % name)
        return [(st, Top('builtin ' + name))]

    def bi_super(self, st, args, kw, ctx, node):
        if len(args) == 2 and isinstance(args[0], Cls) and \
                isinstance(args[1], Ref):
            return [(st, Super(args[0].ci, args[1]))]
        st.doubt('builtin super')
        return [(st, Top('builtin super'))]

    def bi_len(self, st, args, kw, ctx, node):
        v = args[0]
        if isinstance(v, Tup):
            return [(st, Const(len(v.items)))]
        if isinstance(v, PathV):
            return [(st, Num(len(v.suffix), None))]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [(st, Const(len(v.v)))]
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Cont):
                self.scen.on_read(self, st, v.a, 'len', ctx, node)
                return self.length(st, v.a)
            if not isinstance(o.cls, str):
                m = self.prog.find_method(o.cls, '__len__')
                if m:
                    return self.call(st, Clo(m, None, v), [], {}, ctx, node)
            return [(st, exc('TypeError', ctx, node))]
        if isinstance(v, View) and v.kind in ('keys', 'values', 'items'):
            return self.length(st, v.src.a)
        if isinstance(v, (Sym, Opq)):
            if isinstance(v, Opq) and v.top:
                st.doubt('len of an untracked value')
            return [(st, Num(0, None))]
        return [(st, exc('TypeError', ctx, node))]

    def make(self, st, kind, args, ctx, node):
        if not args:
            return [(st, st.new(Cont(kind)))]

        def f(s, c):
            if kind == 'set':
                c = self.dedup_cont(c)
            return [(s, s.new(c.with_(kind=kind, vals={}, gen=None,
                                      dflt=None)))]
        return self.each(self.as_cont(st, args[0], ctx, node), f)

    def bi_list(self, st, args, kw, ctx, node):
        return self.make(st, 'list', args, ctx, node)

    def bi_set(self, st, args, kw, ctx, node):
        return self.make(st, 'set', args, ctx, node)

    bi_frozenset = bi_set

    def bi_sorted(self, st, args, kw, ctx, node):
        def f(s, c):
            if kw and c.exact and len(c.items) > 1:
                return [(s, s.new(self.abstracted(c.with_(
                    kind='list', vals={}, gen=None))))]
            return [(s, s.new(self.unordered(c)))]
        return self.each(self.as_cont(st, args[0], ctx, node), f)

    def unordered(self, c):
        c = c.with_(kind='list', vals={}, gen=None)
        if c.exact and len(c.items) > 1 and any(
                plain(None, x) is None for x in c.items):
            return self.abstracted(c)
        if c.exact and len(c.items) > 1:
            try:
                return c.with_(items=tuple(sorted(
                    c.items, key=lambda x: plain(None, x)[0]
                    if isinstance(x, Const) else plain(None, x))))
            except TypeError:
                return self.abstracted(c)
        return c

    def bi_tuple(self, st, args, kw, ctx, node):
        if not args:
            return [(st, Tup(()))]
        if isinstance(args[0], (Tup, PathV)):
            return [(st, args[0])]

        def f(s, c):
            if c.exact:
                return [(s, Tup(c.items))]
            return [(s, s.new(c.with_(kind='list', vals={}, gen=None)))]
        return self.each(self.as_cont(st, args[0], ctx, node), f)

    def bi_dict(self, st, args, kw, ctx, node):
        if not args:
            return [(st, st.new(Cont('dict', items=[
                (Const(k), v) for k, v in kw.items()])))]
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont):
            c = st.heap[v.a]
            self.scen.on_read(self, st, v.a, 'copy', ctx, node)
            if c.kind == 'dict':
                if not c.exact:
                    for k in self.named(c):
                        self.lookup(st, v.a, k)
                    c = st.heap[v.a]
                r = st.new(c.with_(dflt=None))
                states = [st]
                for k, x in kw.items():
                    nxt = []
                    for s in states:
                        nxt.extend(self.setitem(s, r.a, Const(k), x, ctx,
                                                node))
                    states = nxt
                return [(s, r) for s in states]
        out = []
        for s, c in self.as_cont(st, v, ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if c.exact and all(isinstance(x, Tup) and len(x.items) == 2
                               for x in c.items):
                r = s.new(Cont('dict'))
                states = [s]
                for x in c.items:
                    nxt = []
                    for s1 in states:
                        nxt.extend(self.setitem(s1, r.a, x.items[0],
                                                x.items[1], ctx, node))
                    states = nxt
                out.extend((s1, r) for s1 in states)
            else:
                s.doubt('dict()')
                out.append((s, Top('dict()')))
        return out

    def bi_dict_fromkeys(self, st, args, kw, ctx, node):
        val = args[1] if len(args) > 1 else NONE

        def f(s, c):
            c = self.dedup_cont(c, 'list')
            if c.exact:
                return [(s, s.new(Cont('dict', items=[
                    (x, val) for x in c.items])))]
            return [(s, s.new(c.with_(kind='dict', vals={
                k: val for k in c.mem})))]
        return self.each(self.as_cont(st, args[0], ctx, node), f)

    def bi_reversed(self, st, args, kw, ctx, node):
        v = args[0]
        if isinstance(v, Tup):
            return [(st, Tup(reversed(v.items)))]
        if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont) and \
                st.heap[v.a].kind == 'set':
            return [(st, exc('TypeError', ctx, node))]
        if isinstance(v, Opq):
            st.doubt('reversed of an untracked value')
        return [(st, View('rev', v))]

    def bi_enumerate(self, st, args, kw, ctx, node):
        start = args[1] if len(args) > 1 else kw.get('start', Const(0))
        if isinstance(start, Const):
            return [(st, View('enum', args[0], start.v))]
        return [(st, View('enum', args[0], 0))]

    def bi_iter(self, st, args, kw, ctx, node):
        if len(args) > 1:
            st.doubt('iter with a sentinel')
            return [(st, Top('iter'))]
        return [(st, View('iter', args[0]))]

    def bi_next(self, st, args, kw, ctx, node):
        v = args[0]
        if isinstance(v, (View, Ref)):
            out = []
            src = v.src if isinstance(v, View) and v.kind == 'iter' else v
            for s, c in self.as_cont(st, src, ctx, node):
                if isinstance(c, Exc):
                    out.append((s, c))
                    continue
                r = s.new(c)
                for s2, b in self.nonempty(s, r.a):
                    if not b:
                        out.append((s2, args[1] if len(args) > 1 else
                                    exc('StopIteration', ctx, node)))
                    elif c.exact:
                        out.append((s2, c.items[0]))
                    else:
                        out.extend(self.pick(s2, r.a))
            return out
        st.doubt('next')
        return [(st, Top('next'))]

    def bi_range(self, st, args, kw, ctx, node):
        if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            xs = list(range(*[a.v for a in args]))
            if len(xs) <= 20:
                return [(st, Tup(Const(x) for x in xs))]
        st.doubt('range of unknown size')
        return [(st, st.new(Cont('list', exact=False, oth='maybe')))]

    def bi_zip(self, st, args, kw, ctx, node):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, cs in outs:
                if isinstance(cs, Exc):
                    nxt.append((s, cs))
                    continue
                for s2, c in self.as_cont(s, a, ctx, node):
                    nxt.append((s2, c if isinstance(c, Exc) else cs + [c]))
            outs = nxt
        res = []
        for s, cs in outs:
            if isinstance(cs, Exc):
                res.append((s, cs))
            elif all(c.exact for c in cs):
                res.append((s, s.new(Cont('list', items=[
                    Tup(t) for t in zip(*[c.items for c in cs])]))))
            else:
                s.doubt('zip')
                res.append((s, s.new(Cont('list', exact=False,
                                          oth='maybe'))))
        return res

    def bool_list(self, st, v, ctx, node, want):
        """any (want True) / all (want False: is there a false one?)"""
        out = []
        for s, c in self.as_cont(st, v, ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            states = [s]
            items = c.items if c.exact else [
                k for k in c.mem if c.mem[k] != 0]
            for x in items:
                nxt = []
                for s1 in states:
                    m = 1 if c.exact else c.mem[x]
                    for s2, there in self.decide(s1, m):
                        if not there:
                            nxt.append(s2)
                            continue
                        for s3, t in self.truth(s2, x):
                            if t == want:
                                out.append((s3, TRUE))
                            else:
                                nxt.append(s3)
                states = nxt
            for s1 in states:
                if c.exact or c.oth == 'no':
                    out.append((s1, FALSE))
                    continue
                r = s1.new(c)
                for s2, b in self.has_others(s1, r.a):
                    if not b:
                        out.append((s2, FALSE))
                    elif c.shapes and all(
                            isinstance(x, Const) for x in c.shapes):
                        if any(bool(x.v) == want for x in c.shapes):
                            out.append((s2.copy(), TRUE))
                        out.append((s2, FALSE))
                    elif c.shapes and want and all(
                            x == PLACE or isinstance(x, Tup)
                            for x in c.shapes):
                        out.append((s2, TRUE))
                    else:
                        out.extend((s3, mkbool(x)) for s3, x in
                                   self.both(s2, 'any/all'))
        return out

    def bi_any(self, st, args, kw, ctx, node):
        return self.bool_list(st, args[0], ctx, node, True)

    def bi_all(self, st, args, kw, ctx, node):
        return [(s, r if isinstance(r, Exc) else mkbool(r == FALSE))
                for s, r in self.bool_list(st, args[0], ctx, node, False)]

    def extremum(self, st, args, kw, ctx, node, f):
        if len(args) == 1:
            out = []
            for s, c in self.as_cont(st, args[0], ctx, node):
                if isinstance(c, Exc):
                    out.append((s, c))
                    continue
                r = s.new(c)
                for s2, b in self.nonempty(s, r.a):
                    if not b:
                        if 'default' in kw:
                            out.append((s2, kw['default']))
                        else:
                            out.append((s2, exc('ValueError', ctx, node)))
                    elif c.exact and all(isinstance(x, Const)
                                         for x in c.items):
                        out.append((s2, Const(f(x.v for x in c.items))))
                    else:
                        s2.doubt('min/max')
                        out.extend(self.pick(s2, r.a) if not c.exact else
                                   [(s2, c.items[0])])
            return out
        if all(isinstance(a, Const) for a in args):
            return [(st, Const(f(a.v for a in args)))]
        st.doubt('min/max')
        return [(st, Num(None, None))]

    def bi_min(self, st, args, kw, ctx, node):
        return self.extremum(st, args, kw, ctx, node, min)

    def bi_max(self, st, args, kw, ctx, node):
        return self.extremum(st, args, kw, ctx, node, max)

    def bi_sum(self, st, args, kw, ctx, node):
        out = []
        for s, c in self.as_cont(st, args[0], ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if c.exact:
                outs = [(s, args[1] if len(args) > 1 else Const(0))]
                for x in c.items:
                    nxt = []
                    for s1, t in outs:
                        if isinstance(t, Exc):
                            nxt.append((s1, t))
                        else:
                            nxt.extend(self.binop(s1, ast.Add(), t, x, ctx,
                                                  node))
                    outs = nxt
                out.extend(outs)
            else:
                ks = [k for k in c.mem if c.mem[k] != 0]
                if len(ks) == 1 and c.oth == 'no' and isinstance(
                        ks[0], Const):
                    pass
                out.append((s, Num(None, None)))
        return out

    def bi_bool(self, st, args, kw, ctx, node):
        if not args:
            return [(st, FALSE)]
        return [(s, mkbool(t)) for s, t in self.truth(st, args[0])]

    def bi_int(self, st, args, kw, ctx, node):
        if args and isinstance(args[0], Const):
            try:
                return [(st, Const(int(args[0].v)))]
            except (ValueError, TypeError):
                return [(st, exc('ValueError', ctx, node))]
        return [(st, Num(None, None))]

    def kind_of(self, st, v):
        if isinstance(v, Const):
            return v._k[0]
        if isinstance(v, Sym):
            return 'int' if v.isint else 'str'
        if isinstance(v, (Tup, PathV)):
            return 'tuple'
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Cont):
                return o.kind
        if isinstance(v, FB):
            return 'bool'
        if isinstance(v, Num):
            return 'int'
        if v == STR:
            return 'str'
        return None

    def bi_isinstance(self, st, args, kw, ctx, node):
        v, t = args
        ts = t.items if isinstance(t, Tup) else (t,)
        k = self.kind_of(st, v)
        res = False
        for x in ts:
            if isinstance(x, Bi):
                if k is None and not isinstance(v, Ref):
                    if isinstance(v, ExcObj):
                        r = self.matches(ast.Name(x.name, ast.Load()),
                                         Exc(v, ''), st, ctx)
                        if r:
                            res = True
                        continue
                    if isinstance(v, (Clo, Part, ExtFn)):
                        continue
                    return [(s, mkbool(b)) for s, b in self.both(
                        st, 'isinstance')]
                if x.name == k or x.name == 'object' or (
                        x.name == 'int' and k == 'bool'):
                    res = True
            elif isinstance(x, Cls):
                if isinstance(v, Ref):
                    o = st.heap[v.a]
                    if isinstance(o, Inst) and not isinstance(o.cls, str):
                        if x.ci in self.prog.mro(o.cls)[0]:
                            res = True
                elif isinstance(v, Opq):
                    return [(s, mkbool(b)) for s, b in self.both(
                        st, 'isinstance')]
            else:
                return [(s, mkbool(b)) for s, b in self.both(
                    st, 'isinstance')]
        return [(st, mkbool(res))]

    def bi_getattr(self, st, args, kw, ctx, node):
        if not isinstance(args[1], Const):
            st.doubt('getattr')
            return [(st, Top('getattr'))]
        out = []
        for s, v in self.getattr(st, args[0], args[1].v, ctx, node):
            if isinstance(v, Exc) and v.cls == 'AttributeError' and \
                    len(args) > 2:
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out

    def bi_hasattr(self, st, args, kw, ctx, node):
        if not isinstance(args[1], Const):
            st.doubt('hasattr')
            return [(st, Top('hasattr'))]
        return [(s, mkbool(not isinstance(v, Exc)))
                for s, v in self.getattr(st, args[0], args[1].v, ctx, node)]

    def bi_setattr(self, st, args, kw, ctx, node):
        if not isinstance(args[1], Const):
            st.doubt('setattr')
            return [(st, NONE)]
        return [(s, v if isinstance(v, Exc) else NONE)
                for s, v in self.setattr(st, args[0], args[1].v, args[2],
                                         ctx, node)]

    def bi_map(self, st, args, kw, ctx, node):
        out = []
        if len(args) != 2:
            st.doubt('map')
            return [(st, Top('map'))]
        for s, c in self.as_cont(st, args[1], ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            out.extend(self.map_filter(s, args[0], c, ctx, node, False))
        return out

    def bi_filter(self, st, args, kw, ctx, node):
        out = []
        for s, c in self.as_cont(st, args[1], ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            out.extend(self.map_filter(s, args[0], c, ctx, node, True))
        return out

    def map_filter(self, st, f, c, ctx, node, is_filter):
        """Through a synthesised loop, to share its fixpoint."""
        key = ('mapfilter', is_filter)
        syn = self._comp.get(key)
        if syn is None:
            src = ('for $x in $c:\n if $f($x):\n  $r.append($x)\n $x = None'
                   if is_filter else
                   'for $x in $c:\n $r.append($f($x))\n $x = None'
                   ).replace('$', 'zz_')
            syn = ast.parse(src).body[0]
            self._comp[key] = syn
        from .interp import Ctx
        r = st.new(Cont('list'))
        cc = st.new(c.with_(kind='list'))
        if f == NONE:
            f = Bi('bool')
        fid = self.push_frame(st, {'zz_r': r, 'zz_c': cc, 'zz_f': f,
                                   '$comp': TRUE}, None)
        c2 = Ctx(None, fid, ctx.module, ctx.cls)
        out = []
        for s, k, v in self.run_stmt(syn, st, c2):
            self.pop_frame(s, fid)
            out.append((s, v if k == 'exc' else r))
        return out

    def bi_type(self, st, args, kw, ctx, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Inst) and not isinstance(o.cls, str):
                return [(st, Cls(o.cls))]
            if isinstance(o, Cont):
                return [(st, Bi(o.kind))]
        k = self.kind_of(st, v)
        if k:
            return [(st, Bi(k))]
        st.doubt('type')
        return [(st, Top('type'))]

    # ---- methods of values ------------------------------------------------
    def method(self, st, obj, name, args, kw, ctx, node):
        if isinstance(obj, Ref):
            o = st.heap[obj.a]
            if isinstance(o, Cont):
                m = getattr(self, 'm_%s_%s' % (
                    'list' if o.kind == 'deque' else o.kind, name), None)
                if m is None:
                    m = getattr(self, 'm_any_' + name, None)
                if m is None:
                    known = {'list': list, 'set': set, 'dict': dict,
                             'deque': list}[o.kind]
                    if not hasattr(known, name) and o.kind != 'deque':
                        return [(st, exc('AttributeError', ctx, node,
                                         Const(name)))]
                    st.doubt('method %s of a %s' % (name, o.kind))
                    return [(st, Top('method ' + name))]
                if name not in ('append', 'add'):
                    self.scen.on_read(self, st, obj.a, name, ctx, node)
                return m(st, obj.a, args, kw, ctx, node)
            return self.ext_inst_call(st, obj, name, args, kw, ctx, node)
        if isinstance(obj, Sym):
            r = self.scen.sym_method(self, st, obj, name, args, kw, ctx,
                                     node)
            if r is not None:
                return r
            if name in ('strip', 'rstrip', 'lstrip'):
                return [(st, obj)]
            if name in ('startswith', 'endswith'):
                return [(st, FB(('str', name, obj, tuple(args))))]
            if name in ('format', 'replace', 'lower', 'upper', 'join',
                        'encode', 'decode', 'title', 'ljust', 'rjust'):
                return [(st, STR)]
            st.doubt('method %s of an identifier' % name)
            return [(st, Top('method'))]
        if isinstance(obj, Const) and isinstance(obj.v, (str, bytes)):
            if name == 'join' and len(args) == 1:
                parts = None if isinstance(args[0], Const) else plain(
                    st, args[0])
                if parts is not None and all(
                        isinstance(x, type(obj.v)) for x in parts):
                    return [(st, Const(obj.v.join(parts)))]
            if name in ('format', 'join'):
                return [(st, STR)]
            if all(isinstance(a, Const) for a in args) and not kw:
                try:
                    r = getattr(obj.v, name)(*[a.v for a in args])
                    if isinstance(r, (str, bool, int, bytes)):
                        return [(st, Const(r))]
                    if isinstance(r, list):
                        return [(st, st.new(Cont('list', items=[
                            Const(x) for x in r])))]
                    if isinstance(r, tuple):
                        return [(st, Tup([Const(x) for x in r]))]
                except ValueError:
                    return [(st, exc('ValueError', ctx, node))]
                except Exception:
                    pass
            return [(st, STR)]
        if isinstance(obj, Opq):
            r = self.scen.ext_method(self, st, obj, name, args, kw, ctx,
                                     node)
            if r is not None:
                return r
            if obj.tag == 'str':
                if name in ('split', 'rsplit', 'splitlines'):
                    return [(st, st.new(Cont('list', exact=False,
                                             oth='some', shapes=(STR,))))]
                if name in ('startswith', 'endswith', 'isdigit'):
                    return [(s, mkbool(b)) for s, b in self.both(st)]
                return [(st, STR)]
            st.doubt('method %s of an untracked value' % name)
            return [(st, Top('method'))]
        if isinstance(obj, Tup):
            if name == 'index':
                for i, x in enumerate(obj.items):
                    if x == args[0]:
                        return [(st, Const(i))]
                return [(st, exc('ValueError', ctx, node))]
            if name == 'count':
                return [(st, Const(sum(x == args[0] for x in obj.items)))]
        if isinstance(obj, View):
            if name in ('isdisjoint', 'mapping'):
                st.doubt('dict view method')
        if isinstance(obj, ExtFn):
            return self.scen.ext_call(self, st, ExtFn(
                obj.name + '.' + name), args, kw, ctx, node)
        if isinstance(obj, (ExcObj, PathV)):
            return [(st, STR)]
        st.doubt('method %s of a value' % name)
        return [(st, Top('method'))]

    def ext_inst_call(self, st, obj, name, args, kw, ctx, node):
        o = st.heap[obj.a]
        if o.cls in ('ext:Lock', 'ext:RLock'):
            return self.lock_op(st, obj, name, ctx, node)
        r = self.scen.ext_method(self, st, obj, name, args, kw, ctx, node)
        if r is not None:
            return r
        if o.cls == 'ext:object':
            return [(st, exc('AttributeError', ctx, node, Const(name)))]
        if not isinstance(o.cls, str) and not self.prog.mro(o.cls)[1]:
            return [(st, exc('AttributeError', ctx, node, Const(name)))]
        self.escape(st, args, kw)
        return [(st, Top('%s()' % name))]

    def escape(self, st, args, kw):
        for v in list(args) + list(kw.values()):
            if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont):
                st.doubt('a container is handed to unknown code')

    def lock_op(self, st, obj, name, ctx, node):
        if name in ('__enter__',):
            name = 'acquire'
        if name in ('__exit__',):
            name = 'release'
        held = st.x.get('locks', ())
        o = st.heap[obj.a]
        if name == 'acquire':
            if obj.a in held and o.cls == 'ext:Lock':
                self.scen.on_lock(self, st, obj.a, 'deadlock', ctx, node)
                return []
            out = []
            for s in ([st] if held else self.scen.switch(
                    self, st, 'acquire', ctx, node)):
                s.x['locks'] = s.x.get('locks', ()) + (obj.a,)
                self.scen.on_lock(self, s, obj.a, 'acquire', ctx, node)
                out.append((s, TRUE))
            return out
        if name == 'release':
            if obj.a not in held:
                self.scen.on_lock(self, st, obj.a, 'bad release', ctx, node)
                return [(st, exc('RuntimeError', ctx, node))]
            h = list(held)
            h.reverse()
            h.remove(obj.a)
            h.reverse()
            st.x['locks'] = tuple(h)
            self.scen.on_lock(self, st, obj.a, 'release', ctx, node)
            if h:
                return [(st, NONE)]
            return [(s, NONE) for s in self.scen.switch(
                self, st, 'release', ctx, node)]
        if name == 'locked':
            return [(st, mkbool(obj.a in held))]
        st.doubt('lock method %s' % name)
        return [(st, Top('lock'))]

    # lists ---------------------------------------------------------------
    def m_list_append(self, st, a, args, kw, ctx, node):
        return [(s, NONE) for s in self.add(st, a, args[0], ctx, node)]

    def m_list_appendleft(self, st, a, args, kw, ctx, node):
        return [(s, NONE) for s in self.add(st, a, args[0], ctx, node, 0,
                                            'insert')]

    def m_list_insert(self, st, a, args, kw, ctx, node):
        pos = args[0].v if isinstance(args[0], Const) else None
        return [(s, NONE) for s in self.add(st, a, args[1], ctx, node, pos,
                                            'insert')]

    def m_list_extend(self, st, a, args, kw, ctx, node):
        out = []
        for s, c in self.as_cont(st, args[0], ctx, node):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if c.exact:
                states = [s]
                for x in c.items:
                    nxt = []
                    for s1 in states:
                        nxt.extend(self.add(s1, a, x, ctx, node))
                    states = nxt
                out.extend((s1, NONE) for s1 in states)
                continue
            was_empty = s.heap[a].exact and not s.heap[a].items
            self.to_abstract(s, a)
            states = [s]
            for k in self.named(c):
                nxt = []
                for s1 in states:
                    if was_empty and isinstance(c.mem[k], FV):
                        self.put_mem(s1, a, k, c.mem[k])
                        nxt.append(s1)
                        continue
                    for s2, b in self.decide(s1, c.mem[k]):
                        if b:
                            nxt.extend(self.add(s2, a, k, ctx, node))
                        else:
                            nxt.append(s2)
                states = nxt
            for s1 in states:
                d = s1.heap[a]
                if c.oth != 'no':
                    if was_empty:
                        oth = c.oth
                        s1.heap[a] = d.with_(oth=oth, shapes=c.shapes,
                                             origin=c.origin)
                    else:
                        o1, o2 = d.oth, c.oth
                        oth = 'some' if 'some' in (o1, o2) else (
                            o2 if o1 == 'no' else 'maybe')
                        for o in (o1, o2):
                            if isinstance(o, FV) and s1.facts.get(
                                    o.name):
                                oth = 'some'
                        sh = tuple(sorted(set(
                            (d.shapes or ((PLACE,) if d.oth != 'no'
                                          else ())) +
                            (c.shapes or (PLACE,))), key=repr))
                        s1.heap[a] = d.with_(oth=oth, shapes=sh,
                                             origin=None)
                    self.touched(s1, a, 'extend', None, ctx, node)
                out.append((s1, NONE))
        return out

    def m_list_remove(self, st, a, args, kw, ctx, node):
        out = []
        for s, b in self.contains(st, a, args[0]):
            if b:
                out.extend((s2, NONE) for s2 in self.take(
                    s, a, args[0], ctx, node))
            else:
                if anons(args[0]):
                    s.doubt('removal of an anonymous element')
                out.append((s, exc('ValueError', ctx, node)))
        return out

    def m_list_pop(self, st, a, args, kw, ctx, node):
        c = st.heap[a]
        if c.exact:
            k = args[0] if args else Const(-1)
            if isinstance(k, Const) and isinstance(k.v, int):
                items = list(c.items)
                try:
                    x = items.pop(k.v)
                except IndexError:
                    return [(st, exc('IndexError', ctx, node))]
                st.heap[a] = c.with_(items=tuple(items))
                self.touched(st, a, 'pop', x, ctx, node)
                return [(st, x)]
            st.doubt('pop of an unknown position')
            return [(st, Top('pop'))]
        out = []
        for s, b in self.nonempty(st, a):
            if not b:
                out.append((s, exc('IndexError', ctx, node)))
                continue
            for s2, e in self.pick(s, a):
                for s3 in self.take(s2, a, e, ctx, node, 'pop'):
                    out.append((s3, e))
        return out

    def m_list_popleft(self, st, a, args, kw, ctx, node):
        return self.m_list_pop(st, a, [Const(0)], kw, ctx, node)

    def m_list_index(self, st, a, args, kw, ctx, node):
        c = st.heap[a]
        out = []
        for s, b in self.contains(st, a, args[0]):
            if not b:
                out.append((s, exc('ValueError', ctx, node)))
            elif c.exact:
                i = [x for x in c.items]
                out.append((s, Const(i.index(args[0]))
                            if args[0] in i else Num(0, None)))
            else:
                out.append((s, Num(0, None, 'index')))
        return out

    def m_list_count(self, st, a, args, kw, ctx, node):
        c = st.heap[a]
        if c.exact:
            return [(st, Const(sum(x == args[0] for x in c.items)))]
        out = []
        for s, b in self.contains(st, a, args[0]):
            m = s.heap[a].mem.get(args[0])
            out.append((s, Const(0) if not b else
                        Num(2, None) if m == 2 else Const(1)))
        return out

    def m_list_reverse(self, st, a, args, kw, ctx, node):
        c = st.heap[a]
        if c.exact:
            st.heap[a] = c.with_(items=tuple(reversed(c.items)))
        self.touched(st, a, 'reorder', None, ctx, node, size=False)
        return [(st, NONE)]

    def m_list_sort(self, st, a, args, kw, ctx, node):
        st.heap[a] = self.unordered(st.heap[a])
        self.touched(st, a, 'reorder', None, ctx, node, size=False)
        return [(st, NONE)]

    def m_any_clear(self, st, a, args, kw, ctx, node):
        self.clear(st, a, ctx, node)
        return [(st, NONE)]

    def m_any_copy(self, st, a, args, kw, ctx, node):
        c = st.heap[a]
        if c.kind == 'dict':
            return self.bi_dict(st, [Ref(a)], {}, ctx, node)
        return [(st, st.new(c))]

    # sets ----------------------------------------------------------------
    def m_set_add(self, st, a, args, kw, ctx, node):
        return [(s, NONE) for s in self.add(st, a, args[0], ctx, node)]

    def m_set_discard(self, st, a, args, kw, ctx, node):
        out = []
        for s, b in self.contains(st, a, args[0]):
            if b:
                out.extend((s2, NONE) for s2 in self.take(
                    s, a, args[0], ctx, node, 'discard'))
            else:
                out.append((s, NONE))
        return out

    def m_set_remove(self, st, a, args, kw, ctx, node):
        out = []
        for s, b in self.contains(st, a, args[0]):
            if b:
                out.extend((s2, NONE) for s2 in self.take(
                    s, a, args[0], ctx, node))
            else:
                if anons(args[0]):
                    s.doubt('removal of an anonymous element')
                out.append((s, exc('KeyError', ctx, node)))
        return out

    def m_set_pop(self, st, a, args, kw, ctx, node):
        self.to_abstract(st, a)
        out = []
        for s, b in self.nonempty(st, a):
            if not b:
                out.append((s, exc('KeyError', ctx, node)))
                continue
            for s2, e in self.pick(s, a):
                for s3 in self.take(s2, a, e, ctx, node, 'pop'):
                    out.append((s3, e))
        return out

    def m_set_update(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '|', args, ctx, node, True)

    def m_set_difference_update(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '-', args, ctx, node, True)

    def m_set_intersection_update(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '&', args, ctx, node, True)

    def m_set_union(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '|', args, ctx, node, False)

    def m_set_difference(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '-', args, ctx, node, False)

    def m_set_intersection(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '&', args, ctx, node, False)

    def m_set_symmetric_difference(self, st, a, args, kw, ctx, node):
        return self.set_op(st, a, '^', args, ctx, node, False)

    def set_op(self, st, a, op, args, ctx, node, inplace):
        outs = [(st, st.heap[a])]
        for v in args:
            nxt = []
            for s, c in outs:
                if isinstance(c, Exc):
                    nxt.append((s, c))
                    continue
                for s2, d in self.as_cont(s, v, ctx, node):
                    if isinstance(d, Exc):
                        nxt.append((s2, d))
                    else:
                        nxt.extend(self.combine(s2, op, c, d))
            outs = nxt
        res = []
        for s, c in outs:
            if isinstance(c, Exc):
                res.append((s, c))
            elif inplace:
                s.heap[a] = c.with_(kind='set')
                self.touched(s, a, 'replace', None, ctx, node)
                res.append((s, NONE))
            else:
                res.append((s, s.new(c.with_(kind='set'))))
        return res

    def m_set_isdisjoint(self, st, a, args, kw, ctx, node):
        out = []
        for s, r in self.set_op(st, a, '&', args, ctx, node, False):
            if isinstance(r, Exc):
                out.append((s, r))
            else:
                out.extend((s2, mkbool(not b))
                           for s2, b in self.nonempty(s, r.a))
        return out

    def m_set_issubset(self, st, a, args, kw, ctx, node):
        out = []
        for s, r in self.set_op(st, a, '-', args, ctx, node, False):
            if isinstance(r, Exc):
                out.append((s, r))
            else:
                out.extend((s2, mkbool(not b))
                           for s2, b in self.nonempty(s, r.a))
        return out

    # dictionaries ----------------------------------------------------------
    def m_dict_get(self, st, a, args, kw, ctx, node):
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, b in self.contains(st, a, args[0]):
            out.append((s, self.lookup(s, a, args[0]) if b else d))
        return out

    def m_dict_pop(self, st, a, args, kw, ctx, node):
        out = []
        for s, b in self.contains(st, a, args[0]):
            if b:
                v = self.lookup(s, a, args[0])
                for s2 in self.take(s, a, args[0], ctx, node, 'pop'):
                    out.append((s2, v))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                if anons(args[0]):
                    s.doubt('lookup of an anonymous key')
                out.append((s, exc('KeyError', ctx, node, args[0])))
        return out

    def m_dict_popitem(self, st, a, args, kw, ctx, node):
        self.to_abstract(st, a)
        out = []
        for s, b in self.nonempty(st, a):
            if not b:
                out.append((s, exc('KeyError', ctx, node)))
                continue
            for s2, e in self.pick(s, a):
                v = self.lookup(s2, a, e)
                for s3 in self.take(s2, a, e, ctx, node, 'pop'):
                    out.append((s3, Tup((e, v))))
        return out

    def m_dict_setdefault(self, st, a, args, kw, ctx, node):
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, b in self.contains(st, a, args[0]):
            if b:
                out.append((s, self.lookup(s, a, args[0])))
            else:
                for s2 in self.setitem(s, a, args[0], d, ctx, node):
                    out.append((s2, d))
        return out

    def m_dict_keys(self, st, a, args, kw, ctx, node):
        return [(st, View('keys', Ref(a)))]

    def m_dict_values(self, st, a, args, kw, ctx, node):
        return [(st, View('values', Ref(a)))]

    def m_dict_items(self, st, a, args, kw, ctx, node):
        return [(st, View('items', Ref(a)))]

    def m_dict_update(self, st, a, args, kw, ctx, node):
        states = [st]
        if args:
            v = args[0]
            c = st.heap[v.a] if isinstance(v, Ref) else None
            if isinstance(c, Cont) and c.kind == 'dict' and c.exact:
                for k, x in c.items:
                    nxt = []
                    for s in states:
                        nxt.extend(self.setitem(s, a, k, x, ctx, node))
                    states = nxt
            else:
                st.doubt('dict.update')
        for k, x in kw.items():
            nxt = []
            for s in states:
                nxt.extend(self.setitem(s, a, Const(k), x, ctx, node))
            states = nxt
        return [(s, NONE) for s in states]

    # ---- libraries --------------------------------------------------------
    def library(self, st, name, args, kw, ctx, node):
        r = self.scen.lib_call(self, st, name, args, kw, ctx, node)
        if r is not None:
            return r
        short = name.split('.')[-1]
        if name == 'functools.partial':
            return [(st, Part(args[0], tuple(args[1:]),
                              tuple(sorted(kw.items()))))]
        if name in ('threading.Lock', 'threading.RLock'):
            return [(st, st.new(Inst('ext:' + short, {})))]
        if name in ('threading.current_thread', 'threading.currentThread'):
            return [(st, ExtFn('thread:' + st.x.get('thread', self.scen.thread)))]
        if name in ('threading.get_ident', 'threading.get_native_id'):
            return [(st, ExtFn('threadid:' + st.x.get('thread', self.scen.thread)))]
        if name == 'threading.main_thread':
            return [(st, ExtFn('thread:origin'))]
        if name == 'collections.deque':
            return self.make(st, 'deque', args[:1], ctx, node)
        if name == 'collections.OrderedDict':
            return self.bi_dict(st, args, kw, ctx, node)
        if name == 'collections.defaultdict':
            c = Cont('dict', dflt=args[0] if args and args[0] != NONE
                     else None)
            return [(st, st.new(c))]
        if name in ('copy.copy', 'copy.deepcopy'):
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont):
                c = st.heap[v.a]
                if name == 'copy.deepcopy':
                    inner = []
                    for it in c.items:
                        refs(it, inner)
                    for x in c.vals.values():
                        refs(x, inner)
                    if inner:
                        st.doubt('deepcopy')
                if c.kind == 'dict':
                    return self.bi_dict(st, [v], {}, ctx, node)
                return [(st, st.new(c))]
            if isinstance(v, (Const, Sym, Tup)):
                return [(st, v)]
            st.doubt('copy of an object')
            return [(st, Top('copy'))]
        if name == 'contextlib.suppress':
            return [(st, st.new(Inst('ext:suppress', {
                'names': Tup(args)})))]
        if name in ('itertools.chain',):
            cs = [(st, Cont('list'))]
            for a in args:
                nxt = []
                for s, c in cs:
                    if isinstance(c, Exc):
                        nxt.append((s, c))
                        continue
                    for s2, d in self.as_cont(s, a, ctx, node):
                        if isinstance(d, Exc):
                            nxt.append((s2, d))
                            continue
                        for s3, r in self.concat(s2, c, d):
                            nxt.append((s3, s3.heap[r.a]))
                cs = nxt
            return [(s, c if isinstance(c, Exc) else s.new(c))
                    for s, c in cs]
        if name == 'itertools.count':
            st.doubt('itertools.count')
            return [(st, Top('count'))]
        if name.endswith('.__init__'):
            return [(st, NONE)]
        if any(name.startswith(q) for q in QUIET):
            return [(st, Opq('str') if 'time' in name else NONE)]
        self.escape(st, args, kw)
        return [(st, Top('result of ' + name))]
