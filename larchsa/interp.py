"""Abstract interpretation of expressions, statements and calls."""
import ast
from collections import Counter

from .values import *
from .core import Core, Scenario
from .conts import Containers, exc
from .builtin import Builtins, EXC_BASES, is_exc_name

MAX_LOOP = 6000
JOIN = 8


class Budget(BaseException):
    """The analysis of one scenario exceeded its budget."""


class Ctx:
    __slots__ = ('fi', 'fid', 'module', 'cls')

    def __init__(self, fi, fid, module, cls):
        self.fi = fi
        self.fid = fid
        self.module = module
        self.cls = cls

    def where(self, node=None):
        n = self.fi.name if self.fi else '<module>'
        return '%s:%s in %s' % (
            self.module.rel, getattr(node, 'lineno', '?'), n)

    def mangle(self, name):
        if self.cls and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (self.cls.name.lstrip('_'), name)
        return name


class Engine(Core, Containers, Builtins):

    def __init__(self, prog, scen, budget=400000):
        self.assumed = {}
        self.prog = prog
        self.scen = scen
        self.stats = Counter()
        self.functions = set()
        self.incomplete = set()
        self.budget = budget
        self._comp = {}
        self._loopy = {}
        self._live = {}
        self.loopseq = 0

    # ================================================================ names
    def load_name(self, st, name, ctx, node):
        fid = ctx.fid
        first = True
        while fid is not None:
            f = st.frames[fid]
            if name in f:
                return [(st, f[name])]
            if not f.get('$comp'):
                if first and ctx.fi is not None and name in ctx.fi.locals:
                    return [(st, exc('UnboundLocalError', ctx, node,
                                     Const(name)))]
                first = False
            fid = f.get('$parent')
        return self.load_global(st, name, ctx, node)

    def load_global(self, st, name, ctx, node):
        g = st.x.get(('global', ctx.module.name, name))
        if g is not None:
            return [(st, g)]
        r = self.prog.resolve(ctx.module, name)
        if r is not None:
            return self.from_resolved(st, r, ctx, node, name)
        if self.is_builtin(name):
            return [(st, Bi(name))]
        if name == '__name__':
            return [(st, Const(ctx.module.name))]
        return [(st, exc('NameError', ctx, node, Const(name)))]

    def from_resolved(self, st, r, ctx, node, name):
        if r[0] == 'class':
            return [(st, Cls(r[1]))]
        if r[0] == 'func':
            return [(st, Clo(r[1], None, None))]
        if r[0] == 'module':
            return [(st, Mod(r[1]))]
        if r[0] == 'ext':
            v = self.scen.lib_attr(self, st, r[1])
            return [(st, v if v is not None else Ext(r[1]))]
        # a module level expression
        c2 = Ctx(None, None, r[2], None)
        out = self.ev(r[1], st, c2)
        for s, v in out:
            if isinstance(v, Ref):
                s.x[('global', r[2].name, name)] = v
                s.x['keep'] = s.x.get('keep', ()) + (v,)
        return out

    # ========================================================== expressions
    def evs(self, nodes, st, ctx):
        """-> [(state, list of values | Exc)]"""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev_held(n, s, ctx, vs):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            outs = nxt
        return outs

    def ev_held(self, n, st, ctx, held):
        """Evaluate n while the values held are needed afterwards."""
        if not held or not self.loopy(n):
            return self.ev(n, st, ctx)
        held = tuple([v for v in held if not isplain(v)])
        if not held:
            return self.ev(n, st, ctx)
        st.x['tmp'] = st.x.get('tmp', ()) + (held,)
        outs = self.ev(n, st, ctx)
        done = set()
        for s, _ in outs:
            if id(s) not in done:
                done.add(id(s))
                s.x['tmp'] = s.x['tmp'][:-1]
        return outs

    def loopy(self, n):
        r = self._loopy.get(id(n))
        if r is None:
            r = self._loopy[id(n)] = (any(isinstance(
                x, (ast.Call, ast.ListComp, ast.SetComp, ast.DictComp,
                    ast.GeneratorExp))
                for x in ast.walk(n)), n)
        return r[0]

    def ev(self, n, st, ctx):
        m = getattr(self, 'ev_' + n.__class__.__name__, None)
        if m is None:
            st.doubt('expression %s' % n.__class__.__name__)
            return [(st, Top(n.__class__.__name__))]
        return m(n, st, ctx)

    def ev_Constant(self, n, st, ctx):
        v = n.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return [(st, Opq('str'))]
        return [(st, Const(v))]

    def ev_Name(self, n, st, ctx):
        return self.load_name(st, n.id, ctx, n)

    def ev_JoinedStr(self, n, st, ctx):
        outs = [(st, None)]
        for part in n.values:
            if isinstance(part, ast.FormattedValue):
                nxt = []
                for s, v in outs:
                    if isinstance(v, Exc):
                        nxt.append((s, v))
                        continue
                    nxt.extend(self.ev(part.value, s, ctx))
                outs = nxt
        return [(s, v if isinstance(v, Exc) else STR) for s, v in outs]

    def ev_Tuple(self, n, st, ctx):
        return self.seq(n, st, ctx, lambda s, vs: Tup(vs))

    def ev_List(self, n, st, ctx):
        return self.seq(n, st, ctx,
                        lambda s, vs: s.new(Cont('list', items=vs)))

    def ev_Set(self, n, st, ctx):
        def mk(s, vs):
            items = []
            for v in vs:
                if v not in items:
                    items.append(v)
            return s.new(Cont('set', items=items))
        return self.seq(n, st, ctx, mk)

    def seq(self, n, st, ctx, mk):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            outs = [(st, [])]
            for e in n.elts:
                nxt = []
                for s, vs in outs:
                    if isinstance(vs, Exc):
                        nxt.append((s, vs))
                        continue
                    star = isinstance(e, ast.Starred)
                    for s2, v in self.ev_held(
                            e.value if star else e, s, ctx, vs):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        elif not star:
                            nxt.append((s2, vs + [v]))
                        else:
                            for s3, c in self.as_cont(s2, v, ctx, n):
                                if isinstance(c, Exc):
                                    nxt.append((s3, c))
                                elif c.exact:
                                    nxt.append((s3, vs + list(c.items)))
                                elif isinstance(n, (ast.List, ast.Set)) \
                                        and len(n.elts) == 1:
                                    r = s3.new(c.with_(kind='list'))
                                    nxt.append((s3, ('whole', r)))
                                else:
                                    s3.doubt('unpacking')
                                    nxt.append((s3, vs + [Top('unpacking')]))
                outs = nxt
            return [(s, v if isinstance(v, Exc) else
                     v[1] if isinstance(v, tuple) else mk(s, v))
                    for s, v in outs]
        return [(s, v if isinstance(v, Exc) else mk(s, v))
                for s, v in self.evs(n.elts, st, ctx)]

    def ev_Dict(self, n, st, ctx):
        if any(k is None for k in n.keys):
            if len(n.keys) == 1:
                out = []
                for s, v in self.ev(n.values[0], st, ctx):
                    if isinstance(v, Exc):
                        out.append((s, v))
                    elif isinstance(v, Ref):
                        out.append((s, s.new(s.heap[v.a])))
                    else:
                        s.doubt('dictionary unpacking')
                        out.append((s, Top('dict')))
                return out
            st.doubt('dictionary unpacking')
            return [(st, Top('dict'))]
        nodes = []
        for k, v in zip(n.keys, n.values):
            nodes += [k, v]
        out = []
        for s, vs in self.evs(nodes, st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            r = s.new(Cont('dict'))
            states = [s]
            for i in range(0, len(vs), 2):
                nxt = []
                for s1 in states:
                    nxt.extend(self.setitem(s1, r.a, vs[i], vs[i + 1],
                                            ctx, n))
                states = nxt
            out.extend((s1, r) for s1 in states)
        return out

    def ev_BoolOp(self, n, st, ctx):
        is_and = isinstance(n.op, ast.And)
        outs = self.ev(n.values[0], st, ctx)
        for nxt_node in n.values[1:]:
            nxt = []
            for s, v in outs:
                if isinstance(v, (Exc, _Done)):
                    nxt.append((s, v))
                    continue
                for s2, t in self.truth(s, v):
                    if t == is_and:
                        nxt.extend(self.ev(nxt_node, s2, ctx))
                    else:
                        if isinstance(v, FB):
                            v2 = mkbool(t)
                        else:
                            v2 = v
                        nxt.append((s2, _Done(v2)))
            outs = nxt
        return [(s, v.v if isinstance(v, _Done) else v) for s, v in outs]

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                for s2, t in self.truth(s, v):
                    out.append((s2, mkbool(not t)))
            elif isinstance(v, Const) and isinstance(v.v, (int, float)):
                x = v.v
                out.append((s, Const(-x if isinstance(n.op, ast.USub)
                                     else +x if isinstance(n.op, ast.UAdd)
                                     else ~int(x))))
            else:
                out.append((s, Num(None, None)))
        return out

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, t in self.cond(n.test, st, ctx):
            if isinstance(t, Exc):
                out.append((s, t))
            else:
                out.extend(self.ev(n.body if t else n.orelse, s, ctx))
        return out

    def ev_NamedExpr(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if not isinstance(v, Exc):
                fid = ctx.fid
                while s.frames[fid].get('$comp'):
                    fid = s.frames[fid]['$parent']
                s.setvar(fid, n.target.id, v)
            out.append((s, v))
        return out

    def ev_Lambda(self, n, st, ctx):
        fi = self.nested_info(n, ctx)
        if ctx.fid is not None:
            st.setvar(ctx.fid, '$captured', TRUE)
        return [(st, Clo(fi, ctx.fid, None))]

    def nested_info(self, n, ctx):
        fi = self._comp.get(id(n))
        if fi is None:
            from .program import FuncInfo
            fi = FuncInfo(n, ctx.module, ctx.cls)
            self._comp[id(n)] = fi
            self._comp[('keep', id(n))] = n
        return fi

    def cond(self, n, st, ctx):
        """-> [(state, bool | Exc)]"""
        out = []
        for s, v in self.ev(n, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def ev_Compare(self, n, st, ctx):
        out = []
        for s, vs in self.evs([n.left] + n.comparators, st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            outs = [(s, True)]
            for i, op in enumerate(n.ops):
                nxt = []
                for s1, r in outs:
                    if isinstance(r, Exc) or r is False:
                        nxt.append((s1, r))
                    else:
                        nxt.extend(self.compare(
                            s1, op, vs[i], vs[i + 1], ctx, n))
                outs = nxt
            out.extend((s1, r if isinstance(r, Exc) else mkbool(r))
                       for s1, r in outs)
        return out

    def compare(self, st, op, a, b, ctx, n):
        """-> [(state, bool | Exc)]"""
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            return [(s, r != neg) for s, r in self.eq(st, a, b)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a == NONE or b == NONE:
                o = b if a == NONE else a
                if isinstance(o, Opq) and o.top:
                    return self.both(st, 'branch on ' + o.tag)
                r = [(st, o == NONE)]
            elif isinstance(a, Ref) or isinstance(b, Ref):
                r = [(st, a == b)]
            else:
                r = self.eq(st, a, b)
            return [(s, x != neg) for s, x in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, r if isinstance(r, Exc) else r != neg)
                    for s, r in self.is_in(st, a, b, ctx, n)]
        # orderings
        return self.order(st, op, a, b)

    def is_in(self, st, a, b, ctx, n):
        if isinstance(b, View) and b.kind == 'keys':
            b = b.src
        if isinstance(b, Ref):
            o = st.heap[b.a]
            if isinstance(o, Cont):
                self.scen.on_read(self, st, b.a, 'in', ctx, n)
                return self.contains(st, b.a, a)
            if not isinstance(o.cls, str):
                m = self.prog.find_method(o.cls, '__contains__')
                if m:
                    out = []
                    for s, v in self.call(st, Clo(m, None, b), [a], {},
                                          ctx, n):
                        if isinstance(v, Exc):
                            out.append((s, v))
                        else:
                            out.extend(self.truth(s, v))
                    return out
            return [(st, exc('TypeError', ctx, n))]
        if isinstance(b, Tup):
            out, states = [], [st]
            for x in b.items:
                nxt = []
                for s in states:
                    for s2, r in self.eq(s, x, a):
                        (out.append((s2, True)) if r else nxt.append(s2))
                states = nxt
            return out + [(s, False) for s in states]
        if isinstance(b, PathV):
            states, out = [st], []
            for x in b.suffix:
                nxt = []
                for s in states:
                    for s2, r in self.eq(s, x, a):
                        (out.append((s2, True)) if r else nxt.append(s2))
                states = nxt
            for s in states:
                out.extend(self.both(s, 'element of a path'))
            return out
        if isinstance(b, View):
            out = []
            for s, c in self.as_cont(st, b, ctx, n):
                if isinstance(c, Exc):
                    out.append((s, c))
                else:
                    r = s.new(c)
                    out.extend(self.contains(s, r.a, a))
            return out
        if isinstance(b, Const) and isinstance(b.v, str) and \
                isinstance(a, Const) and isinstance(a.v, str):
            return [(st, a.v in b.v)]
        if isinstance(b, (Const, FB, Num)) and not (
                isinstance(b, Const) and isinstance(b.v, str)):
            return [(st, exc('TypeError', ctx, n))]
        if isinstance(b, (Sym, Const)):
            return self.both(st)
        return self.both(st, 'membership in an untracked value')

    def order(self, st, op, a, b):
        def rng(v):
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                return v.v, v.v
            if isinstance(v, Num):
                return v.lo, v.hi
            return None
        ra, rb = rng(a), rng(b)
        if ra is None or rb is None:
            if isinstance(a, Sym) and isinstance(b, Sym) and a != b and \
                    not a.oth and not b.oth:
                lt = self.fork(st, ('less', a, b))
                return [(s, r if isinstance(op, (ast.Lt, ast.LtE))
                         else not r) for s, r in lt]
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
                    st.heap[a.a], Cont) and isinstance(
                    st.heap[b.a], Cont) and \
                    isinstance(op, (ast.LtE, ast.GtE)):
                if isinstance(op, ast.GtE):
                    a, b = b, a
                out = []
                for s, c in self.combine(st, '-', st.heap[a.a],
                                         st.heap[b.a]):
                    r = s.new(c)
                    out.extend((s2, not x)
                               for s2, x in self.nonempty(s, r.a))
                return out
            return self.both(st, 'ordering of untracked values')
        inf = float('inf')
        al = -inf if ra[0] is None else ra[0]
        ah = inf if ra[1] is None else ra[1]
        bl = -inf if rb[0] is None else rb[0]
        bh = inf if rb[1] is None else rb[1]
        if isinstance(op, ast.Gt):
            al, ah, bl, bh = bl, bh, al, ah
            op = ast.Lt()
        elif isinstance(op, ast.GtE):
            al, ah, bl, bh = bl, bh, al, ah
            op = ast.LtE()
        if isinstance(op, ast.Lt):
            if ah < bl:
                return [(st, True)]
            if al >= bh:
                return [(st, False)]
        else:
            if ah <= bl:
                return [(st, True)]
            if al > bh:
                return [(st, False)]
        return self.both(st, 'ordering of unknown numbers')

    def ev_BinOp(self, n, st, ctx):
        out = []
        for s, vs in self.evs([n.left, n.right], st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
            else:
                out.extend(self.binop(s, n.op, vs[0], vs[1], ctx, n))
        return out

    def binop(self, st, op, a, b, ctx, n):
        if isinstance(a, FB) or isinstance(b, FB):
            out = []
            x = a if isinstance(a, FB) else b
            for s, v in self.fork(st, x.name):
                out.extend(self.binop(
                    s, op, mkbool(v) if isinstance(a, FB) else a,
                    mkbool(v) if not isinstance(a, FB) else b, ctx, n))
            return out
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                f = {ast.Add: lambda x, y: x + y,
                     ast.Sub: lambda x, y: x - y,
                     ast.Mult: lambda x, y: x * y,
                     ast.Mod: lambda x, y: x % y,
                     ast.FloorDiv: lambda x, y: x // y,
                     ast.Div: lambda x, y: x / y,
                     ast.BitAnd: lambda x, y: x & y,
                     ast.BitOr: lambda x, y: x | y,
                     ast.BitXor: lambda x, y: x ^ y}[type(op)]
                return [(st, Const(f(a.v, b.v)))]
            except KeyError:
                return [(st, Top('operator'))]
            except ZeroDivisionError:
                return [(st, exc('ZeroDivisionError', ctx, n))]
            except TypeError:
                return [(st, exc('TypeError', ctx, n))]
        strs = lambda v: (isinstance(v, Const) and isinstance(v.v, str)) \
            or v == STR
        if isinstance(op, ast.Mod) and strs(a):
            return [(st, STR)]
        if isinstance(op, (ast.Add, ast.Mult)) and (strs(a) or strs(b)):
            if (a == NONE or b == NONE or isinstance(a, (Tup, Ref)) or
                    isinstance(b, (Tup, Ref))):
                return [(st, exc('TypeError', ctx, n))]
            return [(st, STR)]
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            if isinstance(a, PathV) and isinstance(b, Tup):
                return [(st, PathV(a.base, a.suffix + b.items))]
            if isinstance(a, Sym) and isinstance(b, Sym):
                return [(st, STR)]
            if isinstance(a, Ref) and isinstance(b, Ref):
                x, y = st.heap[a.a], st.heap[b.a]
                if isinstance(x, Cont) and isinstance(y, Cont) and \
                        x.kind == y.kind == 'list':
                    return self.concat(st, x, y)
            if isinstance(a, (Tup, Ref)) != isinstance(b, (Tup, Ref)) and \
                    not isinstance(a, (Opq, PathV)) and \
                    not isinstance(b, (Opq, PathV)):
                return [(st, exc('TypeError', ctx, n))]
        if isinstance(a, Ref) and isinstance(b, (Ref, View)) and isinstance(
                op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            out = []
            x = st.heap[a.a]
            if not isinstance(x, Cont):
                return [(st, exc('TypeError', ctx, n))]
            if x.kind == 'list' or (isinstance(b, Ref) and isinstance(
                    st.heap[b.a], Cont) and st.heap[b.a].kind == 'list'):
                return [(st, exc('TypeError', ctx, n))]
            sym = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|',
                   ast.BitXor: '^'}[type(op)]
            for s, y in self.as_cont(st, b, ctx, n):
                for s2, c in self.combine(s, sym, s.heap[a.a], y):
                    out.append((s2, s2.new(c)))
            return out
        if isinstance(a, View) and a.kind == 'keys':
            c = st.heap[a.src.a]
            c = c.with_(kind='set', vals={}, gen=None) if not c.exact else \
                Cont('set', items=[k for k, _ in c.items])
            return self.binop(st, op, st.new(c), b, ctx, n)
        if isinstance(a, Sym) and a.isint or isinstance(b, Sym) and b.isint:
            return [(st, st.fresh('i'))]
        num = lambda v: isinstance(v, Num) or (
            isinstance(v, Const) and isinstance(v.v, int))
        if num(a) and num(b):
            rng = lambda v: (v.v, v.v) if isinstance(v, Const) else (
                v.lo, v.hi)
            (al, ah), (bl, bh) = rng(a), rng(b)
            add = lambda x, y: None if x is None or y is None else x + y
            sub = lambda x, y: None if x is None or y is None else x - y
            tag = (a.tag if isinstance(a, Num) else None) or (
                b.tag if isinstance(b, Num) else None)
            if isinstance(op, ast.Add):
                return [(st, Num(add(al, bl), add(ah, bh), tag))]
            if isinstance(op, ast.Sub):
                return [(st, Num(sub(al, bh), sub(ah, bl), tag))]
            return [(st, Num(None, None))]
        if a == NONE or b == NONE:
            return [(st, exc('TypeError', ctx, n))]
        st.doubt('operator on untracked values')
        return [(st, Top('operator'))]

    def concat(self, st, x, y):
        if x.exact and y.exact:
            return [(st, st.new(Cont('list', items=x.items + y.items)))]
        X, Y = self.abstracted(x), self.abstracted(y)
        states = [(st, {})]
        keys = list(X.mem) + [k for k in Y.mem if k not in X.mem]
        for k in keys:
            nxt = []
            for s, mem in states:
                mx, my = X.mem.get(k, 0), Y.mem.get(k, 0)
                if mx == 0 or my == 0:
                    m2 = dict(mem)
                    m2[k] = my if mx == 0 else mx
                    nxt.append((s, m2))
                    continue
                for s1, bx in self.decide(s, mx):
                    for s2, by in self.decide(s1, my):
                        m2 = dict(mem)
                        m2[k] = bx + by
                        nxt.append((s2, m2))
            states = nxt
        oth = ('some' if 'some' in (X.oth, Y.oth) else X.oth
               if Y.oth == 'no' else Y.oth if X.oth == 'no' else 'maybe')
        return [(s, s.new(Cont('list', exact=False, mem=m, oth=oth,
                               shapes=X.shapes + Y.shapes)))
                for s, m in states]

    # ---- attributes -----------------------------------------------------
    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.getattr(s, v, ctx.mangle(n.attr), ctx, n))
        return out

    def method_of(self, ci, name, after=None):
        """Find a method, looking through private name mangling."""
        m = self.prog.find_method(ci, name, after)
        if m and not (name.startswith('__') and not name.endswith('__')):
            return m
        for c in self.prog.mro(ci)[0]:
            pre = '_%s__' % c.name.lstrip('_')
            if name.startswith(pre):
                raw = name[len(pre) - 2:]
                if raw in c.methods:
                    return c.methods[raw]
        return None

    def getattr(self, st, v, name, ctx, node):
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, Cont):
                return [(st, Meth(v, name))]
            if name in o.fields:
                self.scen.on_read(self, st, v.a, 'attr:' + name, ctx, node)
                return [(st, o.fields[name])]
            if isinstance(o.cls, str):
                return [(st, Meth(v, name))]
            return self.class_attr(st, o.cls, v, name, ctx, node)
        if isinstance(v, Cls):
            m = self.method_of(v.ci, name)
            if m:
                if m.classm:
                    return [(st, Clo(m, None, v))]
                return [(st, Clo(m, None, None))]
            r = self.prog.find_attr(v.ci, name)
            if r:
                return self.ev(r[0], st, Ctx(None, None, r[1], v.ci))
            if name == '__name__':
                return [(st, STR)]
            ext = self.prog.mro(v.ci)[1]
            if ext:
                return [(st, Ext(ext[0] + '.' + name))]
            return [(st, exc('AttributeError', ctx, node, Const(name)))]
        if isinstance(v, Mod):
            r = self.prog.resolve(v._k[0], name)
            if r is None:
                sub = self.prog.modules.get(v._k[0].name + '.' + name)
                if sub:
                    return [(st, Mod(sub))]
                return [(st, exc('AttributeError', ctx, node, Const(name)))]
            return self.from_resolved(st, r, ctx, node, name)
        if isinstance(v, Ext):
            r = self.scen.lib_attr(self, st, v.name + '.' + name)
            if r is not None:
                return [(st, r)]
            return [(st, Ext(v.name + '.' + name))]
        if isinstance(v, Super):
            ci, obj = v._k
            m = self.prog.find_method(
                st.heap[obj.a].cls if isinstance(obj, Ref) else ci, name, ci)
            if m:
                return [(st, Clo(m, None, obj))]
            return [(st, Meth(obj, name))]
        if isinstance(v, (Sym, Tup, PathV, Opq, View, ExcObj, FB, Num,
                          ExtFn)):
            if isinstance(v, ExcObj) and name in ('args', '__class__'):
                return [(st, STR)]
            return [(st, Meth(v, name))]
        if isinstance(v, Const):
            if isinstance(v.v, (str, bytes)):
                return [(st, Meth(v, name))]
            return [(st, exc('AttributeError', ctx, node, Const(name)))]
        if isinstance(v, Bi):
            return [(st, Bi(v.name + '.' + name))]
        if isinstance(v, (Clo, Part)):
            if name == '__self__' and isinstance(v, Clo) and v.bound:
                return [(st, v.bound)]
            if name == '__func__' and isinstance(v, Clo):
                return [(st, Clo(v.fi, v.fid, None))]
            return [(st, STR)]
        st.doubt('attribute %s of an untracked value' % name)
        return [(st, Top('attribute'))]

    def class_attr(self, st, ci, v, name, ctx, node):
        m = self.method_of(ci, name)
        if m:
            if m.prop:
                return self.call(st, Clo(m, None, v), [], {}, ctx, node)
            if m.static:
                return [(st, Clo(m, None, None))]
            if m.classm:
                return [(st, Clo(m, None, Cls(ci)))]
            return [(st, Clo(m, None, v))]
        r = self.prog.find_attr(ci, name)
        raw = None
        if not r:
            for c in self.prog.mro(ci)[0]:
                pre = '_%s__' % c.name.lstrip('_')
                if name.startswith(pre):
                    raw = name[len(pre) - 2:]
                    if raw in c.attrs:
                        r = (c.attrs[raw], c.module)
        if r:
            k = ('clsattr', ci.qual, name)
            if k in st.x:
                return [(st, st.x[k])]
            out = self.ev(r[0], st, Ctx(None, None, r[1], ci))
            for s, x in out:
                if isinstance(x, Ref):
                    s.x[k] = x
                    s.x['keep'] = s.x.get('keep', ()) + (x,)
            return out
        if name == '__class__':
            return [(st, Cls(ci))]
        if name == '__dict__':
            st.doubt('__dict__')
            return [(st, Top('__dict__'))]
        if self.prog.mro(ci)[1]:
            if name in self.prog.own_attrs(ci):
                # set by this class, but not yet
                return [(st, exc('AttributeError', ctx, node, Const(name)))]
            return [(st, Meth(v, name))]
        if self.prog.find_method(ci, '__getattr__'):
            st.doubt('__getattr__ is defined')
            return [(st, Top('attribute'))]
        return [(st, exc('AttributeError', ctx, node, Const(name)))]

    def setattr(self, st, obj, name, v, ctx, node):
        """-> [(state, None | Exc)]"""
        if isinstance(obj, Ref):
            o = st.heap[obj.a]
            if isinstance(o, Inst):
                if not isinstance(o.cls, str):
                    m = self.method_of(o.cls, name)
                    if m is not None and (m.prop or m.odd_decorator):
                        st.doubt('property setter')
                        return [(st, None)]
                st.heap[obj.a] = o.set(name, v)
                self.scen.on_setattr(self, st, obj, name, v, ctx, node)
                return [(st, None)]
            return [(st, exc('AttributeError', ctx, node, Const(name)))]
        if isinstance(obj, Cls):
            st.x[('clsattr', obj.ci.qual, name)] = v
            st.x['keep'] = st.x.get('keep', ()) + (v,)
            return [(st, None)]
        if isinstance(obj, (Ext, Opq, Mod, Clo)):
            st.doubt('assignment to an attribute outside')
            return [(st, None)]
        return [(st, exc('AttributeError', ctx, node, Const(name)))]

    # ---- subscripts -----------------------------------------------------
    def ev_Subscript(self, n, st, ctx):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.slice.lower, n.slice.upper, n.slice.step]
            idx = [p for p in parts if p is not None]
            for s, vs in self.evs([n.value] + idx, st, ctx):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                    continue
                it = iter(vs[1:])
                lo, hi, stp = [next(it) if p is not None else None
                               for p in parts]
                out.extend(self.slice(s, vs[0], lo, hi, stp, ctx, n))
            return out
        for s, vs in self.evs([n.value, n.slice], st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
            else:
                out.extend(self.getitem(s, vs[0], vs[1], ctx, n))
        return out

    def slice(self, st, v, lo, hi, stp, ctx, n):
        cs = [None if x is None or x == NONE else
              x.v if isinstance(x, Const) else 'u' for x in (lo, hi, stp)]
        if isinstance(v, Tup) and 'u' not in cs:
            return [(st, Tup(v.items[slice(*cs)]))]
        if isinstance(v, PathV) and 'u' not in cs:
            if cs == [None, -1, None] and v.suffix:
                if len(v.suffix) == 1 and v.base == '':
                    return [(st, Tup(()))]
                return [(st, PathV(v.base, v.suffix[:-1]))]
            if cs == [None, None, None]:
                return [(st, v)]
        if isinstance(v, Ref) and isinstance(st.heap[v.a], Cont):
            c = st.heap[v.a]
            self.scen.on_read(self, st, v.a, 'slice', ctx, n)
            if c.kind != 'list':
                return [(st, exc('TypeError', ctx, n))]
            if c.exact and 'u' not in cs:
                return [(st, st.new(c.with_(items=c.items[slice(*cs)])))]
            if cs[:2] == [None, None] and cs[2] in (None, 1, -1):
                return [(st, st.new(c))]
            one = cs[2] in (None, 1) and cs[:2] in (
                [None, 1], [0, 1], [-1, None])
            rest = cs[2] in (None, 1) and cs[:2] in ([1, None], [None, -1])
            if one or rest:
                out = []
                for s, b in self.nonempty(st, v.a):
                    if not b:
                        out.append((s, s.new(Cont('list'))))
                        continue
                    for s2, x in self.pick(s, v.a):
                        if one:
                            out.append((s2, s2.new(Cont('list',
                                                        items=(x,)))))
                            continue
                        r = s2.new(s2.heap[v.a].with_(origin=None))
                        for s3 in self.take(s2, r.a, x, ctx, n):
                            out.append((s3, r))
                return out
            st.doubt('slice of an unknown list')
            c = self.abstracted(c)
            return [(st, st.new(c.with_(oth='maybe', origin=None)))]
        if isinstance(v, Const) and isinstance(v.v, str) and 'u' not in cs:
            return [(st, Const(v.v[slice(*cs)]))]
        if isinstance(v, Sym):
            r = self.scen.sym_method(self, st, v, '$slice', cs, {}, ctx, n)
            if r is not None:
                return r
            return [(st, STR)]
        if v == STR:
            return [(st, STR)]
        if isinstance(v, Opq):
            st.doubt('slice of an untracked value')
            return [(st, Top('slice'))]
        st.doubt('slice')
        return [(st, Top('slice'))]

    def getitem(self, st, v, k, ctx, n):
        if isinstance(v, Tup):
            if isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return [(st, v.items[k.v])]
                except IndexError:
                    return [(st, exc('IndexError', ctx, n))]
            st.doubt('index of a tuple')
            return [(st, Top('item'))]
        if isinstance(v, PathV):
            if isinstance(k, Const) and isinstance(k.v, int) and \
                    k.v < 0 and -k.v <= len(v.suffix):
                return [(st, v.suffix[k.v])]
            st.doubt('index of a path')
            return [(st, Top('item'))]
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if not isinstance(o, Cont):
                if not isinstance(o.cls, str):
                    m = self.prog.find_method(o.cls, '__getitem__')
                    if m:
                        return self.call(st, Clo(m, None, v), [k], {}, ctx,
                                         n)
                return self.ext_inst_call(st, v, '__getitem__', [k], {},
                                          ctx, n)
            self.scen.on_read(self, st, v.a, 'item', ctx, n)
            if o.kind == 'dict':
                out = []
                for s, b in self.contains(st, v.a, k):
                    if b:
                        out.append((s, self.lookup(s, v.a, k)))
                    else:
                        out.extend(self.missing(s, v.a, k, ctx, n))
                return out
            if o.kind == 'set':
                return [(st, exc('TypeError', ctx, n))]
            if o.exact:
                if isinstance(k, Const) and isinstance(k.v, int):
                    try:
                        return [(st, o.items[k.v])]
                    except IndexError:
                        return [(st, exc('IndexError', ctx, n))]
                if isinstance(k, (Num, Opq)) or (
                        isinstance(k, Sym) and k.isint):
                    st.doubt('unknown index')
                    out = [(st.copy(), x) for x in set(o.items)]
                    out.append((st, exc('IndexError', ctx, n)))
                    return out
                return [(st, exc('TypeError', ctx, n))]
            if isinstance(k, Const) and not isinstance(k.v, int):
                return [(st, exc('TypeError', ctx, n))]
            out = []
            for s, b in self.nonempty(st, v.a):
                if not b:
                    out.append((s, exc('IndexError', ctx, n)))
                    continue
                if isinstance(k, Const) and k.v in (0, -1):
                    out.extend(self.pick(s, v.a))
                else:
                    s.doubt('unknown index')
                    s2 = s.copy()
                    out.append((s2, exc('IndexError', ctx, n)))
                    out.extend(self.pick(s, v.a))
            return out
        if isinstance(v, (Const, Sym)) and (
                isinstance(v, Sym) or isinstance(v.v, str)):
            if isinstance(v, Const) and isinstance(k, Const):
                try:
                    return [(st, Const(v.v[k.v]))]
                except (IndexError, TypeError):
                    return [(st, exc('IndexError', ctx, n))]
            return [(st, STR)]
        if v == STR:
            return [(st, STR)]
        if isinstance(v, Opq):
            st.doubt('item of an untracked value')
            return [(st, Top('item'))]
        if isinstance(v, Ext):
            return [(st, v)]
        return [(st, exc('TypeError', ctx, n))]

    def missing(self, st, a, k, ctx, n):
        c = st.heap[a]
        if anons(k):
            st.doubt('lookup of an anonymous key')
        if c.dflt is not None:
            out = []
            for s, v in self.call(st, c.dflt, [], {}, ctx, n):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                for s2 in self.setitem(s, a, k, v, ctx, n):
                    out.append((s2, v))
            return out
        return [(st, exc('KeyError', ctx, n, k))]

    # ---- comprehensions -------------------------------------------------
    def ev_ListComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'list')

    def ev_SetComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'set')

    def ev_GeneratorExp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'list')

    def ev_DictComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'dict')

    def search(self, n, what, st, ctx):
        """ any(... for ...) and the like: the generator is left at the
        first answer. """
        g = n.args[0]
        syn = self._comp.get(('search', id(n)))
        if syn is None:
            if what == 'next':
                body = ast.Return(g.elt)
            else:
                test = g.elt if what == 'any' else ast.UnaryOp(ast.Not(),
                                                               g.elt)
                body = ast.If(test=test, body=[ast.Return(
                    ast.Constant(what == 'any'))], orelse=[])
            syn = self.nest(g, body)
            self._comp[('search', id(n))] = syn
            self._comp[('keep', id(n))] = n
        out = []
        starts = []
        for s, it in self.ev(g.generators[0].iter, st, ctx):
            if isinstance(it, Exc) or len(n.args) < 2:
                starts.append((s, it, None))
                continue
            for s2, d in self.ev_held(n.args[1], s, ctx, [it]):
                starts.append((s2, d if isinstance(d, Exc) else it, d))
        for s, it, default in starts:
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            if what != 'next':
                default = mkbool(what == 'all')
            fid = self.push_frame(s, {'$it': it, '$d': default or NONE,
                                      '$comp': TRUE}, ctx.fid)
            c2 = Ctx(ctx.fi, fid, ctx.module, ctx.cls)
            for s2, k, v in self.run_stmt(syn, s, c2):
                other = s2.frames[fid]['$d']
                self.pop_frame(s2, fid)
                if k in ('exc', 'ret'):
                    out.append((s2, v))
                elif default is None:
                    out.append((s2, exc('StopIteration', ctx, n)))
                else:
                    out.append((s2, other))
        return self.dedupe(out)

    @staticmethod
    def nest(n, body):
        for i, g in reversed(list(enumerate(n.generators))):
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(
                target=g.target,
                iter=ast.Name('$it', ast.Load()) if i == 0 else g.iter,
                body=[body], orelse=[])
        for x in ast.walk(body):
            if not hasattr(x, 'lineno'):
                x.lineno = n.lineno
                x.col_offset = n.col_offset
        return body

    def comp(self, n, st, ctx, kind):
        syn = self._comp.get(id(n))
        if syn is None:
            if kind == 'dict':
                inner = ast.Assign(
                    targets=[ast.Subscript(
                        value=ast.Name('$r', ast.Load()), slice=n.key,
                        ctx=ast.Store())], value=n.value)
            else:
                inner = ast.Expr(ast.Call(
                    func=ast.Attribute(
                        value=ast.Name('$r', ast.Load()),
                        attr='add' if kind == 'set' else 'append',
                        ctx=ast.Load()),
                    args=[n.elt], keywords=[]))
            syn = self.nest(n, inner)
            self._comp[id(n)] = syn
            self._comp[('keep', id(n))] = n
        out = []
        for s, it in self.ev(n.generators[0].iter, st, ctx):
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            r = s.new(Cont(kind))
            fid = self.push_frame(s, {'$r': r, '$it': it, '$comp': TRUE},
                                  ctx.fid)
            c2 = Ctx(ctx.fi, fid, ctx.module, ctx.cls)
            for s2, k, v in self.run_stmt(syn, s, c2):
                self.pop_frame(s2, fid)
                if k == 'exc':
                    out.append((s2, v))
                else:
                    out.append((s2, r))
        return self.dedupe(out)

    # ---- frames ---------------------------------------------------------
    def push_frame(self, st, vars_, parent):
        st.na += 1
        fid = st.na
        f = dict(vars_)
        f['$parent'] = parent
        st.frames[fid] = f
        st.x['active'] = st.x.get('active', ()) + (fid,)
        return fid

    def pop_frame(self, st, fid):
        st.x['active'] = tuple(
            f for f in st.x.get('active', ()) if f != fid)
        # captured frames are collected with the garbage
        f = st.frames.get(fid)
        if f is not None and '$captured' not in f:
            del st.frames[fid]

    # ---- calls ----------------------------------------------------------
    def ev_Call(self, n, st, ctx):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            fid = ctx.fid
            f = st.frames[fid]
            while f.get('$comp'):
                f = st.frames[f['$parent']]
            a = ctx.fi.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return [(st, Super(ctx.cls, f[first]))]
        out = []
        for s, f in self.ev(n.func, st, ctx):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            if isinstance(f, Bi) and f.name in ('any', 'all', 'next') and \
                    n.args and isinstance(n.args[0], ast.GeneratorExp) and \
                    not n.keywords:
                out.extend(self.search(n, f.name, s, ctx))
                continue
            for s2, args in self.ev_args(n, s, ctx, [f]):
                if isinstance(args, Exc):
                    out.append((s2, args))
                else:
                    out.extend(self.call(s2, f, args[0], args[1], ctx, n))
        return out

    def ev_args(self, n, st, ctx, held=[]):
        outs = [(st, [])]
        for a in n.args:
            nxt = []
            star = isinstance(a, ast.Starred)
            for s, vs in outs:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev_held(
                            a.value if star else a, s, ctx, held + vs):
                    if isinstance(v, Exc):
                        nxt.append((s2, v))
                    elif not star:
                        nxt.append((s2, vs + [v]))
                    else:
                        for s3, c in self.as_cont(s2, v, ctx, n):
                            if isinstance(c, Exc):
                                nxt.append((s3, c))
                            elif c.exact:
                                nxt.append((s3, vs + list(c.items)))
                            else:
                                s3.doubt('unpacking of arguments')
                                nxt.append((s3, vs + [Top('args')]))
            outs = nxt
        res = []
        for s, vs in outs:
            if isinstance(vs, Exc):
                res.append((s, vs))
                continue
            kouts = [(s, {})]
            for kw in n.keywords:
                nxt = []
                for s1, kws in kouts:
                    if isinstance(kws, Exc):
                        nxt.append((s1, kws))
                        continue
                    for s2, v in self.ev_held(
                            kw.value, s1, ctx,
                            held + vs + list(kws.values())):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        elif kw.arg is not None:
                            k2 = dict(kws)
                            k2[kw.arg] = v
                            nxt.append((s2, k2))
                        else:
                            k2 = dict(kws)
                            o = s2.heap.get(v.a) if isinstance(v, Ref) \
                                else None
                            if isinstance(o, Cont) and o.exact and all(
                                    isinstance(k, Const)
                                    for k, _ in o.items):
                                for k, x in o.items:
                                    k2[k.v] = x
                            else:
                                s2.doubt('unpacking of keywords')
                            nxt.append((s2, k2))
                kouts = nxt
            for s1, kws in kouts:
                res.append((s1, kws if isinstance(kws, Exc)
                            else (vs, kws)))
        return res

    def call(self, st, f, args, kw, ctx, node):
        """-> [(state, value | Exc)]"""
        self.stats['calls'] += 1
        if self.stats['calls'] > self.budget:
            raise Budget('budget of calls exceeded')
        if isinstance(f, Clo):
            return self.call_func(st, f, args, kw, ctx, node)
        if isinstance(f, Part):
            k2 = dict(f._k[2])
            k2.update(kw)
            return self.call(st, f._k[0], list(f._k[1]) + list(args), k2,
                             ctx, node)
        if isinstance(f, ExtFn):
            return self.scen.ext_call(self, st, f, args, kw, ctx, node)
        if isinstance(f, Cls):
            return self.instantiate_cls(st, f.ci, args, kw, ctx, node)
        if isinstance(f, Bi):
            return self.builtin(st, f.name, args, kw, ctx, node)
        if isinstance(f, Ext):
            return self.library(st, f.name, args, kw, ctx, node)
        if isinstance(f, Meth):
            return self.method(st, f.obj, f.name, args, kw, ctx, node)
        if isinstance(f, Ref):
            o = st.heap[f.a]
            if isinstance(o, Inst) and not isinstance(o.cls, str):
                m = self.prog.find_method(o.cls, '__call__')
                if m:
                    return self.call(st, Clo(m, None, f), args, kw, ctx,
                                     node)
            return [(st, exc('TypeError', ctx, node))]
        if isinstance(f, (Const, Tup, Num, FB)):
            return [(st, exc('TypeError', ctx, node))]
        if isinstance(f, Sym):
            return [(st, exc('TypeError', ctx, node))]
        st.doubt('call of an untracked value')
        return [(st, Top('call'))]

    def instantiate_cls(self, st, ci, args, kw, ctx, node):
        mro, ext = self.prog.mro(ci)
        if any(is_exc_name(e) for e in ext):
            return [(st, ExcObj(ci.name, tuple(args)))]
        r = st.new(Inst(ci, {}))
        m = self.prog.find_method(ci, '__init__')
        if m is None:
            return [(st, r)]
        out = []
        for s, v in self.call(st, Clo(m, None, r), args, kw, ctx, node):
            out.append((s, v if isinstance(v, Exc) else r))
        return out

    def bind(self, st, fi, bound, args, kw, ctx, node):
        """-> [(state, vars | Exc)]"""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if bound is not None and not fi.static:
            args = [bound] + args
        vars_ = {}
        for i, v in enumerate(args):
            if i < len(pos):
                vars_[pos[i]] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            return [(st, exc('TypeError', ctx, node,
                             Const('too many arguments')))]
        if a.vararg:
            vars_[a.vararg.arg] = Tup(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = []
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vars_:
                    return [(st, exc('TypeError', ctx, node,
                                     Const('multiple values')))]
                vars_[k] = v
            elif a.kwarg:
                rest.append((Const(k), v))
            else:
                return [(st, exc('TypeError', ctx, node,
                                 Const('unexpected keyword')))]
        if a.kwarg:
            vars_[a.kwarg.arg] = st.new(Cont('dict', items=rest))
        todo = []
        nd = len(a.defaults)
        for i, nme in enumerate(pos):
            if nme not in vars_:
                j = i - (len(pos) - nd)
                if j < 0:
                    return [(st, exc('TypeError', ctx, node,
                                     Const('missing argument')))]
                todo.append((nme, a.defaults[j]))
        for nme, d in zip(kwonly, a.kw_defaults):
            if nme not in vars_:
                if d is None:
                    return [(st, exc('TypeError', ctx, node,
                                     Const('missing argument')))]
                todo.append((nme, d))
        outs = [(st, vars_)]
        for nme, d in todo:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                key = (fi.qual, nme)
                if key in s.defaults:
                    v2 = dict(vs)
                    v2[nme] = s.defaults[key]
                    nxt.append((s, v2))
                    continue
                for s2, v in self.ev(d, s, Ctx(None, None, fi.module,
                                               fi.cls)):
                    if isinstance(v, Exc):
                        nxt.append((s2, v))
                        continue
                    if isinstance(v, Ref):
                        s2.defaults[key] = v
                    v2 = dict(vs)
                    v2[nme] = v
                    nxt.append((s2, v2))
            outs = nxt
        return outs

    def call_func(self, st, f, args, kw, ctx, node):
        fi = f.fi
        if fi.odd_decorator:
            st.doubt('decorated function %s' % fi.name)
            return [(st, Top('decorated'))]
        r = self.scen.intercept(self, st, fi, f.bound, args, kw, ctx, node)
        if r is not None:
            return r
        fkey = id(fi)
        depth = st.stack.count(fkey)
        if depth:
            r = self.scen.on_recursion(self, st, fi, f.bound, args, kw, ctx,
                                       node)
            if r is not None:
                self.stats['recursion contracts'] += 1
                return r
            r = self.uniform(st, f, args, kw, ctx, node)
            if r is not None:
                return r
            if depth >= self.scen.max_recursion:
                st.doubt('recursion of %s' % fi.name)
                return [(st, Top('recursion'))]
        return self.call_body(st, f, args, kw, ctx, node)

    def call_body(self, st, f, args, kw, ctx, node):
        fi = f.fi
        fkey = id(fi)
        if len(st.stack) > 60:
            st.doubt('deep calls')
            return [(st, Top('deep calls'))]
        self.functions.add(fi.qual)
        out = []
        pre = None
        if fi.name not in ('__init__',):
            pre = (dict(st.heap), dict(st.facts), st.trace, dict(st.x),
                   st.na, st.no, st.imp, st.alts)
        for s, vars_ in self.bind(st, fi, f.bound, args, kw, ctx, node):
            if isinstance(vars_, Exc):
                out.append((s, vars_))
                continue
            fid = self.push_frame(s, vars_, f.fid)
            c2 = Ctx(fi, fid, fi.module, fi.cls)
            s.stack = s.stack + (fkey,)
            if isinstance(fi.node, ast.Lambda):
                for s2, v in self.ev(fi.node.body, s, c2):
                    self.leave(s2, fid)
                    out.append((s2, v))
                continue
            if fi.gen:
                y = s.new(Cont('list'))
                s.setvar(fid, '$yield', y)
            for s2, k, v in self.run(fi.node.body, s, c2):
                if k in ('brk', 'cont'):
                    s2.doubt('break outside a loop')
                    k, v = 'ret', NONE
                if k == 'next':
                    k, v = 'ret', NONE
                if fi.gen and k == 'ret':
                    v = s2.frames[fid]['$yield']
                self.leave(s2, fid)
                if k == 'ret':
                    self.scen.on_return(self, s2, fi, f.bound, args, v)
                out.append((s2, v))
        if len(out) > JOIN and pre is not None:
            out = self.join_pure(out, pre)
        return self.dedupe(out)

    def uniform(self, st, f, args, kw, ctx, node):
        """ A recursive call about an anonymous individual, of a function
        without effects: what it may return is the least set of constants
        which is closed under the function itself. Nothing is assumed about
        the individual, so this holds for each one it is called for. """
        who = [a for a in args if isinstance(a, Sym) and a.oth and
               not a.isint]
        if not who or kw or f.fi.gen or not all(
                isinstance(a, (Const, Sym, Ref)) for a in args):
            return None
        key = (id(f.fi), f.bound, tuple(PLACE if a in who else a
                                        for a in args))
        if key in self.assumed:
            known = self.assumed[key]
            if known is None:
                return None
            return [(st.copy(), v) for v in known]
        facts = {k: v for k, v in st.facts.items()
                 if not any(a in who for a in anons(k))}
        self.assumed[key] = values = []
        good = True
        while good:
            n = len(values)
            s = st.copy()
            s.facts = dict(facts)
            s.alts = tuple(g for g in s.alts if not any(
                a in who for alt in g for k, _ in alt for a in anons(k)))
            pre = (dict(s.heap), dict(s.x))
            for s2, v in self.call_body(s, f, args, kw, ctx, node):
                if not isinstance(v, Const) or s2.trace != st.trace or \
                        s2.imp != st.imp or not self.unchanged(s2, *pre) or \
                        any(k not in facts and isplain(k)
                            for k in s2.facts):
                    good = False
                    break
                if v not in values:
                    values.append(v)
            if len(values) == n:
                break
        if not good:
            self.assumed[key] = None
            return None
        del self.assumed[key]
        self.stats['uniform recursions'] += 1
        return [(st.copy(), v) for v in values]

    def join_pure(self, outs, pre):
        """Join the outcomes of a function without effects which returned
        the same constant: what was learned differently is forgotten."""
        heap, facts, trace, x, na, no, imp = pre[:7]
        res, groups = [], {}
        for s, v in outs:
            if isinstance(v, Const) and s.trace == trace and not (
                    s.imp != imp) and self.unchanged(s, heap, x):
                groups.setdefault(v, []).append(s)
            else:
                res.append((s, v))
        for v, ss in groups.items():
            s = ss[0]
            if len(ss) > 1:
                keep = {k: w for k, w in s.facts.items() if all(
                    o.facts.get(k) is w for o in ss[1:])}
                keep.update(facts)
                keep = {k: w for k, w in keep.items()
                        if k in facts or not anons(k)}
                common = set(pre[7])
                for o in ss:
                    common &= set(o.alts)
                alts = set()
                for o in ss:
                    mine = {frozenset(
                        (k, w) for k, w in o.facts.items()
                        if k not in keep and isplain(k))}
                    for g in o.alts:
                        if g in common:
                            continue
                        if len(mine) * len(g) > 64:
                            s.doubt('alternatives forgotten')
                            continue
                        mine = {a | b for a in mine for b in g
                                if not any((k, not w) in a for k, w in b)}
                    alts |= mine
                alts = self.reduce_alts(alts)
                groups2 = common
                if frozenset() not in alts:
                    groups2.add(frozenset(alts))
                s.alts = tuple(sorted(groups2, key=repr))
                s.heap = dict(heap)
                self.stats['joined'] += len(ss) - 1
            res.append((s, v))
        return res

    def unchanged(self, s, heap, x):
        for k, w in x.items():
            if s.x.get(k) != w:
                return False
        for a, o in heap.items():
            p = s.heap.get(a)
            if p is o:
                continue
            if p is None:
                continue        # garbage by now
            if isinstance(p, Inst) or isinstance(o, Inst):
                return False
            if p.exact or o.exact:
                if p.exact and o.exact and p.items == o.items:
                    continue
                return False
            if p.oth != o.oth and o.oth != 'maybe':
                return False
            for k, m in p.mem.items():
                if o.mem.get(k, m if anons(k) else None) != m:
                    return False
            if any(k not in p.mem for k in o.mem):
                return False
        return True

    def leave(self, st, fid):
        self.pop_frame(st, fid)
        st.stack = st.stack[:-1]

    def ev_Yield(self, n, st, ctx):
        out = []
        srcs = self.ev(n.value, st, ctx) if n.value else [(st, NONE)]
        for s, v in srcs:
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            y = s.frames[ctx.fid].get('$yield')
            if y is None:
                s.doubt('yield')
                out.append((s, NONE))
                continue
            for s2 in self.add(s, y.a, v, ctx, n):
                out.append((s2, NONE))
        return out

    def ev_YieldFrom(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            y = s.frames[ctx.fid]['$yield']
            out.extend(self.method(s, y, 'extend', [v], {}, ctx, n))
        return out

    def ev_Starred(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_Await(self, n, st, ctx):
        st.doubt('await')
        return [(st, Top('await'))]

    # =========================================================== statements
    def run(self, stmts, st, ctx):
        """-> [(state, kind, value)]"""
        live = [st]
        out = []
        for n in stmts:
            nxt = []
            for s in live:
                for o in self.run_stmt(n, s, ctx):
                    if o[1] == 'next':
                        nxt.append(o[0])
                    else:
                        out.append(o)
            if len(nxt) > 24:
                nxt = [o[0] for o in self.dedupe(
                    [(s, None) for s in nxt])]
            live = nxt
            if not live:
                break
            if len(live) > 20000:
                raise Budget('too many states')
        out.extend((s, 'next', None) for s in live)
        return out

    def run_stmt(self, n, st, ctx):
        self.stats['statements'] += 1
        m = getattr(self, 'st_' + n.__class__.__name__, None)
        if m is None:
            st.doubt('statement %s' % n.__class__.__name__)
            return [(st, 'next', None)]
        return m(n, st, ctx)

    def wrap(self, outs):
        return [(s, 'exc', v) if isinstance(v, Exc) else (s, 'next', None)
                for s, v in outs]

    def st_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [(st, 'next', None)]
        return self.wrap(self.ev(n.value, st, ctx))

    def st_Pass(self, n, st, ctx):
        return [(st, 'next', None)]

    def st_Global(self, n, st, ctx):
        return [(st, 'next', None)]

    st_Nonlocal = st_Global

    def st_Import(self, n, st, ctx):
        for a in n.names:
            nm = (a.asname or a.name).split('.')[0]
            full = a.name if a.asname else nm
            v = Mod(self.prog.modules[full]) \
                if full in self.prog.modules else Ext(full)
            st.setvar(ctx.fid, nm, v)
        return [(st, 'next', None)]

    def st_ImportFrom(self, n, st, ctx):
        base = n.module or ''
        if n.level:
            pkg = ctx.module.name if ctx.module.rel.endswith(
                '__init__.py') else ctx.module.name.rpartition('.')[0]
            parts = pkg.split('.')
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            v = None
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                if r:
                    v = self.from_resolved(st, r, ctx, n, a.name)[0][1]
                elif base + '.' + a.name in self.prog.modules:
                    v = Mod(self.prog.modules[base + '.' + a.name])
            st.setvar(ctx.fid, a.asname or a.name,
                      v if v is not None else Ext(base + '.' + a.name))
        return [(st, 'next', None)]

    def st_FunctionDef(self, n, st, ctx):
        fi = self.nested_info(n, ctx)
        st.setvar(ctx.fid, '$captured', TRUE)
        st.setvar(ctx.fid, n.name, Clo(fi, ctx.fid, None))
        return [(st, 'next', None)]

    def st_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, 'ret', NONE)]
        return [(s, 'exc' if isinstance(v, Exc) else 'ret', v)
                for s, v in self.ev(n.value, st, ctx)]

    def st_Break(self, n, st, ctx):
        return [(st, 'brk', None)]

    def st_Continue(self, n, st, ctx):
        return [(st, 'cont', None)]

    def st_Assert(self, n, st, ctx):
        out = []
        for s, t in self.cond(n.test, st, ctx):
            if isinstance(t, Exc):
                out.append((s, 'exc', t))
            elif t:
                out.append((s, 'next', None))
            else:
                out.append((s, 'exc', exc('AssertionError', ctx, n)))
        return out

    def st_If(self, n, st, ctx):
        out = []
        for s, t in self.dedupe(self.cond(n.test, st, ctx)):
            if isinstance(t, Exc):
                out.append((s, 'exc', t))
            else:
                out.extend(self.run(n.body if t else n.orelse, s, ctx))
        return out

    def st_Raise(self, n, st, ctx):
        if n.exc is None:
            cur = st.frames[ctx.fid].get('$exc') if ctx.fid else None
            st.doubt('re-raise') if cur is None else None
            return [(st, 'exc', Exc(cur if cur is not None else
                                    ExcObj('Exception', ()),
                                    ctx.where(n), True))]
        out = []
        for s, v in self.ev(n.exc, st, ctx):
            if isinstance(v, Exc):
                out.append((s, 'exc', v))
                continue
            if isinstance(v, Bi) and is_exc_name(v.name):
                v = ExcObj(v.name, ())
            elif isinstance(v, Cls):
                v = ExcObj(v.ci.name, ())
            if not isinstance(v, ExcObj):
                s.doubt('raise of an untracked value')
                v = ExcObj('Exception', ())
            out.append((s, 'exc', Exc(v, ctx.where(n), True)))
        return out

    # ---- assignment -----------------------------------------------------
    def st_Assign(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, 'exc', v))
                continue
            outs = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, e in outs:
                    if isinstance(e, Exc):
                        nxt.append((s1, e))
                    else:
                        nxt.extend(self.assign(t, v, s1, ctx))
                outs = nxt
            out.extend(self.wrap(outs))
        return out

    def st_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, 'next', None)]
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, 'exc', v))
            else:
                out.extend(self.wrap(self.assign(n.target, v, s, ctx)))
        return out

    def assign(self, t, v, st, ctx):
        """-> [(state, None | Exc)]"""
        if isinstance(t, ast.Name):
            fid = ctx.fid
            if ctx.fi is not None and not st.frames[fid].get('$comp'):
                if t.id in ctx.fi.globals_:
                    st.x[('global', ctx.module.name, t.id)] = v
                    st.x['keep'] = st.x.get('keep', ()) + (v,)
                    return [(st, None)]
                if t.id in ctx.fi.nonlocals:
                    p = st.frames[fid].get('$parent')
                    while p is not None and t.id not in st.frames[p]:
                        p = st.frames[p].get('$parent')
                    if p is not None:
                        st.setvar(p, t.id, v)
                        return [(st, None)]
            st.setvar(fid, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, ctx):
                if isinstance(o, Exc):
                    out.append((s, o))
                else:
                    out.extend(self.setattr(s, o, ctx.mangle(t.attr), v,
                                            ctx, t))
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                out = []
                for s, o in self.ev(t.value, st, ctx):
                    if isinstance(o, Exc):
                        out.append((s, o))
                        continue
                    sl = t.slice
                    if isinstance(o, Ref) and isinstance(
                            s.heap[o.a], Cont) and sl.lower is None and \
                            sl.upper is None and sl.step is None:
                        for s2, c in self.as_cont(s, v, ctx, t):
                            if isinstance(c, Exc):
                                out.append((s2, c))
                                continue
                            old = s2.heap[o.a]
                            s2.heap[o.a] = c.with_(kind=old.kind)
                            self.touched(s2, o.a, 'replace', None, ctx, t)
                            out.append((s2, None))
                        continue
                    s.doubt('slice assignment')
                    out.append((s, None))
                return out
            out = []
            for s, vs in self.evs([t.value, t.slice], st, ctx):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                    continue
                out.extend(self.store_item(s, vs[0], vs[1], v, ctx, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, ctx)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx)
        st.doubt('assignment target')
        return [(st, None)]

    def store_item(self, s, o, k, v, ctx, t):
        if isinstance(o, Ref) and isinstance(s.heap[o.a], Cont):
            c = s.heap[o.a]
            if c.kind == 'dict':
                return [(s2, None) for s2 in self.setitem(
                    s, o.a, k, v, ctx, t)]
            if c.exact and isinstance(k, Const) and isinstance(k.v, int):
                try:
                    items = list(c.items)
                    items[k.v] = v
                except IndexError:
                    return [(s, exc('IndexError', ctx, t))]
                s.heap[o.a] = c.with_(items=tuple(items))
                self.touched(s, o.a, 'store', v, ctx, t)
                return [(s, None)]
            s.doubt('assignment to an item of a list')
            return [(s, None)]
        if isinstance(o, Ref):
            i = s.heap[o.a]
            if not isinstance(i.cls, str):
                m = self.prog.find_method(i.cls, '__setitem__')
                if m:
                    return [(s2, r if isinstance(r, Exc) else None)
                            for s2, r in self.call(
                                s, Clo(m, None, o), [k, v], {}, ctx, t)]
            return [(s2, r if isinstance(r, Exc) else None)
                    for s2, r in self.ext_inst_call(
                        s, o, '__setitem__', [k, v], {}, ctx, t)]
        if isinstance(o, (Tup, Const)):
            return [(s, exc('TypeError', ctx, t))]
        s.doubt('assignment to an item')
        return [(s, None)]

    def unpack(self, t, v, st, ctx):
        out = []
        for s, c in self.as_cont(st, v, ctx, t):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if not c.exact:
                s.doubt('unpacking of an unknown sequence')
                vals = [Top('unpacking')] * n
            elif star:
                i = star[0]
                if len(c.items) < n - 1:
                    out.append((s, exc('ValueError', ctx, t)))
                    continue
                after = n - i - 1
                mid = c.items[i:len(c.items) - after]
                vals = list(c.items[:i]) + [
                    s.new(Cont('list', items=mid))] + list(
                    c.items[len(c.items) - after:] if after else ())
            elif len(c.items) != n:
                out.append((s, exc('ValueError', ctx, t)))
                continue
            else:
                vals = list(c.items)
            outs = [(s, None)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for s1, r in outs:
                    if isinstance(r, Exc):
                        nxt.append((s1, r))
                    else:
                        nxt.extend(self.assign(e, x, s1, ctx))
                outs = nxt
            out.extend(outs)
        return out

    def st_AugAssign(self, n, st, ctx):
        load = self._comp.get(('aug', id(n)))
        if load is None:
            load = ast.parse(ast.unparse(n.target), mode='eval').body
            for x in ast.walk(load):
                x.lineno = n.lineno
            self._comp[('aug', id(n))] = load
            self._comp[('keep', id(n))] = n
        out = []
        for s, vs in self.evs([load, n.value], st, ctx):
            if isinstance(vs, Exc):
                out.append((s, 'exc', vs))
                continue
            a, b = vs
            if isinstance(a, Ref) and isinstance(s.heap[a.a], Cont):
                kind = s.heap[a.a].kind
                if isinstance(n.op, ast.Add) and kind in ('list', 'deque'):
                    rs = self.method(s, a, 'extend', [b], {}, ctx, n)
                elif kind == 'set' and isinstance(
                        n.op, (ast.Sub, ast.BitOr, ast.BitAnd)):
                    nm = {ast.Sub: 'difference_update', ast.BitOr: 'update',
                          ast.BitAnd: 'intersection_update'}[type(n.op)]
                    rs = self.method(s, a, nm, [b], {}, ctx, n)
                elif kind == 'dict' and isinstance(n.op, ast.BitOr):
                    rs = self.method(s, a, 'update', [b], {}, ctx, n)
                else:
                    rs = [(s, exc('TypeError', ctx, n))]
                for s2, r in rs:
                    if isinstance(r, Exc):
                        out.append((s2, 'exc', r))
                    else:
                        out.extend(self.wrap(self.assign(
                            n.target, a, s2, ctx)))
                continue
            for s2, r in self.binop(s, n.op, a, b, ctx, n):
                if isinstance(r, Exc):
                    out.append((s2, 'exc', r))
                else:
                    out.extend(self.wrap(self.assign(n.target, r, s2, ctx)))
        return out

    def st_Delete(self, n, st, ctx):
        outs = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, e in outs:
                if isinstance(e, Exc):
                    nxt.append((s, e))
                    continue
                if isinstance(t, ast.Name):
                    s.delvar(ctx.fid, t.id)
                    nxt.append((s, None))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, ctx):
                        if isinstance(o, Exc):
                            nxt.append((s2, o))
                            continue
                        nm = ctx.mangle(t.attr)
                        i = s2.heap.get(o.a) if isinstance(o, Ref) else None
                        if isinstance(i, Inst) and nm in i.fields:
                            f = dict(i.fields)
                            del f[nm]
                            s2.heap[o.a] = Inst(i.cls, f, i.tag)
                            nxt.append((s2, None))
                        else:
                            nxt.append((s2, exc('AttributeError', ctx, n)))
                elif isinstance(t, ast.Subscript) and not isinstance(
                        t.slice, ast.Slice):
                    for s2, vs in self.evs([t.value, t.slice], s, ctx):
                        if isinstance(vs, Exc):
                            nxt.append((s2, vs))
                            continue
                        nxt.extend((s3, r if isinstance(r, Exc) else None)
                                   for s3, r in self.delitem(
                                       s2, vs[0], vs[1], ctx, n))
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s, ctx):
                        if isinstance(o, Ref) and isinstance(
                                s2.heap[o.a], Cont) and \
                                t.slice.lower is None and \
                                t.slice.upper is None:
                            self.clear(s2, o.a, ctx, n)
                        else:
                            s2.doubt('deletion of a slice')
                        nxt.append((s2, o if isinstance(o, Exc) else None))
                else:
                    s.doubt('deletion')
                    nxt.append((s, None))
            outs = nxt
        return self.wrap(outs)

    def delitem(self, st, o, k, ctx, n):
        if isinstance(o, Ref) and isinstance(st.heap[o.a], Cont):
            c = st.heap[o.a]
            if c.kind == 'dict':
                out = []
                for s, b in self.contains(st, o.a, k):
                    if b:
                        out.extend((s2, None) for s2 in self.take(
                            s, o.a, k, ctx, n, 'delitem'))
                    else:
                        if anons(k):
                            s.doubt('lookup of an anonymous key')
                        out.append((s, exc('KeyError', ctx, n, k)))
                return out
            return self.method(st, o, 'pop', [k], {}, ctx, n)
        return [(st, exc('TypeError', ctx, n))]

    # ---- loops ----------------------------------------------------------
    def st_For(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.iter, st, ctx):
            if isinstance(v, Exc):
                out.append((s, 'exc', v))
                continue
            for s2, it in self.start_iter(s, v, ctx, n):
                if isinstance(it, Exc):
                    out.append((s2, 'exc', it))
                    continue
                out.extend(self.loop(n, s2, ctx, it))
        return self.dedupe(out)

    def st_While(self, n, st, ctx):
        return self.dedupe(self.loop(n, st, ctx, None))

    def dead_vars(self, n, ctx):
        """Variables which are dead at the head of loop n."""
        key = (id(n), id(ctx.fi))
        if key in self._live:
            return self._live[key]
        stores = set()
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.add(x.id)
        if isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    stores.add(x.id)
        inside = {id(x) for x in ast.walk(n)}
        outside = set()
        root = ctx.fi.node if ctx.fi is not None else None
        if root is None:
            self._live[key] = ()
            return ()
        outer_loop = False
        for x in ast.walk(root):
            if isinstance(x, (ast.For, ast.While)) and x is not n and any(
                    y is n for y in ast.walk(x)):
                outer_loop = True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    id(x) not in inside:
                outside.add(x.id)
        target = set()
        if isinstance(n, ast.For):
            target = {x.id for x in ast.walk(n.target)
                      if isinstance(x, ast.Name)}
        dead = []
        for name in stores:
            if name in outside:
                continue
            if name in target:
                dead.append(name)
                continue
            if isinstance(n, ast.While) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for x in ast.walk(n.test)):
                continue
            if self.stored_first(n.body, name):
                dead.append(name)
        self._live[key] = tuple(dead)
        return self._live[key]

    def stored_first(self, body, name):
        for b in body:
            loads = any(isinstance(x, ast.Name) and x.id == name and
                        isinstance(x.ctx, ast.Load) for x in ast.walk(b))
            if isinstance(b, ast.Assign):
                val = any(isinstance(x, ast.Name) and x.id == name
                          for x in ast.walk(b.value))
                tgt = any(isinstance(x, ast.Name) and x.id == name and
                          isinstance(x.ctx, ast.Store)
                          for t in b.targets for x in ast.walk(t))
                if val:
                    return False
                if tgt:
                    return True
            elif isinstance(b, ast.For):
                if any(isinstance(x, ast.Name) and x.id == name
                       for x in ast.walk(b.iter)):
                    return False
                if any(isinstance(x, ast.Name) and x.id == name
                       for x in ast.walk(b.target)):
                    return True
                if loads:
                    return self.stored_first(b.body, name)
            elif isinstance(b, (ast.If, ast.Try, ast.With)):
                if isinstance(b, ast.If) and any(
                        isinstance(x, ast.Name) and x.id == name
                        for x in ast.walk(b.test)):
                    return False
                if loads:
                    return self.stored_first(b.body, name)
            elif loads:
                return False
        return True

    def loop(self, n, st, ctx, it):
        self.loopseq += 1
        # nesting depth names the iterator: stable across repetitions
        it_id = ('it', len(st.iters), id(n))
        if it is not None:
            st.iters[it_id] = it
        dead = self.dead_vars(n, ctx)
        out, after = [], []
        seen = set()
        work = [(st, 0)]
        rounds = 0
        changes = {}
        linear = True       # so far there was only one way to go
        while work:
            s, depth = work.pop()
            rounds += 1
            if rounds > MAX_LOOP:
                self.incomplete.add('loop at %s' % ctx.where(n))
                break
            if depth > 0:
                for d in dead:
                    if d in s.frames[ctx.fid]:
                        s.delvar(ctx.fid, d)
                i2 = s.iters.get(it_id)
                if i2 is not None and i2[0] == 'live' and i2[5] is not None:
                    s.iters[it_id] = i2[:5] + (None, i2[6])
                if depth > (12 if linear else 2):
                    self.widen(s, ctx, depth)
                self.norm(s)
            k = self.key(s)
            if k in seen:
                continue
            seen.add(k)
            self.stats['loop states'] += 1
            if it is not None:
                steps = []
                for s1, e in self.advance(s, it_id, ctx, n):
                    if e is None:
                        s1.iters.pop(it_id, None)
                        after.append(s1)
                    elif isinstance(e, Exc):
                        s1.iters.pop(it_id, None)
                        out.append((s1, 'exc', e))
                    else:
                        steps.extend(self.assign(n.target, e, s1, ctx))
            else:
                steps = []
                for s1, t in self.cond(n.test, s, ctx):
                    if isinstance(t, Exc):
                        out.append((s1, 'exc', t))
                    elif t:
                        steps.append((s1, None))
                    else:
                        after.append(s1)
            if len(steps) != 1 or after or out:
                linear = False
            for s1, e in steps:
                if isinstance(e, Exc):
                    s1.iters.pop(it_id, None)
                    out.append((s1, 'exc', e))
                    continue
                for s2, kind, v in self.run(n.body, s1, ctx):
                    if kind in ('next', 'cont'):
                        work.append((s2, depth + 1))
                        linear = linear and len(work) == 1
                    else:
                        s2.iters.pop(it_id, None)
                        out.append((s2, 'next' if kind == 'brk' else kind,
                                    v))
        if len(after) > 8:
            after = [o[0] for o in self.dedupe([(s, None) for s in after])]
        for s in after:
            if n.orelse:
                out.extend(self.run(n.orelse, s, ctx))
            else:
                out.append((s, 'next', None))
        return out

    def widen(self, st, ctx, depth):
        """Integers that keep changing become unknown integers."""
        f = st.frames[ctx.fid]
        for k, v in list(f.items()):
            if isinstance(v, Const) and type(v.v) is int and v.v > 2 and \
                    k[0] != '$':
                st.setvar(ctx.fid, k, st.fresh('i'))
            elif isinstance(v, Num) and v.lo is not None and v.lo > 2 and \
                    v.tag != 'len':
                st.setvar(ctx.fid, k, Num(3, None, v.tag))
            elif isinstance(v, (Tup, PathV)):
                xs = v.items if isinstance(v, Tup) else v.suffix
                if len(xs) > 5:
                    st.doubt('long path')
                    st.setvar(ctx.fid, k, PathV('?', xs[-2:]))

    # ---- try / with -----------------------------------------------------
    def st_Try(self, n, st, ctx):
        out = []
        res = self.run(n.body, st, ctx)
        post = []
        for s, k, v in res:
            if k == 'exc':
                post.extend(self.handle(n, s, v, ctx))
            elif k == 'next' and n.orelse:
                post.extend(self.run(n.orelse, s, ctx))
            else:
                post.append((s, k, v))
        if not n.finalbody:
            return post
        for s, k, v in post:
            for s2, k2, v2 in self.run(n.finalbody, s, ctx):
                if k2 == 'next':
                    out.append((s2, k, v))
                else:
                    out.append((s2, k2, v2))
        return out

    def handle(self, n, st, e, ctx):
        for h in n.handlers:
            m = self.matches(h.type, e, st, ctx)
            if m is None:
                st.doubt('unknown exception class')
                m = True
            if m:
                if h.name:
                    st.setvar(ctx.fid, h.name, e.obj)
                st.setvar(ctx.fid, '$exc', e.obj)
                return self.run(h.body, st, ctx)
        return [(st, 'exc', e)]

    def matches(self, t, e, st, ctx):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            rs = [self.matches(x, e, st, ctx) for x in t.elts]
            return True if True in rs else None if None in rs else False
        name = ast.unparse(t).split('.')[-1]
        c = e.obj.cls
        seen = set()
        while c and c not in seen:
            seen.add(c)
            if c == name:
                return True
            if c in EXC_BASES:
                c = EXC_BASES[c]
                continue
            ci = self.exc_class(c)
            if ci is None:
                return None
            b = ci.bases[0] if ci.bases else None
            c = ast.unparse(b).split('.')[-1] if b is not None else None
        return False

    def exc_class(self, name):
        for m in self.prog.modules.values():
            r = m.names.get(name)
            if r and r[0] == 'class':
                return r[1]
        return None

    def st_With(self, n, st, ctx):
        return self.with_items(n, n.items, st, ctx)

    def with_items(self, n, items, st, ctx):
        if not items:
            return self.run(n.body, st, ctx)
        it = items[0]
        out = []
        for s, v in self.ev(it.context_expr, st, ctx):
            if isinstance(v, Exc):
                out.append((s, 'exc', v))
                continue
            for s2, e, leave in self.enter(s, v, ctx, n):
                if isinstance(e, Exc):
                    out.append((s2, 'exc', e))
                    continue
                if it.optional_vars is not None:
                    rs = self.assign(it.optional_vars, e, s2, ctx)
                else:
                    rs = [(s2, None)]
                for s3, r in rs:
                    if isinstance(r, Exc):
                        out.append((s3, 'exc', r))
                        continue
                    for s4, k, x in self.with_items(n, items[1:], s3, ctx):
                        out.extend(leave(s4, k, x))
        return out

    def enter(self, st, v, ctx, n):
        """-> [(state, value | Exc, leave)]"""
        o = st.heap.get(v.a) if isinstance(v, Ref) else None
        if isinstance(o, Inst) and o.cls in ('ext:Lock', 'ext:RLock'):
            def leave(s, k, x):
                return [(s2, 'exc', r) if isinstance(r, Exc) else (s2, k, x)
                        for s2, r in self.lock_op(s, v, 'release', ctx, n)]
            return [(s, r, leave) for s, r in self.lock_op(
                st, v, 'acquire', ctx, n)]
        if isinstance(o, Inst) and isinstance(o.cls, str) and \
                o.cls == 'ext:suppress':
            names = o.fields['names']

            def leave(s, k, x):
                if k == 'exc':
                    for nm in names._k[0]:
                        if nm == STR:
                            continue
                        t = ast.Name(nm.name if isinstance(nm, Bi)
                                     else nm.ci.name, ast.Load())
                        if self.matches(t, x, s, ctx):
                            return [(s, 'next', None)]
                return [(s, k, x)]
            return [(st, NONE, leave)]
        if isinstance(o, Inst) and not isinstance(o.cls, str):
            en = self.prog.find_method(o.cls, '__enter__')
            ex = self.prog.find_method(o.cls, '__exit__')
            if en and ex:
                def leave(s, k, x):
                    args = [NONE, NONE, NONE]
                    if k == 'exc':
                        args = [STR, x.obj, STR]
                    res = []
                    for s2, r in self.call(s, Clo(ex, None, v), args, {},
                                           ctx, n):
                        if isinstance(r, Exc):
                            res.append((s2, 'exc', r))
                        elif k == 'exc':
                            for s3, t in self.truth(s2, r):
                                res.append((s3, 'next', None) if t
                                           else (s3, k, x))
                        else:
                            res.append((s2, k, x))
                    return res
                return [(s, r, leave) for s, r in self.call(
                    st, Clo(en, None, v), [], {}, ctx, n)]
        st.doubt('with on an untracked value')
        return [(st, Top('with'), lambda s, k, x: [(s, k, x)])]


class _Done:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
