"""Abstract values, abstract objects and abstract states."""


class V:
    """Base of abstract values (immutable, hashable)."""
    __slots__ = ('_k', '_h', '_p')

    def __init__(self, *k):
        self._k = k
        self._h = None
        self._p = None

    @property
    def plain(self):
        """Does it mention no address, frame or anonymous individual?"""
        if self._p is None:
            self._p = self._plain()
        return self._p

    def _plain(self):
        return all(isplain(x) for x in self._k)

    def __eq__(self, o):
        return self is o or (
            self.__class__ is o.__class__ and self._k == o._k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.__class__.__name__, self._k))
        return self._h

    def __repr__(self):
        return '%s%r' % (self.__class__.__name__, self._k)


def isplain(x):
    if isinstance(x, (V, FV)):
        return x.plain
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            if not isplain(y):
                return False
        return True
    return x.__class__ is not dict


class Const(V):
    __slots__ = ()

    def _plain(self):
        return True

    def __init__(self, v):
        V.__init__(self, type(v).__name__, v)

    @property
    def v(self):
        return self._k[1]

    def __repr__(self):
        return repr(self._k[1])


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def mkbool(b):
    return TRUE if b else FALSE


class Sym(V):
    """An individual (a node identifier, a filter name, a request ...).

    Two named individuals are distinct. '~n' are anonymous individuals,
    drawn from the summarised rest of a container; '~' alone is the
    placeholder of a template; '~i' ones are unknown integers."""
    __slots__ = ()

    def _plain(self):
        return self._k[0][0] != '~' or self._k[0] == '~'

    @property
    def name(self):
        return self._k[0]

    @property
    def oth(self):
        return self._k[0][0] == '~'

    @property
    def isint(self):
        return self._k[0].startswith('~i')

    def __repr__(self):
        return self._k[0]


PLACE = Sym('~')


class Tup(V):
    __slots__ = ()

    def __init__(self, items):
        V.__init__(self, tuple(items))

    @property
    def items(self):
        return self._k[0]

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class PathV(V):
    """A path: one of an unknown set of prefixes (named) + known suffix."""
    __slots__ = ()

    @property
    def base(self):
        return self._k[0]

    @property
    def suffix(self):
        return self._k[1]

    def __repr__(self):
        return '<%s>%s' % (self.base, ''.join('/%r' % x for x in self.suffix))


BASE = [0]      # addresses up to this one are the same in all states


class Ref(V):
    __slots__ = ()

    @property
    def plain(self):
        return self._k[0] <= BASE[0]

    def _plain(self):
        return False

    @property
    def a(self):
        return self._k[0]


class Clo(V):
    """Function (fi), defining frame (or None), bound self (or None)."""
    __slots__ = ()

    def _plain(self):
        return self._k[1] is None and (
            self._k[2] is None or self._k[2].plain)

    @property
    def fi(self):
        return self._k[0]

    @property
    def fid(self):
        return self._k[1]

    @property
    def bound(self):
        return self._k[2]

    def __repr__(self):
        return '<fn %s>' % self.fi.qual


class Part(V):
    """functools.partial: func, args, kwargs (sorted tuple of pairs)."""
    __slots__ = ()


class Cls(V):
    __slots__ = ()

    @property
    def ci(self):
        return self._k[0]


class Mod(V):
    __slots__ = ()


class Ext(V):
    """Something outside of the repository, by dotted name."""
    __slots__ = ()

    @property
    def name(self):
        return self._k[0]


class ExtFn(V):
    """A callable handed in by the environment (listener, filter, ...)."""
    __slots__ = ()

    @property
    def name(self):
        return self._k[0]


class Bi(V):
    """A builtin function, by name."""
    __slots__ = ()

    @property
    def name(self):
        return self._k[0]


class Meth(V):
    """Bound method of a container / external object / plain value."""
    __slots__ = ()

    @property
    def obj(self):
        return self._k[0]

    @property
    def name(self):
        return self._k[1]


class View(V):
    """kind in keys, values, items, rev, enum, iter; over another value."""
    __slots__ = ()

    @property
    def kind(self):
        return self._k[0]

    @property
    def src(self):
        return self._k[1]


class Super(V):
    __slots__ = ()


class FB(V):
    """A boolean whose value is an undetermined fact."""
    __slots__ = ()

    @property
    def name(self):
        return self._k[0]


class Num(V):
    """An integer in [lo, hi] (None: unbounded). tag: where it came from."""
    __slots__ = ()

    @property
    def lo(self):
        return self._k[0]

    @property
    def hi(self):
        return self._k[1]

    @property
    def tag(self):
        return self._k[2] if len(self._k) > 2 else None


class Opq(V):
    """A value we do not track. tag 'str': text; 'top:...': not modelled."""
    __slots__ = ()

    @property
    def tag(self):
        return self._k[0]

    @property
    def top(self):
        return self._k[0].startswith('top')


STR = Opq('str')


def Top(why):
    return Opq('top:' + why)


class ExcObj(V):
    """Exception instance: class name, args."""
    __slots__ = ()

    @property
    def cls(self):
        return self._k[0]


class Exc:
    """Control outcome of an expression: it raised."""
    __slots__ = ('obj', 'where', 'explicit')

    def __init__(self, obj, where, explicit=False):
        self.obj = obj
        self.where = where
        self.explicit = explicit

    @property
    def cls(self):
        return self.obj.cls

    def __repr__(self):
        return '%s at %s' % (self.obj.cls, self.where)


class FV:
    """Reference to a fact used as a membership count."""
    __slots__ = ('name', '_h', '_p')

    def __init__(self, name):
        self.name = name
        self._h = None
        self._p = None

    @property
    def plain(self):
        if self._p is None:
            self._p = isplain(self.name)
        return self._p

    def __eq__(self, o):
        return self is o or (isinstance(o, FV) and o.name == self.name)

    def __hash__(self):
        if self._h is None:
            self._h = hash(('FV', self.name))
        return self._h

    def __repr__(self):
        return 'FV%r' % (self.name,)


def anons(v, out=None):
    """The anonymous individuals in a value."""
    if out is None:
        out = set()
    if isinstance(v, (V, FV)) and v.plain:
        return out
    if isinstance(v, Sym):
        if v.oth:
            out.add(v)
    elif isinstance(v, (Tup, PathV)):
        for x in (v.items if isinstance(v, Tup) else v.suffix):
            anons(x, out)
    elif isinstance(v, tuple):
        for x in v:
            anons(x, out)
    elif isinstance(v, FV):
        anons(v.name, out)
    elif isinstance(v, FB):
        anons(v.name, out)
    elif isinstance(v, Part):
        for x in v._k:
            anons(x, out)
    elif isinstance(v, (View, Meth)):
        for x in v._k:
            anons(x, out)
    return out


def refs(v, out):
    """Addresses and frames a value refers to directly."""
    if isinstance(v, V) and v.plain:
        return out
    if isinstance(v, Ref):
        out.append(v.a)
    elif isinstance(v, Tup):
        for x in v.items:
            refs(x, out)
    elif isinstance(v, Clo):
        if v.bound is not None:
            refs(v.bound, out)
        if v.fid is not None:
            out.append(('f', v.fid))
    elif isinstance(v, (Part, View, Meth, Super, ExcObj)):
        for x in v._k:
            refs(x, out)
    elif isinstance(v, tuple):
        for x in v:
            refs(x, out)
    return out


def template(v, dead):
    """Replace dead anonymous individuals by the placeholder."""
    if isinstance(v, Sym):
        return PLACE if v in dead else v
    if isinstance(v, Tup):
        return Tup(template(x, dead) for x in v.items)
    if isinstance(v, PathV):
        return PathV(v.base, tuple(template(x, dead) for x in v.suffix))
    return v


class Inst:
    __slots__ = ('cls', 'fields', 'tag', '_ck', '_rf')

    def __init__(self, cls, fields, tag=None):
        self.cls = cls          # ClassInfo or 'ext:Name'
        self.fields = fields    # never changed in place
        self.tag = tag
        self._ck = self._rf = None

    @property
    def links(self):
        """What it refers to (addresses and frames)."""
        if self._rf is None:
            w = []
            for v in self.fields.values():
                refs(v, w)
            self._rf = tuple(w)
        return self._rf

    @property
    def ck(self):
        """(key of the plain fields, [(name, other value)])"""
        if self._ck is None:
            a, b = [], []
            for k in sorted(self.fields):
                v = self.fields[k]
                (a if isplain(v) else b).append((k, v))
            self._ck = (frozenset(
                [self.cls if isinstance(self.cls, str) else self.cls.name,
                 tuple(a)]), b)
        return self._ck

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Inst(self.cls, f, self.tag)

    def __repr__(self):
        return '<Inst %s>' % (
            self.cls if isinstance(self.cls, str) else self.cls.name)


class Cont:
    """list / set / deque / dict.

    exact: items is the sequence of elements (pairs for a dict).
    else:  mem maps named elements to their number of occurrences (0, 1, 2
           meaning more than one, or FV); oth says whether there are other,
           unnamed, elements: 'no', 'some', 'maybe' or an FV; shapes are
           templates of those.
    """
    __slots__ = ('kind', 'exact', 'items', 'mem', 'oth', 'shapes', 'vals',
                 'gen', 'origin', 'dflt', '_ck', '_rf', '_an')

    def __init__(self, kind, exact=True, items=(), mem=None, oth='no',
                 shapes=(), vals=None, gen=None, origin=None, dflt=None):
        self.kind = kind
        self.exact = exact
        self.items = tuple(items)
        self.mem = mem if mem is not None else {}
        self.oth = oth
        self.shapes = tuple(shapes)
        self.vals = vals if vals is not None else {}
        self.gen = gen
        self.origin = origin
        self.dflt = dflt
        self._ck = self._rf = self._an = None

    def with_(self, **kw):
        c = Cont.__new__(Cont)
        for s in Cont.__slots__[:-3]:
            setattr(c, s, kw[s] if s in kw else getattr(self, s))
        c._ck = c._rf = c._an = None
        return c

    @property
    def links(self):
        """What it refers to (addresses and frames)."""
        if self._rf is None:
            w = []
            for it in self.items:
                refs(it, w)
            for k in self.mem:
                refs(k, w)
            for v in self.vals.values():
                refs(v, w)
            if self.dflt is not None:
                refs(self.dflt, w)
            for sh in self.shapes:
                if isinstance(sh, tuple):
                    w.append(sh[1])
            self._rf = tuple(w)
        return self._rf

    @property
    def anon_keys(self):
        """The anonymous individuals among the elements (keys)."""
        if self._an is None:
            out = set()
            for it in self.items:
                anons(it, out)
            for k in self.mem:
                anons(k, out)
            self._an = frozenset(out)
        return self._an

    @property
    def ck(self):
        """(key of the plain part, the rest)"""
        if self._ck is None:
            if self.exact:
                if isplain(self.items):
                    self._ck = (frozenset([(self.kind, self.items)]), None)
                else:
                    self._ck = (frozenset([self.kind]), self.items)
            else:
                a, b = [], []
                for k, m in self.mem.items():
                    (a if isplain(k) and isplain(m) else b).append((k, m))
                c, d = [], []
                for k, v in self.vals.items():
                    (c if isplain(k) and isplain(v) else d).append((k, v))
                d.sort(key=lambda p: repr(p[0]))
                rest = [b, d]
                plain = [self.kind, 'abs', frozenset(a), frozenset(c)]
                for x in (self.oth, self.shapes, self.origin):
                    (plain if isplain(x) else rest).append(x)
                self._ck = (frozenset([tuple(plain)]), tuple(rest))
        return self._ck

    def __repr__(self):
        if self.exact:
            return '%s%r' % (self.kind, list(self.items))
        return '%s{%r oth=%s}' % (self.kind, self.mem, self.oth)


class St:
    """Abstract state. Owned linearly: mutate only a state you own."""
    __slots__ = ('heap', 'facts', 'frames', 'trace', 'imp', 'na', 'no',
                 'iters', 'roots', 'stack', 'x', 'defaults', 'alts')

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.frames = {}
        self.trace = ()
        self.imp = ()
        self.na = 0
        self.no = 0
        self.iters = {}
        self.roots = ()
        self.stack = ()
        self.x = {}
        self.defaults = {}
        self.alts = ()

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.frames = dict(self.frames)
        s.trace = self.trace
        s.imp = self.imp
        s.na = self.na
        s.no = self.no
        s.iters = dict(self.iters)
        s.roots = self.roots
        s.stack = self.stack
        s.x = dict(self.x)
        s.defaults = dict(self.defaults)
        s.alts = self.alts
        return s

    def new(self, obj):
        self.na += 1
        a = self.na
        self.heap[a] = obj
        return Ref(a)

    def fresh(self, prefix=''):
        self.no += 1
        return Sym('~%s%d' % (prefix, self.no))

    def doubt(self, why):
        if why not in self.imp and len(self.imp) < 6:
            self.imp = self.imp + (why,)

    def event(self, ev):
        if len(self.trace) >= 80:
            self.doubt('trace too long')
            return
        self.trace = self.trace + (ev,)

    def setvar(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def delvar(self, fid, name):
        f = dict(self.frames[fid])
        f.pop(name, None)
        self.frames[fid] = f
