"""Loads the source of the repository: modules, classes, functions, names.

Nothing is imported or executed: the files are parsed with ast only.
"""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of the analysis (a public class, method or field) is gone."""


class FuncInfo:
    __slots__ = ('node', 'module', 'cls', 'name', 'static', 'classm', 'prop',
                 'gen', 'odd_decorator', 'locals', 'globals_', 'nonlocals',
                 'loads')

    def __init__(self, node, module, cls):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.static = self.classm = self.prop = self.odd_decorator = False
        for d in getattr(node, 'decorator_list', []):
            n = d.id if isinstance(d, ast.Name) else None
            if n == 'staticmethod':
                self.static = True
            elif n == 'classmethod':
                self.classm = True
            elif n == 'property':
                self.prop = True
            else:
                self.odd_decorator = True
        self.gen = False
        self.locals = set()
        self.globals_ = set()
        self.nonlocals = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        self._scan(body)
        self.locals -= self.globals_
        self.locals -= self.nonlocals

    def _scan(self, nodes):
        stack = list(nodes)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.gen = True
            if isinstance(n, ast.Global):
                self.globals_.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                # targets are local to the comprehension; only the first
                # iterable and walrus targets belong to this scope
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr):
                        self.locals.add(sub.target.id)
                stack.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            stack.extend(ast.iter_child_nodes(n))

    @property
    def qual(self):
        return '%s%s.%s' % (self.module.name,
                            '.' + self.cls.name if self.cls else '', self.name)

    def where(self, node=None):
        node = node or self.node
        return '%s:%s' % (self.module.rel, getattr(node, 'lineno', '?'))

    def __repr__(self):
        return '<%s>' % self.qual


class ClassInfo:
    __slots__ = ('node', 'module', 'name', 'methods', 'attrs', 'bases')

    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = node.bases
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = FuncInfo(n, module, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None \
                    and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, self.name)

    def __repr__(self):
        return '<class %s>' % self.qual


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.rel = rel
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, rel)
        self.names = {}
        pkg = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        self._collect(self.tree.body, pkg)

    def _collect(self, body, pkg):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.names[n.name] = ('class', ClassInfo(n, self))
            elif isinstance(n, ast.FunctionDef):
                self.names[n.name] = ('func', FuncInfo(n, self, None))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = ('mod', a.name)
                    else:
                        top = a.name.split('.')[0]
                        self.names[top] = ('mod', top)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = pkg.split('.')
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('expr', n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(
                            n.value, ast.Tuple):
                        for tt, vv in zip(t.elts, n.value.elts):
                            if isinstance(tt, ast.Name):
                                self.names[tt.id] = ('expr', vv)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.names[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                for part in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(n, part, []) or [], pkg)


class Program:
    def __init__(self, root='/repo', packages=('liblarch', 'liblarch_gtk')):
        self.root = root
        self.modules = {}
        self._own = {}
        for pkg in packages:
            top = os.path.join(root, pkg)
            if not os.path.isdir(top):
                raise AnalysisBroken('package %s is gone' % pkg)
            for d, dirs, files in sorted(os.walk(top)):
                dirs[:] = sorted(x for x in dirs if x != '__pycache__')
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-len('.__init__')]
                    self.modules[name] = Module(name, path, rel)

    def cls(self, module, name):
        m = self.modules.get(module)
        r = m and m.names.get(name)
        if r and r[0] == 'from':
            r2 = self.resolve(m, name)
            if r2 and r2[0] == 'class':
                return r2[1]
        if not r or r[0] != 'class':
            raise AnalysisBroken('class %s.%s is gone' % (module, name))
        return r[1]

    def resolve(self, module, name):
        """-> ('class', ci) | ('func', fi) | ('expr', node, module)
        | ('ext', dotted) | ('module', Module) | None"""
        r = module.names.get(name)
        if r is None:
            return None
        if r[0] in ('class', 'func'):
            return r
        if r[0] == 'expr':
            return ('expr', r[1], module)
        if r[0] == 'mod':
            if r[1] in self.modules:
                return ('module', self.modules[r[1]])
            return ('ext', r[1])
        base, nm = r[1], r[2]
        if base in self.modules:
            if base + '.' + nm in self.modules and \
                    nm not in self.modules[base].names:
                return ('module', self.modules[base + '.' + nm])
            return self.resolve(self.modules[base], nm)
        if base + '.' + nm in self.modules:
            return ('module', self.modules[base + '.' + nm])
        return ('ext', base + '.' + nm)

    def mro(self, ci):
        """Linearised repository classes, and the dotted external bases."""
        out, ext = [], []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in c.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(c.module, b.id)
                    if r and r[0] == 'class':
                        go(r[1])
                    elif r and r[0] == 'ext':
                        ext.append(r[1])
                    elif b.id != 'object':
                        ext.append(b.id)
                else:
                    ext.append(ast.unparse(b))
        go(ci)
        return out, ext

    def own_attrs(self, ci):
        """The names of attributes which methods of the class set."""
        if ci.qual not in self._own:
            got = set()
            for c in self.mro(ci)[0]:
                for m in c.methods.values():
                    args = m.node.args.posonlyargs + m.node.args.args
                    if not args:
                        continue
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store) and isinstance(
                                n.value, ast.Name) and \
                                n.value.id == args[0].arg:
                            got.add(n.attr)
            self._own[ci.qual] = got
        return self._own[ci.qual]

    def find_method(self, ci, name, after=None):
        mro, _ = self.mro(ci)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, ci, name):
        for c in self.mro(ci)[0]:
            if name in c.attrs:
                return c.attrs[name], c.module
        return None

    def all_functions(self):
        for m in self.modules.values():
            for r in m.names.values():
                if r[0] == 'func':
                    yield r[1]
                elif r[0] == 'class':
                    for f in r[1].methods.values():
                        yield f
