"""Index of the source tree under analysis.

Parses every python module of /repo/redmapper and /repo/bin (never imports
them) and resolves imports, classes, inheritance and functions.
"""
import ast
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis lost something it needs (a vanished anchor)."""


class Func(object):
    def __init__(self, mod, cls, node, qual):
        self.mod = mod
        self.cls = cls
        self.node = node
        self.qual = qual          # Class.method or function
        self.name = node.name

    @property
    def where(self):
        cf = getattr(self.node, '_cfile', None)
        if cf:
            return '%s/%s:%s' % (os.path.dirname(self.mod.rel), cf, self.qual)
        return '%s:%s' % (self.mod.rel, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def deco(self):
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Name):
                out.append(d.id)
            elif isinstance(d, ast.Attribute):
                out.append(d.attr)
        return out

    def __repr__(self):
        return '<Func %s>' % self.where


class Class(object):
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.props = {}
        self.attrs = {}
        self.bases = []           # Class objects or dotted str

    def __repr__(self):
        return '<Class %s:%s>' % (self.mod.rel, self.name)


class Module(object):
    def __init__(self, repo, path, rel, dotted, src=None, tree=None):
        self.repo = repo
        self.path = path
        self.rel = rel
        self.dotted = dotted
        if tree is not None:
            raw = ast.unparse(tree).encode('utf-8')
        elif src is not None:
            raw = src.encode('utf-8')
        else:
            with open(path, 'rb') as f:
                raw = f.read()
        self.sha = hashlib.sha256(raw).hexdigest()
        self.src = raw.decode('utf-8')
        self.tree = tree if tree is not None else ast.parse(self.src, filename=rel)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.imports = {}     # local name -> ('mod', dotted) | ('from', dotted, name)
        self.star = []
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self._index()

    def _index(self):
        ispkg = os.path.basename(self.path) == '__init__.py'
        pkg = self.dotted if ispkg else self.dotted.rpartition('.')[0]
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    p = pkg.split('.') if pkg else []
                    if n.level > 1:
                        p = p[:-(n.level - 1)]
                    base = '.'.join(p + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.functions[n.name] = Func(self, None, n, n.name)
            elif isinstance(n, ast.ClassDef):
                c = Class(self, n)
                self.classes[n.name] = c
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        f = Func(self, c, m, n.name + '.' + m.name)
                        decos = f.deco()
                        if 'setter' in decos:
                            c.setters[m.name] = f
                            continue
                        if 'property' in decos:
                            c.props[m.name] = f
                        c.methods[m.name] = f
                    elif isinstance(m, ast.Assign):
                        for t in m.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = m.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.globals[x.id] = n.value


class Repo(object):
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        ov = overrides or {}
        self.modules = {}
        top = os.path.join(self.root, 'redmapper')
        if not os.path.isdir(top):
            raise AnalysisBroken('no package directory %s' % top)
        for d, dirs, files in sorted(os.walk(top)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    dotted = rel[:-3].replace(os.sep, '.')
                    if dotted.endswith('.__init__'):
                        dotted = dotted[:-9]
                    self.modules[dotted] = Module(self, p, rel, dotted, ov.get(rel))
        bind = os.path.join(self.root, 'bin')
        if os.path.isdir(bind):
            for f in sorted(os.listdir(bind)):
                if f.endswith('.py'):
                    p = os.path.join(bind, f)
                    self.modules['bin.' + f[:-3]] = Module(self, p, os.path.relpath(p, self.root), 'bin.' + f[:-3])
        # compiled extensions: one pseudo-module per directory of C sources
        self.native = {}
        from . import cfront
        for rel, u in cfront.units(self.root, ov):
            dotted = rel.replace(os.sep, '.') + '.native_c'
            self.native[rel + '/native_c.py'] = u
            self.modules[dotted] = Module(self, os.path.join(self.root, rel, 'native_c.py'), rel + '/native_c.py', dotted, tree=u.tree)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    c.bases.append(r if isinstance(r, Class) else None)
        self._method_index = None

    # -- name resolution -------------------------------------------------
    def resolve_name(self, mod, name, depth=0):
        """Resolve a module-level name -> Func | Class | Module | ('ext', dotted) | None"""
        if depth > 8:
            return None
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('ext', imp[1])
            base, nm = imp[1], imp[2]
            if base in self.modules:
                r = self.resolve_name(self.modules[base], nm, depth + 1)
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return self.modules[base + '.' + nm]
                return ('ext', base + '.' + nm)
            return ('ext', base + '.' + nm)
        for base in mod.star:
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, depth + 1)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, mod, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(mod, node.value)
            if isinstance(b, Module):
                r = self.resolve_name(b, node.attr)
                if r is None and b.dotted + '.' + node.attr in self.modules:
                    r = self.modules[b.dotted + '.' + node.attr]
                return r
            if isinstance(b, tuple):
                return ('ext', b[1] + '.' + node.attr)
        return None

    # -- classes ---------------------------------------------------------
    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c is None or c in out:
                continue
            out.append(c)
            todo = [b for b in c.bases if isinstance(b, Class)] + todo
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def subclasses(self, name):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c.name != name and any(x.name == name for x in self.mro(c)):
                    out.append(c)
        return out

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken('class %s not found' % name)
        return self.classes[name]

    def func(self, qual):
        """Class.method (looked up through the MRO) or module function name."""
        if '.' in qual:
            c, m = qual.rsplit('.', 1)
            f = self.find_method(self.cls(c), m)
            if f is None:
                raise AnalysisBroken('method %s not found' % qual)
            return f
        for m in self.modules.values():
            if qual in m.functions and not m.dotted.startswith('bin.'):
                return m.functions[qual]
        raise AnalysisBroken('function %s not found' % qual)

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def methods_named(self, name):
        if self._method_index is None:
            self._method_index = {}
            for m in self.modules.values():
                for c in m.classes.values():
                    for f in c.methods.values():
                        self._method_index.setdefault(f.name, []).append(f)
        return self._method_index.get(name, [])
