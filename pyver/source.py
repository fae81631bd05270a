"""Loads the real source of /repo (read afresh on every run) into class / function tables."""
import ast, os

class OutOfSubset(Exception):
    """The code uses something the translator does not model: nothing is claimed about it."""

class FuncInfo:
    def __init__(self, module, qual, node, cls=None):
        self.module, self.qual, self.node, self.cls = module, qual, node, cls
        self.decorators = node.decorator_list if not isinstance(node, ast.Lambda) else []
    @property
    def key(self): return self.module.name + ':' + self.qual
    def __repr__(self): return 'Func(%s)' % self.key

class ClassInfo:
    def __init__(self, module, name, node):
        self.module, self.name, self.node = module, name, node
        self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = FuncInfo(module, name + '.' + st.name, st, self)
                kind = 'm'
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property': kind = 'g'
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 's'; f.qual = name + '.' + st.name + '.setter'
                {'m': self.methods, 'g': self.getters, 's': self.setters}[kind][st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
        self._mro = None
    def bases(self):
        return [self.module.resolve_global(b) for b in self.node.bases]
    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases():
                if isinstance(b, ClassInfo):
                    out += [c for c in b.mro() if c not in out]
            self._mro = out
        return self._mro
    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases() if not isinstance(b, ClassInfo)]
    def find(self, kind, name):
        for c in self.mro():
            d = getattr(c, kind)
            if name in d: return d[name]
        return None
    def issub(self, other): return other in self.mro()
    def __repr__(self): return 'Class(%s)' % self.name

class ExtRef:
    """something imported from outside /repo, by dotted name"""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Ext(%s)' % self.name
    def __eq__(self, o): return isinstance(o, ExtRef) and o.name == self.name
    def __hash__(self): return hash(('ext', self.name))

class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        with open(path, encoding='utf-8') as f: self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.globals = {}
        for st in self.tree.body: self._top(st)
    def _top(self, st):
        g = self.globals
        if isinstance(st, ast.FunctionDef): g[st.name] = FuncInfo(self, st.name, st)
        elif isinstance(st, ast.ClassDef): g[st.name] = ClassInfo(self, st.name, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname: g[a.asname] = ('import', a.name)
                else: g[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names: g[a.asname or a.name] = ('from', st.module, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name): g[t.id] = ('expr', st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            g[st.target.id] = ('expr', st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body: self._top(s)
    def lookup(self, name):
        """-> FuncInfo | ClassInfo | Module | ExtRef | ('expr', node, module) | None"""
        if name not in self.globals: return None
        v = self.globals[name]
        if isinstance(v, tuple):
            if v[0] == 'import':
                m = self.prog.module(v[1])
                return m if m else ExtRef(v[1])
            if v[0] == 'from':
                sub = self.prog.module(v[1] + '.' + v[2])
                if sub: return sub
                m = self.prog.module(v[1])
                if m:
                    r = m.lookup(v[2])
                    if r is None: raise OutOfSubset('import of %s from %s' % (v[2], v[1]))
                    return r
                return ExtRef(v[1] + '.' + v[2])
            return ('expr', v[1], self)
        return v
    def resolve_global(self, node):
        if isinstance(node, ast.Name):
            r = self.lookup(node.id)
            return r if r is not None else ExtRef('builtins.' + node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_global(node.value)
            if isinstance(b, Module): return b.lookup(node.attr)
            if isinstance(b, ExtRef): return ExtRef(b.name + '.' + node.attr)
        return None

class Program:
    def __init__(self, root):
        self.root, self.mods = root, {}
    def module(self, name):
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.isfile(p):
            return None
        m = self.mods[name] = Module.__new__(Module)
        m.__init__(self, name, p)
        return m
    def func(self, key):
        mod, qual = key.split(':')
        m = self.module(mod)
        if m is None: return None
        parts = qual.split('.')
        v = m.lookup(parts[0])
        if len(parts) == 1: return v if isinstance(v, FuncInfo) else None
        if not isinstance(v, ClassInfo): return None
        if len(parts) == 3 and parts[2] == 'setter': return v.find('setters', parts[1])
        return v.find('methods', parts[1]) or v.find('getters', parts[1])
    def cls(self, key):
        mod, q = key.split(':')
        m = self.module(mod)
        v = m.lookup(q) if m else None
        return v if isinstance(v, ClassInfo) else None
