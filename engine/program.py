"""Loads the source tree: modules, imports, functions, module-level constants (no import, no run)."""
import ast
import os
import hashlib


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}       # local name -> fq ('pkg.mod' or 'pkg.mod.obj')
        self.consts = {}        # local name -> expression node (last module-level assignment)
        self.const_count = {}
        self.body_other = []
        for n in self.tree.body:
            self.top(n)

    def top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    self.funcs[n.name + '.' + m.name] = m
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports[a.asname] = a.name
                else:
                    self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                pk = self.name.split('.') if self.is_pkg() else self.name.split('.')[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = '.'.join(pk + ([n.module] if n.module else []))
            for a in n.names:
                self.imports[a.asname or a.name] = base + '.' + a.name
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = n.value
                    self.const_count[t.id] = self.const_count.get(t.id, 0) + 1
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and \
                        len(t.elts) == len(n.value.elts) and all(isinstance(x, ast.Name) for x in t.elts):
                    for x, y in zip(t.elts, n.value.elts):
                        self.consts[x.id] = y
                        self.const_count[x.id] = self.const_count.get(x.id, 0) + 1
        elif isinstance(n, ast.AnnAssign):
            if isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
        elif isinstance(n, ast.Try):
            for m in n.body:
                self.top(m)
        else:
            self.body_other.append(n)

    def is_pkg(self):
        return os.path.basename(self.path) == '__init__.py'


class Program:
    def __init__(self, root, pkg='ajdmom'):
        self.root = root
        self.mods = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, 'src', pkg)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.join(root, 'src'))
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    src = open(p, encoding='utf-8').read()
                    self.digest.update(src.encode())
                    self.mods[name] = Module(name, p, src)

    def resolve(self, fq, depth=0):
        """fq 'pkg.mod.name' -> ('func', Module, name) | ('class', ...) | ('module', name) |
        ('const', Module, name) | ('ext', fq)"""
        if fq in self.mods:
            return ('module', fq)
        if depth > 10:
            return ('ext', fq)
        parts = fq.split('.')
        for cut in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:cut])
            if mn in self.mods:
                m = self.mods[mn]
                rest = parts[cut:]
                nm = '.'.join(rest)
                if nm in m.funcs:
                    return ('func', m, nm)
                if rest[0] in m.classes and len(rest) == 1:
                    return ('class', m, nm)
                if len(rest) == 1 and rest[0] in m.imports:
                    return self.resolve(m.imports[rest[0]], depth + 1)
                if len(rest) == 1 and rest[0] in m.consts:
                    v = m.consts[rest[0]]
                    import ast as _a
                    if isinstance(v, _a.Name):
                        return self.resolve(mn + '.' + v.id, depth + 1)
                    return ('const', m, nm)
                return ('missing', fq)
        return ('ext', fq)

    def func(self, fq):
        r = self.resolve(fq)
        if r[0] == 'func':
            return r[1], r[2], r[1].funcs[r[2]]
        return None

    def relpath(self, mod):
        return os.path.relpath(mod.path, self.root)
