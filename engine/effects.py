"""Which objects does a function change, return or keep?  An interprocedural alias and effect analysis over the syntax trees.

Every value is a set of abstract locations (numbers, strings and tuples of such have none):
  ('P', name)  the object given for a parameter       ('C', loc)  what a container loc holds
  ('G', name)  module-level state (a global, a class attribute, a default argument, the cache of a decorator)
  ('A', key)   an object created at a site of this function     ('F', key)  a function value
Branches are joined, loops are iterated to a fixed point, calls use the callee's summary (a fixed point over the call graph)."""
import ast

IMMUT = frozenset()
CONT = ('poly', 'dict', 'list', 'set', 'tuple', 'any')
POLY = 'ajdmom.poly.Poly'
MUTATORS = {'update', 'setdefault', 'pop', 'popitem', 'clear', 'append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'add',
            'discard', '__setitem__', '__delitem__', 'difference_update', 'intersection_update', '__ior__', 'appendleft', 'popleft'}
STORES = {'update', 'setdefault', 'append', 'extend', 'insert', 'add', '__setitem__', 'appendleft'}
READS = {'get', 'items', 'keys', 'values', 'setdefault', 'pop', 'popitem', '__getitem__', 'popleft'}
FRESH = {'dict': 'dict', 'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'tuple', 'sorted': 'list', 'reversed': 'list',
         'zip': 'list', 'enumerate': 'list', 'map': 'list', 'filter': 'list', 'iter': 'list', 'defaultdict': 'dict',
         'OrderedDict': 'dict', 'Counter': 'dict', 'deque': 'list', 'chain': 'list', 'product': 'list', 'UserDict': 'dict'}
NUMERIC = {'len', 'range', 'int', 'float', 'str', 'abs', 'round', 'repr', 'isinstance', 'print', 'hash', 'id', 'bool', 'type', 'any',
           'all', 'hasattr', 'pow', 'divmod', 'open', 'complex', 'format', 'callable', 'issubclass', 'ord', 'chr', 'Fraction'}
CACHES = {'lru_cache', 'cache', 'cached', 'memoize'}


class Site:
    def __init__(self, ty):
        self.ty = ty
        self.holds = set()
        self.kf = set()


class Sum:
    """summary of a function"""
    def __init__(self):
        self.muts = {}          # external location -> (file, line, how)
        self.ret = set()        # external locations returned as they are
        self.fresh = set()      # types of new objects returned
        self.held = set()       # external locations held by new objects returned
        self.infresh = set()    # types of new objects held by new objects
        self.stores = set()     # (external location, external location it now holds)
        self.kept = set()       # external locations that now hold a returned object
        self.keeps = set()      # external locations that now hold some new object
        self.reads = set()      # globals read
        self.lines = {}

    def state(self):
        return (frozenset(self.muts), frozenset(self.ret), frozenset(self.fresh), frozenset(self.held), frozenset(self.infresh),
                frozenset(self.stores), frozenset(self.kept), frozenset(self.keeps), frozenset(self.reads))


def ext(l):
    return l[0] in 'PG' or (l[0] == 'C' and ext(l[1]))


def root(l):
    return root(l[1]) if l[0] == 'C' else l


class Effects:
    def __init__(self, w):
        self.w = w
        self.prog = w.prog
        self.sums = {}
        self.gtypes = {}
        self.count = {'statements': 0, 'calls': 0, 'stores': 0, 'returns': 0}
        self.funcs = {}
        for mn, m in self.prog.mods.items():
            if mn.startswith('specs.'):
                continue
            for nm, node in m.funcs.items():
                self.funcs[mn + '.' + nm] = (m, nm, node)
        self.rebound = set()
        self.base = baseline()
        for fq, (m, nm, node) in self.funcs.items():
            for x in ast.walk(node):
                if isinstance(x, ast.Global):
                    for y in x.names:
                        self.rebound.add(m.name + '.' + y)

    def run(self):
        for fq in self.funcs:
            self.sums[fq] = Sum()
        for rounds in range(12):
            change = False
            for fq in self.funcs:
                old = self.sums[fq].state()
                self.sums[fq] = FA(self, fq).run()
                if self.sums[fq].state() != old:
                    change = True
            if not change:
                break
        self.rounds = rounds + 1
        return self

    # ------------------------------------------------------------------ types of parameters
    def ptype(self, fq, name):
        sp = self.w.reg.get(fq)
        cls = fq.rsplit('.', 2)
        if name == 'self':
            return 'poly'
        if sp is not None and name in sp.kinds:
            k = sp.kinds[name]
            if isinstance(k, tuple):
                if k[0] in ('poly', 'same', 'litpoly'):
                    return 'poly'
                if k[0] == 'table':
                    return 'table'
                if k[0] in ('enum', 'tri', 'keyvar'):
                    return 'num'
                if k[0] == 'parj':
                    return 'par'
                if k[0] in ('t0', 't0seq'):
                    return 'num'
                return 'nums'
            if k == 'par':
                return 'par'
            return 'num'
        if name in ('filename', 'n', 'm', 'l', 'i', 'h', 'k', 'theta', 'sigma', 'v0', 'mu', 'rho'):
            return 'num'
        if name in ('par', 'parameters'):
            return 'par'
        if name in ('poly', 'poly1', 'poly2', 'polynomial') or (fq.startswith(POLY) and name == 'other'):
            return 'poly'
        if name in ('names', 'keyfor', 'keyIndexes', 'key', 'ns', 'n_vec', 'indexes'):
            return 'nums'
        if name in TABLES:
            return 'table'
        if name in LISTS:
            return 'nums'
        if name in self.base.get(fq, ()):
            return 'num'
        return 'any'


TABLES = {'IEII', 'IEI_IEII', 'IE', 'IE_IEZ', 'ieii_ieziziz', 'uncond_cm'}
LISTS = {'index', 'order', 'jumpsize', 'jumptime', 'jsize_v', 'jtime_v', 'tau', 'o', 'p', 'q', 's', 'J'}


def immutable_expr(e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Tuple):
        return all(immutable_expr(x) for x in e.elts)
    if isinstance(e, (ast.UnaryOp,)):
        return immutable_expr(e.operand)
    if isinstance(e, ast.BinOp):
        return immutable_expr(e.left) and immutable_expr(e.right)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('Frac', 'Fraction', 'frozenset', 'tuple', 'int', 'float'):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('Fraction', 'compile', 'getLogger', 'TypeVar', 'sqrt', 'log', 'exp'):
        return True
    if isinstance(e, ast.Attribute):
        return True
    return False


class FA:
    """analysis of one function"""
    def __init__(self, eff, fq):
        self.eff = eff
        self.fq = fq
        self.m, self.nm, self.node = eff.funcs[fq]
        self.sites = {}
        self.s = Sum()
        self.closures = {}
        self.retlocs = set()
        self.exthold = {}
        self.depth = 0
        self.globs = set()
        self.ptypes = {}
        self.file = eff.prog.relpath(self.m)
        self.cls = self.nm.split('.')[0] if '.' in self.nm else None
        self.bound = set()
        self.persist = None

    # ------------------------------------------------------------------ driver
    def run(self):
        env = {}
        self.bind_params(self.node, env, top=True)
        for dec in self.node.decorator_list:
            nm = dec.func if isinstance(dec, ast.Call) else dec
            last = nm.attr if isinstance(nm, ast.Attribute) else nm.id if isinstance(nm, ast.Name) else ''
            if last in ('property', 'staticmethod', 'classmethod', 'wraps'):
                continue
            fnv = self.resolve_func(nm)
            if fnv in self.eff.funcs:
                return self.decorated(fnv, env)
            if last in CACHES:
                self.block(self.node.body, env)
                self.finish(cached=('G', 'the cache of ' + self.fq))
                return self.s
        self.block(self.node.body, env)
        self.finish()
        return self.s

    def decorated(self, dec, env):
        """the wrapper a decorator of the tree returns, called with the arguments of the function"""
        m, nm, node = self.eff.funcs[dec]
        self.block(self.node.body, dict(env))
        own = (set(self.retlocs),)
        self.retlocs = set()
        self.persist = 'the state of decorator %s on %s' % (nm, self.fq)
        self.closures[('F', 'self')] = ('own', own)
        benv = {}
        ps = node.args.posonlyargs + node.args.args
        for p in ps:
            benv[p.arg] = {('F', 'self')}
        self.block(node.body, benv)
        fs = [l for l in self.retlocs if l[0] == 'F']
        self.retlocs = set()
        self.persist = None
        args = set()
        for v in env.values():
            args |= v
        for f in fs:
            self.retlocs |= self.call_closure(f, [args], {}, self.node, star=True)
        self.finish()
        return self.s

    def bind_params(self, node, env, top=False):
        a = node.args
        pos = a.posonlyargs + a.args
        for p in pos + a.kwonlyargs:
            ty = self.eff.ptype(self.fq, p.arg)
            self.ptypes[p.arg] = ty
            env[p.arg] = IMMUT if ty == 'num' else frozenset({('P', p.arg)})
        if a.vararg:
            env[a.vararg.arg] = frozenset({('P', a.vararg.arg)})
            self.ptypes[a.vararg.arg] = 'any'
        if a.kwarg:
            env[a.kwarg.arg] = frozenset({('P', a.kwarg.arg)})
            self.ptypes[a.kwarg.arg] = 'dict'
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not immutable_expr(d) and isinstance(d, (ast.List, ast.Dict, ast.Call, ast.Set, ast.ListComp, ast.DictComp)):
                g = ('G', 'the default value of %s in %s' % (p.arg, self.fq))
                self.eff.gtypes[g] = 'list' if isinstance(d, (ast.List, ast.ListComp)) else 'dict'
                env[p.arg] = env[p.arg] | {g}

    def finish(self, cached=None):
        s = self.s
        self.eff.count['returns'] += len(self.retlocs)
        for l in self.retlocs:
            if ext(l):
                s.ret.add(l)
            elif l[0] == 'A':
                st = self.sites[l]
                s.fresh.add(st.ty)
                inner = self.reach(st.holds | st.kf)
                s.held |= {x for x in inner if ext(x)}
                s.infresh |= {self.sites[x].ty for x in inner if x[0] == 'A'}
                for e, hs in self.exthold.items():
                    if l in self.reach(hs):
                        s.kept.add(e)
                    if inner & {x for x in self.reach(hs) if x[0] == 'A'}:
                        s.kept.add(('C', e) if e[0] != 'C' else e)
        for e, hs in self.exthold.items():
            r = self.reach(hs)
            for x in r:
                if ext(x):
                    s.stores.add((e, x))
                elif x[0] == 'A':
                    s.keeps.add(e)
        if cached is not None:
            if s.fresh - {'tuple'} or s.infresh or s.ret or (s.fresh and s.held):
                s.fresh, s.infresh, s.held = set(), set(), set()
                s.ret.add(cached)
                self.eff.gtypes[cached] = 'any'

    def reach(self, locs):
        out, todo = set(), list(locs)
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            if l[0] == 'A':
                todo += list(self.sites[l].holds | self.sites[l].kf)
        return out

    # ------------------------------------------------------------------ locations
    def site(self, node, ty, tag=''):
        if self.persist is not None:
            g = ('G', self.persist)
            self.eff.gtypes[g] = ty
            return g
        k = ('A', (node.lineno, node.col_offset, getattr(node, 'end_col_offset', 0), type(node).__name__, tag))
        if k not in self.sites:
            self.sites[k] = Site(ty)
        return k

    def ty(self, l):
        if l[0] == 'A':
            return self.sites[l].ty
        if l[0] == 'P':
            t = self.ptypes.get(l[1], 'any')
            return {'table': 'dict', 'par': 'dict', 'nums': 'list'}.get(t, t)
        if l[0] == 'G':
            return self.eff.gtypes.get(l, 'any')
        if l[0] == 'C':
            b = l[1]
            if b[0] == 'P':
                t = self.ptypes.get(b[1], 'any')
                return {'table': 'poly', 'par': 'list'}.get(t, 'any')
            return 'any'
        return 'func'

    def contents(self, locs, keys=False):
        """what is obtained by subscripting"""
        out = set()
        for l in locs:
            if l[0] == 'F':
                continue
            if l[0] == 'A':
                out |= self.sites[l].holds
                continue
            out |= self.exthold.get(l, set())
            if self.ty(l) == 'poly':
                continue
            if l[0] == 'P' and self.ptypes.get(l[1]) == 'nums':
                continue
            if l[0] == 'C' and root(l)[0] == 'P' and self.ptypes.get(root(l)[1]) in ('par', 'nums', 'table'):
                continue
            if l[0] == 'C':
                out.add(l)
            else:
                out.add(('C', l))
        return out

    def elements(self, locs):
        """what iteration yields: keys for dictionaries (immutable), elements for sequences"""
        return self.contents({l for l in locs if self.ty(l) not in ('poly', 'dict')})

    def mutate(self, locs, node, how):
        self.eff.count['stores'] += 1
        for l in locs:
            if ext(l) and l not in self.s.muts:
                self.s.muts[l] = (self.file, getattr(node, 'lineno', self.node.lineno), how)

    def put(self, locs, vals):
        vals = set(vals)
        if not vals:
            return
        for l in locs:
            if l[0] == 'A':
                self.sites[l].holds |= vals - {l}
            elif l[0] != 'F':
                self.exthold.setdefault(l, set()).update(v for v in vals if v != l)

    # ------------------------------------------------------------------ statements
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            out[k] = frozenset(a.get(k, ())) | frozenset(b.get(k, ()))
        return out

    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, st, env):
        self.eff.count['statements'] += 1
        t = type(st)
        if t is ast.Expr:
            self.ev(st.value, env)
        elif t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                self.assign(tg, v, env, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env, st.value)
        elif t is ast.AugAssign:
            self.aug(st, env)
        elif t is ast.Return:
            if st.value is not None:
                self.retlocs |= self.ev(st.value, env)
            return None
        elif t is ast.Raise:
            return None
        elif t is ast.If:
            self.ev(st.test, env)
            a = self.block(st.body, dict(env))
            b = self.block(st.orelse, dict(env))
            return self.join(a, b)
        elif t in (ast.For, ast.While, ast.AsyncFor):
            return self.loop(st, env)
        elif t is ast.With:
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            return self.block(st.body, env)
        elif t is ast.Try:
            e0 = dict(env)
            e1 = self.block(st.body, env)
            out = self.block(st.orelse, e1) if e1 is not None else None
            base = self.join(e0, e1)
            for h in st.handlers:
                e = dict(base)
                if h.name:
                    e[h.name] = IMMUT
                out = self.join(out, self.block(h.body, e))
            if st.finalbody:
                out = self.block(st.finalbody, out if out is not None else dict(base))
            return out
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Subscript):
                    self.mutate(self.ev(x.value, env), st, 'deletes an entry of')
                elif isinstance(x, ast.Name):
                    env.pop(x.id, None)
        elif t is ast.Break:
            self.breaks[-1] = self.join(self.breaks[-1], env)
            return None
        elif t is ast.Continue:
            self.conts[-1] = self.join(self.conts[-1], env)
            return None
        elif t is ast.Global:
            self.globs |= set(st.names)
        elif t in (ast.FunctionDef,):
            k = ('F', (st.lineno, st.col_offset))
            self.closures[k] = ('def', st, env)
            env[st.name] = frozenset({k})
        elif t is ast.Match:
            self.ev(st.subject, env)
            out = dict(env)
            for c in st.cases:
                out = self.join(out, self.block(c.body, dict(env)))
            return out
        elif t in (ast.Import, ast.ImportFrom):
            for a in st.names:
                env.pop((a.asname or a.name).split('.')[0], None)
        return env

    breaks = None
    conts = None

    def loop(self, st, env):
        if self.breaks is None:
            self.breaks, self.conts = [], []
        out = None
        if not isinstance(st, ast.While):
            it = self.ev(st.iter, env)
            el = self.elements(it)
        cur = dict(env)
        for _ in range(8):
            self.breaks.append(None)
            self.conts.append(None)
            e = dict(cur)
            if isinstance(st, ast.While):
                self.ev(st.test, e)
            else:
                self.assign(st.target, el, e)
            e = self.block(st.body, e)
            e = self.join(e, self.conts.pop())
            out = self.join(out, self.breaks.pop())
            nxt = self.join(cur, e)
            if nxt == cur:
                break
            cur = nxt
            if not isinstance(st, ast.While):
                el = el | self.elements(self.ev(st.iter, cur))
        e = self.block(st.orelse, dict(cur)) if st.orelse else cur
        return self.join(e, out)

    def assign(self, tg, v, env, src=None):
        v = frozenset(v)
        if isinstance(tg, ast.Name):
            if tg.id in self.globs:
                g = ('G', self.m.name + '.' + tg.id)
                self.mutate({g}, tg, 'rebinds')
                self.put({g}, v)
            else:
                env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(tg.elts) and \
                    not any(isinstance(x, ast.Starred) for x in src.elts + tg.elts):
                vals = [self.ev(y, env) for y in src.elts]
                for x, y in zip(tg.elts, vals):
                    self.assign(x, y, env)
                return
            c = self.contents(v)
            for x in tg.elts:
                self.assign(x, c, env)
        elif isinstance(tg, ast.Starred):
            s = self.site(tg, 'list')
            self.put({s}, v)
            self.assign(tg.value, {s}, env)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.mutate(b, tg, 'assigns an entry of')
            self.put(b, v)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            fa = self.func_attr(tg)
            if fa is not None:
                self.mutate({fa}, tg, 'rebinds')
                self.put({fa}, v)
                return
            if tg.attr in ('data', 'keyfor'):
                self.mutate(b, tg, 'sets the %s of' % ('terms' if tg.attr == 'data' else 'variable names'))
            for l in b:
                hold = {x for x in v if self.ty(x) != 'tuple' or self.contents({x})}
                if tg.attr == 'keyfor':
                    hold = {x for x in v if self.ty(x) not in ('tuple',)}
                if l[0] == 'A':
                    self.sites[l].kf |= hold - {l}
                elif ext(l):
                    self.exthold.setdefault(l, set()).update(hold - {l})

    def aug(self, st, env):
        v = self.ev(st.value, env)
        tg = st.target
        if isinstance(tg, ast.Name):
            if tg.id in self.globs:
                self.mutate({('G', self.m.name + '.' + tg.id)}, tg, 'counts in')
                return
            cur = env.get(tg.id)
            if cur is None:
                g = self.glob(tg.id)
                cur = g
            env[tg.id] = frozenset(self.augval(cur, v, st))
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.mutate(b, tg, 'changes an entry of')
            r = self.augval(self.contents(b), v, st)
            self.put(b, r)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            if tg.attr in ('data', 'keyfor'):
                self.mutate(b, tg, 'changes')

    def augval(self, cur, v, st):
        out = set()
        for l in cur:
            t = self.ty(l)
            if t in ('list', 'set', 'dict') and isinstance(st.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.Mult)):
                self.mutate({l}, st, 'extends')
                self.put({l}, self.contents(v))
                out.add(l)
            elif t == 'poly':
                nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow'}.get(type(st.op))
                fi = POLY + '.__i%s__' % nm
                if fi in self.eff.funcs:
                    out |= self.apply(fi, [{l}, set(v)], {}, st)
                else:
                    out |= self.binop(nm, {l}, set(v), st)
            elif t == 'any' and ext(l):
                self.s.muts.setdefault(('aug', l), (self.file, st.lineno, 'may extend'))
                out.add(self.site(st, 'any', 'aug'))
                out.add(l)
            elif t == 'any':
                out.add(l)
            else:
                out.add(self.site(st, t, 'aug'))
        if not cur and v:
            vt = {self.ty(x) for x in v}
            if vt & {'poly'}:
                out |= self.binop('radd', set(v), set(), st)
        return out

    # ------------------------------------------------------------------ expressions
    def glob(self, name):
        r = self.eff.prog.resolve(self.m.name + '.' + name)
        full = self.m.name + '.' + name
        if full in self.eff.rebound:
            g = ('G', full)
            self.s.reads.add(g)
            return {g}
        if r[0] == 'const':
            m, nm = r[1], r[2]
            full = m.name + '.' + nm
            if full in self.eff.rebound or not immutable_expr(m.consts[nm]):
                g = ('G', full)
                if g not in self.eff.gtypes:
                    self.eff.gtypes[g] = self.ctype(m.consts[nm])
                self.s.reads.add(g)
                return {g}
            return set()
        if r[0] == 'func':
            return {('F', r[1].name + '.' + r[2])}
        return set()

    def ctype(self, e):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == 'Poly':
                return 'poly'
            return FRESH.get(e.func.id, 'any')
        return 'any'

    def func_attr(self, e):
        """f.cache or Poly.cache: state attached to a function or class"""
        if isinstance(e.value, ast.Name):
            r = self.eff.prog.resolve(self.m.name + '.' + e.value.id)
            if r[0] in ('func', 'class') and e.value.id not in self.bound:
                if r[0] == 'class' and e.attr == 'keyfor':
                    return None
                fq = '%s.%s.%s' % (r[1].name, r[2], e.attr)
                if fq in self.eff.funcs:
                    return None
                g = ('G', fq)
                self.eff.gtypes.setdefault(g, 'any')
                return g
            if r[0] == 'module':
                return None
        return None

    def class_attr(self, attr):
        """a mutable class attribute of Poly"""
        m = self.eff.prog.mods.get('ajdmom.poly')
        c = m.classes.get('Poly') if m else None
        if c is None:
            return set()
        for x in c.body:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in x.targets) and not immutable_expr(x.value):
                g = ('G', 'ajdmom.poly.Poly.' + attr)
                self.eff.gtypes.setdefault(g, self.ctype(x.value))
                return {g}
        return set()

    def ev(self, e, env):
        r = self.ev0(e, env)
        return r if r else set()

    def ev0(self, e, env):
        t = type(e)
        if t in (ast.Constant, ast.JoinedStr, ast.Compare, ast.FormattedValue):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return set()
        if t is ast.Name:
            if e.id in env:
                return set(env[e.id])
            return self.glob(e.id)
        if t is ast.Tuple:
            vs = set()
            for x in e.elts:
                vs |= self.ev(x.value if isinstance(x, ast.Starred) else x, env) if not isinstance(x, ast.Starred) else \
                    self.elements(self.ev(x.value, env))
            if not vs:
                return set()
            s = self.site(e, 'tuple')
            self.put({s}, vs)
            return {s}
        if t in (ast.List, ast.Set):
            s = self.site(e, 'list' if t is ast.List else 'set')
            for x in e.elts:
                self.put({s}, self.elements(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env))
            return {s}
        if t is ast.Dict:
            s = self.site(e, 'dict')
            for k, x in zip(e.keys, e.values):
                if k is None:
                    self.put({s}, self.contents(self.ev(x, env)))
                else:
                    self.ev(k, env)
                    self.put({s}, self.ev(x, env))
            return {s}
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            env = dict(env)
            for g in e.generators:
                self.assign(g.target, self.elements(self.ev(g.iter, env)), env)
                for c in g.ifs:
                    self.ev(c, env)
            s = self.site(e, 'dict' if t is ast.DictComp else 'list')
            if t is ast.DictComp:
                self.ev(e.key, env)
                v = self.ev(e.value, env)
            else:
                v = self.ev(e.elt, env)
            self.put({s}, v)
            return {s}
        if t is ast.IfExp:
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if t is ast.BoolOp:
            out = set()
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not) or not v:
                return set()
            nm = {ast.USub: POLY + '.__neg__', ast.UAdd: POLY + '.__pos__'}.get(type(e.op))
            if nm in self.eff.funcs:
                return self.apply(nm, [v], {}, e)
            return {self.site(e, 'any')}
        if t is ast.BinOp:
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow'}.get(type(e.op), 'other')
            if not a and not b:
                return set()
            return self.binop(nm, a, b, e)
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if t is ast.Starred:
            return self.ev(e.value, env)
        if t is ast.Lambda:
            k = ('F', (e.lineno, e.col_offset))
            self.closures[k] = ('lambda', e, env)
            return {k}
        if t is ast.Subscript:
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                if not b:
                    return set()
                s = self.site(e, 'list' if any(self.ty(l) == 'list' for l in b) else 'tuple')
                self.put({s}, self.contents(b))
                return {s}
            return self.contents(b)
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return set()
        if t is ast.Attribute:
            if not (isinstance(e.value, ast.Name) and e.value.id in env):
                fa = self.func_attr(e)
                if fa is not None:
                    self.s.reads.add(fa)
                    return {fa}
            v = self.ev(e.value, env)
            if e.attr == 'data':
                return v
            if e.attr == 'keyfor':
                out = set()
                for l in v:
                    if l[0] == 'A':
                        out |= {x for x in self.sites[l].kf if self.ty(x) != 'poly'}
                return out
            out = set()
            if v or (isinstance(e.value, ast.Name) and e.value.id == 'self'):
                out |= self.class_attr(e.attr)
            for l in v:
                if l[0] == 'A':
                    out |= self.sites[l].kf
                elif ext(l):
                    out |= self.exthold.get(l, set())
                    if self.ty(l) == 'poly' and e.attr.startswith('_') and not e.attr.startswith('__'):
                        out.add(('C', l))
            return out
        if t is ast.Call:
            self.eff.count['calls'] += 1
            return self.call(e, env)
        if t in (ast.Yield, ast.YieldFrom):
            v = self.ev(e.value, env) if e.value is not None else set()
            s = self.site(self.node, 'list', 'yield')
            self.put({s}, v if t is ast.Yield else self.elements(v))
            self.retlocs.add(s)
            return set()
        if t is ast.Await:
            return self.ev(e.value, env)
        return set()

    def binop(self, nm, a, b, node):
        pa = {l for l in a if self.ty(l) == 'poly'}
        pb = {l for l in b if self.ty(l) == 'poly'}
        out = set()
        if pa:
            f = POLY + '.__%s__' % nm
            if f in self.eff.funcs:
                out |= self.apply(f, [pa, b], {}, node)
        if pb and not pa:
            f = POLY + '.__r%s__' % nm
            if f in self.eff.funcs:
                out |= self.apply(f, [pb, a], {}, node)
        ra, rb = a - pa, b - pb
        if (ra or rb) and not pa and not pb:
            tys = {self.ty(l) for l in ra | rb}
            ty = 'list' if 'list' in tys else 'tuple' if 'tuple' in tys else 'any'
            s = self.site(node, ty)
            self.put({s}, self.contents({l for l in ra | rb if self.ty(l) in ('list', 'tuple', 'set', 'dict')}))
            out.add(s)
        return out

    # ------------------------------------------------------------------ calls
    def resolve_func(self, f):
        """fq of a function or class of the tree, or the external name"""
        if isinstance(f, ast.Name):
            r = self.eff.prog.resolve(self.m.name + '.' + f.id)
        elif isinstance(f, ast.Attribute):
            b = self.resolve_func(f.value) if isinstance(f.value, (ast.Name, ast.Attribute)) else None
            if b is None:
                return None
            r = self.eff.prog.resolve(b + '.' + f.attr)
        else:
            return None
        if r[0] == 'func':
            return r[1].name + '.' + r[2]
        if r[0] == 'class':
            return r[1].name + '.' + r[2]
        if r[0] == 'module':
            return r[1]
        if r[0] == 'ext':
            return r[1]
        if r[0] == 'const':
            return None
        return f.id if isinstance(f, ast.Name) else None

    def call(self, e, env):
        f = e.func
        args, star = [], False
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.append(self.elements(self.ev(x.value, env)))
                star = True
            else:
                args.append(self.ev(x, env))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kws['**'] = self.contents(v)
            else:
                kws[k.arg] = v
        local = isinstance(f, ast.Name) and f.id in env
        if local:
            out = set()
            for l in env[f.id]:
                if l[0] == 'F':
                    out |= self.call_closure(l, args, kws, e, star)
            return out
        if isinstance(f, ast.Lambda):
            return self.call_closure(next(iter(self.ev(f, env))), args, kws, e, star)
        headlocal = isinstance(f, ast.Attribute) and self.head(f) in env
        fq = None if headlocal else self.resolve_func(f)
        if fq in self.eff.funcs:
            if self.eff.funcs[fq][1].count('.') and isinstance(f, ast.Attribute):
                return self.apply(fq, args, kws, e, star)           # Poly.method(x, ...)
            return self.apply(fq, args, kws, e, star)
        if fq == POLY:
            s = self.site(e, 'poly')
            return {s}
        allv = set()
        for a in args:
            allv |= a
        for a in kws.values():
            allv |= a
        if isinstance(f, ast.Attribute) and (fq is None or headlocal or fq.count('.') == 0 or not self.isext(f)):
            return self.method(f, args, kws, e, env, star)
        nm = (fq or (f.id if isinstance(f, ast.Name) else '')).split('.')[-1]
        if fq and fq.split('.')[0] in ('math', 'numpy', 'np', 'fractions', 'random', 'os', 'sys', 'time', 'operator', 're'):
            if nm in ('sort', 'shuffle'):
                self.mutate(set().union(*args[:1]), e, 'sorts')
            return {self.site(e, 'any')} if fq.split('.')[0] == 'numpy' and allv else set()
        if fq in ('copy.deepcopy',):
            tys = {self.ty(l) for l in allv} or {'any'}
            s = self.site(e, next(iter(tys)) if len(tys) == 1 else 'any')
            return {s}
        if fq == 'copy.copy':
            tys = {self.ty(l) for l in allv} or {'any'}
            s = self.site(e, next(iter(tys)) if len(tys) == 1 else 'any')
            self.put({s}, self.contents(allv))
            return {s}
        if nm == 'super':
            return {('P', 'self')} if 'self' in env else set()
        if nm in ('max', 'min', 'next'):
            return self.elements(set().union(*args[:1])) | (set().union(*args) if len(args) > 1 else set())
        if nm == 'sum':
            el = self.elements(args[0]) if args else set()
            st = args[1] if len(args) > 1 else set()
            if el or st:
                return self.binop('add', set(el) | set(st), set(el) | set(st), e)
            return set()
        if nm == 'reduce':
            out = set()
            el = self.elements(args[1]) if len(args) > 1 else set()
            acc = (args[2] if len(args) > 2 else el)
            for l in args[0]:
                if l[0] == 'F':
                    acc = acc | self.call_closure(l, [acc, el], {}, e, False)
            return set(acc)
        if nm in NUMERIC and fq is not None and not fq.startswith('ajdmom'):
            return set()
        if nm == 'setattr' and args:
            self.mutate(args[0], e, 'sets an attribute of')
            return set()
        if nm == 'getattr' and args:
            return set()
        if nm in ('map', 'filter'):
            s = self.site(e, 'list')
            el = set()
            for a in args[1:]:
                el |= self.elements(a)
            if nm == 'filter':
                self.put({s}, el)
            elif args:
                for l in args[0]:
                    if l[0] == 'F':
                        self.put({s}, self.call_closure(l, [self.elements(a) for a in args[1:]], {}, e, False))
            return {s}
        if nm in FRESH:
            s = self.site(e, FRESH[nm])
            for a in args:
                self.put({s}, self.contents(a) if nm == 'dict' else self.elements(a))
            if nm == 'dict':
                for a in kws.values():
                    self.put({s}, a)
            if nm in ('zip', 'enumerate', 'product') and self.sites.get(s) and self.sites[s].holds:
                pass
            if FRESH[nm] == 'tuple' and s[0] == 'A' and not self.sites[s].holds:
                return {s} if False else set()
            return {s}
        if nm == 'vars' or nm == 'globals':
            return set()
        return set()

    def isext(self, f):
        h = self.head(f)
        return h is not None and h in self.m.imports

    def head(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
        return f.id if isinstance(f, ast.Name) else None

    def method(self, f, args, kws, e, env, star):
        b = self.ev(f.value, env)
        nm = f.attr
        out = set()
        issuper = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
        meth = POLY + '.' + nm
        allv = set()
        for a in args:
            allv |= a
        if meth in self.eff.funcs and not issuper:
            pb = {l for l in b if self.ty(l) in ('poly', 'any')}
            if pb:
                out |= self.apply(meth, [pb] + args, kws, e, star)
            b = {l for l in b if l not in pb}
            if not b:
                return out
        if not b:
            return out
        if nm in MUTATORS:
            self.mutate(b, e, 'calls %s on' % nm)
        if nm in STORES:
            vals = set()
            if nm in ('append', 'add', 'appendleft'):
                vals = args[0] if args else set()
            elif nm in ('extend',):
                vals = self.elements(args[0]) if args else set()
            elif nm == 'update':
                vals = self.contents(args[0]) if args else set()
                for a in kws.values():
                    vals = vals | a
            else:
                vals = args[1] if len(args) > 1 else set()
            self.put(b, vals)
        if nm in ('items', 'values'):
            s = self.site(e, 'list')
            self.put({s}, self.contents(b))
            return out | {s}
        if nm == 'keys':
            return out | {self.site(e, 'list')}
        if nm in READS:
            return out | self.contents(b) | (args[1] if len(args) > 1 else set())
        if nm in ('copy', '__copy__'):
            for l in b:
                s = self.site(e, self.ty(l))
                self.put({s}, self.contents({l}))
                out.add(s)
            return out
        if nm in ('tolist', 'index', 'count', 'endswith', 'startswith', 'format', 'join', 'split', 'strip', 'write'):
            return out
        if nm in ('fromkeys',):
            s = self.site(e, 'dict')
            return {s}
        return out

    def call_closure(self, l, args, kws, node, star):
        c = self.closures.get(l)
        if c is None:
            if isinstance(l[1], str) and l[1] in self.eff.funcs:
                return self.apply(l[1], args, kws, node, star)
            return set()
        if c[0] == 'own':
            return set(c[1][0])
        if self.depth > 6:
            return set()
        self.depth += 1
        keep, kb, kc = self.retlocs, self.breaks, self.conts
        self.breaks, self.conts = None, None
        persist, self.persist = self.persist, None
        kg = self.globs
        try:
            kind, nd, env0 = c
            env = dict(env0)
            a = nd.args
            pos = a.posonlyargs + a.args
            al = set()
            for x in args:
                al |= set(x)
            for x in kws.values():
                al |= set(x)
            for i, p in enumerate(pos):
                if star:
                    env[p.arg] = frozenset(al)
                elif i < len(args):
                    env[p.arg] = frozenset(args[i])
                elif p.arg in kws:
                    env[p.arg] = frozenset(kws[p.arg])
                else:
                    j = i - (len(pos) - len(a.defaults))
                    env[p.arg] = frozenset(self.ev(a.defaults[j], env0)) if 0 <= j < len(a.defaults) else IMMUT
            for p in a.kwonlyargs:
                env[p.arg] = frozenset(kws.get(p.arg, ()))
            for va in (a.vararg, a.kwarg):
                if va:
                    s = self.site(nd, 'tuple' if va is a.vararg else 'dict', 'va' + va.arg)
                    self.put({s}, al)
                    env[va.arg] = frozenset({s})
            if kind == 'lambda':
                return self.ev(nd.body, env)
            self.retlocs = set()
            nl = {x for s in ast.walk(nd) if isinstance(s, ast.Nonlocal) for x in s.names}
            end = self.block(nd.body, env)
            for x in nl:
                env0[x] = frozenset(env0.get(x, ())) | frozenset((end or env).get(x, ()))
            return set(self.retlocs)
        finally:
            self.retlocs, self.breaks, self.conts = keep, kb, kc
            self.persist = persist
            self.globs = kg
            self.depth -= 1

    def apply(self, fq, args, kws, node, star=False):
        m, nm, fd = self.eff.funcs[fq]
        s = self.eff.sums[fq]
        a = fd.args
        pos = a.posonlyargs + a.args
        bind = {}
        al = set()
        for x in args:
            al |= set(x)
        for i, p in enumerate(pos):
            if star:
                bind[p.arg] = set(al)
            elif i < len(args):
                bind[p.arg] = set(args[i])
            elif p.arg in kws:
                bind[p.arg] = set(kws[p.arg])
            else:
                bind[p.arg] = set()
        for p in a.kwonlyargs:
            bind[p.arg] = set(kws.get(p.arg, ()))
        if a.vararg:
            t = self.site(node, 'tuple', 'va')
            for x in args[len(pos):]:
                self.put({t}, x)
            bind[a.vararg.arg] = {t}
        if a.kwarg:
            t = self.site(node, 'dict', 'kw')
            for x in kws.values():
                self.put({t}, x)
            bind[a.kwarg.arg] = {t}
        if '**' in kws:
            for p in pos:
                bind[p.arg] |= kws['**']

        def tr(l):
            if l[0] == 'P':
                return bind.get(l[1], set())
            if l[0] == 'G':
                return {l}
            return self.contents(tr(l[1]))
        for l, (fl, ln, how) in s.muts.items():
            if l[0] == 'aug':
                t = {x for x in tr(l[1]) if self.ty(x) in ('list', 'set', 'dict', 'any')}
                for x in t:
                    if ext(x):
                        k = x if self.ty(x) != 'any' else ('aug', x)
                        self.s.muts.setdefault(k, (self.file, node.lineno, 'through %s (%s:%s), which extends' % (fq, fl, ln)))
                continue
            if l[0] == 'G' or root(l)[0] == 'G':
                continue                # reported where it happens
            for x in tr(l):
                if ext(x):
                    if x not in self.s.muts:
                        self.s.muts[x] = (self.file, node.lineno, 'through %s (%s:%s), which %s' % (fq, fl, ln, how))
        for t, v in s.stores:
            self.put(tr(t), tr(v))
        for t in s.keeps:
            for x in tr(t):
                n = self.site(node, 'any', 'kept')
                self.put({x}, {n})
        out = set()
        for l in s.ret:
            out |= tr(l)
        for ty in sorted(s.fresh):
            k = self.site(node, ty, 'ret')
            out.add(k)
            for l in s.held:
                self.put({k}, tr(l))
            for t2 in sorted(s.infresh):
                k2 = self.site(node, t2, 'in' + t2)
                self.put({k}, {k2})
            for e in s.kept:
                for x in tr(e):
                    self.put({x}, {k})
        return out


# ---------------------------------------------------------------------- the rules
IN_PLACE = {POLY + '.add_keyval': {'self'}, POLY + '.merge': {'self'}, POLY + '.remove_zero': {'self'}, POLY + '.set_keyfor': {'self'},
            'ajdmom.mdl_svcj.cmom.remove_mu_column': {'poly'}, POLY + '.__iadd__': {'self'}, POLY + '.__isub__': {'self'},
            POLY + '.__imul__': {'self'}, POLY + '.__init__': {'self'}, POLY + '.__setitem__': {'self'}, POLY + '.__delitem__': {'self'},
            POLY + '.__ior__': {'self'}, POLY + '.update': {'self'}}


def baseline():
    import json
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'baseline.json')
    return {k: set(v) for k, v in json.load(open(p)).items()}


def show(l):
    if l[0] == 'P':
        return 'argument %s' % l[1]
    if l[0] == 'G':
        return l[1]
    return 'an element of ' + show(l[1])


def independent(w, pid, tier, seed):
    """no function changes what it is given; no result shares state with an argument, with module-level state or a cache;
    what a module-level memo returns depends on nothing but its key"""
    eff = Effects(w).run()
    base = eff.base
    out = []
    checked = 0
    for fq, s in sorted(eff.sums.items()):
        m, nm, node = eff.funcs[fq]
        file = eff.prog.relpath(m)
        names = base.get(fq)
        fa = FA(eff, fq)

        def rep(rule, line, why):
            out.append({'rule': rule, 'function': fq, 'file': file, 'line': line, 'why': why})
        types = {p: eff.ptype(fq, p) for p in (names or ())}
        for l, (fl, ln, how) in sorted(s.muts.items(), key=str):
            if l[0] == 'aug':
                continue
            r = root(l)
            if r[0] == 'G':
                if l[0] == 'C':
                    rep('changes-shared-state', ln, 'changes %s: it %s it' % (show(l), how))
                continue
            if names is None or r[1] not in names or nm == '__init__':
                continue
            checked += 1
            if l[0] == 'P' and (types[r[1]] == 'table' or r[1] in IN_PLACE.get(fq, ())):
                continue
            if l[0] == 'C' and types[r[1]] not in ('table', 'any', 'par', 'poly'):
                continue
            rep('changes-argument', ln, 'changes %s: it %s it' % (show(l), how))

        def alias(l):
            r = root(l)
            if r[0] == 'G':
                return eff.gtypes.get(r) != 'rng'
            if names is None or r[1] not in names:
                return False
            t = types[r[1]]
            if l[0] == 'P':
                return t in ('poly', 'any', 'par', 'nums')
            return t in ('any', 'par', 'poly')
        if names is not None:
            for l in sorted(s.ret, key=str):
                checked += 1
                if alias(l):
                    rep('result-shared', node.lineno, 'returns %s itself, not a new object' % show(l))
            for l in sorted(s.held, key=str):
                checked += 1
                if alias(l):
                    rep('result-shared', node.lineno, 'the result holds %s itself, not a copy' % show(l))
            for l in sorted(s.kept, key=str):
                checked += 1
                r = root(l)
                if r[0] == 'G' or (r[1] in names and types[r[1]] in ('poly', 'par')):
                    rep('result-shared', node.lineno, 'the object returned is kept in %s' % show(l))
            for t, v in sorted(s.stores, key=str):
                checked += 1
                if alias(v) and (root(t)[0] == 'G' or (root(t)[0] == 'P' and root(t)[1] in names and root(t) != root(v))):
                    rep('result-shared', node.lineno, '%s now holds %s itself, not a copy' % (show(t), show(v)))
    memo, h = history(eff)
    out += h
    cov = {'functions': len(eff.sums), 'functions_of_the_property': len([f for f in eff.sums if f in base]),
           'fixed_point_rounds': eff.rounds, 'effects_examined': checked, 'module_level_stores': memo}
    cov.update(eff.count)
    lost = [] if POLY + '.__add__' in eff.sums else ['class Poly not found']
    return out, cov, lost


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


LOSSY = {'len', 'sum', 'min', 'max', 'abs', 'int', 'round', 'hash', 'any', 'all', 'bool', 'type'}


def faithful(e, out):
    """the names that a key expression contains injectively"""
    if isinstance(e, ast.Name):
        out.add(e.id)
    elif isinstance(e, (ast.Tuple, ast.List)):
        for x in e.elts:
            faithful(x.value if isinstance(x, ast.Starred) else x, out)
    elif isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        if nm in LOSSY:
            return
        if isinstance(e.func, ast.Attribute):
            faithful(e.func.value, out)
        for x in e.args + [k.value for k in e.keywords]:
            faithful(x.value if isinstance(x, ast.Starred) else x, out)
    elif isinstance(e, ast.BinOp):
        ns = names_in(e)
        if len(ns) == 1 and not isinstance(e.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.Pow)):
            out |= ns
        elif isinstance(e.op, ast.Add) and (isinstance(e.left, (ast.Tuple, ast.Call)) or isinstance(e.right, (ast.Tuple, ast.Call))):
            faithful(e.left, out)
            faithful(e.right, out)
    elif isinstance(e, (ast.Attribute, ast.Starred)):
        faithful(e.value, out)
    elif isinstance(e, (ast.JoinedStr, ast.FormattedValue, ast.GeneratorExp, ast.ListComp, ast.Subscript)):
        out |= names_in(e)


def history(eff):
    out = []
    n = 0
    written = {}
    for fq, s in eff.sums.items():
        for l in s.muts:
            if l[0] == 'G':
                written.setdefault(l, []).append(fq)
    for g, fs in sorted(written.items(), key=str):
        readers = [f for f, s in eff.sums.items() if g in s.reads]
        if not readers and not g[1].startswith('the '):
            continue
        for fq in fs:
            m, nm, node = eff.funcs[fq]
            params = {p.arg for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
            params |= {v.arg for v in (node.args.vararg, node.args.kwarg) if v}
            short = g[1].split('.')[-1] if not g[1].startswith('the ') else g[1].split(' of ')[1].split(' in ')[0]
            params.discard(short)
            deps = slices(node)
            stores = []
            for x in ast.walk(node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Subscript) and last(t.value) == short:
                            stores.append((t.slice, x.value, x.lineno))
                        elif isinstance(t, (ast.Name, ast.Attribute)) and last(t) == short:
                            stores.append((None, x.value, x.lineno))
                elif isinstance(x, ast.AugAssign):
                    t = x.target
                    if isinstance(t, ast.Subscript) and last(t.value) == short:
                        stores.append((t.slice, x.value, x.lineno))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and last(x.func.value) == short and x.func.attr in STORES:
                    if x.func.attr == 'setdefault' and len(x.args) == 2:
                        stores.append((x.args[0], x.args[1], x.lineno))
                    elif x.func.attr != 'update':
                        for a in x.args:
                            stores.append((None, a, x.lineno))
            for key, val, line in stores:
                n += 1
                need = close(names_in(val), deps) & params
                have = set()
                if key is not None:
                    faithful(key, have)
                    todo = [x for x in have if x not in params]
                    seen = set()
                    while todo:
                        x = todo.pop()
                        if x in seen:
                            continue
                        seen.add(x)
                        for v in deps.get(x, {}).get('exprs', []):
                            h = set()
                            faithful(v, h)
                            todo += [y for y in h if y not in seen]
                            have |= h
                miss = need - have
                if miss:
                    out.append({'rule': 'depends-on-earlier-calls', 'function': fq, 'file': eff.prog.relpath(m), 'line': line,
                                'why': 'what is kept in %s depends on %s, which its key does not contain: a later call gets the result of an earlier one'
                                       % (g[1], ', '.join(sorted(miss)))})
    return n, out


def last(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def slices(node):
    """name -> what its values are computed from (names, with the conditions that enclose the assignments)"""
    deps = {}

    def add(t, names, expr=None):
        d = deps.setdefault(t, {'names': set(), 'exprs': []})
        d['names'] |= names
        if expr is not None:
            d['exprs'].append(expr)

    def target(t, names, expr):
        if isinstance(t, ast.Name):
            add(t.id, names, expr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x, names, expr)
        elif isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                add(b.id, names | (names_in(t.slice) if isinstance(t, ast.Subscript) else set()))

    def go(body, ctl):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    target(t, names_in(s.value) | ctl, s.value)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                target(s.target, names_in(s.value) | ctl, None)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                ns = names_in(s.value)
                for x in ns:
                    add(x, (ns - {x}) | ctl)
            elif isinstance(s, (ast.If, ast.While)):
                c = ctl | names_in(s.test)
                go(s.body, c)
                go(s.orelse, c)
            elif isinstance(s, ast.For):
                target(s.target, names_in(s.iter) | ctl, None)
                go(s.body, ctl | names_in(s.iter))
                go(s.orelse, ctl)
            elif isinstance(s, ast.With):
                go(s.body, ctl)
            elif isinstance(s, ast.Try):
                go(s.body, ctl)
                for h in s.handlers:
                    go(h.body, ctl)
                go(s.orelse, ctl)
                go(s.finalbody, ctl)
    go(node.body, set())
    return deps


def close(ns, deps):
    out, todo = set(), list(ns)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x in deps:
            todo += list(deps[x]['names'])
    return out
