"""The simulators: what one observation is, as a formal random expression of the parameters, the state and the draws.

A small abstract interpreter over the algebra of formal.py: parameters, states and draws are symbols, the number of
observations, of steps and of jumps is enumerated, times are ordered by enumerated arrangements, a condition on a state
joins both branches.  The expressions are compared, up to renaming of draws of the same law, with those of the documented
scheme (schemes/euler.py), obtained the same way.  Nothing of the analysed code is imported or executed."""
import ast
import os
from fractions import Fraction
from .expr import Unsupported
from .formal import Algebra, R, Bad, shape, same_value
from .literal import Report
from .program import Module

LIMIT = 400000


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, line):
        self.name, self.line = name, line


class Arr:
    """a list, tuple or array"""

    def __init__(self, xs, kind='array'):
        self.xs, self.kind = list(xs), kind


class Dic:
    def __init__(self, d):
        self.d = dict(d)


class Func:
    def __init__(self, mod, name, node, env=None):
        self.mod, self.name, self.node, self.env = mod, name, node, env


class Ext:
    def __init__(self, fq):
        self.fq = fq


class Meth:
    def __init__(self, o, nm):
        self.o, self.nm = o, nm


class Cond:
    """x < 0 (strict) or x <= 0, or its opposite"""

    def __init__(self, x, neg=False):
        self.x, self.neg = x, neg


UNSET = object()


class Run:
    def __init__(self, prog, alg, counts):
        self.prog, self.a, self.counts = prog, alg, list(counts)
        self.nz = 0
        self.rates = []
        self.npois = 0
        self.steps = 0
        self.log = None
        self.depth = 0
        self.where = None

    def uns(self, why, node=None):
        raise Unsupported('%s (line %s)' % (why, getattr(node, 'lineno', '?')))

    # ------------------------------------------------------------ values
    def num(self, v, node=None):
        if isinstance(v, R):
            return v
        if v is UNSET:
            raise Raised('an element read before it is set', getattr(node, 'lineno', None))
        if isinstance(v, bool):
            return self.a.const(int(v))
        if isinstance(v, (int, Fraction)):
            return self.a.const(v)
        if isinstance(v, Cond):
            return self.a.ite(v.x, self.a.const(0 if v.neg else 1), self.a.const(1 if v.neg else 0))
        self.uns('a number is expected', node)

    def low(self, v):
        """python numbers where the value is one"""
        if isinstance(v, R):
            c = v.const()
            if c is not None:
                return int(c) if c.denominator == 1 else c
        return v

    def whole(self, v, node=None):
        v = self.low(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        self.uns('a whole number is expected', node)

    def truth(self, v, node=None):
        """True, False or Cond"""
        v = self.low(v)
        if isinstance(v, (bool, int, Fraction)):
            return bool(v)
        if isinstance(v, Cond):
            t = v.x.times()
            if t is not None:
                return (t < 0) != v.neg if t != 0 or True else None
            s = v.x.sign()
            if s == 0:
                return v.neg
            return v
        if isinstance(v, (Arr,)):
            return bool(v.xs)
        if isinstance(v, Dic):
            return bool(v.d)
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        self.uns('truth of a value', node)

    def less(self, a, b, orequal, node):
        """a < b or a <= b"""
        if isinstance(a, Arr) or isinstance(b, Arr):
            self.uns('comparison of sequences', node)
        x, y = self.num(a, node), self.num(b, node)
        d = x - y
        c = d.const()
        if c is not None:
            return c <= 0 if orequal else c < 0
        t = d.times()
        if t is not None:
            return t <= 0 if orequal else t < 0
        return Cond(-d, True) if orequal else Cond(d, False)    # a <= b: not (b - a < 0)

    # ------------------------------------------------------------ arithmetic
    def each(self, f, a, b, node):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.xs) == 1 and len(b.xs) != 1:
                a = Arr(a.xs * len(b.xs))
            if len(b.xs) == 1 and len(a.xs) != 1:
                b = Arr(b.xs * len(a.xs))
            if len(a.xs) != len(b.xs):
                raise Raised('arrays of different lengths are combined', getattr(node, 'lineno', None))
            return Arr([self.each(f, x, y, node) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Arr):
            return Arr([self.each(f, x, b, node) for x in a.xs])
        if isinstance(b, Arr):
            return Arr([self.each(f, a, y, node) for y in b.xs])
        return f(self.num(a, node), self.num(b, node))

    def map1(self, f, a, node):
        if isinstance(a, Arr):
            return Arr([self.map1(f, x, node) for x in a.xs])
        return f(self.num(a, node))

    def binop(self, op, a, b, node):
        a, b = self.low(a), self.low(b)
        if isinstance(a, str) or isinstance(b, str):
            return ''
        seqs = (isinstance(a, Arr) and a.kind != 'array', isinstance(b, Arr) and b.kind != 'array')
        if op == 'Add' and seqs == (True, True):
            return Arr(a.xs + b.xs, a.kind)
        if op == 'Mult' and seqs[0] and not isinstance(b, Arr):
            return Arr(a.xs * self.whole(b, node), a.kind)
        if op == 'Mult' and seqs[1] and not isinstance(a, Arr):
            return Arr(b.xs * self.whole(a, node), b.kind)
        if op in ('FloorDiv', 'Mod'):
            x, y = self.low(a), self.low(b)
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                if y == 0:
                    raise Raised('division by zero', node.lineno)
                return x // y if op == 'FloorDiv' else x % y
            self.uns('whole division', node)

        def f(x, y):
            try:
                if op == 'Add':
                    return x + y
                if op == 'Sub':
                    return x - y
                if op == 'Mult':
                    return x * y
                if op == 'Div':
                    return x * self.a.power(y, -1)
                if op == 'Pow':
                    q = y.const()
                    if q is None:
                        self.uns('a power with unknown exponent', node)
                    return self.a.power(x, q)
            except Bad as e:
                raise Raised(str(e), getattr(node, 'lineno', None))
            self.uns('operator %s' % op, node)
        return self.low(self.each(f, a, b, node))

    # ------------------------------------------------------------ heap writes, logged under a condition
    def write(self, arr, i, v):
        if self.log is not None:
            self.log.append((arr, i, arr.xs[i]))
        arr.xs[i] = v

    def resize(self, arr, xs, node):
        if self.log is not None:
            self.uns('a list changed under a condition on the state', node)
        arr.xs = xs

    # ------------------------------------------------------------ draws
    def draw(self, f, size, node):
        size = self.low(size)
        if size is None:
            return f()
        if isinstance(size, Arr):
            if len(size.xs) == 1:
                return self.draw(f, size.xs[0], node)
            n = [self.whole(x, node) for x in size.xs]
            if len(n) == 2:
                return Arr([Arr([f() for _ in range(n[1])]) for _ in range(n[0])])
            self.uns('a draw of this size', node)
        return Arr([f() for _ in range(self.whole(size, node))])

    def zero_one(self):
        self.nz += 1
        return self.a.of(self.a.atom(('Z', '%s.%d' % (self.tag, self.nz))))

    def random(self, nm, args, kw, node):
        def arg(i, names, default):
            if len(args) > i:
                return args[i]
            for n in names:
                if n in kw:
                    return kw[n]
            return default
        if nm in ('seed', 'default_rng', 'RandomState', 'Generator', 'PCG64', 'SeedSequence'):
            return Ext('rng')
        if nm in ('normal', 'standard_normal', 'randn'):
            if nm == 'normal':
                mu, s, size = arg(0, ('loc',), 0), arg(1, ('scale',), 1), arg(2, ('size',), None)
            elif nm == 'randn':
                mu, s, size = 0, 1, (Arr(args) if args else None)
            else:
                mu, s, size = 0, 1, arg(0, ('size',), None)
            if isinstance(mu, Arr) or isinstance(s, Arr):
                n = len((mu if isinstance(mu, Arr) else s).xs)
                if size is not None and self.whole(size if not isinstance(size, Arr) else size.xs[0], node) != n:
                    self.uns('size of a draw', node)
                z = Arr([self.zero_one() for _ in range(n)])
                return self.binop('Add', mu if isinstance(mu, Arr) else Arr([mu] * n),
                                  self.binop('Mult', s if isinstance(s, Arr) else Arr([s] * n), z, node), node)
            m, d = self.num(mu, node), self.num(s, node)
            return self.draw(lambda: m + d * self.zero_one(), size, node)
        if nm == 'poisson':
            lam = self.num(arg(0, ('lam',), 1), node)

            def one():
                if self.log is not None:
                    self.uns('a count drawn under a condition on the state', node)
                self.rates.append(lam)
                self.npois += 1
                return self.counts[(self.npois - 1) % len(self.counts)]
            return self.draw(one, arg(1, ('size',), None), node)
        if nm in ('noncentral_chisquare', 'chisquare', 'gamma', 'exponential', 'uniform'):
            size = kw.pop('size', None)
            order = {'noncentral_chisquare': ('df', 'nonc'), 'chisquare': ('df',), 'gamma': ('shape', 'scale'), 'exponential': ('scale',),
                     'uniform': ('low', 'high')}[nm]
            ps = []
            for i, n in enumerate(order):
                v = args[i] if i < len(args) else kw.get(n, {'scale': 1, 'low': 0, 'high': 1}.get(n))
                ps.append(self.num(v, node))
            if len(args) > len(order):
                size = args[len(order)]

            def x():
                self.nz += 1
                return self.a.of(self.a.atom(('X', '%s.%d' % (self.tag, self.nz), nm) + tuple(p.key() for p in ps), nm != 'uniform'))
            return self.draw(x, size, node)
        self.uns('draw %s' % nm, node)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Meth):
            return self.method(f.o, f.nm, args, kw, node)
        if isinstance(f, Ext):
            return self.ext(f.fq, args, kw, node)
        self.uns('call of an unknown value', node)

    def call_func(self, f, args, kw, node):
        if self.depth > 30:
            self.uns('recursion', node)
        a = f.node.args
        env = dict(f.env) if f.env else {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            raise Raised('TypeError: too many arguments', f.node.lineno)
        for n, v in zip(names, args):
            env[n] = v
        got = set(names[:len(args)])
        if a.vararg:
            env[a.vararg.arg] = Arr(args[len(names):], 'tuple')
        for n, v in kw.items():
            if n not in names and n not in [x.arg for x in a.kwonlyargs]:
                if a.kwarg:
                    continue
                raise Raised('TypeError: unexpected argument %s' % n, f.node.lineno)
            env[n] = v
            got.add(n)
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in got:
                env[n] = self.ev(d, {}, f.mod)
                got.add(n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in got and d is not None:
                env[x.arg] = self.ev(d, {}, f.mod)
                got.add(x.arg)
        for n in names:
            if n not in got:
                raise Raised('TypeError: argument %s is missing' % n, f.node.lineno)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env, f.mod)
        for d in getattr(f.node, 'decorator_list', []):
            self.uns('decorator', d)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            self.uns('generator', f.node)
        self.depth += 1
        try:
            self.body(f.node.body, env, f.mod)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def seq(self, v, node):
        if isinstance(v, Arr):
            return list(v.xs)
        if isinstance(v, Dic):
            return list(v.d)
        self.uns('iteration over an unknown value', node)

    def ext(self, fq, args, kw, node):
        if fq.startswith('numpy.random.') or fq.startswith('rng.'):
            return self.random(fq.rsplit('.', 1)[1], list(args), dict(kw), node)
        root, nm = (fq.split('.', 1) + [''])[:2] if '.' in fq else ('builtins', fq)
        if root in ('math', 'numpy', 'cmath'):
            if nm == 'sqrt':
                return self.map1(lambda x: self.root(x, node), args[0], node)
            if nm == 'exp':
                return self.low(self.map1(self.a.exp, args[0], node))
            if nm in ('pow', 'power'):
                return self.binop('Pow', args[0], args[1], node)
            if nm == 'square':
                return self.binop('Mult', args[0], args[0], node)
            if nm in ('log', 'fabs', 'abs', 'absolute'):
                return self.map1(lambda x: self.absval(x) if nm != 'log' else self.a.fn(nm, x), args[0], node)
            if nm in ('maximum', 'fmax'):
                return self.each(lambda x, y: self.mx(x, y), args[0], args[1], node)
            if nm in ('minimum', 'fmin'):
                return self.each(lambda x, y: -self.mx(-x, -y), args[0], args[1], node)
            if nm == 'clip' and len(args) == 3 and (args[2] is None or isinstance(args[2], Ext)):
                return self.each(lambda x, y: self.mx(x, y), args[0], args[1], node)
            if nm in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
                return self.binop({'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult'}.get(nm, 'Div'), args[0], args[1], node)
            if nm in ('empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like'):
                n = args[0] if args else kw.get('shape')
                fill = {'empty': UNSET, 'empty_like': UNSET, 'ones': 1, 'full': args[1] if len(args) > 1 else kw.get('fill_value')}.get(nm, 0)
                if nm.endswith('_like'):
                    return Arr([fill] * len(args[0].xs))
                if isinstance(n, Arr):
                    if len(n.xs) == 2:
                        return Arr([Arr([fill] * self.whole(n.xs[1], node)) for _ in range(self.whole(n.xs[0], node))])
                    n = n.xs[0] if len(n.xs) == 1 else self.uns('shape', node)
                return Arr([fill] * self.whole(n, node))
            if nm in ('array', 'asarray', 'copy', 'atleast_1d', 'ascontiguousarray'):
                v = args[0]
                if isinstance(v, Arr):
                    return v if nm == 'asarray' and v.kind == 'array' else self.deep(v)
                return Arr([v]) if nm == 'atleast_1d' else v
            if nm in ('sum', 'fsum'):
                return self.total(args[0], 0, node)
            if nm == 'dot':
                return self.total(self.binop('Mult', args[0], args[1], node), 0, node)
            if nm == 'mean':
                return self.binop('Div', self.total(args[0], 0, node), len(args[0].xs), node)
            if nm == 'cumsum':
                out, s = [], 0
                for x in self.seq(args[0], node):
                    s = self.binop('Add', s, x, node)
                    out.append(s)
                return Arr(out)
            if nm == 'diff':
                xs = self.seq(args[0], node)
                if 'prepend' in kw:
                    xs = (kw['prepend'].xs if isinstance(kw['prepend'], Arr) else [kw['prepend']]) + xs
                return Arr([self.binop('Sub', y, x, node) for x, y in zip(xs, xs[1:])])
            if nm == 'concatenate':
                return Arr([y for x in self.seq(args[0], node) for y in self.seq(x, node)])
            if nm == 'append':
                return Arr(self.seq(args[0], node) + (args[1].xs if isinstance(args[1], Arr) else [args[1]]))
            if nm == 'arange':
                return Arr([i for i in range(*[self.whole(x, node) for x in args])])
            if nm == 'linspace':
                a, b, n = args[0], args[1], self.whole(args[2] if len(args) > 2 else kw.get('num', 50), node)
                end = self.low(kw.get('endpoint', True))
                step = self.binop('Div', self.binop('Sub', b, a, node), n - 1 if end else n, node)
                return Arr([self.binop('Add', a, self.binop('Mult', i, step, node), node) for i in range(n)])
            if nm in ('isclose',):
                self.uns('numpy.%s' % nm, node)
            if nm in ('float64', 'float32', 'int64', 'double'):
                return args[0]
            if nm == 'prod':
                p = 1
                for x in self.seq(args[0], node):
                    p = self.binop('Mult', p, x, node)
                return p
            if nm == 'where' and len(args) == 3:
                return self.join(args[0], args[1], args[2], node)
        if root == 'builtins':
            return self.builtin(nm, args, kw, node)
        if fq in ('copy.copy', 'copy.deepcopy'):
            return self.deep(args[0]) if isinstance(args[0], Arr) else args[0]
        if root == 'random':
            g = {'gauss': 'normal', 'normalvariate': 'normal'}.get(nm)
            if g:
                return self.random(g, list(args), dict(kw), node)
        if root == 'itertools' and nm == 'accumulate':
            out, s = [], None
            for x in self.seq(args[0], node):
                s = x if s is None else (self.call(args[1], [s, x], {}, node) if len(args) > 1 else self.binop('Add', s, x, node))
                out.append(s)
            return Arr(out, 'list')
        if root == 'itertools' and nm == 'chain':
            return Arr([y for x in args for y in self.seq(x, node)], 'list')
        if root == 'itertools' and nm == 'repeat' and len(args) == 2:
            return Arr([args[0]] * self.whole(args[1], node), 'list')
        if root == 'functools' and nm == 'reduce':
            xs = self.seq(args[1], node)
            s = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                s = self.call(args[0], [s, x], {}, node)
            return s
        if root == 'warnings':
            return None
        self.uns('call of %s' % fq, node)

    def root(self, x, node):
        try:
            return self.low(self.a.power(x, Fraction(1, 2)))
        except Bad as e:
            raise Raised(str(e), getattr(node, 'lineno', None))

    def absval(self, x):
        s = x.sign()
        return x if s is not None and s >= 0 else -x if s is not None else self.a.fn('abs', x)

    def mx(self, x, y):
        """max(x, y) = y + max(x - y, 0)"""
        d = x - y
        t = d.times()
        if t is not None:
            return x if t >= 0 else y
        if x.const() is not None:
            return x + self.a.max0(-d)
        return y + self.a.max0(d)

    def deep(self, v):
        return Arr([self.deep(x) if isinstance(x, Arr) else x for x in v.xs])

    def total(self, v, s, node):
        for x in self.seq(v, node):
            s = self.binop('Add', s, x, node)
        return s

    def builtin(self, nm, args, kw, node):
        if nm == 'range':
            return Arr(range(*[self.whole(x, node) for x in args]), 'tuple')
        if nm == 'len':
            return len(self.seq(args[0], node))
        if nm in ('tuple', 'list'):
            return Arr(self.seq(args[0], node) if args else [], nm)
        if nm == 'sum':
            return self.total(args[0], args[1] if len(args) > 1 else kw.get('start', 0), node)
        if nm in ('float', 'int', 'round'):
            v = self.low(args[0])
            if nm == 'float':
                if isinstance(v, str):
                    return Ext('inf') if 'inf' in v else self.uns('float of text', node)
                return v
            return self.whole(v, node)
        if nm == 'abs':
            return self.low(self.map1(self.absval, args[0], node))
        if nm in ('max', 'min'):
            xs = self.seq(args[0], node) if len(args) == 1 else list(args)
            r = self.num(xs[0], node)
            for x in xs[1:]:
                x = self.num(x, node)
                r = self.mx(r, x) if nm == 'max' else -self.mx(-r, -x)
            return self.low(r)
        if nm == 'enumerate':
            s = self.whole(args[1] if len(args) > 1 else kw.get('start', 0), node)
            return Arr([Arr([i + s, x], 'tuple') for i, x in enumerate(self.seq(args[0], node))], 'tuple')
        if nm == 'zip':
            return Arr([Arr(x, 'tuple') for x in zip(*[self.seq(a, node) for a in args])], 'tuple')
        if nm == 'map':
            return Arr([self.call(args[0], list(x), {}, node) for x in zip(*[self.seq(a, node) for a in args[1:]])], 'list')
        if nm == 'reversed':
            return Arr(self.seq(args[0], node)[::-1], 'list')
        if nm == 'sorted' and not kw:
            xs = self.seq(args[0], node)
            ks = [self.num(x, node).times() for x in xs]
            if None in ks:
                self.uns('sorting', node)
            return Arr([x for _, _, x in sorted((k, i, x) for i, (k, x) in enumerate(zip(ks, xs)))], 'list')
        if nm == 'isinstance':
            v, t = args
            ts = [t] if not isinstance(t, Arr) else t.xs
            names = [x.fq.rsplit('.', 1)[-1] for x in ts if isinstance(x, Ext)]
            if isinstance(v, Arr):
                return any(n == v.kind or (n == 'ndarray' and v.kind == 'array') or n in ('Iterable', 'Sequence') for n in names)
            if isinstance(v, Dic):
                return 'dict' in names
            if isinstance(v, (R, int, Fraction)):
                return any(n in ('float', 'Number', 'Real') or (n == 'int' and isinstance(self.low(v), int)) for n in names)
            return False
        if nm == 'bool':
            return self.truth(args[0], node)
        if nm == 'print':
            return None
        if nm in ('str', 'repr', 'format'):
            return ''
        if nm == 'any' or nm == 'all':
            xs = [self.truth(x, node) for x in self.seq(args[0], node)]
            if any(isinstance(x, Cond) for x in xs):
                self.uns(nm, node)
            return any(xs) if nm == 'any' else all(xs)
        if nm == 'pow':
            return self.binop('Pow', args[0], args[1], node)
        if nm == 'dict':
            return Dic(dict(args[0].d) if args else kw)
        if nm == 'slice':
            self.uns('slice', node)
        if nm.endswith('Error') or nm == 'Exception':
            return Ext(nm)
        self.uns('builtin %s' % nm, node)

    def method(self, o, nm, args, kw, node):
        if isinstance(o, Ext):
            return self.ext(o.fq + '.' + nm, args, kw, node)
        if isinstance(o, Arr):
            if nm == 'append':
                return self.resize(o, o.xs + [args[0]], node)
            if nm == 'extend':
                return self.resize(o, o.xs + self.seq(args[0], node), node)
            if nm == 'pop':
                i = self.whole(args[0], node) if args else -1
                if not -len(o.xs) <= i < len(o.xs):
                    raise Raised('IndexError', node.lineno)
                v = o.xs[i]
                xs = list(o.xs)
                del xs[i]
                self.resize(o, xs, node)
                return v
            if nm in ('sum', 'mean', 'cumsum', 'prod', 'clip', 'dot'):
                return self.ext('numpy.' + nm, [o] + list(args), kw, node)
            if nm == 'copy':
                return self.deep(o) if o.kind == 'array' else Arr(o.xs, o.kind)
            if nm == 'tolist':
                return Arr(o.xs, 'list')
            if nm == 'fill':
                for i in range(len(o.xs)):
                    self.write(o, i, args[0])
                return None
            if nm == 'astype':
                return self.deep(o)
        if isinstance(o, Dic):
            if nm == 'get':
                return o.d.get(args[0], args[1] if len(args) > 1 else None)
            if nm == 'items':
                return Arr([Arr([k, v], 'tuple') for k, v in o.d.items()], 'tuple')
            if nm == 'keys':
                return Arr(list(o.d), 'tuple')
            if nm == 'values':
                return Arr(list(o.d.values()), 'tuple')
            if nm == 'copy':
                return Dic(o.d)
        if isinstance(o, str):
            return ''
        self.uns('method %s' % nm, node)

    # ------------------------------------------------------------ names
    def name(self, n, env, mod, node):
        if n in env:
            v = env[n]
            if v is UNSET:
                raise Raised('NameError: %s may be unset' % n, node.lineno)
            return v
        if n in mod.funcs:
            return Func(mod, n, mod.funcs[n])
        if n in mod.consts:
            if mod.const_count.get(n, 1) > 1:
                self.uns('module variable %s' % n, node)
            v = self.ev(mod.consts[n], {}, mod)
            if isinstance(v, (Arr, Dic)):
                self.uns('container at module level', node)
            return v
        if n in mod.imports:
            return self.fq(mod.imports[n], node)
        import builtins
        if hasattr(builtins, n):
            return Ext(n)
        raise Raised('NameError: %s' % n, node.lineno)

    def fq(self, fq, node):
        r = self.prog.resolve(fq)
        if r[0] == 'func':
            return Func(r[1], r[2], r[1].funcs[r[2]])
        if r[0] == 'const':
            return self.ev(r[1].consts[r[2]], {}, r[1])
        if r[0] == 'ext':
            return self.extname(fq)
        if r[0] == 'module':
            return Ext(fq)
        self.uns('name %s' % fq, node)

    def extname(self, fq):
        if fq in ('math.pi', 'numpy.pi'):
            return self.a.sym('pi', True)
        return Ext(fq)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > LIMIT:
            raise Unsupported('too many steps')
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            self.uns('expression %s' % type(e).__name__, e)
        return m(e, env, mod)

    def x_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
            return v
        if isinstance(v, float):
            return self.low(self.a.const(Fraction(repr(v))))
        self.uns('constant', e)

    def x_Name(self, e, env, mod):
        return self.name(e.id, env, mod, e)

    def items(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.seq(self.ev(x.value, env, mod), x)
            else:
                out.append(self.ev(x, env, mod))
        return out

    def x_Tuple(self, e, env, mod):
        return Arr(self.items(e.elts, env, mod), 'tuple')

    def x_List(self, e, env, mod):
        return Arr(self.items(e.elts, env, mod), 'list')

    def x_Dict(self, e, env, mod):
        return Dic({self.ev(k, env, mod): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)})

    def x_JoinedStr(self, e, env, mod):
        return 'text'

    def x_BinOp(self, e, env, mod):
        return self.binop(type(e.op).__name__, self.ev(e.left, env, mod), self.ev(e.right, env, mod), e)

    def x_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, e)
            return Cond(t.x, not t.neg) if isinstance(t, Cond) else not t
        if isinstance(e.op, ast.USub):
            return self.low(self.map1(lambda x: -x, v, e))
        if isinstance(e.op, ast.UAdd):
            return v
        self.uns('operator', e)

    def x_BoolOp(self, e, env, mod):
        isor = isinstance(e.op, ast.Or)
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            t = self.truth(v, x)
            if isinstance(t, Cond):
                if x is e.values[-1]:
                    return t
                self.uns('a condition on the state inside and/or', e)
            if t == isor:
                return v
        return v

    def x_IfExp(self, e, env, mod):
        t = self.truth(self.ev(e.test, env, mod), e)
        if isinstance(t, Cond):
            return self.join(t, self.ev(e.body, env, mod), self.ev(e.orelse, env, mod), e)
        return self.ev(e.body if t else e.orelse, env, mod)

    def join(self, t, a, b, node):
        """a if t else b"""
        if isinstance(t, Arr):
            n = len(t.xs)
            xs, ys = [(v.xs if isinstance(v, Arr) else [v] * n) for v in (a, b)]
            return Arr([self.join(c, x, y, node) for c, x, y in zip(t.xs, xs, ys)])
        if not isinstance(t, Cond):
            return a if self.truth(t, node) else b
        if t.neg:
            a, b = b, a
        if a is b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.xs) == len(b.xs):
            return Arr([self.join(Cond(t.x), x, y, node) for x, y in zip(a.xs, b.xs)], a.kind)
        if a is UNSET or b is UNSET:
            return UNSET
        if isinstance(a, (R, int, Fraction)) and isinstance(b, (R, int, Fraction)):
            return self.low(self.a.ite(t.x, self.num(a), self.num(b)))
        if isinstance(a, (str, type(None))) and a == b:
            return a
        self.uns('a value that depends on the state', node)

    def x_Compare(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        out = True
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env, mod)
            out = self.compare(type(op).__name__, a, b, e)
            if isinstance(out, Cond):
                if len(e.ops) > 1 and op is not e.ops[-1]:
                    self.uns('chained comparison on the state', e)
                return out
            if not out:
                return out
            a = b
        return out

    def compare(self, op, a, b, e):
        a, b = self.low(a), self.low(b)
        if op in ('Is', 'IsNot'):
            same = a is b or (a is None and b is None)
            return same == (op == 'Is')
        if op in ('In', 'NotIn'):
            if isinstance(b, Dic):
                return (a in b.d) == (op == 'In')
            xs = self.seq(b, e)
            if any(isinstance(x, R) for x in xs) or isinstance(a, R):
                self.uns('membership', e)
            return (a in xs) == (op == 'In')
        if isinstance(a, Arr) and isinstance(b, (int, Fraction, R)) and op in ('Lt', 'LtE', 'Gt', 'GtE'):
            return Arr([self.compare(op, x, b, e) for x in a.xs])
        if op in ('Lt', 'LtE'):
            return self.less(a, b, op == 'LtE', e)
        if op in ('Gt', 'GtE'):
            return self.less(b, a, op == 'GtE', e)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return (a == b) == (op == 'Eq')
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return (a == b if not isinstance(a, R) and not isinstance(b, R) else False) == (op == 'Eq')
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.xs) != len(b.xs):
                return op != 'Eq'
            self.uns('comparison of sequences', e)
        if isinstance(a, (R, int, Fraction)) and isinstance(b, (R, int, Fraction)):
            d = self.num(a) - self.num(b)
            t = d.times()
            if t is None:
                if not d.draws() and d.t:      # a parameter is generic
                    return op != 'Eq'
                if not d.t:
                    return op == 'Eq'
                self.uns('equality of a random value', e)
            return (t == 0) == (op == 'Eq')
        self.uns('comparison', e)

    def x_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        env[e.target.id] = v
        return v

    def x_Lambda(self, e, env, mod):
        return Func(mod, '<lambda>', e, env)

    def comp(self, e, env, mod):
        out = []
        env = dict(env)

        def go(i):
            if i == len(e.generators):
                out.append(self.ev(e.elt, env, mod))
                return
            g = e.generators[i]
            for x in self.seq(self.ev(g.iter, env, mod), g.iter):
                self.assign(g.target, x, env, mod)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, env, mod), c)
                    if isinstance(t, Cond):
                        self.uns('a condition on the state in a comprehension', e)
                    if not t:
                        ok = False
                        break
                if ok:
                    go(i + 1)
        go(0)
        return Arr(out, 'list')

    x_ListComp = comp
    x_GeneratorExp = comp

    def x_Attribute(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        if isinstance(v, Ext):
            full = v.fq + '.' + e.attr
            r = self.prog.resolve(full)
            return self.fq(full, e) if r[0] in ('func', 'const') else self.extname(full)
        if isinstance(v, Arr) and e.attr == 'size':
            return len(v.xs)
        if isinstance(v, Arr) and e.attr == 'shape':
            return Arr([len(v.xs)] + ([len(v.xs[0].xs)] if v.xs and isinstance(v.xs[0], Arr) else []), 'tuple')
        if isinstance(v, Arr) and e.attr == 'T' and v.xs and isinstance(v.xs[0], Arr):
            return Arr([Arr(x) for x in zip(*[r.xs for r in v.xs])])
        return Meth(v, e.attr)

    def x_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = self.items(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, Dic):
                    self.uns('**', e)
                kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def slice(self, s, n, env, mod):
        return slice(*[None if x is None else self.whole(self.ev(x, env, mod), s) for x in (s.lower, s.upper, s.step)])

    def x_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        if isinstance(o, Dic):
            k = self.ev(e.slice, env, mod)
            if k not in o.d:
                raise Raised('KeyError: %r' % (k,), e.lineno)
            return o.d[k]
        if isinstance(o, Arr):
            if isinstance(e.slice, ast.Slice):
                return Arr(o.xs[self.slice(e.slice, len(o.xs), env, mod)], o.kind)
            if isinstance(e.slice, ast.Tuple):
                return self.multi(o, e.slice.elts, env, mod, e)
            i = self.ev(e.slice, env, mod)
            if isinstance(i, Arr):
                if i.xs and all(isinstance(x, bool) for x in i.xs):
                    return Arr([x for x, c in zip(o.xs, i.xs) if c])
                self.uns('selection', e)
            i = self.whole(i, e)
            if not -len(o.xs) <= i < len(o.xs):
                raise Raised('IndexError', e.lineno)
            return o.xs[i]
        self.uns('subscript', e)

    def multi(self, o, ix, env, mod, e):
        if len(ix) == 2 and o.xs and isinstance(o.xs[0], Arr):
            a, b = ix
            if isinstance(a, ast.Slice):
                rows = o.xs[self.slice(a, 0, env, mod)]
                if isinstance(b, ast.Slice):
                    s = self.slice(b, 0, env, mod)
                    return Arr([Arr(r.xs[s]) for r in rows])
                j = self.whole(self.ev(b, env, mod), e)
                return Arr([r.xs[j] for r in rows])
            r = o.xs[self.whole(self.ev(a, env, mod), e)]
            if isinstance(b, ast.Slice):
                return Arr(r.xs[self.slice(b, 0, env, mod)])
            return r.xs[self.whole(self.ev(b, env, mod), e)]
        self.uns('subscript', e)

    # ------------------------------------------------------------ statements
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.seq(v, t)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                xs = xs[:i] + [Arr(xs[i:len(xs) - k], 'list')] + xs[len(xs) - k:]
            if len(xs) != len(t.elts):
                raise Raised('ValueError: %d values for %d names' % (len(xs), len(t.elts)), t.lineno)
            for x, y in zip(t.elts, xs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Arr) and o.kind == 'tuple':
                raise Raised('TypeError: a tuple is changed', t.lineno)
            if isinstance(o, Arr):
                if isinstance(t.slice, ast.Slice):
                    ix = list(range(len(o.xs)))[self.slice(t.slice, len(o.xs), env, mod)]
                    ys = v.xs if isinstance(v, Arr) else [v] * len(ix)
                    if len(ys) != len(ix):
                        if o.kind == 'list':
                            self.uns('slice assignment', t)
                        raise Raised('arrays of different lengths are combined', t.lineno)
                    for i, y in zip(ix, ys):
                        self.write(o, i, y)
                    return
                if isinstance(t.slice, ast.Tuple):
                    ix = t.slice.elts
                    if len(ix) == 2 and not any(isinstance(x, ast.Slice) for x in ix):
                        r = o.xs[self.whole(self.ev(ix[0], env, mod), t)]
                        self.write(r, self.whole(self.ev(ix[1], env, mod), t), v)
                        return
                    self.uns('assignment to a part of an array', t)
                i = self.ev(t.slice, env, mod)
                if isinstance(i, Arr):
                    if len(i.xs) == len(o.xs) and all(isinstance(x, (bool, Cond)) for x in i.xs) and not isinstance(v, Arr):
                        for j, c in enumerate(i.xs):
                            self.write(o, j, self.join(c, v, o.xs[j], t))
                        return
                    self.uns('assignment to a part of an array', t)
                i = self.whole(i, t)
                if not -len(o.xs) <= i < len(o.xs):
                    raise Raised('IndexError: assignment outside the array', t.lineno)
                self.write(o, i if i >= 0 else i + len(o.xs), v)
                return
            if isinstance(o, Dic):
                if self.log is not None:
                    self.uns('a dict changed under a condition on the state', t)
                o.d[self.ev(t.slice, env, mod)] = v
                return
            self.uns('assignment', t)
        else:
            self.uns('assignment', t)

    def body(self, ss, env, mod):
        for s in ss:
            self.steps += 1
            if self.steps > LIMIT:
                raise Unsupported('too many steps')
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.uns('statement %s' % type(s).__name__, s)
            m(s, env, mod)

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Assert(self, s, env, mod):
        pass

    def s_Import(self, s, env, mod):
        for a in s.names:
            env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, env, mod):
        if s.level:
            self.uns('relative import', s)
        for a in s.names:
            env[a.asname or a.name] = self.fq(s.module + '.' + a.name, s)

    def s_FunctionDef(self, s, env, mod):
        env[s.name] = Func(mod, s.name, s, env)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env, mod, t)
            new = self.binop(op, old, self.ev(s.value, env, mod), s)
            if isinstance(old, Arr) and isinstance(new, Arr) and old.kind in ('array', 'list'):
                if len(old.xs) == len(new.xs):
                    for i, x in enumerate(new.xs):
                        self.write(old, i, x)
                else:
                    self.resize(old, new.xs, s)
                return
            env[t.id] = new
            return
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
            old = self.ev(t, env, mod)
            self.assign(t, self.binop(op, old, self.ev(s.value, env, mod), s), env, mod)
            return
        old = self.ev(t, env, mod)
        if old is UNSET:
            raise Raised('an element read before it is set', s.lineno)
        self.assign(t, self.binop(op, old, self.ev(s.value, env, mod), s), env, mod)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)

    def s_Return(self, s, env, mod):
        raise Ret(None if s.value is None else self.ev(s.value, env, mod))

    def s_Break(self, s, env, mod):
        raise Brk()

    def s_Continue(self, s, env, mod):
        raise Cnt()

    def s_Raise(self, s, env, mod):
        nm = 'an exception'
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if isinstance(e, ast.Name):
            nm = e.id
        raise Raised(nm, s.lineno)

    def s_Try(self, s, env, mod):
        self.uns('try', s)

    def s_With(self, s, env, mod):
        self.uns('with', s)

    def s_If(self, s, env, mod):
        t = self.truth(self.ev(s.test, env, mod), s)
        if not isinstance(t, Cond):
            self.body(s.body if t else s.orelse, env, mod)
            return
        only = [b for b in (s.body, s.orelse) if b and all(isinstance(x, ast.Raise) for x in b)]
        if only:                        # a refusal of this parameter or state: the other branch is the computation
            self.body(s.orelse if only[0] is s.body else s.body, env, mod)
            return
        outer = self.log
        e0 = dict(env)
        res = []
        for b in (s.body, s.orelse):
            self.log = []
            env.clear()
            env.update(e0)
            try:
                self.body(b, env, mod)
            except (Ret, Brk, Cnt):
                self.uns('control flow that depends on the state', s)
            writes = {}
            for o, i, old in self.log:
                writes.setdefault((id(o), i), (o, i, old, o.xs[i]))
            for o, i, old in reversed(self.log):
                o.xs[i] = old
            res.append((dict(env), writes))
        self.log = outer
        (ea, wa), (eb, wb) = res
        env.clear()
        for n in set(ea) | set(eb):
            x, y = ea.get(n, UNSET), eb.get(n, UNSET)
            try:
                env[n] = x if x is y else self.join(t, x, y, s)
            except Unsupported:
                if n in e0:
                    raise
                env[n] = UNSET
        for k in set(wa) | set(wb):
            o, i, old, _ = wa.get(k) or wb.get(k)
            self.write(o, i, self.join(t, wa[k][3] if k in wa else old, wb[k][3] if k in wb else old, s))

    def loop(self, s, env, mod):
        """one pass; True to stop"""
        try:
            self.body(s.body, env, mod)
        except Brk:
            return True
        except Cnt:
            pass
        return False

    def s_For(self, s, env, mod):
        for x in self.seq(self.ev(s.iter, env, mod), s.iter):
            self.assign(s.target, x, env, mod)
            if self.loop(s, env, mod):
                return
        self.body(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        while True:
            t = self.truth(self.ev(s.test, env, mod), s)
            if isinstance(t, Cond):
                self.uns('a loop that depends on the state', s)
            if not t:
                break
            if self.loop(s, env, mod):
                return
        self.body(s.orelse, env, mod)


# ---------------------------------------------------------------- the simulators
def P(*names):
    return ('dict', names)


ONE = P('mu', 'k', 'theta', 'sigma_v', 'rho', 'h')
ONEJ = P('mu', 'k', 'theta', 'sigma_v', 'rho', 'lambda', 'mu_j', 'sigma_j', 'h')
TWO = P('mu', 'k1', 'theta1', 'sigma_v1', 'k2', 'theta2', 'sigma_v2', 'h')
TWOJ = P('mu', 'k1', 'theta1', 'sigma_v1', 'k2', 'theta2', 'sigma_v2', 'lambda', 'mu_j', 'sigma_j', 'h')
POS = ('h', 'T', 'tau', 'k', 'k1', 'k2', 'theta', 'theta1', 'theta2', 'sigma', 'sigma_v', 'sigma_v1', 'sigma_v2', 'v0', 'v1', 'v2', 'lambda',
       'lmbd_s', 'sigma_j', 'sigma_s', 's1', 's2', 's3', 'J1', 'J2', 'J3')
REAL = ('mu', 'rho', 'mu_j', 'mu_s', 'rho_J')

# arrangements of jump times; a fraction of the interval ties the jump to that point, a number is a generic time near it
TIMES = [(), ('0.3',), ('0.9',), ('1/2',), ('1/3',), ('1/1',), ('0.2', '0.45'), ('0.2', '0.7'), ('0.55', '1/1'), ('1/2', '0.8'), ('0.4', '0.6', '0.95'),
         ('0.05', '0.1', '0.15')]
SOME = [(), ('0.3',), ('0.2', '0.7'), ('1/2', '1/1'), ('0.4', '0.6', '0.95')]


def grids(tier):
    g = [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]
    return g + [(2, 3), (1, 4), (3, 3)] if tier == 'thorough' else g


def cases(name, tier):
    """(positional arguments, keyword arguments, counts, text)"""
    out = []
    if name in ('r1FSV', 'r1FSV_iid', 'r1FSVJ', 'r2FSV', 'r2FSVJ'):
        par = {'r1FSV': ONE, 'r1FSV_iid': ONE, 'r1FSVJ': ONEJ, 'r2FSV': TWO, 'r2FSVJ': TWOJ}[name]
        v0 = ('list', ('v1', 'v2')) if name.startswith('r2') else 'v0'
        counts = [(0,), (1,), (2, 0, 3)] if name.endswith('J') else [(0,)]
        for n, m in grids(tier):
            for c in counts:
                out.append(((v0, par, n, m, 'h'), {}, c, 'N=%d, n_segment=%d%s' % (n, m, ', numbers of jumps %s' % (c,) if name.endswith('J') else '')))
        out.append(((v0, par, 1), {}, (1,), 'N=1, default step number and interval'))
        out.append(((v0, par, 1, 2), {}, (1,), 'N=1, n_segment=2, default interval'))
        if name.startswith('r2'):
            out.append(((('tuple', ('v1', 'v2')), par, 1, 2, 'h'), {}, (1,), 'N=1, n_segment=2, v0 a tuple'))
        return out
    if name == 'rSRD':
        return [(('v0', 'tau', 'k', 'theta', 'sigma'), {}, (0,), 'one draw')]
    if name == 'rSRJD':
        for ts in TIMES:
            for n in (1, 2):
                for kind in ('tuple', 'list'):
                    if kind == 'list' and n == 2:
                        continue
                    out.append((('v0', 'k', 'theta', 'sigma', 'T', ('sizes', kind, len(ts)), ('times', kind, ts, 'T'), n), {}, (0,),
                                'n=%d, jumps at %s of the interval (%s)' % (n, ts, kind)))
        return out
    if name == 'rSVVJ':
        for ts in TIMES:
            for n, m in [(1, 1), (1, 2), (1, 3), (2, 2)] + ([(3, 2), (1, 4), (2, 5)] if tier == 'thorough' else []):
                kinds = ('tuple', 'list') if (n, m) == (1, 2) else ('tuple',)
                for kind in kinds:
                    out.append((('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T', ('sizes', kind, len(ts)), ('times', kind, ts, 'T'), n, m), {}, (0,),
                                'n=%d, n_segment=%d, jumps at %s of the interval (%s)' % (n, m, ts, kind)))
        return out
    if name in ('rSVCJ', 'rSVIJ'):
        for ts in SOME:
            for n, m in [(1, 1), (1, 2), (2, 2)]:
                for c in ([(0,)] if name == 'rSVCJ' else [(0,), (2, 1), (0, 3)]):
                    extra = ('mu_s', 'sigma_s', 'rho_J') if name == 'rSVCJ' else ('lmbd_s', 'mu_s', 'sigma_s')
                    out.append((('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T', ('sizes', 'tuple', len(ts)), ('times', 'tuple', ts, 'T')) + extra + (n, m), {}, c,
                                'n=%d, n_segment=%d, jumps at %s of the interval%s' % (n, m, ts, '' if name == 'rSVCJ' else ', numbers of return jumps %s' % (c,))))
        return out
    raise KeyError(name)


def build(alg, a):
    if isinstance(a, int):
        return a
    if isinstance(a, str):
        return symbol(alg, a)
    if a[0] == 'dict':
        return Dic({n: symbol(alg, 'par_h' if n == 'h' else n) for n in a[1]})
    if a[0] in ('list', 'tuple'):
        return Arr([symbol(alg, n) for n in a[1]], a[0])
    if a[0] == 'sizes':
        return Arr([symbol(alg, 'J%d' % (i + 1)) for i in range(a[2])], a[1])
    if a[0] == 'times':
        out = []
        for i, t in enumerate(a[2]):
            if '/' in t:
                out.append(symbol(alg, a[3]) * alg.const(Fraction(t)))
            else:
                out.append(alg.sym('s%d' % (i + 1), True, Fraction(t)))
        return Arr(out, a[1])
    raise KeyError(a)


def symbol(alg, n):
    return alg.sym(n, n in POS, 1 if n in ('h', 'T', 'tau') else None)


def outcome(prog, alg, mod, name, args, kw, counts, tag):
    run = Run(prog, alg, counts)
    run.tag = tag
    node = mod.funcs[name]
    vals = [build(alg, x) for x in args]
    before = [list(v.xs) if isinstance(v, Arr) else dict(v.d) if isinstance(v, Dic) else v for v in vals]
    try:
        r = run.call_func(Func(mod, name, node), vals, kw, node)
    except Raised as e:
        return ('raises', '%s%s' % (e.name, ' (line %s)' % e.line if e.line else ''), run)
    except Bad as e:
        return ('raises', str(e), run)
    for v, b in zip(vals, before):
        now = list(v.xs) if isinstance(v, Arr) else dict(v.d) if isinstance(v, Dic) else v
        if isinstance(v, (Arr, Dic)) and not (len(now) == len(b) and (all(x is y for x, y in zip(now, b)) if isinstance(v, Arr) else now == b)):
            return ('changes', 'an argument', run)
    if isinstance(r, Arr):
        out = []
        for i, x in enumerate(r.xs):
            if x is UNSET:
                return ('unset', 'observation %d is never set' % i, run)
            if isinstance(x, Arr):
                return ('shape', 'observation %d is a sequence' % i, run)
            out.append(run.num(x))
        return ('values', out, run)
    if isinstance(r, (R, int, Fraction)):
        return ('value', [run.num(r)], run)
    return ('other', r, run)


SIMS = [('ajdmom.mdl_1fsv.euler', 'r1FSV'), ('ajdmom.mdl_1fsv.euler', 'r1FSV_iid'), ('ajdmom.mdl_1fsvj.euler', 'r1FSVJ'),
        ('ajdmom.mdl_2fsv.euler', 'r2FSV'), ('ajdmom.mdl_2fsvj.euler', 'r2FSVJ'), ('ajdmom.mdl_srjd.euler', 'rSRD'),
        ('ajdmom.mdl_srjd.euler', 'rSRJD'), ('ajdmom.mdl_svvj.euler', 'rSVVJ'), ('ajdmom.mdl_svcj.euler', 'rSVCJ'), ('ajdmom.mdl_svij.euler', 'rSVIJ')]


def steps(w, pid, tier, seed):
    """every observation is the documented expression of parameters, state and draws"""
    rep = Report()
    rep.cover['functions'] = []
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'schemes', 'euler.py')
    spec = Module('schemes.euler', path, open(path).read())
    for mn, name in SIMS:
        fq = mn + '.' + name
        r = w.prog.func(fq)
        if r is None:
            rep.lost.append('public function %s not found' % fq)
            continue
        mod, nm, node = r
        checked = und = 0
        why = None
        bad = None
        for args, kw, counts, txt in cases(name, tier):
            alg = Algebra()
            want = outcome(w.prog, alg, spec, name, args, kw, counts, 's')
            assert want[0] in ('values', 'value'), (name, txt, want[:2])
            try:
                got = outcome(w.prog, alg, mod, nm, args, kw, counts, 'c')
                diff = differ(alg, want, got)
            except (Unsupported, RecursionError) as e:
                und += 1
                why = str(e)
                continue
            checked += 1
            if diff:
                bad = (diff, txt)
                break
        rep.cover['functions'].append({'function': fq, 'arrangements': checked, 'undecided': und, **({'why': why} if why else {})})
        rep.count('arrangements_compared', checked)
        rep.count('arrangements_undecided', und)
        if bad:
            rep.bad(w, fq, 'simulated step', bad[0], bad[1], node.lineno)
    done = [f for f in rep.cover['functions'] if f['arrangements']]
    rep.cover['functions_decided'] = len(done)
    if len(done) * 2 < len(SIMS) and not rep.viol:
        rep.lost.append('fewer than half of the simulators could be followed')
    return rep.out()


def differ(alg, want, got):
    kind, wv, wr = want
    if got[0] in ('raises', 'changes', 'unset', 'shape'):
        return '%s: %s' % (got[0], got[1])
    if got[0] == 'other':
        return 'does not give numbers'
    if got[0] != kind:
        return 'gives %s' % ('a number' if got[0] == 'value' else 'a sequence')
    gv, gr = got[1], got[2]
    if len(gv) != len(wv):
        return 'gives %d observations instead of %d' % (len(gv), len(wv))
    if sorted(x.key() for x in gr.rates) != sorted(x.key() for x in wr.rates):
        if len(gr.rates) != len(wr.rates):
            raise Unsupported('another number of count draws')
        return 'the rate of the number of jumps is %s instead of %s' % (gr.rates[0].show(), wr.rates[0].show())
    hs, cs = shape(alg, wv)
    hg, cg = shape(alg, gv)
    if hs == hg:
        return None
    # equal roles are needed to compare values: colours by position in the output
    if same(alg, wv, gv):
        return None
    for i, (x, y) in enumerate(zip(hs, hg)):
        if x != y:
            return 'observation %d is %s, documented: %s' % (i, gv[i].show()[:400], wv[i].show()[:400])
    return 'the observations depend on each other differently'


def same(alg, wv, gv):
    """the normal form left open: equality of values, the draws paired in the order in which they are made"""
    def order(vs):
        ds = set()
        for x in vs:
            ds.update(x.draws())
        ks = {}
        for d in sorted(ds, key=lambda d: int(alg.atoms[d][1].split('.')[1])):
            ks.setdefault(alg.atoms[d][0], []).append(d)
        return ks
    a, b = order(wv), order(gv)
    if {k: len(v) for k, v in a.items()} != {k: len(v) for k, v in b.items()}:
        return False
    ca = {d: (k, i) for k, v in a.items() for i, d in enumerate(v)}
    cb = {d: (k, i) for k, v in b.items() for i, d in enumerate(v)}
    # the laws of the draws belong to the values
    xa, xb = ([alg.back(t) for d in k.get('X', ()) for t in alg.atoms[d][3:]] for k in (a, b))
    if [alg.atoms[d][2] for d in a.get('X', ())] != [alg.atoms[d][2] for d in b.get('X', ())]:
        return False
    return same_value(alg, wv + xa, ca, gv + xb, cb, 'pair') is True
