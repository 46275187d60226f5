"""Evaluates summaries at concrete points: used to decide whether two summaries whose normal
forms differ nevertheless denote the same poly.  Only summaries are evaluated (closed algebraic
expressions), never the analysed code."""
import itertools
import math
import time
from fractions import Fraction
from .expr import E, ZERO, ONE, const
from .values import PV, Num, Tup, Const, Cond, Ch, T0V, Opq, Em, c_not
from .interp import Rep, kind_of, LV

K1, K2 = Fraction(3, 7), Fraction(5, 3)


class Bad(Exception):
    """cannot be evaluated"""


class Undef(Exception):
    """the denoted value does not exist (raise, division by zero)"""


def isfloat(x):
    return isinstance(x, float)


class Ev:
    def __init__(self, world, budget=3000000):
        self.w = world              # world.apply(fq, args) -> value
        self.budget = budget
        self.live = {}
        self.memo = {}

    def tick(self, n=1):
        self.budget -= n
        self.w.ticks += n
        if self.budget < 0:
            raise Bad('evaluation budget')
        if self.w.ticks >= self.w.nextlook:
            self.w.nextlook = self.w.ticks + 500
            if self.w.deadline is not None and time.process_time() > self.w.deadline:
                raise Bad('evaluation budget (time)')

    # env: {'v': {name: value}, 'b': {binder: (key dict/tuple, coef)}}
    def num(self, e, env):
        if not isinstance(e, E):
            raise Bad('number expected')
        r = Fraction(0)
        for m, c in e.t.items():
            p = c
            for b, x in m:
                p = self.mul(p, self.pow(b, x, env))
            r = r + p
        return r

    def mul(self, a, b):
        if a == 0 or b == 0:
            return Fraction(0)
        return a * b

    def pow(self, b, x, env):
        xe = self.num(x, env) if not x.is_const() else x.const()
        if b[0] == 'e':
            return math.exp(float(xe)) if xe != 0 else Fraction(1)
        if b[0] == 'c':
            v = Fraction(b[1])
        else:
            v = self.atom(b, env)
        return self.npow(v, xe)

    def npow(self, v, xe):
        if isfloat(xe):
            return float(v) ** xe
        xe = Fraction(xe)
        if xe.denominator == 1:
            n = int(xe)
            if abs(n) > 400:
                raise Bad('large exponent')
            if v == 0 and n < 0:
                raise Undef('zero to a negative power')
            return v ** n
        if v < 0:
            raise Undef('negative base')
        if v == 0:
            return Fraction(0)
        return float(v) ** float(xe)

    def iint(self, x):
        if isfloat(x) or x.denominator != 1:
            raise Undef('not an integer')
        return int(x)

    def atom(self, a, env):
        t = a[0]
        if t == 'v':
            try:
                return env['v'][a[1]]
            except KeyError:
                if a[1].startswith('par.'):
                    return hashed(a[1])
                raise Bad('unbound %s' % a[1])
        if t == 'key':
            k, co, kf = env['b'][a[1]]
            if a[2] == '*i':
                return k[a[3]]
            try:
                x = k[kf.index(a[2])]
                for i in a[3:]:
                    j = self.iint(self.num(i, env))
                    x = x[j]
            except (IndexError, TypeError):
                raise Undef('the key %s has no component %s' % (tuple(str(y) for y in k), a[2]))
            return Fraction(x)
        if t == 'coef':
            return env['b'][a[1]][1]
        if t == 't0e':
            return Fraction(env['b'][a[1]][0][self.iint(self.num(a[2], env))])
        if t == 'fact':
            n = self.iint(self.num(a[1], env))
            if n < 0:
                return None or self.infinite()
            return Fraction(math.factorial(n))
        if t == 'sum':
            return self.num(a[1], env)
        if t == 'zp':
            n = self.num(a[1], env)
            return Fraction(1) if n == 0 else (Fraction(0) if n > 0 else self.undef())
        if t == 'floor':
            return Fraction(math.floor(self.num(a[1], env)))
        if t == 'trunc':
            return Fraction(math.trunc(self.num(a[1], env)))
        if t == 'mod':
            return self.num(a[1], env) % self.num(a[2], env)
        if t == 'min':
            return min(self.num(a[1], env), self.num(a[2], env))
        if t == 'max':
            return max(self.num(a[1], env), self.num(a[2], env))
        if t == 'app':
            v = self.px(a, env)
            if isinstance(v, Poly):
                raise Bad('poly used as a number')
            return v
        if t == 'sumx':
            s = Fraction(0)
            for env2 in self.bind(a[1], a[2], env):
                s = s + self.num(a[3], env2)
            return s
        if t == 'prodx':
            s = Fraction(1)
            for env2 in self.bind(a[1], a[2], env):
                s = s * self.num(a[3], env2)
            return s
        if t == 'polylen':
            return Fraction(len([1 for v in self.px(a[1], env).d.values() if v != 0]))
        if t == 'seqlen':
            k, co, kf = env['b'][a[2]]
            return Fraction(len(k[kf.index(a[3])]))
        if t == 'old' and a[1] in self.live:
            k = self.comp(a[2], env)
            if k not in self.live[a[1]]:
                raise Undef('KeyError')
            return self.live[a[1]][k]
        if t == 'numerator' or t == 'denominator':
            return Fraction(getattr(Fraction(self.num(a[1], env)), t))
        raise Bad('atom %s' % t)

    def undef(self):
        raise Undef('zero to a negative power')

    def infinite(self):
        # 1/(-n)! is zero; a bare factorial of a negative number does not exist
        return INF

    # -------------------------------------------------------------- conditions
    def cond(self, c, env):
        if c is True or c is False:
            return c
        t = c[0]
        if t in ('ge', 'gte'):
            return self.num(c[1], env) >= 0
        if t == 'gt':
            return self.num(c[1], env) > 0
        if t == 'eq':
            return self.num(c[1], env) == 0
        if t == 'ne':
            return self.num(c[1], env) != 0
        if t == 'and':
            return all(self.cond(x, env) for x in c[1])
        if t == 'or':
            return any(self.cond(x, env) for x in c[1])
        if t == 'not':
            return not self.cond(c[1], env)
        if t == 'in' and c[1] in self.live:
            return self.comp(c[2], env) in self.live[c[1]]
        raise Bad('condition %s' % t)

    # -------------------------------------------------------------- binders
    def bind(self, bs, pcs, env):
        if not bs:
            if all(self.cond(c, env) for c in pcs):
                yield env
            return
        yield from self._bind(list(bs), list(pcs), env, 0)

    def _bind(self, bs, pcs, env, i):
        if i == len(bs):
            self.tick()
            if all(self.cond(c, env) for c in pcs):
                yield env
            return
        b = bs[i]
        # prune with conditions that already have a value
        if b[0] == 'rng':
            lo, hi = self.num(b[2], env), self.num(b[3], env)
            lo, hi = math.ceil(lo), math.floor(hi)
            if hi - lo > 2000:
                raise Bad('range too long')
            for x in range(lo, hi + 1):
                e2 = {'v': dict(env['v']), 'b': env['b']}
                e2['v'][b[1]] = Fraction(x)
                yield from self._bind(bs, pcs, e2, i + 1)
            return
        if b[0] == 'pt':
            # conditions not involving this or later binders may exclude evaluating an undefined poly
            later = {x[1] for x in bs[i:]}
            for c in pcs:
                if not mentions(c, later) and not self.cond(c, env):
                    return
            p = self.px(b[2], env)
            if not isinstance(p, Poly):
                raise Bad('iteration over a non-poly')
            L = b[3] if len(b) > 3 else None
            kf = p.kf
            for k, co in p.d.items():
                if L is not None and not self.shape_ok(k, kf, L):
                    continue
                e2 = {'v': env['v'], 'b': dict(env['b'])}
                e2['b'][b[1]] = (k, co, kf)
                yield from self._bind(bs, pcs, e2, i + 1)
            return
        if b[0] == 't0':
            fs = self.t0(T0V([b[2]]), env)
            for f in fs:
                e2 = {'v': env['v'], 'b': dict(env['b'])}
                e2['b'][b[1]] = (f, None, None)
                yield from self._bind(bs, pcs, e2, i + 1)
            return
        raise Bad('binder %s' % b[0])

    def shape_ok(self, k, kf, L):
        for x, nm in zip(k, kf):
            kd = kind_of(nm)
            if kd == 'seq0':
                if len(x) > 3:
                    raise Bad('more jump levels than analysed')
                return len(x) == L
        return True

    # -------------------------------------------------------------- polys
    def t0(self, v, env):
        out = []
        for f in v.fs:
            if f[0] == 'path':
                k, co, kf = env['b'][f[1]]
                x = k[kf.index(f[2])]
                out.extend(x)
            elif f[0] == 'tri':
                t = tuple(self.iint(self.num(y, env)) for y in f[1:4])
                out.append(t)
            elif f[0] == 'app':
                r = self.px(f, env)
                out.extend(r)
            else:
                raise Bad('denominator factor')
        return norm_t0(out)

    def comp(self, k, env):
        if isinstance(k, E):
            x = self.num(k, env)
            if isfloat(x) or x.denominator != 1:
                raise Undef('fractional exponent')
            return int(x)
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'id':
                return env['b'][k[1]][0]
            out = []
            for x in k:
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'rep':
                    n = self.iint(self.num(x[2], env))
                    out.extend([self.comp(x[1], env)] * n)
                else:
                    out.append(self.comp(x, env))
            return tuple(out)
        if isinstance(k, T0V):
            return self.t0(k, env)
        if isinstance(k, Opq):
            kk, co, kf = env['b'][k.path[1]]
            return kk[kf.index(k.path[2])]
        return k

    def ordered(self, pv, env):
        """the dictionary left by a sequence of updates: loops that share a variable run together, and the
        presence tests of one round see the state at its start"""
        d = {}
        live = {pv.oid: d}
        for oid, px in pv.objs.items():
            live[oid] = self.px(px, env).d
        self.live = live
        try:
            for group in pv.ordered:
                n = min(len(e.bs) for e in group)
                rounds = list(self.bind(group[0].bs[:1], (), env)) if n else [env]
                for r in rounds:
                    todo = []
                    for e in group:
                        bs = [(b[0], group[0].bs[0][1]) + tuple(b[2:]) if i == 0 else b for i, b in enumerate(e.bs)][1:] if n else e.bs
                        todo.append((e, list(self.bind(bs, e.pc, r))))
                    for e, envs in todo:
                        for e2 in envs:
                            k = self.comp(e.key, e2)
                            if e.op == 'add':
                                d[k] = d.get(k, 0) + self.num(e.co, e2)
                            elif e.op == 'rmw':
                                if k not in d:
                                    raise Undef('KeyError')
                                d[k] = d[k] + self.num(e.co, e2)
                            elif e.op == 'set':
                                d[k] = self.num(e.co, e2)
                            elif e.op == 'del':
                                if k not in d:
                                    raise Undef('KeyError')
                                del d[k]
                            else:
                                raise Bad('operation %s' % e.op)
        finally:
            self.live = {}
        return Poly(pv.kf, {k: v for k, v in d.items() if v != 0})

    def pv(self, pv, env):
        if getattr(pv, 'ordered', None) is not None:
            return self.ordered(pv, env)
        d = {}
        for em in pv.ems:
            if em.op == 'dropzero':
                continue
            if em.op != 'add':
                raise Bad('operation %s' % em.op)
            for e2 in self.bind(em.bs, em.pc, env):
                co = self.num(em.co, e2)
                if co == 0:
                    continue
                k = self.comp(em.key, e2)
                d[k] = d.get(k, 0) + co
        return Poly(pv.kf, {k: v for k, v in d.items() if v != 0})

    def px(self, p, env):
        if isinstance(p, PV):
            return self.pv(p, env)
        if isinstance(p, E):
            return self.num(p, env)
        if isinstance(p, T0V):
            return self.t0(p, env)
        t = p[0]
        if t == 'app':
            args = tuple(self.arg(a, env) for a in p[2])
            return self.w.apply(p[1], args, self)
        if t == 'param':
            return env['v'][p[1]]
        if t == 'polypow':
            r, q = self.px(p[1], env), self.px(p[2], env)
            n = self.iint(self.num(p[3], env))
            if n < 0:
                raise Undef('power of a poly below 1')
            for _ in range(max(n, 0)):
                r = self.pmul(r, q)
            return r
        if t == 'mul':
            return self.pmul(self.px(p[1], env), self.px(p[2], env))
        if t == 'polyprod':
            r = self.px(p[1], env)
            for e2 in self.bind(p[2], (), env):
                r = self.pmul(r, self.px(p[3], e2))
            return r
        raise Bad('poly expression %s' % t)

    def pmul(self, a, b):
        d = {}
        self.tick(len(a.d) * len(b.d))
        for k, v in a.d.items():
            for l, w in b.d.items():
                key = tuple(kadd(x, y) for x, y in zip(k, l))
                d[key] = d.get(key, 0) + v * w
        return Poly(a.kf, {k: v for k, v in d.items() if v != 0})

    def arg(self, a, env):
        if isinstance(a, E):
            return self.num(a, env)
        if isinstance(a, PV):
            return self.pv(a, env)
        if isinstance(a, (T0V, Opq)):
            return self.comp(a, env)
        if isinstance(a, tuple) and a and a[0] in ('table', 'const', 'par'):
            return a
        if isinstance(a, tuple):
            return tuple(self.comp(x, env) if not isinstance(x, E) else self.num(x, env) for x in a)
        raise Bad('argument')

    def value(self, v, env):
        if isinstance(v, Num):
            return self.num(v.e, env)
        if isinstance(v, PV):
            return self.pv(v, env)
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Cond):
            return self.cond(v.c, env)
        if isinstance(v, Ch):
            for c, x in v.alts:
                if self.cond(c, env):
                    return self.value(x, env)
            raise Bad('no alternative')
        if isinstance(v, Tup):
            return tuple(self.value(x, env) for x in v.items)
        if isinstance(v, T0V):
            return self.t0(v, env)
        if isinstance(v, LV):
            out = [self.value(x, env) for x in v.items]
            for b, p, x in v.segs:
                for e2 in self.bind(b, p, env):
                    out.append(self.value(x, e2))
            return out
        raise Bad('value %s' % type(v).__name__)

    def returns(self, rets, env):
        for pc, v in rets:
            if all(self.cond(c, env) for c in pc):
                return self.value(v, env)
        raise Undef('no return')


def ordered_groups(log, oid, it):
    """consecutive updates of one loop, when the evaluation order of its rounds does not matter"""
    from .expr import Unsupported
    groups = []
    for e in log:
        if e.op == 'dropzero':
            continue
        if e.bs and groups and groups[-1][0].bs and groups[-1][0].bs[0][1] == e.bs[0][1]:
            groups[-1].append(e)
        else:
            groups.append([e])
    for g in groups:
        own = [c for e in g for c in e.pc if own_test(c, oid)]
        if len(g) == 1 and len(g[0].bs) <= 1 and not own:
            continue
        if len(g) == 1 and not own and g[0].op in ('set', 'add'):
            continue                    # one statement in nested loops: in the order of the loops
        if any(e.key != g[0].key or len(e.bs) > 1 for e in g):
            raise Unsupported('updates of different keys in one loop')
        if len(g) > 1 and not all(any(c_not(c) in f.pc for c in e.pc) for e in g for f in g if e is not f):
            raise Unsupported('several updates of a key in one round')
        if g[0].bs and any(not it.injective(Em('set', e.bs, e.pc, e.key, e.co)) and e.key != ('id', e.bs[0][1]) for e in g):
            raise Unsupported('updates in a loop over keys not shown distinct')
    return groups


def own_test(c, oid):
    if isinstance(c, tuple) and c and c[0] == 'in':
        return c[1] == oid
    return isinstance(c, tuple) and any(own_test(x, oid) for x in c[1:] if isinstance(x, tuple))


class _Inf:
    """factorial of a negative integer: only its reciprocal (0) is meaningful"""

    def __pow__(self, n):
        if n < 0:
            return Fraction(0)
        if n == 0:
            return Fraction(1)
        raise Undef('factorial of a negative number')

    def __eq__(self, o):
        return False


INF = _Inf()


def kadd(x, y):
    return x + y


def norm_t0(fs):
    d = {}
    for n1, n2, i in fs:
        if i == 0:
            continue
        d[(n1, n2)] = d.get((n1, n2), 0) + i
    return tuple(sorted((a, b, i) for (a, b), i in d.items() if i != 0))


class Poly:
    __slots__ = ('kf', 'd', '_h')

    def __init__(self, kf, d):
        self.kf = tuple(kf) if kf is not None else None
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kf, frozenset(self.d.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.kf == o.kf and self.d == o.d

    def __repr__(self):
        return 'Poly%r' % (dict(list(self.d.items())[:6]),)


def denote(p):
    """fold denominator components into the coefficient (fixed generic k1, k2)"""
    if not isinstance(p, Poly):
        return p
    idx = [i for i, n in enumerate(p.kf or ()) if kind_of(n) in ('t0', 'tri')]
    d = {}
    for k, v in p.d.items():
        k2 = list(k)
        for i in idx:
            fs = k[i] if kind_of(p.kf[i]) == 't0' else (k[i],)
            for n1, n2, e in fs:
                if e == 0:
                    continue
                den = n1 * K1 + n2 * K2
                if den == 0:
                    raise Undef('zero denominator')
                v = v / den ** e
            k2[i] = None
        k2 = tuple(k2)
        d[k2] = d.get(k2, 0) + v
    return Poly(p.kf, {k: v for k, v in d.items() if v != 0})


def same(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        a, b = denote(a), denote(b)
        if a.kf != b.kf:
            return False, 'components %r instead of %r' % (a.kf, b.kf)
        for k in set(a.d) | set(b.d):
            x, y = a.d.get(k, 0), b.d.get(k, 0)
            if not close(x, y):
                return False, 'coefficient of %r is %s, expected %s' % (k, x, y)
        return True, ''
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False, '%d values instead of %d' % (len(a), len(b))
        for x, y in zip(a, b):
            r = same(x, y)
            if not r[0]:
                return r
        return True, ''
    if isinstance(a, (Fraction, float, int)) and isinstance(b, (Fraction, float, int)):
        return close(a, b), '%s instead of %s' % (a, b)
    return a == b, '%r instead of %r' % (a, b)


def minus(a, b):
    a, b = denote(a), denote(b)
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = d.get(k, 0) - v
    return Poly(a.kf, {k: v for k, v in d.items() if v != 0})


def key_text(x):
    if isinstance(x, Poly):
        return repr(sorted((key_text(k), str(v)) for k, v in x.d.items()))
    if isinstance(x, tuple):
        return '(%s)' % ','.join(key_text(y) for y in x)
    return str(x)


def close(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x)), abs(float(y)))
    return x == y


def mentions(c, names):
    if isinstance(c, E):
        for m in c.t:
            for b, x in m:
                if mentions(b, names) or mentions(x, names):
                    return True
        return False
    if isinstance(c, PV):
        return any(mentions((e.bs, e.pc, e.key, e.co), names) for e in c.ems)
    if isinstance(c, T0V):
        return any(mentions(f, names) for f in c.fs)
    if isinstance(c, Opq):
        return c.path[1] in names
    if isinstance(c, (tuple, list, frozenset)):
        return any(mentions(x, names) for x in c)
    if isinstance(c, str):
        return c in names
    return False


def hashed(*x):
    """value of an uninterpreted function"""
    import hashlib

    def r(v):
        if isinstance(v, tuple):
            return '(' + ','.join(r(y) for y in v) + ')'
        if isinstance(v, float):
            return '%.7g' % v
        if isinstance(v, Fraction):
            return '%.7g' % float(v) if v.denominator != 1 else str(v.numerator)
        return str(v)
    n = int(hashlib.sha256(r(x).encode()).hexdigest()[:8], 16)
    return 0.2 + n / 2 ** 32
