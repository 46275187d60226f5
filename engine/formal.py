"""Formal random expressions: Laurent polynomials with rational exponents over atoms (parameters, exp, roots, truncations,
draws), in a normal form; equality up to renaming of the draws."""
import hashlib
import math
from fractions import Fraction


class Bad(Exception):
    """no value: division by zero, root of a negative number"""


class Algebra:
    def __init__(self):
        self.atoms = []             # id -> key
        self.ids = {}
        self.pos = {}               # id -> known to be >= 0
        self.witness = {}           # id -> sample value (orders times)

    def atom(self, key, pos=False):
        i = self.ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.ids[key] = i
            self.atoms.append(key)
            self.pos[i] = pos
        return i

    def sym(self, name, pos=False, witness=None):
        i = self.atom(('sym', name), pos)
        if witness is not None:
            self.witness[i] = Fraction(witness)
        return self.of(i)

    def of(self, i, e=1):
        return R(self, {((i, Fraction(e)),): Fraction(1)})

    def const(self, c):
        c = Fraction(c)
        return R(self, {(): c} if c else {})

    # ------------------------------------------------------------ functions
    def exp(self, x):
        out = self.const(1)
        for m, c in x.t.items():
            out = out * self.of(self.atom(('exp', R(self, {m: Fraction(1)}).key()), True), c)
        return out

    def max0(self, x):
        s = x.sign()
        if s is not None:
            return x if s >= 0 else self.const(0)
        return self.of(self.atom(('max0', x.key()), True))

    def fn(self, name, *xs):
        return self.of(self.atom(('fn', name) + tuple(x.key() for x in xs), name in ('abs',)))

    def ite(self, c, a, b):
        """a if c < 0 else b (c: R)"""
        if a.t == b.t:
            return a
        if b.t == c.t and not a.t:
            return self.max0(c)
        if (-a).t == c.t and not b.t:
            return self.max0(a)
        return self.of(self.atom(('ite', c.key(), a.key(), b.key()), False))

    def power(self, x, q):
        """x ** q, q a rational"""
        q = Fraction(q)
        if q.denominator == 1 and q >= 0:
            out = self.const(1)
            for _ in range(int(q)):
                out = out * x
            return out
        if not x.t:
            if q > 0:
                return self.const(0)
            raise Bad('a power %s of zero' % q)
        rest, fac = x.split()
        if q.denominator == 1 and len(rest.t) > 1 and min(rest.t.items())[1] < 0:
            rest, fac = -rest, -fac
        # x = fac (a monomial with positive rational coefficient or any sign for whole exponents) * rest
        out = self.const(1)
        (m, c), = fac.t.items()
        if c < 0 and q.denominator != 1:
            raise Bad('a root of a negative number')
        out = out * self.cpow(c, q)
        left = {}
        for i, e in m:
            if self.pos[i] or q.denominator == 1:
                out = out * self.of(i, e * q)
            else:
                left[i] = e
        if left:
            rest = rest * R(self, {tuple(sorted(left.items())): Fraction(1)})
        if rest.t != {(): Fraction(1)}:
            if rest.const() is not None and rest.const() < 0:
                raise Bad('a root of a negative number')
            out = out * self.of(self.atom(('poly', rest.key()), q.denominator != 1), q).norm()
        return out

    def cpow(self, c, q):
        if q.denominator == 1:
            return self.const(Fraction(c) ** int(q))
        out = self.const(1)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            while n > 1:
                if p * p > n:
                    p = n
                k = 0
                while n % p == 0:
                    n //= p
                    k += 1
                if k:
                    e = q * k * s
                    w = math.floor(e)
                    out = out * self.const(Fraction(p) ** w)
                    if e != w:
                        out = out * self.of(self.atom(('prime', p), True), e - w)
                p += 1
        return out

    def back(self, key):
        return R(self, dict(key))


class R:
    __slots__ = ('a', 't')

    def __init__(self, a, t):
        self.a, self.t = a, t

    def key(self):
        return tuple(sorted(self.t.items()))

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return R(self.a, t)

    def __neg__(self):
        return R(self.a, {m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        again = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for i, e in m2:
                    v = d.get(i, 0) + e
                    if v:
                        d[i] = v
                    else:
                        d.pop(i, None)
                m = tuple(sorted(d.items()))
                for i, e in m:
                    k = self.a.atoms[i][0]
                    if (k == 'poly' and e >= 1) or (k == 'prime' and not 0 < e < 1):
                        again = True
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        r = R(self.a, t)
        return r.norm() if again else r

    def norm(self):
        """roots raised to whole powers are opened"""
        out = R(self.a, {})
        for m, c in self.t.items():
            x = R(self.a, {(): c})
            keep = []
            for i, e in m:
                k = self.a.atoms[i]
                w = math.floor(e)
                if k[0] == 'poly' and e >= 1:
                    x = x * self.a.power(self.a.back(k[1]), w)
                    if e != w:
                        keep.append((i, e - w))
                elif k[0] == 'prime' and not 0 < e < 1:
                    x = x * self.a.const(Fraction(k[1]) ** w)
                    if e != w:
                        keep.append((i, e - w))
                else:
                    keep.append((i, e))
            out = out + x * R(self.a, {tuple(keep): Fraction(1)}) if keep else out + x
        return out

    def split(self):
        """(rest, monomial): the common monomial of atoms and the content"""
        ms = list(self.t)
        if len(ms) == 1:
            m = ms[0]
            return R(self.a, {(): Fraction(1)}), R(self.a, {m: self.t[m]})
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            com = {i: min(e, d.get(i, 0)) for i, e in com.items() if d.get(i, 0) * e > 0}
        nums = [abs(c) for c in self.t.values()]
        g = nums[0]
        for c in nums[1:]:
            g = Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
        com = {i: e for i, e in com.items() if e and self.a.pos[i]}
        inv = R(self.a, {tuple(sorted((i, -e) for i, e in com.items())): 1 / g})
        return self * inv, R(self.a, {tuple(sorted(com.items())): g})

    def sign(self):
        """1, 0, -1 if known"""
        if not self.t:
            return 0
        ss = set()
        for m, c in self.t.items():
            for i, e in m:
                if not self.a.pos[i] and not (e.denominator == 1 and e % 2 == 0):
                    return None
            ss.add(c > 0)
        if len(ss) == 1:
            return 1 if ss.pop() else -1
        return None

    def times(self):
        """the sample value, for expressions in times alone"""
        v = Fraction(0)
        for m, c in self.t.items():
            x = c
            for i, e in m:
                if i not in self.a.witness or e.denominator != 1:
                    return None
                x *= self.a.witness[i] ** int(e)
            v += x
        return v

    def draws(self, seen=None):
        seen = {} if seen is None else seen
        for m in self.t:
            for i, _ in m:
                if i in seen:
                    continue
                k = self.a.atoms[i]
                seen[i] = k[0] in ('Z', 'X')
                for x in k[1:]:
                    if isinstance(x, tuple):
                        self.a.back(x).draws(seen)
        return [i for i, d in seen.items() if d]

    def show(self, depth=3):
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: str(x)):
            fs = []
            for i, e in m:
                k = self.a.atoms[i]
                if k[0] == 'sym':
                    s = k[1]
                elif k[0] == 'prime':
                    s = str(k[1])
                elif k[0] in ('Z', 'X'):
                    s = k[0] + str(k[1])
                elif depth <= 0:
                    s = '..'
                else:
                    s = '%s(%s)' % (k[0] if k[0] != 'fn' else k[1], ', '.join(self.a.back(x).show(depth - 1) for x in k[1:] if isinstance(x, tuple)))
                fs.append(s if e == 1 else s + '^(%s)' % e if e.denominator > 1 or e < 0 else s + '^%s' % e)
            cs = '' if c == 1 and fs else '-' if c == -1 and fs else str(c)
            out.append(cs + ('*' if cs not in ('', '-') and fs else '') + '*'.join(fs))
        return ' + '.join(out) if out else '0'


def hsh(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:20]


class Hasher:
    """the shape of expressions, draws known by their colour only"""

    def __init__(self, a, colour):
        self.a, self.colour, self.memo = a, colour, {}

    def atom(self, i):
        h = self.memo.get(i)
        if h is None:
            k = self.a.atoms[i]
            if k[0] == 'Z':
                h = hsh(('Z', self.colour.get(i)))
            elif k[0] == 'X':
                h = hsh(('X', self.colour.get(i), k[2]) + tuple(self.key(x) for x in k[3:]))
            else:
                h = hsh(tuple(self.key(x) if isinstance(x, tuple) else x for x in k))
            self.memo[i] = h
        return h

    def key(self, t):
        return hsh(sorted((tuple(sorted((self.atom(i), str(e)) for i, e in m)), str(c)) for m, c in t))


def shape(a, outs):
    """the expressions up to renaming of the draws; (hash per expression)"""
    ds = set()
    for x in outs:
        ds.update(x.draws())
    col = {d: a.atoms[d][0] for d in ds}
    n = 0
    for _ in range(len(ds) + 1):
        new = {}
        for d in ds:
            c = dict(col)
            c[d] = ('*', col[d])
            h = Hasher(a, c)
            new[d] = hsh((col[d], [h.key(x.t.items()) for x in outs]))
        k = len(set(new.values()))
        col = new
        if k == n or k == len(ds):
            break
        n = k
    h = Hasher(a, col)
    return [h.key(x.t.items()) for x in outs], col


def value(a, x, env, memo):
    """a floating-point value: decides only what the normal form left open"""
    s = 0.0
    for m, c in x.t.items():
        p = float(c)
        for i, e in m:
            v = memo.get(i)
            if v is None:
                k = a.atoms[i]
                if k[0] == 'prime':
                    v = float(k[1])
                elif k[0] in ('sym', 'Z', 'X'):
                    v = env(i, k)
                elif k[0] == 'exp':
                    v = math.exp(value(a, a.back(k[1]), env, memo))
                elif k[0] == 'poly':
                    v = value(a, a.back(k[1]), env, memo)
                elif k[0] == 'max0':
                    v = max(0.0, value(a, a.back(k[1]), env, memo))
                elif k[0] == 'ite':
                    v = value(a, a.back(k[2] if value(a, a.back(k[1]), env, memo) < 0 else k[3]), env, memo)
                elif k[0] == 'fn' and k[1] == 'abs':
                    v = abs(value(a, a.back(k[2]), env, memo))
                elif k[0] == 'fn' and k[1] == 'log':
                    v = math.log(value(a, a.back(k[2]), env, memo))
                else:
                    raise Bad('no value of %s' % (k[:2],))
                memo[i] = v
            if -1e-12 < v < 0 and e.denominator != 1:
                v = 0.0
            if v == 0 and e < 0:
                raise Bad('division by zero')
            if v < 0 and e.denominator != 1:
                raise Bad('root of a negative number')
            p *= v ** (float(e) if e.denominator != 1 else int(e))
        s += p
    return s


def same_value(a, xs, cx, ys, cy, rnd):
    """both families agree at sample points, draws of equal role having equal values; None: no point could be evaluated"""
    import random
    done = 0
    for n in range(12):

        def make(col):
            def env(i, k):
                if k[0] == 'sym':
                    if i in a.witness:
                        return float(a.witness[i])
                    r = random.Random('%s %s %s' % (rnd, n, k[1]))
                    return r.uniform(0.1, 0.9)
                r = random.Random('%s %s %s' % (rnd, n, col[i]))
                return r.gauss(0, 1) if k[0] == 'Z' else r.uniform(0.1, 2)
            return env
        try:
            mx, my = {}, {}
            vx = [value(a, x, make(cx), mx) for x in xs]
        except (Bad, OverflowError, ValueError):
            continue
        try:
            vy = [value(a, y, make(cy), my) for y in ys]
        except (Bad, ValueError):
            return False
        except OverflowError:
            continue
        done += 1
        if any(abs(u - v) > 1e-8 * (1 + abs(u) + abs(v)) for u, v in zip(vx, vy)):
            return False
    return True if done else None
