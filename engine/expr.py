"""Canonical symbolic arithmetic: generalised Laurent polynomials with symbolic exponents.

An E is an immutable sum of terms  q * prod(base_i ** exp_i),  q a Fraction, base an
atom (a hashable tuple), exp an E.  Two expressions that are equal as formal
expressions have the same normal form, whatever order they were written in.
"""
from fractions import Fraction
from math import factorial


class Unsupported(Exception):
    """The analysed code uses a construct the abstract domain cannot represent."""


class Absent(Unsupported):
    """A table is read at a key that no store could have made."""
    line = None


class E:
    __slots__ = ('t', '_h', '_k')

    def __init__(self, terms):
        # terms: dict {monomial(tuple of (base, E) sorted): Fraction}
        self.t = terms
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((mkey(m), c) for m, c in self.t.items())))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, E) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    # --- predicates
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def is_mono(self):
        return len(self.t) == 1

    def is_int(self):
        return self.is_const() and self.const().denominator == 1

    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return E(d)
    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, c = mono_mul(m1, m2)
                c = c * c1 * c2
                s = d.get(m, 0) + c
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
        return E(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(lift(o), const(-1))

    def __repr__(self):
        return show(self)


def mkey(m):
    return tuple((atom_key(b), e.key()) for b, e in m)


def atom_key(a):
    # a total order on atoms: recursive, type-tagged
    if isinstance(a, E):
        return ('E', repr(a.key()))
    if isinstance(a, tuple):
        return ('T', tuple(atom_key(x) for x in a))
    return (type(a).__name__, str(a))


_ck = {}


def akey(a):
    try:
        return _ck[a]
    except KeyError:
        k = repr(atom_key(a))
        if len(_ck) < 200000:
            _ck[a] = k
        return k


ZERO = E({})
ONE = E({(): Fraction(1)})
_consts = {}


def const(c):
    if c == 0:
        return ZERO
    if c == 1:
        return ONE
    c = Fraction(c)
    r = _consts.get(c)
    if r is None:
        r = _consts[c] = E({(): c})
    return r


def lift(x):
    if isinstance(x, E):
        return x
    return const(x)


def atom(a):
    return E({((a, ONE),): Fraction(1)})


def var(name):
    return atom(('v', name))


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    co = Fraction(1)
    for b, e in m2:
        if b in d:
            e2 = d[b] + e
            if e2.is_zero():
                del d[b]
                continue
            d[b], c = norm_exp(b, e2)
            co *= c
            if d[b].is_zero():
                del d[b]
        else:
            d[b] = e
    return tuple(sorted(d.items(), key=lambda it: akey(it[0]))), co


def norm_exp(b, e):
    """Normal form of base**e: returns (E exponent, Fraction coefficient)."""
    if b[0] == 'c':
        n = b[1]
        if n == -1:
            d, co = {}, Fraction(1)
            for m, c in e.t.items():
                if c.denominator != 1:
                    return e, Fraction(1)
            for m, c in e.t.items():
                c = c % 2
                if c:
                    if m == ():
                        co = -co
                    else:
                        d[m] = Fraction(1)
            return E(d), co
        c = e.const()
        if c and c.denominator == 1:
            return e - const(c), Fraction(n) ** int(c)
    return e, Fraction(1)


def factorint(n):
    f, p = {}, 2
    while n > 1:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    return f


def _single(b, e):
    """base**e as an E."""
    e, c = norm_exp(b, e)
    if e.is_zero():
        return const(c)
    return E({((b, e),): c})


def power(x, e):
    x, e = lift(x), lift(e)
    if e.is_zero():
        return ONE
    if e.is_int() and x.is_const():
        n = int(e.const())
        c = x.const()
        if c == 0:
            if n > 0:
                return ZERO
            raise Unsupported('0 to a negative power')
        return const(c ** n)
    if x.is_zero():
        return atom(('zp', e))          # 0**e with symbolic e
    if x.is_mono():
        (m, c), = x.t.items()
        r = ONE
        if c != 1:
            if e.is_int():
                r = const(c ** int(e.const()))
            else:
                if c < 0:
                    r = r * _single(('c', -1), e)
                    c = -c
                for p, a in factorint(c.numerator).items():
                    r = r * _single(('c', p), e * a)
                for p, a in factorint(c.denominator).items():
                    r = r * _single(('c', p), e * (-a))
        for b, be in m:
            r = r * _single(b, be * e)
        return r
    if e.is_int() and 0 < e.const() <= 4:
        r = x
        for _ in range(int(e.const()) - 1):
            r = r * x
        return r
    # normalise a sum base: leading coefficient positive one
    items = sorted(x.t.items(), key=lambda it: repr(mkey(it[0])))
    lead = items[0][1]
    nx = E({m: c / lead for m, c in x.t.items()})
    return power(const(lead), e) * _single(('sum', nx), e)


def fact(e):
    e = lift(e)
    if e.is_int():
        n = int(e.const())
        if n < 0:
            return atom(('fact', e))
        return const(factorial(n))
    return atom(('fact', e))


def ifact(e):
    """1/e!  (0 when e is a negative integer)."""
    e = lift(e)
    if e.is_int():
        n = int(e.const())
        return ZERO if n < 0 else const(Fraction(1, factorial(n)))
    return E({((('fact', e), const(-1)),): Fraction(1)})


def binom(n, k):
    n, k = lift(n), lift(k)
    if n.is_int() and n.const() < 0:
        raise Unsupported('comb of a negative number')
    if n.is_int() and k.is_int():
        from math import comb
        return const(comb(int(n.const()), int(k.const()))) if k.const() >= 0 else ZERO
    return fact(n) * ifact(k) * ifact(n - k)


def expo(x):
    return power_e(lift(x))


def power_e(x):
    if x.is_zero():
        return ONE
    return E({((('e',), x),): Fraction(1)})


# ---------------------------------------------------------------- substitution
def subst(x, f):
    """Rebuild x with f(atom) -> E or None (keep, after substituting inside)."""
    if isinstance(x, E):
        if x.is_const():
            return x
        r = ZERO
        for m, c in x.t.items():
            p = const(c)
            for b, e in m:
                p = p * _pow_atom(b, subst(e, f), f)
            r = r + p
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, f) for y in x)
    if hasattr(x, 'subst'):
        return x.subst(f)
    return x


def _pow_atom(b, e, f):
    r = f(b)
    if r is not None:
        return power(r, e)
    return rebuild(b, e, f)


def rebuild(b, e, f):
    t = b[0]
    if t == 'fact':
        n = subst(b[1], f)
        if n.is_int():
            v = int(n.const())
            if v >= 0:
                return power(const(factorial(v)), e)
            if e.is_const() and e.const() < 0:
                return ZERO
        return E({((('fact', n), e),): Fraction(1)}) if not e.is_zero() else ONE
    if t == 'sum':
        return power(subst(b[1], f), e)
    if t == 'zp':
        n = subst(b[1], f)
        return power(power(ZERO, n), e) if n.is_int() else power(atom(('zp', n)), e)
    if t in ('v', 'c', 'e'):
        return _single(b, e)
    nb = tuple(subst(y, f) if not isinstance(y, str) else y for y in b)
    if t == 'mod' and nb[1].is_const() and nb[2].is_const() and nb[2].const() != 0:
        return power(const(nb[1].const() % nb[2].const()), e)
    if t == 'floor' and nb[1].is_const():
        return power(const(nb[1].const().__floor__()), e)
    return _single(nb, e)


def sub_vars(x, mp):
    """mp: {var name: E}"""
    if not mp:
        return x
    return subst(x, lambda a: mp.get(a[1]) if a[0] == 'v' else None)


def atoms_of(x, out=None):
    if out is None:
        out = set()
    if isinstance(x, E):
        for m in x.t:
            for b, e in m:
                if b not in out:
                    out.add(b)
                    for y in b[1:]:
                        atoms_of(y, out)
                atoms_of(e, out)
    elif isinstance(x, tuple):
        if x and x[0] in ('v',):
            out.add(x)
        for y in x:
            if not isinstance(y, str):
                atoms_of(y, out)
    elif hasattr(x, 'atoms'):
        x.atoms(out)
    return out


def vars_of(x):
    return {a[1] for a in atoms_of(x) if a[0] == 'v'}


def linear_in(x, a):
    """Split x = p*a + q with a not in p,q; None if not linear in atom a."""
    p, q = {}, {}
    for m, c in x.t.items():
        hit = [e for b, e in m if b == a]
        rest = tuple((b, e) for b, e in m if b != a)
        if any(a in atoms_of(b) or a in atoms_of(e) for b, e in rest):
            return None
        if hit:
            if hit[0] != ONE:
                return None
            p[rest] = c
        else:
            q[m] = c
    return E(p), E(q)


# ---------------------------------------------------------------- printing
def show(x):
    if isinstance(x, E):
        if not x.t:
            return '0'
        parts = []
        for m, c in sorted(x.t.items(), key=lambda it: repr(mkey(it[0]))):
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for b, e in m:
                s = show_atom(b)
                if e != ONE:
                    es = show(e)
                    s += '^' + (es if e.is_int() and e.const() > 0 else '(' + es + ')')
                f.append(s)
            parts.append('*'.join(f))
        return ' + '.join(parts).replace('+ -', '- ')
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y) for y in x) + (',)' if len(x) == 1 else ')')
    return str(x)


def show_atom(b):
    t = b[0]
    if t == 'v':
        return b[1].split('#')[0]
    if t == 'fact':
        return '(' + show(b[1]) + ')!'
    if t == 'c':
        return '(' + str(b[1]) + ')'
    if t == 'e':
        return 'exp'
    if t == 'sum':
        return '(' + show(b[1]) + ')'
    if t == 'coef':
        return 'coef'
    if t == 'key':
        return 'k[' + ','.join(show(y) for y in b[2:]) + ']'
    if t == 'app':
        return str(b[1]).split('.')[-1] + '(' + ', '.join(show(y) for y in b[2]) + ')'
    return str(t) + '(' + ', '.join(show(y) for y in b[1:]) + ')'
