"""A small sound prover for linear facts over canonical expressions."""
from .expr import E, ZERO, ONE, const
from .values import c_not, c_ge, c_and


def lin_facts(pcs, binders=()):
    """list of E known to be >= 0, list of E known != 0, list of E known == 0"""
    ge, ne, eq = [], [], []

    def add(c):
        if c is True or c is False:
            return
        t = c[0]
        if t == 'ge':
            ge.append(c[1])
        elif t == 'eq':
            ge.append(c[1])
            ge.append(-c[1])
            eq.append(c[1])
        elif t == 'ne':
            ne.append(c[1])
        elif t == 'and':
            for x in c[1]:
                add(x)
    for c in pcs:
        add(c)
    for b in binders:
        if b[0] == 'rng':
            v = E({((('v', b[1]), ONE),): 1})
            ge.append(v - b[2])
            ge.append(b[3] - v)
    # x >= 0 and x != 0 give x >= 1 (integers)
    for _ in range(4):
        n = 0
        for x in list(ge):
            if (x in ne or -x in ne) and x - 1 not in ge:
                ge.append(x - 1)
                n += 1
        if not n:
            break
    return ge, ne, eq


def prove_ge(x, ge, depth=5):
    """sound, incomplete: x >= 0 follows from the facts"""
    if x.is_const():
        return x.const() >= 0
    if depth == 0:
        return False
    # nonneg by shape: a positive multiple of a fact plus a nonneg constant
    for m in sorted(x.t, key=lambda m: (-len(str(m)), str(m))):
        c = x.t[m]
        if m == ():
            continue
        for f in ge:
            fc = f.t.get(m)
            if fc and (fc > 0) == (c > 0):
                y = x - f * (c / fc)
                if len(y.t) <= len(x.t) + 2 and prove_ge(y, ge, depth - 1):
                    return True
    return False


def bounded_below(x, ge):
    """x >= 0 from lower bounds of its terms, one by one"""
    low = x.t.get((), 0)
    for m, c in x.t.items():
        if m == ():
            continue
        best = None
        for f in ge:
            a = f.t.get(m)
            if a and (a > 0) == (c > 0) and len(f.t) == (2 if () in f.t else 1):
                v = -f.t.get((), 0) * (c / a)
                best = v if best is None else max(best, v)
        if best is None:
            return False
        low += best
    return low >= 0


class Facts:
    def __init__(self, pcs, binders=()):
        self.pcs = list(pcs)
        self.ge, self.ne, self.eq = lin_facts(pcs, binders)
        self._m = {}
        self.gt = [c[1] for p in self.pcs for c in (p[1] if p not in (True, False) and p[0] == 'and' else [p])
                   if c not in (True, False) and c[0] == 'gt']

    def is_gt(self, x):
        """x > 0 over the reals"""
        return any(x == g or prove_ge(x - g, self.gt) for g in self.gt)

    def is_ge(self, x):
        r = self._m.get(x)
        if r is None:
            r = self._m[x] = prove_ge(x, self.ge) or self.by_terms(x)
        return r

    def by_terms(self, x):
        if len(x.t) > 1 and bounded_below(x, self.ge):
            return True
        for q in self.eq:
            for m, c in q.t.items():
                if m != () and m in x.t:
                    y = x - q * (x.t[m] / c)
                    if len(y.t) > 1 and bounded_below(y, self.ge):
                        return True
        return False

    def is_ne(self, x):
        if x.is_const():
            return x.const() != 0
        for f in self.ne:
            if f == x or f == -x:
                return True
        return self.is_ge(x - 1) or self.is_ge(-x - 1)

    def is_eq(self, x):
        if x.is_const():
            return x.const() == 0
        if x in self.eq or -x in self.eq:
            return True
        return self.is_ge(x) and self.is_ge(-x)

    def decide(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        if c in self.pcs:
            return True
        n = c_not(c)
        if n in self.pcs:
            return False
        t = c[0]
        if t == 'ge':
            if self.is_ge(c[1]):
                return True
            if self.is_ge(-c[1] - 1):
                return False
        elif t == 'gt':
            if self.gt and self.is_gt(c[1]):
                return True
            if self.gt and (self.is_gt(-c[1]) or prove_ge(-c[1], self.gt)):
                return False
        elif t == 'eq':
            if self.is_eq(c[1]):
                return True
            if self.is_ne(c[1]):
                return False
        elif t == 'ne':
            if self.is_ne(c[1]):
                return True
            if self.is_eq(c[1]):
                return False
        elif t == 'and':
            rs = [self.decide(x) for x in c[1]]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif t == 'or':
            rs = [self.decide(x) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def simplify(self, c):
        r = self.decide(c)
        if r is not None:
            return r
        if c[0] == 'and':
            return c_and(*[self.simplify(x) for x in c[1]])
        return c
