"""Abstract values, heap objects, conditions and poly-term summaries."""
from fractions import Fraction
from .expr import (E, Unsupported, ZERO, ONE, const, lift, var, atom, subst, sub_vars,
                   atoms_of, linear_in, show, power)

# ------------------------------------------------------------------ conditions


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    t = c[0]
    if t == 'ge':
        return c_ge(-c[1] - 1)
    if t == 'gt':
        return ('gte', -c[1])
    if t == 'gte':
        return ('gt', -c[1])
    if t == 'eq':
        return ('ne', c[1])
    if t == 'ne':
        return ('eq', c[1])
    if t == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    if t == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    if t == 'not':
        return c[1]
    return ('not', c)


def _prim(x):
    """scale to coprime integer coefficients (positive factor)"""
    from math import gcd
    if x.is_zero():
        return x
    den = 1
    for c in x.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in x.t.values():
        g = gcd(g, int(c * den))
    return x * Fraction(den, g) if g else x


def c_ge(x):
    """integer x >= 0"""
    if x.is_const():
        return x.const() >= 0
    from math import gcd, floor
    cs = x.const()
    rest = x - const(cs)
    den = 1
    for c in rest.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in rest.t.values():
        g = gcd(g, int(c * den))
    s = Fraction(den, g)
    return ('ge', rest * s + const(floor(cs * s)))


def c_eq(x):
    if x.is_const():
        return x.const() == 0
    x = _prim(x)
    items = sorted(x.t.items(), key=lambda it: repr(it[0] and it[0]) if False else str(it[0]))
    if items[0][1] < 0:
        x = -x
    return ('eq', x)


def c_ne(x):
    return c_not(c_eq(x))


def c_gt(x):
    if x.is_const():
        return x.const() > 0
    return ('gt', x)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            for d in c[1]:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == 'or':
            for d in c[1]:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def c_subst(c, f):
    if c is True or c is False:
        return c
    t = c[0]
    if t == 'ge':
        return c_ge(subst(c[1], f))
    if t == 'eq':
        return c_eq(subst(c[1], f))
    if t == 'ne':
        return c_ne(subst(c[1], f))
    if t == 'gt':
        return c_gt(subst(c[1], f))
    if t == 'gte':
        x = subst(c[1], f)
        return x.const() >= 0 if x.is_const() else ('gte', x)
    if t == 'and':
        return c_and(*[c_subst(x, f) for x in c[1]])
    if t == 'or':
        return c_or(*[c_subst(x, f) for x in c[1]])
    if t == 'not':
        return c_not(c_subst(c[1], f))
    return (t,) + tuple(v_subst(x, f) for x in c[1:])


def v_subst(x, f):
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, tuple) and x and x[0] in COND_TAGS:
        return c_subst(x, f)
    if isinstance(x, tuple):
        return tuple(v_subst(y, f) for y in x)
    return subst(x, f)


COND_TAGS = ('ge', 'gt', 'gte', 'eq', 'ne', 'and', 'or', 'not', 'in', 'opq', 'empty')


def c_show(c):
    if c is True or c is False:
        return str(c)
    t = c[0]
    if t in ('ge', 'gte'):
        return show(c[1]) + ' >= 0'
    if t == 'gt':
        return show(c[1]) + ' > 0'
    if t == 'eq':
        return show(c[1]) + ' == 0'
    if t == 'ne':
        return show(c[1]) + ' != 0'
    if t in ('and', 'or'):
        return '(' + (' %s ' % t).join(c_show(x) for x in c[1]) + ')'
    if t == 'not':
        return 'not ' + c_show(c[1])
    return str(t) + '(...)'


# ------------------------------------------------------------------ values
class V:
    pass


class Num(V):
    __slots__ = ('e', 'ty')

    def __init__(self, e, ty='int'):
        self.e = e
        self.ty = ty

    def __repr__(self):
        return 'Num(%s:%s)' % (self.e, self.ty)

    def __eq__(self, o):
        return isinstance(o, Num) and self.e == o.e

    def __hash__(self):
        return hash(self.e)


class Const(V):
    """str, None, bool"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class Cond(V):
    """a symbolic boolean"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Cond) and self.c == o.c

    def __hash__(self):
        return hash(self.c)


class Tup(V):
    __slots__ = ('items', 'kf')

    def __init__(self, items, kf=None):
        self.items = tuple(items)
        self.kf = kf

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return 'Tup' + repr(self.items)


class NamedKey(V):
    def __init__(self, d):
        self.d = dict(d)

    def __eq__(self, o):
        return isinstance(o, NamedKey) and self.d == o.d

    def __hash__(self):
        return hash(tuple(sorted(self.d)))


class T0V(V):
    """product of (n1*k1+n2*k2)^{-i} factors.
    factors: sorted tuple of ('tri', n1, n2, i) / ('opq', atom-tuple) / ('carry', id)"""
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = tuple(sorted(fs, key=repr))

    def __eq__(self, o):
        return isinstance(o, T0V) and self.fs == o.fs

    def __hash__(self):
        return hash(self.fs)


class Opq(V):
    """an opaque structured key component: path = ('key', binder, name, ...)"""
    __slots__ = ('path', 'kind')

    def __init__(self, path, kind='seq'):
        self.path = path
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Opq) and self.path == o.path

    def __hash__(self):
        return hash(self.path)


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return 'Ref(%d)' % self.id


class Fn(V):
    def __init__(self, fq, node=None, mod=None, bound=None, closure=None):
        self.fq = fq
        self.node = node
        self.mod = mod
        self.bound = bound
        self.closure = closure

    def __eq__(self, o):
        return isinstance(o, Fn) and self.fq == o.fq and self.node is o.node and \
            self.closure is o.closure and type(self.bound) is type(o.bound) and self.bound == o.bound

    def __hash__(self):
        return hash(self.fq)

    def __repr__(self):
        return 'Fn(%s)' % self.fq


class ModV(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Rng(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Rng) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash((self.lo, self.hi))


class View(V):
    """poly/dict views, enumerate, zip, product, reversed"""

    def __init__(self, kind, src):
        self.kind = kind
        self.src = src


class SymSeq(V):
    """comprehension over a symbolic iterable: list of (binders, pc, value)"""

    def __init__(self, parts, kind='list'):
        self.parts = parts
        self.kind = kind


class Reals(Tup):
    """a list of reals, only its length matters to a derivation"""
    __slots__ = ()


class Par(V):
    """parameter dictionary: par['x'] -> Var x"""

    def __init__(self, special=None, jlen=None):
        self.special = special or {}
        self.jlen = jlen


class Poison(V):
    def __init__(self, why):
        self.why = why


class Ch(V):
    """guarded choice [(cond, value)], conditions exclusive and exhaustive"""

    def __init__(self, alts):
        self.alts = alts

    def __eq__(self, o):
        return isinstance(o, Ch) and self.alts == o.alts

    def __hash__(self):
        return hash(tuple(self.alts))


# ------------------------------------------------------------------ summaries
class Em:
    """One log item of a poly: for all binders, if pc holds, op(key, coef)."""
    __slots__ = ('op', 'bs', 'pc', 'key', 'co', 'ty', 'line', 'px')

    def __init__(self, op, bs, pc, key, co, ty='frac', line=None, px=None):
        self.op = op        # 'add' 'set' 'del' 'dropzero'
        self.bs = tuple(bs)
        self.pc = tuple(pc)
        self.key = key      # tuple of canonical components
        self.co = co
        self.ty = ty
        self.line = line
        self.px = px        # set when the item is exactly "all terms of px"

    def subst(self, f):
        return Em(self.op, [b_subst(b, f) for b in self.bs],
                  [c_subst(c, f) for c in self.pc], k_subst(self.key, f),
                  None if self.co is None else subst(self.co, f), self.ty, self.line,
                  None if self.px is None else v_subst(self.px, f))

    def tup(self):
        return (self.op, self.bs, self.pc, self.key, self.co)

    def __eq__(self, o):
        return isinstance(o, Em) and self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def atoms(self, out):
        for b in self.bs:
            atoms_of(b, out)
        for c in self.pc:
            atoms_of(c, out)
        atoms_of(self.key, out)
        if self.co is not None:
            atoms_of(self.co, out)

    def show(self):
        s = '%s %s : %s' % (self.op, show_key(self.key), show(self.co) if self.co is not None else '')
        for b in self.bs:
            s += '  for ' + b_show(b)
        if self.pc:
            s += '  if ' + ' and '.join(c_show(c) for c in self.pc)
        return s


def show_key(k):
    if isinstance(k, tuple):
        return '(' + ', '.join(show_key(x) for x in k) + ')'
    if isinstance(k, T0V):
        return 'T0[' + ' '.join(show_key(x) for x in k.fs) + ']'
    return show(k) if isinstance(k, E) else str(k)


def norm_seq(k):
    """repetitions of a known number of items are written out, adjacent repetitions of one item joined"""
    if not any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'rep' for x in k):
        return k
    out = []
    for x in k:
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'rep':
            if x[2].is_int():
                out.extend([x[1]] * max(0, int(x[2].const())))
            elif out and isinstance(out[-1], tuple) and len(out[-1]) == 3 and out[-1][0] == 'rep' and out[-1][1] == x[1]:
                out[-1] = ('rep', x[1], out[-1][2] + x[2])
            else:
                out.append(x)
        else:
            out.append(x)
    return tuple(out)


def k_subst(k, f):
    if isinstance(k, tuple):
        return norm_seq(tuple(k_subst(x, f) for x in k))
    if isinstance(k, T0V):
        return T0V([tuple(v_subst(y, f) for y in x) for x in k.fs])
    if isinstance(k, (str, int, bool)) or k is None:
        return k
    if isinstance(k, Opq):
        return k
    return subst(k, f)


# binders: ('rng', var, lo, hi)   ('pt', b, px, shape)   ('t0', b, path)
def b_subst(b, f):
    if b[0] == 'rng':
        return ('rng', b[1], subst(b[2], f), subst(b[3], f))
    if b[0] == 'pt':
        return ('pt', b[1], v_subst(b[2], f), b[3])
    return b[:2] + tuple(v_subst(x, f) for x in b[2:])


def b_show(b):
    if b[0] == 'rng':
        return '%s in %s..%s' % (b[1].split('#')[0], show(b[2]), show(b[3]))
    if b[0] == 'pt':
        return '%s in terms(%s)' % (str(b[1]), show_px(b[2]))
    return str(b[0])


def show_px(p):
    if isinstance(p, tuple):
        if p[0] == 'app':
            return p[1].split('.')[-1] + '(' + ', '.join(show_px(x) for x in p[2]) + ')'
        if p[0] == 'param':
            return p[1]
        if p[0] == 'table':
            return 'T'
        return '(' + ', '.join(show_px(x) for x in p) + ')'
    if isinstance(p, E):
        return show(p)
    if isinstance(p, PV):
        return '{poly of %d items}' % len(p.ems)
    return str(p)


class PV:
    """a frozen poly value: keyfor and log"""
    __slots__ = ('kf', 'ems', '_h', 'ordered', 'oid', 'objs', 'base')

    def __init__(self, kf, ems):
        self.kf = kf
        self.ems = tuple(ems)
        self._h = None

    def subst(self, f):
        return PV(self.kf, [e.subst(f) for e in self.ems])

    def atoms(self, out):
        for e in self.ems:
            e.atoms(out)

    def canon(self):
        from .normal import canon_ems
        return (self.kf, canon_ems(self.ems))

    def __eq__(self, o):
        return isinstance(o, PV) and (self is o or self.canon() == o.canon())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.canon())
        return self._h

    def __repr__(self):
        return 'PV' + repr(hash(self))


class PolyObj:
    kind = 'poly'

    def __init__(self, kf, log=None, origin='fresh'):
        self.kf = kf
        self.log = list(log or [])
        self.origin = origin
        self.prov = None

    def clone(self):
        o = PolyObj(self.kf, self.log, self.origin)
        o.prov = self.prov
        return o


class ListObj:
    kind = 'list'

    def __init__(self, items=None, origin='fresh'):
        self.items = list(items or [])      # concrete prefix
        self.segs = []                      # symbolic appends: (binders, pc, value)
        self.memo = None
        self.length = None                  # E when symbolic segments exist
        self.origin = origin
        self.t0 = None                      # a copy of a denominator tuple: the product it denotes
        self.isset = False                  # a set whose elements may coincide

    def clone(self):
        o = ListObj(self.items, self.origin)
        o.isset = self.isset
        o.t0 = self.t0
        o.segs = list(self.segs)
        o.memo = self.memo
        o.length = self.length
        return o


class DictObj:
    kind = 'dict'

    def __init__(self, origin='fresh'):
        self.conc = {}           # canonical key -> (keyvalue, value)
        self.stores = []         # (binders, pc, keyvalue, value, line)
        self.sym = False         # symbolic stores exist / are going on
        self.memo = None
        self.tlen = None         # exact number of entries of a specified table
        self.extra = ()          # further arguments of the specified function whose values the table holds
        self.origin = origin

    def clone(self):
        o = DictObj(self.origin)
        o.tlen = self.tlen
        o.extra = self.extra
        o.conc = dict(self.conc)
        o.stores = list(self.stores)
        o.sym = self.sym
        o.memo = self.memo
        return o


# ---------------------------------------------------------------- renaming helpers
def flatcomp(k):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'rep':
            return [k]
        out = []
        for x in k:
            out.extend(flatcomp(x))
        return out
    return [k]


BND_ATOMS = ('coef', 'key', 't0e', 't0i')


def ren_f(mv, mb):
    """substitution function renaming range variables (mv) and term binders (mb)"""
    def f(a):
        if a[0] == 'v':
            return mv.get(a[1])
        if a[0] in BND_ATOMS and a[1] in mb:
            return atom((a[0], mb[a[1]]) + tuple(subst(x, f) if isinstance(x, E) else x for x in a[2:]))
        if a[0] in ('sumx', 'prodx') and mb and any(b[0] in ('t0', 'pt') for b in a[1]):
            return atom((a[0], tuple(ren_b(b, f, mb) for b in a[1]), tuple(sorted((c_subst(c, f) for c in a[2]), key=repr)),
                         subst(a[3], f), a[4]))
        return None
    return f


def ren_path(p, mb):
    if isinstance(p, tuple) and len(p) > 1 and p[0] in ('path', 'key') and p[1] in mb:
        return (p[0], mb[p[1]]) + p[2:]
    return p


def k_subst_b(k, f, mb):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'id':
            return ('id', mb.get(k[1], k[1]))
        return norm_seq(tuple(k_subst_b(x, f, mb) for x in k))
    if isinstance(k, T0V):
        out = []
        for x in k.fs:
            if x[0] == 'path':
                out.append(ren_path(x, mb))
            else:
                out.append(tuple(v_subst(y, f) for y in x))
        return T0V(out)
    if isinstance(k, Opq):
        return Opq(ren_path(k.path, mb), k.kind)
    if isinstance(k, (str, int, bool)) or k is None:
        return k
    return subst(k, f)


def px_subst(p, f, mb):
    if isinstance(p, PV):
        return PV(p.kf, [ren_em(e, f, mb) for e in p.ems])
    if isinstance(p, tuple):
        if p and p[0] in ('path', 'key') and len(p) > 1 and p[1] in mb:
            return ren_path(p, mb)
        return tuple(px_subst(x, f, mb) for x in p)
    if isinstance(p, (str, int, bool)) or p is None:
        return p
    if isinstance(p, (T0V, Opq)):
        return k_subst_b(p, f, mb)
    return subst(p, f)


def ren_b(b, f, mb):
    n = mb.get(b[1], b[1])
    if b[0] == 'rng':
        return ('rng', n, subst(b[2], f), subst(b[3], f)) + b[4:]
    if b[0] == 'pt':
        return ('pt', n, px_subst(b[2], f, mb)) + b[3:]
    if b[0] == 't0':
        return ('t0', n, ren_path(b[2], mb))
    if b[0] == 'tk':
        return ('tk', n) + b[2:]
    if b[0] == 'rngv':
        return ('rngv', n)
    return b


def ren_em(e, f, mb):
    return Em(e.op, [ren_b(b, f, mb) for b in e.bs], [c_subst(c, f) for c in e.pc], k_subst_b(e.key, f, mb),
              None if e.co is None else subst(e.co, f), e.ty, e.line,
              None if e.px is None else px_subst(e.px, f, mb))


def rename(em, mv, mb):
    return ren_em(em, ren_f(mv, mb), mb)


def em_pxs(e):
    return [b[2] for b in e.bs if b[0] == 'pt']


def mentions_px(e, px):
    def walk(p):
        if p == px:
            return True
        if isinstance(p, PV):
            return any(mentions_px(x, px) for x in p.ems)
        if isinstance(p, tuple):
            return any(walk(x) for x in p)
        return False
    return any(walk(p) for p in em_pxs(e))


def mentions_carry(e):
    def walk(p):
        if isinstance(p, PV):
            return any(mentions_carry(x) for x in p.ems)
        if isinstance(p, tuple):
            return (len(p) == 2 and p[0] == 'carry') or any(walk(x) for x in p)
        return False
    if any(walk(p) for p in em_pxs(e)):
        return True
    return any(isinstance(x, T0V) and any(f[0] == 'carry' for f in x.fs) for x in flatcomp(e.key))


def is_carry(pv, cid):
    return len(pv.ems) == 1 and pv.ems[0].px == ('carry', cid)


def pv_vars(pv):
    out = set()
    pv.atoms(out)
    return {a[1] for a in out if a[0] == 'v'}


def has_poison(v):
    if isinstance(v, Poison):
        return True
    if isinstance(v, Tup):
        return any(has_poison(x) for x in v.items)
    return False


def nonneg_count(F, cnt):
    return F.is_ge(cnt)


# ---------------------------------------------------------------- sums and products
def _depth(e):
    d = 0
    for a in atoms_of(e):
        if a[0] in ('sumx', 'prodx'):
            d = max(d, 1 + a[4])
    return d


def _bind(kind, binders, pcs, e):
    """binder atom with canonical bound names"""
    pcs = [c for c in pcs if c is not True]
    d = _depth(e)
    for b in binders:
        for x in b[2:]:
            if isinstance(x, E):
                d = max(d, _depth(x))
    mv, mb, nbs = {}, {}, []
    for i, b in enumerate(binders):
        nn = '@%s%d.%d' % ('v' if b[0] == 'rng' else 'b', d, i)
        f = ren_f(mv, mb)
        nb = ren_b(b, f, mb)
        mb[b[1]] = nn
        if b[0] == 'rng':
            mv[b[1]] = var(nn)
        nbs.append((nb[0], nn) + tuple(nb[2:4] if b[0] == 'rng' else nb[2:]))
    f = ren_f(mv, mb)
    return atom((kind, tuple(nbs), tuple(sorted((c_subst(c, f) for c in pcs), key=repr)), subst(e, f), d))


def sumx(binders, pcs, e):
    if e.is_zero():
        return ZERO
    # constant summand over one range: count * e
    if len(binders) == 1 and binders[0][0] == 'rng' and not [c for c in pcs if c is not True] and \
            binders[0][1] not in {a[1] for a in atoms_of(e) if a[0] == 'v'}:
        pass
    return _bind('sumx', binders, pcs, e)


def prodx(binders, pcs, e, F=None):
    from .expr import fact, ifact, vars_of
    if len(binders) == 1 and binders[0][0] == 'rng' and not [c for c in pcs if c is not True]:
        b = binders[0]
        if e == var(b[1]) and F is not None and F.is_ge(b[2] - 1) and F.is_ge(b[3] - b[2] + 1):
            return fact(b[3]) / fact(b[2] - 1)
        if b[1] not in vars_of(e) and F is not None and F.is_ge(b[3] - b[2] + 1):
            return power(e, b[3] - b[2] + 1)
    return _bind('prodx', binders, pcs, e)
