"""Abstract interpreter: turns a function body into a closed summary (emission log) for all
inputs.  Loops are summarised (one abstract execution of the body under a binder), never
iterated over concrete orders; nothing of the analysed package is imported or executed."""
import ast
import itertools
from fractions import Fraction
from .expr import (E, Unsupported, ZERO, ONE, const, lift, var, atom, power, fact, ifact, binom,
                   expo, subst, sub_vars, atoms_of, vars_of, linear_in, show)
from .values import *
from .values import c_ge, c_eq, c_ne, c_gt, c_and, c_or, c_not, c_subst, v_subst
from .facts import Facts
from .exprs import ExprMixin, SymSeqC
from . import normal
from .normal import skey, plain_source

PAIRS = {'e^{(m_4*k1+m_6*k2)(n-1)h}', 'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}',
         'e^{-(n1*k1+n2*k2)h}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}'}
SEQ0 = {'l_{1:n}', 'o_{1:n}'}
SEQ1 = {'p_{2:n}', 'q_{2:n}', 'o_{2:n}'}
T0NAME = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'
TRINAME = '(n1*k1+n2*k2)^{-}'
SEQJ = 'J_{1:n}'
MAXL = 3


def kind_of(name):
    if name in PAIRS:
        return 'pair'
    if name == T0NAME:
        return 't0'
    if name == TRINAME:
        return 'tri'
    if name in SEQ0:
        return 'seq0'
    if name in SEQ1:
        return 'seq1'
    if name == SEQJ:
        return 'seqj'
    if name == '*bag':
        return 'bag'
    return 'int'


class Rep(V):
    """count copies of value v inside a tuple (count may be symbolic)"""
    __slots__ = ('v', 'count')

    def __init__(self, v, count):
        self.v, self.count = v, count

    def __eq__(self, o):
        return isinstance(o, Rep) and self.v == o.v and self.count == o.count

    def __hash__(self):
        return hash((self.v, self.count))


class Raised(Exception):
    pass


class State:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = []
        self.alive = True
        self.keyco = []        # (objid, comps) -> Num : coefficients of keys under iteration

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: o.clone() for k, o in self.heap.items()}
        s.pc = list(self.pc)
        s.keyco = list(self.keyco)
        return s

    def take(self, o):
        self.env, self.heap, self.pc, self.alive, self.keyco = o.env, o.heap, o.pc, o.alive, o.keyco


class Frame:
    def __init__(self, mod, fq, top=False):
        self.mod = mod
        self.fq = fq
        self.returns = []      # (pc list, value, State)
        self.top = top
        self.loopdepth = 0
        self.binds = []
        self.globals = set()


class Summary:
    def __init__(self, fq):
        self.fq = fq
        self.returns = []      # (pc tuple, frozen value)
        self.raises = []       # (pc tuple, exc name, line, binders)
        self.params_mut = []   # (param, line)
        self.stores = []       # memo store obligations
        self.reads = []
        self.assumed = set()
        self.events = []
        self.warn = []
        self.floats = []
        self.calls = set()
        self.kfbad = []
        self.arity = []         # (where, names, key) for keys that do not match the names
        self.keyty = []         # (where, type, expression) for exponents that are not integers
        self.powneg = []        # (where, exponent, pc, binders): integer powers with an exponent that may be negative
        self.polys = []         # every polynomial made
        self.mulpoly = []
        self.tables = []
        self.whole = []
        self.shared = []


class LV(V):
    """frozen list: concrete items, segments, length"""

    def __init__(self, items, segs, length):
        self.items, self.segs, self.length = items, segs, length


class DV(V):
    def __init__(self, obj):
        self.obj = obj


BREAK, CONT = 'break', 'continue'


class JoinFail(Unsupported):
    node = None


def t0_of_len(e):
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][0][0] == 't0len' and m[0][1] == ONE:
            t0 = m[0][0][1]
            if len(t0.fs) == 1 and t0.fs[0][0] == 'path':
                return t0
    return None


def has_len(c):
    from .expr import atoms_of
    return any(a[0] in ('t0len', 'llen') for a in atoms_of(c))


def nonempty_of(c, srcs):
    """does the condition say that one of the sources has a term?"""
    at = [b for m in c[1].t for b, _ in m if isinstance(b, tuple) and b[0] == 'polylen'] if isinstance(c[1], E) else []
    if len(at) != 1 or c[1] != atom(at[0]):
        return False
    p = skey(plain_source(at[0][1]))
    return any(skey(s) == p for s in srcs)


def is_len_hyp(c):
    from .expr import atoms_of
    return isinstance(c, tuple) and c[0] == 'ge' and all(a[0] in ('t0len', 'llen') for a in atoms_of(c[1])) and has_len(c)


class Interp(ExprMixin):
    def __init__(self, prog, specs=None, opaque=None, resolve_kf=None):
        self.prog = prog
        self.specs = specs or {}          # fq -> Spec (opaque candidates)
        self.opaque = opaque if opaque is not None else set()
        self.n = 0
        self.depth = 0
        self.binders = []                 # active binders (facts)
        self.requires = []
        self.sum = None
        self.specmode = False
        self.memos = {}
        self.track_zero = False
        self.lines = []
        self.t0idx = {}
        self.prov = {}
        self.fstack = []
        self.steps = 0
        self.forks = 0
        self.memo_default = None
        self.memo_objs = set()      # what reads of memo tables gave
        self.jlen = None
        self.growing = {}
        self.filling = []           # tables the loops under way may put entries into

    # ------------------------------------------------------------ helpers
    def fresh(self, base):
        self.n += 1
        return '%s#%d' % (base.split('#')[0], self.n)

    def uns(self, node, why):
        ln = getattr(node, 'lineno', None) or (self.lines[-1] if self.lines else 0)
        raise Unsupported('%s (line %s)' % (why, ln))

    def facts(self, st):
        key = (tuple(st.pc), tuple(self.binders), len(self.requires))
        f = getattr(self, '_fc', None)
        if f and f[0] == key:
            return f[1]
        F = Facts(self.requires + st.pc, self.binders)
        self._fc = (key, F)
        return F

    def new(self, st, obj):
        self.n += 1
        st.heap[self.n] = obj
        obj.birth = len(self.binders)
        return Ref(self.n)

    def obj(self, st, v):
        return st.heap[v.id]

    def poly(self, st, v):
        return isinstance(v, Ref) and st.heap[v.id].kind == 'poly'

    # ------------------------------------------------------------ choices
    def alts(self, st, v):
        """flatten nested choices: [(cond, value)]"""
        if isinstance(v, Ch):
            out = []
            for c, x in v.alts:
                for c2, y in self.alts(st, x):
                    cc = c_and(c, c2)
                    if cc is not False:
                        out.append((cc, y))
            return out
        if isinstance(v, Tup) and any(self.has_ch(x) for x in v.items):
            lists = [self.alts(st, x) for x in v.items]
            out = []
            for combo in itertools.product(*lists):
                c = c_and(*[x[0] for x in combo])
                if c is not False:
                    out.append((c, Tup([x[1] for x in combo], v.kf)))
                if len(out) > 64:
                    raise Unsupported('too many alternatives')
            return out
        return [(True, v)]

    def has_ch(self, v):
        return isinstance(v, Ch) or (isinstance(v, Tup) and any(self.has_ch(x) for x in v.items))

    def choose(self, alts):
        """build a choice, merging equal values"""
        out = []
        for c, v in alts:
            if c is False:
                continue
            for i, (c2, v2) in enumerate(out):
                if type(v2) is type(v) and v2 == v:
                    out[i] = (c_or(c2, c), v2)
                    break
            else:
                out.append((c, v))
        if len(out) == 1:
            return out[0][1]
        if not out:
            raise Unsupported('no feasible alternative')
        if len(out) > 32:
            raise Unsupported('too many alternatives')
        return Ch(out)

    def lift(self, st, fn, *vals):
        if not any(self.has_ch(v) for v in vals):
            return fn(*vals)
        F = self.facts(st)
        out = []
        for combo in itertools.product(*[self.alts(st, v) for v in vals]):
            c = c_and(*[x[0] for x in combo])
            if c is False or F.decide(c) is False:
                continue
            out.append((c, fn(*[x[1] for x in combo])))
        return self.choose(out)

    def num(self, v, node=None):
        if isinstance(v, Num):
            return v
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Num(const(int(v.v)))
        if isinstance(v, Cond):
            raise Unsupported('boolean used as number')
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('number expected, got %s' % type(v).__name__)

    # ------------------------------------------------------------ canonical components
    def comp(self, v):
        if isinstance(v, Num):
            return v.e
        if isinstance(v, Tup):
            out = []
            for x in v.items:
                if isinstance(x, Rep):
                    if x.count == ZERO:
                        continue
                    c = self.comp(x.v)
                    if out and isinstance(out[-1], tuple) and len(out[-1]) == 3 and out[-1][0] == 'rep' and out[-1][1] == c:
                        out[-1] = ('rep', c, out[-1][2] + x.count)
                    else:
                        out.append(('rep', c, x.count))
                else:
                    out.append(self.comp(x))
            return tuple(out)
        if isinstance(v, T0V):
            return v
        if isinstance(v, Opq):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return const(int(v.v))
            return v.v
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('key component of type %s' % type(v).__name__)

    def uncomp(self, c):
        if isinstance(c, E):
            return Num(c)
        if isinstance(c, tuple):
            if len(c) == 3 and c[0] == 'rep':
                return Rep(self.uncomp(c[1]), c[2])
            return Tup([self.uncomp(x) for x in c])
        if isinstance(c, (T0V, Opq)):
            return c
        return Const(c)

    # ------------------------------------------------------------ opaque polys
    def inst_key(self, b, kf, shape):
        """components of an iteration key of an opaque poly"""
        out = []
        for nm in kf:
            k = kind_of(nm)
            if k == 'int':
                out.append(Num(atom(('key', b, nm))))
            elif k == 'pair':
                out.append(Tup([Num(atom(('key', b, nm, const(i)))) for i in range(2)]))
            elif k == 'tri':
                out.append(Tup([Num(atom(('key', b, nm, const(i)))) for i in range(3)]))
            elif k == 't0':
                out.append(T0V([('path', b, nm)]))
            elif k in ('seq0', 'seq1'):
                if shape is None:
                    raise Unsupported('shape needed')
                L = shape if k == 'seq0' else max(shape - 1, 0)
                out.append(Tup([Num(atom(('key', b, nm, const(i)))) for i in range(L)]))
            elif k == 'seqj' and self.jlen is not None:
                out.append(Tup([Num(atom(('key', b, nm, const(i)))) for i in range(self.jlen)]))
            else:
                out.append(Opq(('key', b, nm)))
        return Tup(out, tuple(kf))

    def shapes(self, kf):
        return list(range(MAXL + 1)) if any(kind_of(n) in ('seq0', 'seq1') for n in kf) else [None]

    def opaque_poly(self, px, kf):
        b = self.fresh('b')
        em = Em('add', [('pt', b, px, None, tuple(kf))], (), ('id', b), atom(('coef', b)), 'frac', px=px)
        o = PolyObj(tuple(kf), [em], 'fresh')
        return o

    def inst_ems(self, em, st=None):
        """expand an emission whose key is ('id', b) into keyed emissions per shape"""
        if not (isinstance(em.key, tuple) and em.key and em.key[0] == 'id'):
            return [em]
        b = em.key[1]
        out = []
        for i, bd in enumerate(em.bs):
            if bd[0] == 'pt' and bd[1] == b:
                for L in ([bd[3]] if bd[3] is not None else self.shapes(bd[4])):
                    k = self.inst_key(b, bd[4], L)
                    bs = em.bs[:i] + (bd[:3] + (L,) + bd[4:],) + em.bs[i + 1:]
                    out.append(Em(em.op, bs, em.pc, self.comp(k), em.co, em.ty, em.line))
                return out
        raise Unsupported('unbound identity key')

    def rename_em(self, em):
        """alpha-rename all binders of an emission to fresh names"""
        if not em.bs:
            return em
        mv, mb = {}, {}
        for b in em.bs:
            nb = self.fresh(str(b[1]))
            if b[0] == 'rng':
                mv[b[1]] = var(nb)
            mb[b[1]] = nb
        return rename(em, mv, mb)

    # ------------------------------------------------------------ emission
    def emit(self, st, o, op, keyv, valv, node):
        line = getattr(node, 'lineno', None)
        if self.fstack:
            line = (self.fstack[-1].mod.name if self.fstack[-1].mod else '?', line)
        for c, kv in self.alts(st, keyv):
            for c2, vv in self.alts(st, valv) if valv is not None else [(True, None)]:
                pc = list(st.pc)
                cc = c_and(c, c2)
                if cc is False:
                    continue
                if cc is not True:
                    cc = self.facts(st).simplify(cc)
                    if cc is False:
                        continue
                    if cc is not True:
                        pc.append(cc)
                if not isinstance(kv, Tup):
                    if isinstance(kv, Num):
                        kv2 = Tup([kv])
                    elif isinstance(kv, Opq):
                        kv2 = kv
                    else:
                        self.uns(node, 'poly key is not a tuple')
                else:
                    kv2 = kv
                key = self.comp(kv2)
                if vv is None:
                    o.log.append(Em(op, (), pc, key, None, 'int', line))
                    continue
                if self.sum is not None:
                    if isinstance(kv2, Tup):
                        self.key_types(kv2, line, pc)
                    if o.kf and isinstance(key, tuple) and not (key and key[0] == 'id'):
                        self.key_fits(o.kf, kv2, line, pc)
                n = self.num(vv, node)
                if n.ty == 'float' and self.sum is not None:
                    self.sum.floats.append((line, 'a coefficient is a float', tuple(pc), tuple(self.binders)))
                o.log.append(Em(op, (), pc, key, n.e, n.ty, line))

    def key_types(self, kv, line, pc):
        for x in kv.items:
            if isinstance(x, Num) and x.ty != 'int':
                self.sum.keyty.append((line, x.ty, x.e, tuple(pc), tuple(self.binders)))
            elif isinstance(x, Tup):
                self.key_types(x, line, pc)

    def key_fits(self, kf, kv, line, pc):
        if not isinstance(kv, Tup) or any(isinstance(x, Rep) for x in kv.items):
            return
        if len(kv.items) != len(kf):
            self.sum.arity.append((line, kf, 'a key of %d components for %d names' % (len(kv.items), len(kf)), tuple(pc), tuple(self.binders)))
            return
        for nm, x in zip(kf, kv.items):
            k = kind_of(nm)
            if (k == 'int') != isinstance(x, Num) and isinstance(x, (Num, Tup)):
                self.sum.arity.append((line, kf, 'component %s gets %s' % (nm, 'a number' if isinstance(x, Num) else 'a tuple'), tuple(pc), tuple(self.binders)))

    def splice(self, st, dst, src, scale=None, ty=None, node=None):
        """dst += scale * src (src frozen log)"""
        line = getattr(node, 'lineno', None)
        for em in list(src):
            em = self.rename_em(em)
            if em.op == 'dropzero' and not self.track_zero:
                continue
            pc = list(st.pc)
            for c in em.pc:
                if c not in pc:
                    pc.append(c)
            co = em.co
            px = em.px
            t = em.ty
            if scale is not None and co is not None:
                co = co * scale
                if scale != ONE:
                    px = None
                if ty == 'float' or t == 'float':
                    t = 'float'
            op = em.op
            if op == 'set':
                op = 'add'      # callers check distinctness through as_adds
            dst.log.append(Em(op, em.bs, pc, em.key, co, t, em.line or line, px))

    def as_adds(self, st, o):
        """the log of o with every 'set' shown to be a first write turned into 'add'"""
        log = [e for e in o.log if self.track_zero or e.op != 'dropzero']
        if all(e.op == 'add' for e in log):
            return log
        log = self.dels(log, st)
        return self.sets_to_adds(log, st)

    def dels(self, log, st=None):
        """a deletion of the terms of one poly that satisfy a condition becomes a condition on its terms"""
        out = []
        for e in log:
            if e.op == 'del' and len(e.bs) == 1 and e.bs[0][0] == 'pt' and len(out) == 1:
                a, b = out[0], e.bs[0]
                bn = b[1]
                e1 = normal.whole_key(e)
                same = e1.key == ('id', bn)
                if same and len(a.bs) == 1 and a.bs[0][0] == 'pt' and a.key == ('id', a.bs[0][1]) and a.bs[0][2:] == b[2:] \
                        and a.op == 'add':
                    d = c_subst(c_and(*e.pc), ren_f({}, {bn: a.bs[0][1]}))
                    n = c_not(d)
                    if n is False:
                        out = []
                    else:
                        out = [Em(a.op, a.bs, tuple(a.pc) + (() if n is True else (n,)), a.key, a.co, a.ty, a.line, None)]
                    continue
            if e.op == 'del' and not e.bs and all(st is not None and c in st.pc for c in e.pc) and len(out) == 1 and isinstance(e.key, tuple) and all(isinstance(x, E) for x in e.key):
                a = out[0]
                if len(a.bs) == 1 and a.bs[0][0] == 'pt' and a.key == ('id', a.bs[0][1]) and a.op == 'add' \
                        and len(a.bs[0]) > 4 and a.bs[0][4] and len(a.bs[0][4]) == len(e.key):
                    b = a.bs[0]
                    n = c_not(c_and(*[c_eq(atom(('key', b[1], nm)) - x) for nm, x in zip(b[4], e.key)]))
                    out = [Em(a.op, a.bs, tuple(a.pc) + (() if n is True else (n,)), a.key, a.co, a.ty, a.line, None)] if n is not False else []
                    continue
            out.append(e)
        return out

    def sets_to_adds(self, log, st=None):
        out = []
        ex = [[e] if e.op != 'set' else self.inst_ems(e) for e in log]
        flat = [x for y in ex for x in y]
        for i, e in enumerate(flat):
            if e.op == 'add':
                out.append(e)
                continue
            if e.op == 'set':
                # distinct from every earlier emission and from itself across iterations
                for d in flat[:i]:
                    if not self.distinct(d, self.rename_em(e)):
                        raise Unsupported('assignment to a key that may already be present (line %s)' % (e.line,))
                if e.bs and not self.injective(e):
                    raise Unsupported('assignment in a loop to keys not shown distinct (line %s)' % (e.line,))
                out.append(Em('add', e.bs, e.pc, e.key, e.co, e.ty, e.line, e.px))
                continue
            raise Unsupported('operation %s on a poly (line %s)' % (e.op, e.line))
        return out

    def distinct(self, a, b):
        if isinstance(a.key, tuple) and a.key and a.key[0] == 'id':
            return False
        if not isinstance(a.key, tuple) or not isinstance(b.key, tuple):
            return False
        if len(a.key) != len(b.key):
            return True
        F = Facts(self.requires + list(a.pc) + list(b.pc), list(self.binders) + list(a.bs) + list(b.bs))
        if any(F.decide(c_not(c)) is True for c in a.pc):
            return True
        for x, y in zip(flatcomp(a.key), flatcomp(b.key)):
            if isinstance(x, E) and isinstance(y, E) and F.is_ne(x - y):
                return True
            if isinstance(x, tuple) != isinstance(y, tuple):
                return True
        for x, y in zip(a.key, b.key):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) != len(y) and not any(
                    isinstance(z, tuple) and z and z[0] == 'rep' for z in x + y):
                return True
        # contradictory path conditions
        for c in a.pc:
            if c_not(c) in b.pc:
                return True
        return False

    def injective(self, e):
        todo = {}
        for b in e.bs:
            if b[0] == 'rng':
                todo[('v', b[1])] = b
            elif b[0] == 'pt':
                for nm in b[4]:
                    if kind_of(nm) != 'int':
                        return False
                    todo[('key', b[1], nm)] = b
            else:
                return False
        F = Facts(self.requires + list(e.pc), list(self.binders) + list(e.bs))
        comps = [x for x in flatcomp(e.key) if isinstance(x, E)]
        while todo:
            # a component that determines one more of the iterated quantities, given those determined so far
            got = None
            for x in comps:
                us = [u for u in todo if u in atoms_of(x)]
                if len(us) != 1:
                    continue
                lq = linear_in(x, us[0])
                if lq and not lq[0].is_zero() and F.is_ne(lq[0]):
                    got = us[0]
                    break
            if got is None:
                return False
            del todo[got]
        return True

    # ------------------------------------------------------------ freezing
    def freeze(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'poly':
                return PV(o.kf, self.as_adds(st, o))
            if o.kind == 'list':
                return LV([self.freeze(st, x) for x in o.items],
                          [(b, p, self.freeze(st, x)) for b, p, x in o.segs], o.length)
            return DV(o)
        if isinstance(v, Tup):
            return Tup([self.freeze(st, x) for x in v.items], v.kf)
        if isinstance(v, Ch):
            return Ch([(c, self.freeze(st, x)) for c, x in v.alts])
        return v

    def thaw(self, st, v):
        if isinstance(v, PV):
            return self.new(st, PolyObj(v.kf, v.ems))
        if isinstance(v, LV):
            o = ListObj([self.thaw(st, x) for x in v.items])
            o.segs = list(v.segs)
            o.length = v.length
            return self.new(st, o)
        if isinstance(v, Tup):
            return Tup([self.thaw(st, x) for x in v.items], v.kf)
        return v

    # ------------------------------------------------------------ joins
    def join(self, st, a, b, cond):
        """st := a if cond else b  (a, b forks of st)"""
        if not a.alive and not b.alive:
            st.alive = False
            return
        if not a.alive:
            st.take(b)
            return
        if not b.alive:
            st.take(a)
            return
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            if k in a.heap and k in b.heap:
                heap[k] = self.join_obj(a.heap[k], b.heap[k], cond, k, a)
            else:
                heap[k] = a.heap.get(k) or b.heap.get(k)
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                x, y = a.env[k], b.env[k]
                env[k] = x if (type(x) is type(y) and x == y) else self.choose2(cond, x, y)
            else:
                env[k] = Poison('%s may be unassigned' % k)
        st.env, st.heap = env, heap
        st.keyco = [x for x in a.keyco if x in b.keyco]

    def choose2(self, c, x, y):
        if isinstance(x, Poison):
            return x
        if isinstance(y, Poison):
            return y
        if isinstance(x, Const) and isinstance(y, Const) and isinstance(x.v, bool) and isinstance(y.v, bool):
            if x.v and not y.v:
                return Cond(c)
            return Cond(c_not(c))
        return Ch([(c, x), (c_not(c), y)])

    def join_obj(self, a, b, cond, oid=None, sa0=None):
        r = a.clone()
        if a.kind == 'poly':
            n = 0
            while n < len(a.log) and n < len(b.log) and a.log[n] is b.log[n]:
                n += 1
            sa, sb = a.log[n:], b.log[n:]
            merged = self.join_in(sa, sb, cond) if self.same_presence(cond, oid, a.log[:n], sa0, sa + sb) else None
            r.log = a.log[:n] + merged if merged is not None else a.log + b.log[n:]
            if a.kf != b.kf:
                if not a.log and not b.log:
                    r.kf = None
                else:
                    r.kf = a.kf if a.kf else b.kf
                    if a.kf and b.kf:
                        r.kfbad = True
        elif a.kind == 'list':
            if len(a.items) == len(b.items):
                r.items = [x if (type(x) is type(y) and x == y) else self.choose2(cond, x, y)
                           for x, y in zip(a.items, b.items)]
            else:
                n = min(len(a.items), len(b.items))
                if a.items[:n] != b.items[:n]:
                    raise Unsupported('lists of different length joined')
                r.items = a.items[:n]
                r.segs = [((), (cond,), x) for x in a.items[n:]] + [((), (c_not(cond),), x) for x in b.items[n:]]
                r.length = None
            if a.segs != b.segs:
                n = 0
                while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
                    n += 1
                r.segs = a.segs[:n] + [(bs, (cond,) + tuple(p), v) for bs, p, v in a.segs[n:]] + \
                    [(bs, (c_not(cond),) + tuple(p), v) for bs, p, v in b.segs[n:]]
                r.length = None
        else:
            n = 0
            while n < len(a.stores) and n < len(b.stores) and a.stores[n] is b.stores[n]:
                n += 1
            r.stores = a.stores + b.stores[n:]
            if a.conc != b.conc:
                r.conc = {}
                for k in list(a.conc) + [x for x in b.conc if x not in a.conc]:
                    if k in a.conc and k in b.conc:
                        x, y = a.conc[k], b.conc[k]
                        r.conc[k] = x if x == y else (x[0], self.choose2(cond, x[1], y[1]))
                    else:
                        kv, v = a.conc.get(k) or b.conc.get(k)
                        r.conc[k] = (kv, Poison('key present on one path only'))
            r.sym = a.sym or b.sym
        return r

    def same_presence(self, cond, oid, before, st, ems):
        """does membership in the object of the condition say whether the key is present in object oid?"""
        c = cond[1] if isinstance(cond, tuple) and cond[0] == 'not' else cond
        if not (isinstance(c, tuple) and c[0] == 'in'):
            return False
        if c[1] == oid:
            return True
        src = st.heap.get(c[1]) if st is not None else None
        if src is None or src.kind != 'poly':
            return False
        # a copy of that object, changed so far only in earlier rounds of a loop over distinct keys
        strip = lambda log: [(e.op, e.bs[0][2:] if e.bs else (), len(e.bs), tuple(e.pc), e.key[0] if e.key else None, e.px) for e in log]
        return len(src.log) == 1 and src.log[0].px is not None and strip(src.log) == strip(before) and all(
            len(e.bs) <= 1 and (not e.bs or normal.whole_key(e).key == ('id', e.bs[0][1])) for e in ems)

    def join_in(self, sa, sb, cond):
        """if k in p: p[k] += v  else: p[k] = v   is an accumulation"""
        pos = isinstance(cond, tuple) and cond[0] == 'in'
        neg = isinstance(cond, tuple) and cond[0] == 'not' and cond[1][0] == 'in'
        if not (pos or neg) or len(sa) != len(sb):
            return None
        x, y = (sa, sb) if pos else (sb, sa)
        c = cond if pos else cond[1]
        out = []
        for e, f in zip(x, y):
            if e.op not in ('rmw', 'add') or f.op not in ('set', 'add') or e.key != f.key or e.co != f.co or e.bs != f.bs:
                return None
            pe = [z for z in e.pc if z != c]
            if pe != [z for z in f.pc if z != c_not(c)]:
                return None
            out.append(Em('add', e.bs, pe, e.key, e.co, e.ty, e.line, e.px))
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for i, s in enumerate(stmts):
            if not st.alive:
                return None
            try:
                r = self.stmt(s, st, fr)
            except JoinFail as j:
                if j.node is not s or self.forks > 6:
                    raise Unsupported(str(j))
                # the two branches cannot be merged: analyse the rest of the block once per branch
                self.forks += 1
                a, b, c = j.states
                for x in (a, b):
                    if self.block(stmts[i + 1:], x, fr) is not None:
                        raise Unsupported(str(j))
                self.join(st, a, b, c)
                return None
            except Unsupported:
                if st.alive:
                    raise
                return None             # a call in the statement has raised on every path
            if r is not None:
                return r
        return None

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported('analysis budget exhausted')
        self.lines.append(s.lineno)
        try:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                self.uns(s, 'statement %s' % type(s).__name__)
            return m(s, st, fr)
        finally:
            self.lines.pop()

    def st_Pass(self, s, st, fr):
        pass

    def st_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name] = self.global_fq((s.module or '') + '.' + a.name, st, fr)

    def st_Global(self, s, st, fr):
        self.uns(s, 'global statement')

    st_Nonlocal = st_Global

    def st_FunctionDef(self, s, st, fr):
        st.env[s.name] = Fn(fr.fq + '.<locals>.' + s.name, s, fr.mod, closure=st.env)

    def st_Assert(self, s, st, fr):
        pass

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else Const(None)
        if fr.loopdepth:
            self.uns(s, 'return inside a summarised loop')
        fr.returns.append((list(st.pc), v, st.fork()))
        st.alive = False

    def st_Raise(self, s, st, fr):
        name = '?'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        if self.sum is not None:
            self.sum.raises.append((tuple(st.pc), name, s.lineno, tuple(self.binders)))
        st.alive = False

    def st_Break(self, s, st, fr):
        return BREAK

    def st_Continue(self, s, st, fr):
        return CONT

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if fr.loopdepth and self.binders and self.last_iteration(st):
                    continue            # nothing reads it afterwards but the rest of this iteration
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ov = self.ev(t.value, st, fr)
                if not isinstance(ov, Ref):
                    self.uns(s, 'del on unsupported object')
                o = st.heap[ov.id]
                kv = self.ev(t.slice, st, fr)
                if o.kind == 'dict':
                    k = self.conc_key(kv)
                    if k is not None and not o.sym:
                        o.conc.pop(k, None)
                    self.event('del', ov.id, kv, s, st)
                    o.sym = True if k is None else o.sym
                elif o.kind == 'list':
                    i = self.conc_int(kv, s)
                    del o.items[i]
                else:
                    self.emit(st, o, 'del', kv, None, s)
            else:
                self.uns(s, 'del target')

    def last_iteration(self, st):
        for b in self.binders[-1:]:
            if b[0] == 'rng':
                last = b[2] if len(b) > 4 else b[3]
                if self.facts(st).is_eq(var(b[1]) - last):
                    return True
        return False

    def event(self, what, oid, kv, node, st, bs=(), pc=()):
        if self.sum is not None:
            self.sum.events.append((what, oid, kv, getattr(node, 'lineno', None), tuple(st.pc) + tuple(pc),
                                    tuple(self.binders) + tuple(bs)))

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, st, node, sum(not isinstance(x, ast.Starred) for x in t.elts),
                                any(isinstance(x, ast.Starred) for x in t.elts))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                mid = items[i:len(items) - tail]
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, st, fr, node)
                self.assign(t.elts[i].value, self.new(st, ListObj(mid)), st, fr, node)
                for x, y in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(x, y, st, fr, node)
            else:
                if len(items) != len(t.elts):
                    self.uns(node, 'unpacking %d values into %d targets' % (len(items), len(t.elts)))
                for x, y in zip(t.elts, items):
                    self.assign(x, y, st, fr, node)
        elif isinstance(t, ast.Subscript):
            ov = self.ev(t.value, st, fr)
            kv = self.ev(t.slice, st, fr)
            self.setitem(ov, kv, v, st, node)
        elif isinstance(t, ast.Attribute):
            ov = self.ev(t.value, st, fr)
            if self.poly(st, ov) and t.attr == 'keyfor':
                self.set_keyfor(st, ov, v, node)
            elif self.poly(st, ov) and t.attr == 'data' and isinstance(v, Ref) and st.heap[v.id].kind in ('poly', 'dict'):
                self.set_data(st, ov, v, node)
            else:
                self.uns(node, 'attribute assignment')

    def set_data(self, st, ov, v, node):
        o = self.obj(st, ov)
        src = st.heap[v.id]
        if self.in_loop(o):
            self.uns(node, 'data replaced in a loop')
        tmp = st.heap[self.poly_ctor([v], {}, st, node).id]
        self.mutate(o, node)
        o.log = list(tmp.log)
        if src.kind == 'poly' and v.id != ov.id and self.sum is not None:
            self.sum.shared.append((ov.id, v.id, o.origin, src.origin, self.where(node)[1]))
        else:
            self.uns(node, 'assignment target')

    def unpack(self, v, st, node, n=None, star=False):
        if isinstance(v, Ref) and st.heap[v.id].kind == 'list' and st.heap[v.id].isset:
            raise Unsupported('iteration over a set')
        if isinstance(v, Tup):
            if any(isinstance(x, Rep) for x in v.items):
                self.uns(node, 'unpacking a tuple of symbolic length')
            return list(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'list' and not o.segs:
                return list(o.items)
        if isinstance(v, Ch):
            parts = [(c, self.unpack(x, st, node, n, star)) for c, x in v.alts]
            L = {len(p) for _, p in parts}
            if len(L) != 1:
                self.uns(node, 'unpacking alternatives of different length')
            return [self.choose([(c, p[i]) for c, p in parts]) for i in range(L.pop())]
        if isinstance(v, Opq) and n is not None and not star:
            return [Num(atom(v.path + (const(i),))) for i in range(n)]
        r = self.concrete_iter(v, st)
        if r is not None:
            return r
        self.uns(node, 'unpacking %s' % type(v).__name__)

    def setitem(self, ov, kv, v, st, node):
        if isinstance(ov, Ch):
            for c, x in self.alts(st, ov):
                s2 = list(st.pc)
                st.pc.append(c)
                self.setitem(x, kv, v, st, node)
                st.pc = s2
            return
        if not isinstance(ov, Ref):
            self.uns(node, 'item assignment on %s' % type(ov).__name__)
        o = st.heap[ov.id]
        if o.origin[:6] == 'param:' and self.sum is not None:
            self.sum.params_mut.append((o.origin, node.lineno))
        if o.kind == 'poly':
            self.poly_set(st, o, ov, kv, v, node)
        elif o.kind == 'list':
            if o.t0 is not None:
                from .exprs import t0_index
                b = t0_index(kv)
                if b is None or self.t0idx.get(b) != o.t0 or not isinstance(v, Tup) or len(v.items) != 3:
                    self.uns(node, 'item assignment in a denominator list')
                new = [self.num(x).e for x in v.items]
                old = [atom(('t0e', b, const(i))) for i in range(3)]
                if new[0] == old[0] and new[1] == old[1]:
                    fs = [('tri', new[0], new[1], new[2] - old[2])]
                else:
                    fs = [('tri', old[0], old[1], -old[2]), ('tri', new[0], new[1], new[2])]
                o.t0 = T0V(list(o.t0.fs) + fs)
                o.segs = [((), (), Poison('item of a changed denominator list'))]
                return
            if o.segs:
                self.uns(node, 'item assignment in a list of symbolic length')
            if self.has_ch(kv):
                # o[i] := v for i chosen by condition
                for c, k in self.alts(st, kv):
                    i = self.conc_int(k, node)
                    o.items[i] = self.choose2(c, v, o.items[i])
                return
            i = self.conc_int(kv, node)
            if not -len(o.items) <= i < len(o.items):
                self.uns(node, 'index out of range')
            o.items[i] = v
        else:
            k = self.conc_key(kv)
            self.event('store', ov.id, kv, node, st)
            if k is not None and not self.in_loop(o):
                if st.pc[len(getattr(o, 'pc0', [])):]:
                    pass
                o.conc[k] = (kv, v)
                o.stores.append(((), tuple(st.pc), kv, self.freeze(st, v), node.lineno))
            else:
                o.sym = True
                o.stores.append(((), tuple(st.pc), kv, self.freeze(st, v), node.lineno))

    def in_loop(self, o):
        return len(self.binders) > getattr(o, 'birth', 0)

    def st_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, fr, s)
            v = self.ev(s.value, st, fr)
            if isinstance(cur, Ref) and st.heap[cur.id].kind == 'list' and isinstance(s.op, ast.Add):
                st.heap[cur.id].items.extend(self.unpack(v, st, s))
                return
            st.env[t.id] = self.binop(s.op, cur, v, st, s)
        elif isinstance(t, ast.Subscript):
            ov = self.ev(t.value, st, fr)
            kv = self.ev(t.slice, st, fr)
            if self.poly(st, ov):
                v = self.ev(s.value, st, fr)
                o = st.heap[ov.id]
                if isinstance(s.op, (ast.Add, ast.Sub)):
                    if isinstance(s.op, ast.Sub):
                        v = self.neg(v, st)
                    self.emit(st, o, 'rmw', kv, v, s)
                    if o.origin[:6] == 'param:' and self.sum is not None:
                        self.sum.params_mut.append((o.origin, s.lineno))
                    return
                self.uns(s, 'augmented assignment on a poly item')
            cur = self.getitem(ov, kv, st, s)
            v = self.ev(s.value, st, fr)
            self.setitem(ov, kv, self.binop(s.op, cur, v, st, s), st, s)
        else:
            self.uns(s, 'augmented assignment target')

    def st_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        c = self.facts(st).simplify(c)
        if c is True:
            return self.block(s.body, st, fr)
        if c is False:
            return self.block(s.orelse, st, fr)
        a, b = st.fork(), st.fork()
        a.pc.append(c)
        b.pc.append(c_not(c))
        ra = self.block(s.body, a, fr)
        rb = self.block(s.orelse, b, fr) if s.orelse else None
        if ra is CONT or rb is CONT:
            # the rest of the loop body is skipped on that path
            if ra is CONT and rb is CONT:
                self.join(st, a, b, c)
                return CONT
            dead, live, cl = (a, b, c_not(c)) if ra is CONT else (b, a, c)
            fr.conts.append(dead)
            st.take(live)
            return None
        if ra is not None or rb is not None:
            raise Unsupported('break under a symbolic condition (line %d)' % s.lineno)
        try:
            self.join(st, a, b, c)
        except Unsupported as e:
            j = JoinFail(str(e))
            j.node, j.states = s, (a, b, c)
            raise j
        return None

    def st_With(self, s, st, fr):
        self.uns(s, 'with statement')

    def st_Try(self, s, st, fr):
        def dead(h):
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            return all(isinstance(t, ast.Name) and t.id == 'AttributeError' for t in ts)
        # attributes of the objects modelled always exist: such handlers are dead
        if any(h.type is None or not dead(h) for h in s.handlers) or s.finalbody:
            self.uns(s, 'try statement')
        r = self.block(s.body, st, fr)
        if r is None and st.alive and s.orelse:
            r = self.block(s.orelse, st, fr)
        return r

    def st_While(self, s, st, fr):
        for _ in range(200):
            c = self.cond(s.test, st, fr)
            c = self.facts(st).simplify(c)
            if c is False:
                if s.orelse:
                    return self.block(s.orelse, st, fr)
                return None
            if c is not True:
                return self.sym_while(s, c, st, fr)
            savec = getattr(fr, 'conts', None)
            fr.conts = []
            base = list(st.pc)
            r = self.block(s.body, st, fr)
            if r is BREAK and fr.conts:
                self.uns(s, 'break and continue under conditions')
            self.merge_conts(st, fr, base)
            fr.conts = savec
            if not st.alive:
                return None
            if r is BREAK:
                return None
        self.uns(s, 'while loop not summarised')

    def sym_while(self, s, c, st, fr):
        if s.orelse:
            self.uns(s, 'else clause of a while loop')
        return self.sym_while0(s, c, st, fr)

    def sym_while0(self, s, c, st, fr):
        """while x > a: x -= d ...   and   while i < n: ... i += d"""
        names = self.assigned(s.body)
        # find the counter: a carried Num whose update is x +/- const
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            self.uns(s, 'while condition')
        for cand in names:
            v0 = st.env.get(cand)
            if not isinstance(v0, Num):
                continue
            probe = st.fork()
            nm = self.fresh('w')
            probe.env[cand] = Num(var(nm), v0.ty)
            for o in names:
                if o != cand and o in probe.env:
                    x = probe.env[o]
                    probe.env[o] = Num(var(self.fresh('wc')), x.ty) if isinstance(x, Num) else Poison('carried')
            try:
                cc = self.cond(t, probe, fr)
                save = self.sum
                self.sum = None
                savec = getattr(fr, 'conts', None)
                fr.conts = []
                base = list(probe.pc)
                self.block(s.body, probe, fr)
                self.merge_conts(probe, fr, base)
            except Unsupported:
                continue
            finally:
                self.sum = save
                fr.conts = savec
            fin = probe.env.get(cand)
            if not isinstance(fin, Num) or not isinstance(cc, tuple) or cc[0] != 'ge':
                continue
            step = fin.e - var(nm)
            if not step.is_int() or step.is_zero():
                continue
            lq = linear_in(cc[1], ('v', nm))
            if not lq or not lq[0].is_const():
                continue
            # condition: p*x + q >= 0, x = x0 + j*step ; last j with p*(x0+j*step)+q >= 0
            p, q = lq
            rate = p * step
            if not rate.is_const() or rate.const() >= 0:
                continue
            room = p * v0.e + q
            last = self.floordiv(room, -rate)
            j = self.fresh('j')
            tgt = {cand: Num(v0.e + var(j) * step, v0.ty)}
            after = {cand: Num(v0.e + (last + 1) * step, v0.ty)}

            def pre(st2, tgt=tgt):
                st2.env.update(tgt)
            self.sym_loop([('rng', j, ZERO, last)], [], pre, s.body, st, fr, s, skip={cand})
            st.env.update(after)
            return None
        self.uns(s, 'while loop not summarised')

    def floordiv(self, a, b):
        if b == ONE:
            return a
        if a.is_const() and b.is_const() and b.const() != 0:
            import math
            return const(math.floor(a.const() / b.const()))
        return atom(('floor', a / b))

    # ------------------------------------------------------------ loops
    def assigned(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)
        return out

    def st_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        if s.orelse and any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            self.uns(s, 'else clause of a loop that can break')
        r = self.for_over(it, s.target, s.body, st, fr, s)
        if s.orelse and r is None and st.alive:
            return self.block(s.orelse, st, fr)
        return r

    def for_over(self, it, target, body, st, fr, s):
        if isinstance(it, Ch):
            for c, x in self.alts(st, it):
                a, b = st.fork(), st.fork()
                a.pc.append(c)
                b.pc.append(c_not(c))
                if self.facts(st).decide(c) is False:
                    continue
                self.for_over(x, target, body, a, fr, s)
                self.join(st, a, b, c)
            return None
        items = self.concrete_iter(it, st)
        if items is not None:
            for x in items:
                if len(items) > 200:
                    self.uns(s, 'long concrete loop')
                self.assign(target, x, st, fr, s)
                savec = getattr(fr, 'conts', None)
                fr.conts = []
                base = list(st.pc)
                r = self.block(body, st, fr)
                if r is BREAK and fr.conts:
                    self.uns(s, 'break and continue under conditions')
                self.merge_conts(st, fr, base)
                fr.conts = savec
                if not st.alive:
                    return None
                if r is BREAK:
                    return None
            return None
        for binders, pcs, mk in self.iter_parts(it, st, s):
            def pre(st2, mk=mk):
                self.assign(target, mk(st2), st2, fr, s)
            skip = set(self.assigned([ast.Assign(targets=[target], value=ast.Constant(0), lineno=0)])) if target is not None else set()
            self.sym_loop(binders, pcs, pre, body, st, fr, s, skip)
        return None

    def merge_conts(self, st, fr, base):
        for dead in reversed(fr.conts):
            if dead.pc[:len(base)] != base:
                raise Unsupported('continue under conditions that were changed')
            c = c_and(*dead.pc[len(base):])     # all that leads to this continue within the loop body
            live = st.fork()
            live.alive = st.alive
            self.join(st, dead, live, c)
            if not st.alive and dead.alive:
                st.take(dead)
        if fr.conts:
            st.pc = list(base)                  # both kinds of path go on from here

    def concrete_iter(self, it, st):
        if isinstance(it, Ref) and st.heap[it.id].kind == 'list' and st.heap[it.id].isset:
            raise Unsupported('iteration over a set')
        if isinstance(it, SymSeqC):
            return list(it.items)
        if isinstance(it, Tup):
            if any(isinstance(x, Rep) for x in it.items):
                return None
            return list(it.items)
        if isinstance(it, Rng):
            if it.lo.is_int() and it.hi.is_int() and it.step.is_int() and it.step.const() != 0:
                return [Num(const(i)) for i in range(int(it.lo.const()), int(it.hi.const()), int(it.step.const()))]
            return None
        if isinstance(it, Ref):
            o = st.heap[it.id]
            if o.kind == 'list' and not o.segs:
                return list(o.items)
            if o.kind == 'dict' and not o.sym and not o.memo:
                return [kv for kv, _ in o.conc.values()]
            if o.kind == 'poly' and o.origin.startswith('literal:'):
                return self.literal_terms(o, 'keys')
            return None
        if isinstance(it, View):
            if it.kind in ('items', 'keys', 'values') and isinstance(it.src, Ref) and st.heap[it.src.id].kind == 'poly' and \
                    st.heap[it.src.id].origin.startswith('literal:'):
                return self.literal_terms(st.heap[it.src.id], it.kind)
            if it.kind == 'enumerate':
                x = self.concrete_iter(it.src[0], st)
                return None if x is None else [Tup([Num(const(i) + it.src[1]), y]) for i, y in enumerate(x)]
            if it.kind == 'zip':
                xs = [self.concrete_iter(y, st) for y in it.src]
                return None if any(x is None for x in xs) else [Tup(t) for t in zip(*xs)]
            if it.kind == 'product':
                xs = [self.concrete_iter(y, st) for y in it.src]
                return None if any(x is None for x in xs) else [Tup(t) for t in itertools.product(*xs)]
            if it.kind == 'reversed':
                x = self.concrete_iter(it.src, st)
                return None if x is None else x[::-1]
            if it.kind in ('ditems', 'dkeys', 'dvalues'):
                o = st.heap[it.src.id]
                if o.sym or o.memo:
                    return None
                if it.kind == 'ditems':
                    return [Tup([kv, v]) for kv, v in o.conc.values()]
                return [kv if it.kind == 'dkeys' else v for kv, v in o.conc.values()]
        if isinstance(it, Const) and isinstance(it.v, str):
            return [Const(x) for x in it.v]
        return None

    def literal_terms(self, o, kind):
        """the terms of a poly given term by term"""
        out = []
        for e in o.log:
            if e.op != 'add' or e.bs or e.pc:
                return None
            k = Tup([self.uncomp(x) for x in e.key], o.kf)
            v = Num(e.co, e.ty)
            out.append(k if kind == 'keys' else v if kind == 'values' else Tup([k, v]))
        return out

    def rng_binder(self, it, s):
        step = it.step
        if not step.is_int() or step.is_zero():
            self.uns(s, 'range step')
        k = int(step.const())
        v = self.fresh('i')
        if k == 1:
            return ('rng', v, it.lo, it.hi - 1), Num(var(v))
        if k == -1:
            # ascending binder over the same set; index runs downwards
            return ('rng', v, it.hi + 1, it.lo, 'down'), Num(var(v))
        cnt = self.floordiv(it.hi - it.lo - (1 if k > 0 else -1), const(k))
        return ('rng', v, ZERO, cnt), Num(it.lo + var(v) * k)

    def iter_parts(self, it, st, s):
        """[(binders, pcs, mk(st) -> value)] for a symbolic iterable; register coefficients"""
        if isinstance(it, Ref) and st.heap[it.id].kind == 'list' and st.heap[it.id].isset:
            raise Unsupported('iteration over a set')
        if isinstance(it, Rng):
            if it.lo.is_zero() and it.step == ONE:
                t0 = t0_of_len(it.hi)
                if t0 is not None:
                    b = self.fresh('t')
                    self.t0idx[b] = t0
                    v = Num(atom(('t0i', b)))
                    return [([('t0', b, t0.fs[0])], [c_ge(it.hi - 1)], lambda st2: v)]
            b, v = self.rng_binder(it, s)
            return [([b], [], lambda st2: v)]
        if isinstance(it, View) and it.kind == 'enumerate' and isinstance(it.src[0], T0V) and len(it.src[0].fs) == 1 \
                and it.src[0].fs[0][0] == 'path' and it.src[1].is_zero():
            b = self.fresh('t')
            self.t0idx[b] = it.src[0]
            w = Tup([Num(atom(('t0i', b))), Tup([Num(atom(('t0e', b, const(i)))) for i in range(3)])])
            return [([('t0', b, it.src[0].fs[0])], [c_ge(atom(('t0len', it.src[0])) - 1)], lambda st2: w)]
        if isinstance(it, Ref) and st.heap[it.id].kind == 'poly':
            return self.poly_parts(it, 'keys', st, s)
        if isinstance(it, View) and it.kind in ('items', 'keys', 'values', 'terms'):
            return self.poly_parts(it.src, it.kind, st, s)
        if isinstance(it, Ref) and st.heap[it.id].kind == 'list':
            o = st.heap[it.id]
            out = [([], [], (lambda x: lambda st2: x)(x)) for x in o.items]
            if o.segs and not o.items and o.length is None:
                n = self.list_len(o, it, st)
                for bs, pcs, v in o.segs:
                    a, b, c = self.part_of(bs, pcs, v)
                    out.append((a, list(b) + [c_ge(n - 1)], c))
                return out
            for bs, pcs, v in o.segs:
                out.append(self.part_of(bs, pcs, v))
            return out
        if isinstance(it, SymSeq):
            return [self.part_of(bs, pcs, v) for bs, pcs, v in it.parts]
        tref = it if isinstance(it, Ref) else (it.src if isinstance(it, View) and it.kind in ('dkeys', 'ditems') else None)
        if isinstance(tref, Ref) and st.heap[tref.id].kind == 'dict':
            # the keys present in a table: unknown, but of the table's arity
            o = st.heap[tref.id]
            F = self.memo_fn(o, None, s)
            n = len(self.specs[F].args)
            b = self.fresh('t')
            kv = [Num(atom(('key', b, '*i', const(i)))) for i in range(n)]
            kv = Tup(kv) if n > 1 else kv[0]

            def mk(st2):
                if isinstance(it, View) and it.kind == 'ditems':
                    return Tup([kv, self.table_read(st2.heap[tref.id], tref, kv, st2, s)])
                return kv
            return [([('tk', b, n, tref.id)], [], mk)]
        if isinstance(it, T0V):
            if len(it.fs) == 1 and it.fs[0][0] == 'path':
                b = self.fresh('t')
                v = Tup([Num(atom(('t0e', b, const(i)))) for i in range(3)])
                return [([('t0', b, it.fs[0])], [c_ge(atom(('t0len', it)) - 1)], lambda st2: v)]
            self.uns(s, 'iteration over a composed denominator tuple')
        if isinstance(it, View) and it.kind == 'product':
            lists = []
            for y in it.src:
                c = self.concrete_iter(y, st)
                if c is not None:
                    lists.append([([], [], (lambda x: lambda st2: x)(x)) for x in c])
                else:
                    lists.append(self.iter_parts(y, st, s))
            out = []
            for combo in itertools.product(*lists):
                bs = [b for p in combo for b in p[0]]
                pc = [c for p in combo for c in p[1]]
                out.append((bs, pc, (lambda cb: lambda st2: Tup([p[2](st2) for p in cb]))(combo)))
            return out
        if isinstance(it, View) and it.kind == 'reversed':
            x = it.src
            if isinstance(x, Rng):
                return self.iter_parts(x, st, s)
        if isinstance(it, View) and it.kind == 'enumerate' and isinstance(it.src[0], Rng):
            b, v = self.rng_binder(it.src[0], s)
            r = it.src[0]
            idx = (v.e - r.lo) / r.step + it.src[1]
            return [([b], [], lambda st2: Tup([Num(idx), v]))]
        if isinstance(it, Opq):
            self.uns(s, 'iteration over an opaque sequence')
        self.uns(s, 'iteration over %s' % type(it).__name__)

    def part_of(self, bs, pcs, v):
        mv, mb = {}, {}
        for b in bs:
            nb = self.fresh(str(b[1]))
            if b[0] == 'rng':
                mv[b[1]] = var(nb)
            mb[b[1]] = nb
        f = ren_f(mv, mb)
        nbs = [ren_b(b, f, mb) for b in bs]
        npc = [c_subst(c, f) for c in pcs]
        nv = self.val_subst(v, f, mb)
        return (nbs, npc, lambda st2: self.thaw(st2, nv))

    def poly_parts(self, ref, kind, st, s):
        o = st.heap[ref.id]
        out = []
        log = self.as_adds(st, o)
        px = self.id_px(o)
        for em0 in log:
            for em in self.inst_ems(em0):
                em = self.rename_em(em)
                kf = o.kf
                if isinstance(em.key, Opq):
                    keyv = em.key
                else:
                    keyv = Tup([self.uncomp(c) for c in em.key], kf)
                co = Num(em.co, 'float' if em.ty == 'float' else 'frac')

                def mk(st2, keyv=keyv, co=co):
                    st2.keyco.append((ref.id, self.comp(keyv), co, px))
                    if kind == 'keys':
                        return keyv
                    if kind == 'values':
                        return co
                    return Tup([keyv, co])
                out.append((list(em.bs), list(em.pc), mk))
        # linearity is required when keys can coincide across emissions
        if len(out) > 1 or (log and not self.is_px(log[0])):
            self.linear_iter = True
        return out

    def is_px(self, em):
        return em.px is not None or (isinstance(em.key, tuple) and em.key and em.key[0] == 'id')

    def sym_loop(self, binders, pcs, pre, body, st, fr, s, skip=()):
        F = self.facts(st)
        st2 = st.fork()
        lens = {}
        for k, o in st2.heap.items():
            if o.kind == 'poly':
                lens[k] = len(o.log)
            elif o.kind == 'list':
                lens[k] = (len(o.items), len(o.segs))
            else:
                lens[k] = len(o.stores)
        before = dict(st.env)
        pc0 = list(st.pc)
        nb0 = len(self.binders)
        self.binders.extend(binders)
        for c in pcs:
            if c not in st2.pc:
                st2.pc.append(c)
        hyp = [c for c in pcs if is_len_hyp(c)]
        hyp += [c_ge(atom(('t0len', T0V([b[2]]))) - 1) for b in binders if b[0] == 't0']
        if hyp:             # inside the loop the sequence is not empty: conditions that say so are void
            st2.pc = [c for c in st2.pc if c not in hyp and
                      (not has_len(c) or Facts(hyp).decide(c) is not True)]
            pcs = [c for c in pcs if c not in hyp]
        srcs = [b[2] for b in binders if b[0] == 'pt']
        if srcs:            # inside the loop over its terms a poly is not empty
            st2.pc = [c for c in st2.pc if not (c[0] == 'ne' and nonempty_of(c, srcs))]
        carried = {}
        names = [n for n in self.assigned(body) if n in before and n not in skip]
        for nm in names:
            v = before[nm]
            if isinstance(v, Num):
                cv = self.fresh('carry_' + nm)
                carried[nm] = ('num', cv)
                st2.env[nm] = Num(var(cv), v.ty)
            elif isinstance(v, Const) or isinstance(v, Cond):
                carried[nm] = ('poison', None)
                st2.env[nm] = Poison('%s carried between iterations' % nm)
            elif isinstance(v, Ref) and st.heap[v.id].kind == 'poly':
                cid = self.fresh('carryp_' + nm)
                o = self.opaque_poly(('carry', cid), st.heap[v.id].kf or ())
                # an object mutated in place (not rebound) keeps its identity
                if self.rebinds(body, nm):
                    r = self.new(st2, o)
                    st2.env[nm] = r
                    carried[nm] = ('poly', cid, v, r)
            elif isinstance(v, T0V):
                cid = self.fresh('carryt_' + nm)
                carried[nm] = ('t0', cid)
                st2.env[nm] = T0V([('carry', cid)])
            else:
                carried[nm] = ('poison', None)
                st2.env[nm] = Poison('%s carried between iterations' % nm)
        grow = {}
        for nm in self.appended(body):
            v = before.get(nm)
            if isinstance(v, Ref) and v.id in st2.heap and st2.heap[v.id].kind == 'list' and v.id not in self.growing:
                g = self.fresh('len')
                grow[v.id] = g
                self.growing[v.id] = var(g)
                st2.heap[v.id].n_at_loop = len(st2.heap[v.id].items)
        pre(st2)
        nfill = len(self.filling)
        for nm in sorted(self.refilled(body)):
            v = before.get(nm)
            if isinstance(v, Ref) and v.id in st2.heap and st2.heap[v.id].kind == 'dict':
                self.filling.append(v.id)
        fr.loopdepth += 1
        saveconts = getattr(fr, 'conts', None)
        fr.conts = []
        base2 = list(st2.pc)
        try:
            r = self.block(body, st2, fr)
            self.merge_conts(st2, fr, base2)
        finally:
            fr.loopdepth -= 1
            fr.conts = saveconts
            del self.binders[nb0:]
            del self.filling[nfill:]
            for k in grow:
                self.growing.pop(k, None)
        if r is BREAK:
            self.uns(s, 'unconditional break in a summarised loop')
        if not st2.alive:
            return      # the body always raises
        # ---- carried values
        sub = {}
        newenv = dict(before)
        base = len(pc0)
        single = binders[0] if len(binders) == 1 and binders[0][0] == 'rng' else None
        tempnames = []
        for nm in self.assigned(body):
            fin = st2.env.get(nm)
            if nm in skip or nm not in carried:
                tempnames.append(nm)
                continue
            info = carried[nm]
            if info[0] == 'num':
                newenv[nm] = self.fold_num(info[1], before[nm], fin, binders, pcs, pc0, st2, single, sub, s)
            elif info[0] == 't0':
                newenv[nm] = self.fold_t0(info[1], before[nm], fin, binders, s)
            elif info[0] == 'poly':
                newenv[nm] = self.fold_poly(info, before[nm], fin, st, st2, binders, pcs, single, s)
            else:
                if isinstance(fin, Poison):
                    newenv[nm] = fin
                elif fin == before[nm]:
                    newenv[nm] = before[nm]
                else:
                    newenv[nm] = Poison('%s assigned in a loop' % nm)
        cvars = {info[1] for info in carried.values() if info[0] == 'num'}
        for k, g in grow.items():
            cvars.add(g)
            o0, o2 = st.heap[k], st2.heap[k]
            ni, ns = len(o2.items) - len(o0.items), len(o2.segs) - len(o0.segs)
            l0 = o0.length if o0.length is not None else (const(len(o0.items)) if not o0.segs else None)
            if l0 is not None and single is not None and ni + ns == 1 and \
                    not (ns and (o2.segs[-1][0] or o2.segs[-1][1])) and len(st2.pc) == len(pc0) + len(pcs):
                v = var(single[1])
                idx = (v - single[2]) if len(single) < 5 else (single[3] - v)
                sub[g] = l0 + idx
        nonempty = single is not None and F.is_ge(single[3] - single[2])
        last = None
        if nonempty:
            last = single[2] if len(single) > 4 else single[3]
        # ---- heap effects

        def fix(x):
            return x

        def fsub(a):
            if a[0] == 'v' and a[1] in sub:
                return sub[a[1]]
            if a[0] == 'v' and a[1] in cvars:
                raise Unsupported('value of a loop-carried variable used in a loop (line %d)' % s.lineno)
            return None
        bt = tuple(binders)
        for k, o in st2.heap.items():
            if k not in lens:
                continue
            so = st.heap[k]
            if o.kind == 'poly':
                suffix = o.log[lens[k]:]
                if any(e.op not in ('add', 'rmw', 'dropzero') for e in suffix) and len(suffix) > 1 and \
                        not all(e.op == 'set' for e in suffix):
                    pass
                for em in suffix:
                    if cvars:
                        em = em.subst(fsub)
                    if mentions_carry(em):
                        raise Unsupported('loop-carried poly used in a loop (line %d)' % s.lineno)
                    so.log.append(Em(em.op, bt + em.bs, em.pc, em.key, em.co, em.ty, em.line, em.px))
                so.kf = o.kf
            elif o.kind == 'list':
                n0, n1 = lens[k]
                if len(o.items) < n0 or any(not (x == y) for x, y in zip(o.items[:n0], so.items)):
                    raise Unsupported('list changed in a summarised loop (line %d)' % s.lineno)
                grown = [(tuple(binders), tuple(st2.pc[base:]), self.freeze(st2, x)) for x in o.items[n0:]]
                grown += [(tuple(binders) + tuple(b), tuple(p), v) for b, p, v in o.segs[n1:]]
                if grown:
                    if cvars or True:
                        grown = [(b, tuple(c_subst(c, fsub) for c in p), self.val_subst(v, fsub, {})) for b, p, v in grown]
                    if so.segs and so.length is None:
                        so.length = None
                    elif len(grown) == 1 and not grown[0][1] and single is not None and len(grown[0][0]) == 1:
                        cnt = single[3] - single[2] + 1
                        base_len = so.length if so.length is not None else const(len(so.items))
                        so.length = base_len + cnt if nonneg_count(F, cnt) else None
                    else:
                        so.length = None
                    so.segs.extend(grown)
            else:
                for t in o.stores[lens[k]:]:
                    b, p, kv, v, ln = t
                    so.stores.append((tuple(binders) + tuple(b), tuple(c_subst(c, fsub) for c in p),
                                      self.val_subst(kv, fsub, {}), self.val_subst(v, fsub, {}), ln))
                    so.sym = True
                so.sym = so.sym or o.sym
                if o.memo and not so.memo:
                    so.memo = o.memo
        # ---- temporaries
        def flast(a):
            if a == ('v', single[1]):
                return last
            r = fsub(a)
            return None if r is None else sub_vars(r, {single[1]: last})
        for nm in tempnames:
            fin = st2.env.get(nm)
            if fin is None:
                newenv.pop(nm, None)
                continue
            if last is not None and isinstance(fin, (Num, Tup, T0V)) and not has_poison(fin):
                try:
                    newenv[nm] = self.val_subst(fin, flast, {})
                except Unsupported as e:
                    newenv[nm] = Poison(str(e))
            elif last is not None and self.poly(st2, fin) and fin.id not in lens:
                pv = self.freeze(st2, fin)
                pv2 = self.val_subst(pv, flast, {})
                # keep the condition under which the loop runs at all
                newenv[nm] = self.thaw(st, pv2)
            elif isinstance(fin, Ref) and fin.id in lens:
                newenv[nm] = fin
            elif isinstance(fin, (Const, Fn, ModV)) and nm not in before and not st2.pc[base + len(pcs):]:
                newenv[nm] = fin if last is not None else Poison('%s assigned in a loop' % nm)
            else:
                newenv[nm] = Poison('%s assigned in a loop' % nm)
        st.env = newenv

    def refilled(self, body):
        """names through which a loop body may change which entries a table has"""
        par = {}
        for s in body:
            for n in ast.walk(s):
                for c in ast.iter_child_nodes(n):
                    par[c] = n
        out = set()
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                    continue
                q = par.get(n)
                if isinstance(q, ast.Subscript) and q.value is n and isinstance(q.ctx, ast.Load):
                    continue
                if isinstance(q, ast.Compare):
                    continue
                if isinstance(q, ast.Attribute) and q.attr in ('get', 'items', 'keys', 'values', 'copy'):
                    continue
                out.add(n.id)
        return out

    def appended(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id not in out:
                    out.append(n.func.value.id)
        return out

    def rebinds(self, body, nm):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store):
                    return True
        return False

    def fold_num(self, cv, init, fin, binders, pcs, pc0, st2, single, sub, s):
        a = ('v', cv)
        if isinstance(fin, Poison):
            return fin
        try:
            alts = self.alts(st2, fin)
        except Unsupported as e:
            return Poison(str(e))
        if not all(isinstance(v, Num) for _, v in alts):
            return Poison('loop-carried value of changing type')
        dep = any(a in atoms_of(v.e) for _, v in alts)
        if not dep:
            F = Facts(self.requires + pc0)
            if single is not None and F.is_ge(single[3] - single[2]) and len(alts) == 1:
                l = single[2] if len(single) > 4 else single[3]
                return Num(sub_vars(alts[0][1].e, {single[1]: l}), alts[0][1].ty)
            return Poison('variable assigned in a loop')
        ty = init.ty
        adds, muls = [], []
        for c, v in alts:
            ty = 'float' if v.ty == 'float' or ty == 'float' else ('frac' if 'frac' in (v.ty, ty) else ty)
            lq = linear_in(v.e, a)
            if lq is None:
                return Poison('loop-carried update is not linear')
            p, q = lq
            if p == ONE:
                adds.append((c, q))
            elif q.is_zero():
                muls.append((c, p))
            else:
                return Poison('loop-carried update is affine')
        if adds and not muls:
            adds = [(c, q) for c, q in adds if not q.is_zero()]
            tot = init.e
            for c, q in adds:
                tot = tot + sumx(binders, [c] + list(pcs), q)
            if single is not None and len(alts) == 1 and adds and not vars_of(adds[0][1]) & {single[1]}:
                d = adds[0][1]
                v = var(single[1])
                idx = (v - single[2]) if len(single) < 5 else (single[3] - v)
                sub[cv] = init.e + d * idx
            elif single is not None and len(alts) == 1 and not adds:
                sub[cv] = init.e
            return Num(tot, ty)
        if muls and not [x for x in adds if not x[1].is_zero()]:
            if len(muls) == 1 and len(alts) == 1:
                q = muls[0][1]
                r = prodx(binders, list(pcs), q, Facts(self.requires + pc0, self.binders))
                if single is not None and not vars_of(q) & {single[1]}:
                    v = var(single[1])
                    idx = (v - single[2]) if len(single) < 5 else (single[3] - v)
                    sub[cv] = init.e * power(q, idx)
                return Num(init.e * r, ty)
            r = ONE
            for c, q in muls:
                r = r * prodx(binders, [c] + list(pcs), q, Facts(self.requires + pc0 + [c], self.binders))
            return Num(init.e * r, ty)
        return Poison('loop-carried value')

    def fold_t0(self, cid, init, fin, binders, s):
        if not isinstance(fin, T0V):
            return Poison('denominator tuple')
        rest = [f for f in fin.fs if f != ('carry', cid)]
        if len(rest) != len(fin.fs) - 1:
            return Poison('denominator tuple update')
        if len(binders) == 1 and binders[0][0] == 't0':
            b, path = binders[0][1], binders[0][2]
            whole = ('tri', atom(('t0e', b, ZERO)), atom(('t0e', b, ONE)), atom(('t0e', b, const(2))))
            if rest == [whole]:
                return T0V(list(init.fs) + [path])
        return Poison('denominator tuple update')

    def fold_poly(self, info, init, fin, st, st2, binders, pcs, single, s):
        _, cid, ref0, ref = info
        if not (isinstance(fin, Ref) and st2.heap[fin.id].kind == 'poly'):
            return Poison('loop-carried poly')
        o = st2.heap[fin.id]
        if fin == ref and len(o.log) == 1:
            return init
        log = self.as_adds(st2, o)
        carry = [e for e in log if e.px == ('carry', cid)]
        rest = [e for e in log if e.px != ('carry', cid)]
        if len(carry) == 1 and carry[0].co == atom(('coef', carry[0].bs[0][1])) and len(carry[0].bs) == 1 and \
                not any(mentions_px(e, ('carry', cid)) for e in rest):
            extra = [c for c in carry[0].pc if c not in st.pc]
            extra = [c for c in extra if c not in pcs]
            if extra:
                return Poison('conditional accumulation')
            so = st.heap[ref0.id].clone()
            n = PolyObj(o.kf or so.kf, so.log)
            for e in rest:
                n.log.append(Em(e.op, tuple(binders) + e.bs, e.pc, e.key, e.co, e.ty, e.line, e.px))
            return self.new(st, n)
        if not any(mentions_px(e, ('carry', cid)) for e in log):
            if single is not None and Facts(self.requires + st.pc, self.binders).is_ge(single[3] - single[2]):
                l = single[2] if len(single) > 4 else single[3]
                pv = self.freeze(st2, fin)
                return self.thaw(st, self.val_subst(pv, lambda a: l if a == ('v', single[1]) else None, {}))
            return Poison('poly assigned in a loop')
        # product fold: every term is carry * q
        pr = getattr(o, 'prov', None)
        if pr and pr[0] == 'mul' and single is not None:
            a, b = pr[1], pr[2]
            other = None
            if isinstance(a, PV) and is_carry(a, cid):
                other = b
            elif isinstance(b, PV) and is_carry(b, cid):
                other = a
            if other is not None and not any(mentions_px(e, ('carry', cid)) for e in other.ems):
                init_pv = self.freeze(st, ref0)
                if single[1] not in pv_vars(other):
                    cnt = single[3] - single[2] + 1
                    px = ('polypow', init_pv, other, cnt)
                else:
                    px = ('polyprod', init_pv, tuple(binders), other)
                return self.new(st, self.opaque_poly(px, o.kf))
        return Poison('loop-carried poly update')

    def val_subst(self, v, f, mb):
        if isinstance(v, Num):
            return Num(subst(v.e, f), v.ty)
        if isinstance(v, Tup):
            return Tup([self.val_subst(x, f, mb) for x in v.items], v.kf)
        if isinstance(v, Rep):
            return Rep(self.val_subst(v.v, f, mb), subst(v.count, f))
        if isinstance(v, PV):
            return PV(v.kf, [ren_em(e, f, mb) for e in v.ems])
        if isinstance(v, T0V):
            return k_subst_b(v, f, mb)
        if isinstance(v, Ch):
            return Ch([(c_subst(c, f), self.val_subst(x, f, mb)) for c, x in v.alts])
        if isinstance(v, Cond):
            return Cond(c_subst(v.c, f))
        if isinstance(v, LV):
            return LV([self.val_subst(x, f, mb) for x in v.items],
                      [(tuple(ren_b(b2, f, mb) for b2 in b), tuple(c_subst(c, f) for c in p), self.val_subst(x, f, mb))
                       for b, p, x in v.segs], None if v.length is None else subst(v.length, f))
        if isinstance(v, Opq):
            if len(v.path) > 1 and v.path[1] in mb:
                return Opq((v.path[0], mb[v.path[1]]) + v.path[2:], v.kind)
            return v
        return v
