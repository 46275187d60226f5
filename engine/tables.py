"""Tables of lower orders: what a derivation stores, looks up and discards, from the order in which its loops do it.

The events (store, look-up, removal, hand-over of a table to another function) of a function are found by abstract
interpretation with symbolic orders; here they are laid out, loop by loop, at every order up to a bound, and each look-up
must find what an earlier store left."""
import itertools
import math
from fractions import Fraction
from . import checker, geval
from . import specapi as S
from .expr import Absent, Unsupported, E
from .literal import Report
from .values import Const, Num, Ref, Tup


class Unknown(Exception):
    pass


def ex(e):
    """an expression over integers, as a Python function of the environment"""
    if not isinstance(e, E):
        raise Unknown('not a number')
    terms = []
    for m, c in e.t.items():
        fs = []
        for b, x in m:
            if not x.is_const() or x.const() < 0 or x.const().denominator != 1:
                raise Unknown('power')
            fs.append((at(b), int(x.const())))
        terms.append((Fraction(c), fs))
    if all(len(fs) <= 1 and all(n == 1 for f, n in fs) and c.denominator == 1 for c, fs in terms):
        k = sum(int(c) for c, fs in terms if not fs)
        lin = [(int(c), fs[0][0]) for c, fs in terms if fs]
        if not lin:
            return lambda env: k
        if len(lin) == 1 and lin[0][0] == 1:
            f = lin[0][1]
            return (lambda env: f(env) + k) if k else f
        return lambda env: sum(c * f(env) for c, f in lin) + k

    def val(env):
        r = Fraction(0)
        for c, fs in terms:
            for f, n in fs:
                c = c * f(env) ** n
            r += c
        return r
    return val


def at(b):
    if b[0] == 'v':
        n = b[1]
        return lambda env: env[n]
    if b[0] == 'key' and b[2] == '*i':
        n, i = b[1], b[3]
        i = int(i.const()) if isinstance(i, E) else i
        return lambda env: env[n][i]
    if b[0] == 'floor':
        f = ex(b[1])
        return lambda env: math.floor(f(env))
    if b[0] in ('min', 'max'):
        f, g, h = ex(b[1]), ex(b[2]), {'min': min, 'max': max}[b[0]]
        return lambda env: h(f(env), g(env))
    if b[0] == 'mod':
        f, g = ex(b[1]), ex(b[2])
        return lambda env: f(env) % g(env)
    if b[0] == 'c':
        v = Fraction(b[1])
        return lambda env: v
    raise Unknown('atom %s' % b[0])


def cnd(c):
    if c is True or c is False:
        return lambda env: c
    t = c[0]
    if t in ('ge', 'gte'):
        f = ex(c[1])
        return lambda env: f(env) >= 0
    if t == 'gt':
        f = ex(c[1])
        return lambda env: f(env) > 0
    if t == 'eq':
        f = ex(c[1])
        return lambda env: f(env) == 0
    if t == 'ne':
        f = ex(c[1])
        return lambda env: f(env) != 0
    if t in ('and', 'or'):
        fs = [cnd(x) for x in c[1]]
        return (lambda env: all(f(env) for f in fs)) if t == 'and' else (lambda env: any(f(env) for f in fs))
    raise Unknown('condition %s' % t)


class Ev:
    """one event, compiled"""

    def __init__(self, e):
        self.what, self.oid, self.key, self.line, self.pc, self.bs = e
        self.maybe = False              # under a condition or a loop that is not known
        self.pts = []
        self.conds = []
        for c in self.pc:
            try:
                self.conds.append(cnd(c))
            except Unknown:
                self.maybe = True
        if self.what == 'call':
            self.fq, self.sp, comps = self.key
            self.args = []
            for c in comps:
                try:
                    if isinstance(c, Const):
                        self.args.append(lambda env, v=c.v: v)
                    else:
                        self.args.append(ex(c.e) if isinstance(c, Num) else None)
                except Unknown:
                    self.args.append(None)
        elif self.what in ('new', 'copy'):
            pass
        else:
            items = list(self.key.items) if isinstance(self.key, Tup) else [self.key]
            try:
                fs = [ex(x.e) for x in items]
                self.keyf = lambda env: tuple(int(f(env)) for f in fs)
            except (Unknown, AttributeError):
                self.keyf = None


class Loop:
    def __init__(self, b):
        self.b, self.body = b, []
        self.kind = b[0]
        if b[0] == 'rng':
            self.lo, self.hi = ex(b[2]), ex(b[3])
            self.down = len(b) > 4 and b[4] == 'down'


def tree(events):
    root = []

    def put(body, e, bs):
        if not bs:
            body.append(e)
            return
        b = bs[0]
        if body and isinstance(body[-1], Loop) and body[-1].b[:2] == b[:2]:
            lp = body[-1]
        else:
            lp = Loop(b)
            body.append(lp)
        put(lp.body, e, bs[1:])
    for e in events:
        put(root, e, list(e.bs))
    return root


class Missing(Exception):
    def __init__(self, fq, line, key, chain):
        self.fq, self.line, self.key, self.chain = fq, line, key, chain


class Fn:
    def __init__(self, w, sp, case):
        s = w.run(sp, case, 'code')
        self.fq = sp.fq
        self.names = list(sp.args)
        self.params = s.param_ids
        self.tree = tree([Ev(e) for e in s.events])
        self.sum = s
        self.count = len(s.events)


class Sim:
    def __init__(self, w, own=None):
        self.w, self.fns, self.und = w, {}, set()
        self.lookups = 0
        self.vague = set()
        self.own = own or {}

    def fn(self, fq, sp, case):
        k = (fq, tuple(sorted(case.items())))
        if k not in self.fns:
            try:
                self.fns[k] = Fn(self.w, sp, case)
            except Absent as x:
                if x.sure:
                    raise Missing(fq, x.line, '', [])
                self.fns[k] = str(x)
            except (Unsupported, Unknown) as x:
                self.fns[k] = str(x)
        return self.fns[k]

    def run(self, fq, sp, args, tables, chain=()):
        """args: values of sp.args (None: unknown); tables: parameter name -> set of keys"""
        case = {n: v for n, v in zip(sp.args, args) if isinstance(sp.kinds[n], tuple) and sp.kinds[n][0] == 'enum'}
        f = self.fn(fq, sp, case)
        if isinstance(f, str):
            self.und.add('%s: %s' % (fq, f))
            return None
        env = {n: v for n, v in zip(f.names, args) if v is not None}
        heap = {oid: tables[n] for oid, n in f.params.items() if n in tables}
        chain = chain + ((fq, tuple(args)),)
        self.walk(f, f.tree, env, heap, chain, False)
        self.heap, self.last = heap, f
        return heap

    def walk(self, f, body, env, heap, chain, maybe):
        for x in body:
            if isinstance(x, Loop):
                if x.kind == 'rng':
                    lo, hi = x.lo, x.hi
                    try:
                        r = range(math.ceil(lo(env)), math.floor(hi(env)) + 1)
                    except (KeyError, TypeError):
                        self.und.add('%s: a loop over an unknown range' % f.fq)
                        continue
                    if len(r) > 400:
                        raise Unknown('long loop')
                    for i in reversed(r) if x.down else r:
                        env[x.b[1]] = i
                        self.walk(f, x.body, env, heap, chain, maybe)
                elif x.kind == 'tk':
                    for k in list(heap.get(x.b[3], ())):
                        env[x.b[1]] = k
                        self.walk(f, x.body, env, heap, chain, maybe)
                elif x.kind == 'pt':
                    self.walk(f, x.body, env, heap, chain, maybe or x.b)
                else:
                    self.und.add('%s: a loop over %s' % (f.fq, x.kind))
                continue
            if x.maybe and x.what == 'put':
                self.vague.add(x.oid)
                continue
            if x.maybe:
                if x.what != 'read':
                    self.und.add('%s line %s: under an unknown condition' % (f.fq, x.line))
                    if x.what == 'store':
                        self.do_store(x, env, heap)
                continue
            try:
                if not all(c(env) for c in x.conds):
                    continue
            except (KeyError, TypeError):
                self.und.add('%s line %s: condition' % (f.fq, x.line))
                continue
            if x.what == 'new':
                heap[x.oid] = set()
                self.vague.discard(x.oid)
                continue
            if x.what == 'copy':
                heap.setdefault(x.oid, set()).update(heap.get(x.key, ()))
                if x.key in self.vague:
                    self.vague.add(x.oid)
                continue
            if x.what == 'put':             # an item of a display; those of polynomials and keywords are of no interest
                try:
                    heap.setdefault(x.oid, set()).add(x.keyf(env))
                except (KeyError, TypeError):
                    self.vague.add(x.oid)
                continue
            if x.what == 'store':
                self.do_store(x, env, heap)
                continue
            if x.what == 'call':
                args = []
                for g in x.args:
                    try:
                        args.append(None if g is None else g(env))
                    except (KeyError, TypeError):
                        args.append(None)
                tabs = {n: heap.setdefault(o, set()) for n, o in x.oid.items()}
                if len(chain) < 8:
                    self.run(x.fq, x.sp, args, tabs, chain)
                continue
            if x.keyf is None:
                self.und.add('%s line %s: key' % (f.fq, x.line))
                continue
            try:
                k = x.keyf(env)
            except (KeyError, TypeError):
                self.und.add('%s line %s: key' % (f.fq, x.line))
                continue
            t = heap.setdefault(x.oid, set())
            self.lookups += 1
            if k in t or x.what == 'discard':
                if x.what != 'read':
                    t.discard(k)
                continue
            if x.oid in self.vague:
                self.und.add('%s line %s: look-up in a table with unknown keys' % (f.fq, x.line))
                continue
            if maybe and not self.nonempty(maybe, env):
                continue
            raise Missing(f.fq, x.line, k, chain)

    def do_store(self, x, env, heap):
        try:
            heap.setdefault(x.oid, set()).add(x.keyf(env))
        except (KeyError, TypeError):
            self.und.add('line %s: key of a store' % x.line)

    def nonempty(self, b, env):
        """the poly iterated over has a term"""
        try:
            e = geval.Ev(self.w)
            v = {n: Fraction(x) for n, x in env.items() if isinstance(x, int)}
            p = e.px(b[2], {'v': v, 'b': {}})
            return isinstance(p, geval.Poly) and any(c != 0 for c in p.d.values())
        except Exception:
            return False


# ---------------------------------------------------------------- the derivations
def comps(n, m):
    if m == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in comps(n - i, m - 1)]


A = 'ajdmom.'
#: function, number of orders, highest total order (quick, thorough); a flag that asks for all intermediate results
DRIVERS = [
    (A + 'ito_mom.moment_IEII', 3, 14, 20, None), (A + 'ito_cond_mom.moment_IEII', 3, 14, 20, None),
    (A + 'itos_mom.moment_IEI_IEII', 5, 7, 9, 'return_all'),
    (A + 'mdl_1fsv.cond_cmom.cmoments_y_to', 1, 16, 24, None), (A + 'mdl_svvj.cond2_cmom.cmoments_y_to', 1, 16, 24, None),
    (A + 'mdl_srjd.cond2_mom.moment_IE', 1, 40, 80, 'return_all'),
    (A + 'mdl_srjd.cond_ie_iez_mom.moment_ie', 1, 40, 80, None), (A + 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 2, 20, 30, None),
    (A + 'mdl_srjd.cond_ie_iez_cmom.moment_ie', 1, 40, 80, None), (A + 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 2, 20, 30, None),
    (A + 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 6, 6, 8, None),
]


def targets(m, n, tier):
    out = []
    for t in range(n + 1):
        c = comps(t, m)
        if m > 3 and t > 3:             # many orders: the corners, and a spread
            step = max(1, len(c) // (6 if t < n else 3))
            c = [x for i, x in enumerate(c) if max(x) == t or i % step == 0]
            if t >= 5:
                c = c[::max(1, len(c) // 4)]
        out += c
    return out


def one(w, pid, tier, item):
    fq, m, q, th, flag = item
    rep, und = Report(), set()
    r = w.prog.func(fq)
    if r is None:
        rep.lost.append('function %s not found' % fq)
        return rep.out(), und
    a = r[2].args
    ps = [x.arg for x in a.posonlyargs + a.args]
    old = w.reg.get(fq)
    if len(ps) < m:
        rep.lost.append('%s no longer takes %d orders' % (fq, m))
        return rep.out(), und
    kinds = {p: 'nat' for p in ps[:m]}
    flags = [None]
    if flag in ps:
        kinds[flag] = S.one_of(True, False)
        flags = [False, True]
    sp = S.Spec(fq, args=kinds, ret='any', prop=pid)
    if old is not None:
        sp.ignore, sp.memo = old.ignore, old.memo or fq
    for fl in flags:
        sim = Sim(w)
        ok = 0
        for pt in targets(m, q if tier == 'quick' else th, tier):
            args = list(pt) + ([fl] if fl is not None else [])
            at = '%s%s' % (pt if m > 1 else '(%d)' % pt, ' with %s=%s' % (flag, fl) if fl is not None else '')
            try:
                heap = sim.run(fq, sp, args, {})
            except Missing as x:
                via = '' if len(x.chain) < 2 else ' through %s' % ', '.join('%s%s' % (c[0].split('.')[-1], c[1]) for c in x.chain[1:])
                rep.bad(w, x.fq, 'missing', 'looks up%s a lower order that is not there at that moment'
                        % (' %s' % (x.key,) if x.key != '' else ''), 'in the derivation of %s%s%s' % (fq.split('.')[-1], at, via), x.line)
                break
            except (Unknown, RecursionError) as x:
                und.add('%s: %s' % (fq, x))
                break
            if heap is None:
                break
            ok += 1
            if fl:
                why = whole(sim, pt, heap)
                if why:
                    rep.bad(w, fq, 'incomplete', why, at)
                    break
        rep.count('orders_laid_out', ok)
        rep.count('look_ups_and_removals', sim.lookups)
        rep.count('functions_with_tables', len([f for f in sim.fns.values() if not isinstance(f, str) and f.count]))
        und |= sim.und
    return rep.out(), und


def whole(sim, pt, heap):
    """a request for all intermediate results gets every lower total order and the requested one"""
    f = sim.last
    for pc, v, st, raw in f.sum.rets:
        try:
            if not all(cnd(c)(dict(zip(f.names, pt))) for c in pc):
                continue
        except (Unknown, KeyError):
            continue
        if not (isinstance(raw, Ref) and st.heap[raw.id].kind == 'dict'):
            return 'does not return the table of all intermediate results'
        have = heap.get(raw.id, set())
        need = [k for t in range(sum(pt)) for k in comps(t, len(pt))] + [tuple(pt)]
        miss = [k for k in need if k not in have]
        if miss:
            return 'asked for all intermediate results, it leaves out %s' % (miss[0],)
    return None


def available(w, pid, tier, seed):
    rep, und = Report(), set()
    for (v, c, l), u in checker.parallel(w, lambda it: one(w, pid, tier, it), DRIVERS):
        rep.viol += v
        rep.lost += l
        und |= u
        for k, x in c.items():
            rep.count(k, x)
    rep.cover['derivations'] = len(DRIVERS)
    rep.cover['undecided'] = len(und)
    rep.cover['undecided_list'] = sorted(und)[:20]
    return rep.out()
