"""Decides equality of two summaries for every input: the difference of the two emission sets is
reduced to the empty set by rewriting (substitution of equalities, extension of ranges by a peeled
term, unfolding of helper functions) and by splitting on the conditions that occur in it.  Sound,
incomplete: 'not proved' says nothing."""
import itertools
from .expr import E, ONE, ZERO, const, var, atom, subst, power, vars_of, atoms_of, linear_in, sub_vars, Unsupported
from .values import (Em, PV, Num, Tup, Const, Cond, Ch, T0V, Opq, c_not, c_and, c_ge, c_subst, ren_em, ren_f, k_subst, norm_seq,
                     v_subst, flatcomp)
from .values import rename
from .facts import Facts
from . import normal
from .specapi import kf_at

LIMIT = 4000
DEBUG = False


class Stuck(Exception):
    pass


def flat(pcs):
    out = []
    for c in pcs:
        if isinstance(c, tuple) and c[0] == 'and':
            out.extend(flat(c[1]))
        elif c is not True:
            out.append(c)
    return out


def cond_vars(c):
    return {a[1] for a in atoms_of(c) if a[0] == 'v'}


def eq_subst(req):
    """substitution {var: E} from the equalities among the facts"""
    mp = {}
    for c in flat(req):
        if c[0] != 'eq':
            continue
        x = sub_vars(c[1], mp)
        if x.is_const():
            continue
        for a in sorted((a for a in atoms_of(x) if a[0] == 'v'), key=str):
            lq = linear_in(x, a)
            if lq and lq[0].is_const() and abs(lq[0].const()) == 1:
                e = -lq[1] / lq[0]
                if a[1] in vars_of(e):
                    continue
                mp = {k: sub_vars(v, {a[1]: e}) for k, v in mp.items()}
                mp[a[1]] = e
                break
    return mp


def sub_em(em, mp):
    if not mp:
        return em
    f = lambda a: mp.get(a[1]) if a[0] == 'v' else None
    for c in em.pc:
        if c_subst(c, f) is False:
            return Em(em.op, (), (False,), em.key, ZERO, em.ty, em.line)
    return em.subst(f)


def split_and(em):
    """disjunctive conditions make exclusive copies"""
    for i, c in enumerate(em.pc):
        if isinstance(c, tuple) and c[0] == 'or':
            out, neg = [], []
            for x in c[1]:
                pc = em.pc[:i] + tuple(neg) + (x,) + em.pc[i + 1:]
                out.extend(split_and(Em(em.op, em.bs, pc, em.key, em.co, em.ty, em.line)))
                neg.append(c_not(x))
            return out
        if isinstance(c, tuple) and c[0] == 'not' and c[1][0] == 'and':
            return split_and(Em(em.op, em.bs, em.pc[:i] + (('or', tuple(c_not(x) for x in c[1][1])),) + em.pc[i + 1:],
                                em.key, em.co, em.ty, em.line))
    return [em]


def elim(em, req):
    """remove range binders fixed by an equality"""
    changed = True
    while changed:
        changed = False
        r = normal.bounds_to_pc(em)
        if r is None:
            return None
        bs, pcs = r
        pcs = flat(pcs)
        ge = [c for c in pcs if c[0] == 'ge']
        pin = []
        for c, d in itertools.combinations(ge, 2):
            x = c[1] + d[1]
            if x.is_const():
                if x.const() < 0:
                    return None
                if x.is_zero():
                    pin.append(('eq', c[1]))
        em = Em(em.op, bs, pcs, em.key, em.co, em.ty, em.line)
        for b in bs:
            if b[0] != 'rngv':
                continue
            for c in pin + pcs:
                if c[0] == 'eq':
                    lq = linear_in(c[1], ('v', b[1]))
                    if lq and lq[0].is_const() and abs(lq[0].const()) == 1:
                        e = -lq[1] / lq[0]
                        if b[1] in vars_of(e) or not all(x.denominator == 1 for x in e.t.values()):
                            continue
                        nb = [x for x in em.bs if x[1] != b[1]]
                        em = sub_em(Em(em.op, nb, em.pc, em.key, em.co, em.ty, em.line), {b[1]: e})
                        changed = True
                        break
            if changed:
                break
    if any(c is False for c in em.pc):
        return None
    return em


def drop_ne(e):
    """a condition x != 0 is superfluous when the coefficient vanishes at x = 0"""
    pc = []
    for c in e.pc:
        if isinstance(c, tuple) and c[0] == 'ne' and e.co is not None:
            hit = False
            for a in atoms_of(c[1]):
                lq = linear_in(c[1], a) if a[0] in ('v', 'key', 'coef', 't0e') else None
                if lq and lq[0].is_const() and abs(lq[0].const()) == 1 and a not in atoms_of(lq[1]):
                    try:
                        z = subst(e.co, lambda y, a=a, v=-lq[1] / lq[0]: v if y == a else None)
                    except Unsupported:
                        continue
                    if z.is_zero():
                        hit = True
                        break
            if hit:
                continue
        pc.append(c)
    return e if len(pc) == len(e.pc) else Em(e.op, e.bs, pc, e.key, e.co, e.ty, e.line)


def reduce(ems, req):
    """combine a signed list of emissions into canonical items"""
    mp = eq_subst(req)
    out = []
    for em in ems:
        em = sub_em(em, mp)
        if any(c is False for c in em.pc):
            continue
        for e in split_and(em):
            e = elim(e, req)
            if e is not None:
                out.append(drop_ne(e))
    acc = normal.canon_ems(out, req)
    res = []
    for (op, bs, pc, key), co in acc:
        res.append(Em(op, bs, sorted(pc, key=normal.skey), key, co))
    return res


def kvars(em):
    return {b[1] for b in em.bs}


def extend(items, req):
    """A over v>=L together with the item that A gives at v=L-1 is A over v>=L-1"""
    idx = {}
    for i, e in enumerate(items):
        idx.setdefault((e.op, len(e.bs)), []).append(i)
    for i, A in enumerate(items):
        for b in A.bs:
            if b[0] != 'rngv':
                continue
            for c in A.pc:
                if c[0] != 'ge':
                    continue
                lq = linear_in(c[1], ('v', b[1]))
                if not lq or not lq[0].is_const() or abs(lq[0].const()) != 1:
                    continue
                # c: s*v + q >= 0 ; just outside: s*v + q = -1
                s, q = lq
                out = (-q - 1) / s
                if b[1] in vars_of(out):
                    continue
                rest = [x for x in A.pc if x != c]
                nb = [x for x in A.bs if x[1] != b[1]]
                C = sub_em(Em(A.op, nb, rest, A.key, A.co), {b[1]: out})
                r = reduce([C], req)
                if len(r) != 1:
                    continue
                C = r[0]
                for j in idx.get((C.op, len(C.bs)), []):
                    if j == i:
                        continue
                    B = items[j]
                    if B.key == C.key and B.bs == C.bs and B.co == C.co and tuple(B.pc) == tuple(C.pc):
                        wide = c_ge(c[1] + 1)
                        A2 = Em(A.op, A.bs, rest + ([wide] if wide is not True else []), A.key, A.co)
                        return reduce([e for k, e in enumerate(items) if k not in (i, j)] + [A2], req)
    return None


def merge_ne(items, req):
    """A under x != 0 together with what A gives at x = 0 under x == 0 is A"""
    for i, A in enumerate(items):
        for c in A.pc:
            if c[0] != 'ne':
                continue
            for a in atoms_of(c[1]):
                if a[0] != 'key':
                    continue
                lq = linear_in(c[1], a)
                if not lq or not lq[0].is_const() or a in atoms_of(lq[1]):
                    continue
                val = -lq[1] / lq[0]
                f = lambda y, a=a, val=val: val if y == a else None
                rest = [x for x in A.pc if x != c]
                try:
                    at0 = reduce([Em(A.op, A.bs, rest, A.key, A.co).subst(f)], req)
                except Unsupported:
                    continue
                if len(at0) > 1:
                    continue
                eq = ('eq', c[1])
                A2 = Em(A.op, A.bs, rest, A.key, A.co)
                for j, B in enumerate(items):
                    if j == i or not any(x[0] == 'eq' and (x[1] == c[1] or x[1] == -c[1]) for x in B.pc):
                        continue
                    try:
                        b0 = reduce([Em(B.op, B.bs, [x for x in B.pc if x[0] != 'eq' or x[1] != c[1] and x[1] != -c[1]], B.key, B.co).subst(f)], req)
                    except Unsupported:
                        continue
                    if len(b0) == 1 and at0 and same_em(b0[0], at0[0]):
                        return reduce([e for k, e in enumerate(items) if k not in (i, j)] + [A2], req)
    return None


def same_em(x, y):
    return x.op == y.op and x.key == y.key and x.bs == y.bs and x.co == y.co and tuple(x.pc) == tuple(y.pc)


class Prover:
    def __init__(self, w):
        self.w = w
        self.steps = 0

    def zero(self, ems, req, depth=9):
        self.steps += 1
        if self.steps > LIMIT:
            raise Stuck()
        items = reduce(ems, req)
        while items:
            n = extend(items, req)
            if n is None:
                n = merge_ne(items, req)
            if n is None:
                break
            items = n
        if not items:
            return True
        if depth == 0:
            return False
        F = Facts(req)
        cands = {}
        for e in items:
            kb = kvars(e)
            for c in flat(e.pc):
                if c[0] == 'not':
                    c = c[1]
                if c[0] == 'ne':
                    c = c_not(c)
                if cond_vars(c) & kb or normal_bound(c):
                    continue
                if F.decide(c) is None:
                    cands[c] = cands.get(c, 0) + 1
                # the boundary of an inequality of an item with a binder
            for c in flat(e.pc):
                if c[0] == 'ge' and not (cond_vars(c) & kb) and not normal_bound(c):
                    pass
        if not cands:
            return self.last(items, req, F, depth)
        order = sorted(cands, key=lambda c: (0 if c[0] == 'eq' else 1, -cands[c], normal.skey(c)))
        c = order[0]
        for side in (c, c_not(c)):
            r2 = list(req) + flat([side])
            if contradictory(r2):
                continue
            if not self.zero(items, r2, depth - 1):
                return False
        return True

    def last(self, items, req, F, depth):
        """no condition left to split on: evaluate ground helper applications, enumerate bounded variables"""
        new, did = [], False
        for e in items:
            x = self.ground(e)
            if x is None:
                new.append(e)
            else:
                new.extend(x)
                did = True
        if did:
            return self.zero(new, req, depth - 1)
        new, did = [], False
        for e in items:
            x = self.finite(e, req)
            if x is None:
                new.append(e)
            else:
                new.extend(x)
                did = True
        if did:
            return self.zero(new, req, depth - 1)
        for v in sorted({n for e in items for b in e.bs if b[0] == 'pt' for n in free_of(b[2])} - {b[1] for e in items for b in e.bs}):
            x = var(v)
            if not F.is_ge(x):
                continue
            for u in range(0, 7):
                if F.is_ge(const(u) - x):
                    for j in range(0, u + 1):
                        r2 = list(req) + [('eq', x - j)]
                        if contradictory(r2):
                            continue
                        if not self.zero(items, r2, depth - 1):
                            return False
                    return True
        return False

    def finite(self, e, req):
        """an emission over a range with small constant bounds, as the list of its instances"""
        if not any(b[0] == 'pt' for b in e.bs):
            return None
        for i, b in enumerate(e.bs):
            if b[0] != 'rngv':
                continue
            F = Facts(list(req) + list(e.pc))
            x = var(b[1])
            if not F.is_ge(x):
                continue
            for u in range(0, 5):
                if F.is_ge(const(u) - x):
                    return [sub_em(Em(e.op, [y for y in e.bs if y[1] != b[1]], e.pc, e.key, e.co, e.ty, e.line), {b[1]: const(j)})
                            for j in range(0, u + 1)]
        return None

    def alias(self, fq):
        """is fq defined, by cases, as constants or as another function?"""
        if not hasattr(self.w, '_alias'):
            self.w._alias = {}
        if fq not in self.w._alias:
            ok = False
            sp = self.w.allspecs[fq]
            if sp.ret == 'poly' and all(k in ('nat', 'pos', 'int') for k in sp.kinds.values()):
                s = self.w.spec_summary(sp, {})
                ok = all(isinstance(v, PV) and all(e.op == 'add' and (not e.bs or e.px is not None and len(e.bs) == 1
                         and e.co == atom(('coef', e.bs[0][1]))) for e in v.ems) for _, v in s.returns) and \
                    any(e.px is not None for _, v in s.returns for e in v.ems)
            self.w._alias[fq] = ok
        return self.w._alias[fq]

    def unfold_alias(self, ems):
        out, did = [], False
        for e in ems:
            hit = None
            for i, b in enumerate(e.bs):
                if b[0] == 'pt' and isinstance(b[2], tuple) and b[2] and b[2][0] == 'app' and b[2][1] in self.w.allspecs \
                        and self.alias(b[2][1]):
                    hit = (i, b)
                    break
            if hit is None:
                out.append(e)
                continue
            i, b = hit
            kf = kf_at(self.w.allspecs[b[2][1]], b[2][2])
            did = True
            for x in self.unfold_poly(b[2][1], b[2][2]):
                if x.bs:
                    nb = ('pt', b[1], x.px) + tuple(b[3:])
                    out.append(Em(e.op, list(e.bs[:i]) + [nb] + list(e.bs[i + 1:]), tuple(e.pc) + tuple(x.pc), e.key, e.co, e.ty, e.line))
                else:
                    out.append(plug(e, i, b, x, kf))
        return out, did

    def ground(self, e):
        """the emission with its first helper application at constant arguments replaced by the terms"""
        for i, b in enumerate(e.bs):
            if b[0] == 'pt' and isinstance(b[2], tuple) and b[2] and b[2][0] == 'app' and b[2][1] in self.w.allspecs and \
                    all(isinstance(a, E) and a.is_const() or isinstance(a, tuple) and a and a[0] in ('par', 'const', 'table')
                        or isinstance(a, PV) and ground_pv(a) for a in b[2][2]):
                sp = self.w.allspecs[b[2][1]]
                kf = kf_at(sp, b[2][2])
                if not isinstance(kf, tuple) or (len(b) > 3 and b[3] is not None):
                    continue
                from . import geval
                try:
                    ev = geval.Ev(self.w)
                    p = self.w.apply(b[2][1], tuple(a.const() if isinstance(a, E) else ev.pv(a, {'v': {}, 'b': {}}) if isinstance(a, PV)
                                                    else a for a in b[2][2]), ev)
                except (geval.Bad, geval.Undef):
                    raise Stuck()
                if not isinstance(p, geval.Poly) or len(p.d) > 80 or any(isinstance(c, float) for c in p.d.values()):
                    raise Stuck()
                out = []
                for k, c in sorted(p.d.items(), key=repr):
                    try:
                        key = tuple(to_key(x) for x in k)
                    except TypeError:
                        raise Stuck()
                    out.append(plug(e, i, b, Em('add', (), (), key, const(c)), kf))
                return out
        return None

    def store_ok(self, fq, key, v, bs, pcs, req):
        """is v, stored at key, the specified value for every binding of bs under pcs?"""
        try:
            r = normal.bounds_to_pc(Em('add', bs, pcs, (), ONE))
            if r is None:
                return True
            if any(b[0] != 'rngv' for b in r[0]):
                return False
            rq = list(req) + flat(r[1])
            if contradictory(rq):
                return True
            B = self.unfold_poly(fq, tuple(key))
            return self.poly_equal(list(v.ems), B, rq, None)
        except (Stuck, Unsupported, RecursionError):
            return False

    # ---------------------------------------------------------------- unfolding
    def spec_ems(self, fq, args):
        """guarded emissions of a specified poly function at symbolic arguments"""
        sp = self.w.allspecs[fq]
        case, mp, pmap = {}, {}, {}
        for nm, v in zip(sp.args, args):
            kd = sp.kinds[nm]
            if isinstance(kd, tuple) and kd[0] == 'enum':
                if isinstance(v, tuple) and v and v[0] == 'const':
                    case[nm] = v[1]
                elif isinstance(v, E) and v.is_int():
                    case[nm] = int(v.const())
                else:
                    raise Stuck()
            elif isinstance(v, E):
                mp[nm] = v
            elif isinstance(kd, tuple) and kd[0] == 'poly':
                pmap[nm] = v
            elif kd == 'par' or isinstance(kd, tuple) and kd[0] == 'table':
                pass
            else:
                raise Stuck()
        s = self.w.spec_summary(sp, case)
        return s, mp, pmap

    def unfold_poly(self, fq, args):
        s, mp, pmap = self.spec_ems(fq, args)
        if pmap:
            raise Stuck()
        f = lambda a: mp.get(a[1]) if a[0] == 'v' else None
        out = []
        for pc, v in s.returns:
            if not isinstance(v, PV):
                raise Stuck()
            for e in v.ems:
                it = Em(e.op, e.bs, tuple(pc) + tuple(c for c in e.pc if c not in pc), e.key, e.co, e.ty, e.line, e.px)
                out.append(it.subst(f))
        return out

    def fresh_em(self, em):
        mv, mb = {}, {}
        for b in em.bs:
            self.n = getattr(self, 'n', 0) + 1
            nb = 'u%d#p' % self.n
            if b[0] in ('rng', 'rngv'):
                mv[b[1]] = var(nb)
            mb[b[1]] = nb
        return rename(em, mv, mb)

    def unfold_self(self, ems, fq):
        """replace 'all terms of fq(args)' by the specified emissions"""
        out = []
        for e in ems:
            if e.px is not None and isinstance(e.px, tuple) and e.px[0] == 'app' and e.px[1] == fq and len(e.bs) == 1:
                co = e.co
                b = e.bs[0][1]
                lq = linear_in(co, ('coef', b))
                if lq and lq[1].is_zero():
                    for x in self.unfold_poly(fq, e.px[2]):
                        x = self.fresh_em(x)
                        out.append(Em('add', x.bs, tuple(e.pc) + tuple(x.pc), x.key, x.co * lq[0]))
                    continue
            out.append(e)
        return out

    def unfold_nums(self, x):
        """replace numeric helper applications by their specified value"""
        def f(a):
            if a[0] == 'app' and a[1] in self.w.allspecs and self.w.allspecs[a[1]].ret == 'num':
                try:
                    s, mp, pmap = self.spec_ems(a[1], a[2])
                except Stuck:
                    return None
                if len(s.returns) == 1 and isinstance(s.returns[0][1], Num) and not pmap:
                    g = lambda z: mp.get(z[1]) if z[0] == 'v' else None
                    return self.unfold_nums(subst(s.returns[0][1].e, g))
            return None
        return subst(x, f)

    def unfold_num_ems(self, ems):
        return [Em(e.op, e.bs, e.pc, e.key, None if e.co is None else self.unfold_nums(e.co), e.ty, e.line) for e in ems]

    def unfold_binders(self, ems, skip=()):
        """replace 'term of helper(args)' binders by the emissions of the helper's specification"""
        out, did = [], False
        for e in ems:
            hit = None
            for i, b in enumerate(e.bs):
                if b[0] == 'pt' and isinstance(b[2], tuple) and b[2] and b[2][0] == 'app' and b[2][1] in self.w.allspecs \
                        and b[2][1] not in skip and not self.w.recursive(b[2][1]):
                    hit = (i, b)
                    break
            if hit is None:
                out.append(e)
                continue
            i, b = hit
            try:
                xs = self.unfold_poly(b[2][1], b[2][2])
            except (Stuck, Unsupported):
                out.append(e)
                continue
            kf = kf_at(self.w.allspecs[b[2][1]], b[2][2])
            for x in xs:
                x = self.fresh_em(x)
                if not isinstance(x.key, tuple) or (x.key and x.key[0] == 'id') or not isinstance(kf, tuple):
                    raise Stuck()
                out.append(plug(e, i, b, x, kf))
                did = True
        return out, did

    # ---------------------------------------------------------------- entry points
    def poly_equal(self, A, B, req, self_fq=None):
        """A, B: lists of emissions"""
        neg = [Em(e.op, e.bs, e.pc, e.key, None if e.co is None else -e.co, e.ty, e.line) for e in B]
        if any(e.op not in ('add',) for e in A + B if e.op != 'dropzero'):
            return False
        try:
            if self_fq:
                A = self.unfold_self(A, self_fq)
            A = [e for e in A if e.op == 'add']
            neg = [e for e in neg if e.op == 'add']
            if self.zero(A + neg, req):
                return True
            D = self.unfold_num_ems(A + neg)
            if self.zero(D, req):
                return True
            did, n = True, 0
            D2 = reduce(D, req)
            while did and n < 4:
                D2, did = self.unfold_alias(D2)
                n += 1
            if n > 1 and self.zero(D2, req):
                return True
            for _ in range(3):
                D = reduce(D, req)
                D, did = self.unfold_binders(D, (self_fq,))
                if not did:
                    break
                D = self.unfold_num_ems(D)
                if self.zero(D, req):
                    return True
            return False
        except (Stuck, Unsupported, RecursionError):
            if DEBUG:
                raise
            return False

    def returns_equal(self, ra, rb, req, self_fq=None):
        if not ra or not rb:
            return False
        if all(isinstance(v, PV) for _, v in list(ra) + list(rb)):
            if len({v.kf for _, v in list(ra) + list(rb)}) != 1:
                return False
            return self.poly_equal(guard(ra), guard(rb), req, self_fq)
        for pa, va in ra:
            for pb, vb in rb:
                r = list(req) + flat(pa) + flat(pb)
                if contradictory(r):
                    continue
                mp = eq_subst(r)
                f = lambda a: mp.get(a[1]) if a[0] == 'v' else None
                if isinstance(va, Num) and isinstance(vb, Num):
                    d = subst(va.e - vb.e, f)
                    if d.is_zero() or self.unfold_nums(d).is_zero():
                        continue
                    return False
                x, y = normal.canon_val(v_subst(va, f) if mp else va, r), normal.canon_val(v_subst(vb, f) if mp else vb, r)
                if x != y or x[0] == '?':
                    return False
        return True


def normal_bound(c):
    return any(a[0] in ('key', 'coef', 't0e', 'old', 'app') or (a[0] == 'v' and a[1].startswith('$')) for a in atoms_of(c)) \
        or c[0] in ('in', 'opq', 'gt', 'gte')


def contradictory(req):
    mp = eq_subst(req)
    f = lambda a: mp.get(a[1]) if a[0] == 'v' else None
    cs = [c_subst(c, f) for c in flat(req) if c[0] != 'eq']
    for c in flat(req):
        if c[0] == 'eq' and sub_vars(c[1], mp).is_const() and not sub_vars(c[1], mp).is_zero():
            return True
    if any(c is False for c in cs):
        return True
    cs = [c for c in cs if c is not True]
    for i, c in enumerate(cs):
        if Facts(cs[:i] + cs[i + 1:]).decide(c) is False:
            return True
    return False


def to_key(x):
    if isinstance(x, tuple):
        return tuple(to_key(y) for y in x)
    if isinstance(x, int):
        return const(x)
    raise TypeError


def ground_pv(v):
    for e in v.ems:
        own = {b[1] for b in e.bs}
        for a in atoms_of((e.key if not isinstance(e.key, T0V) else (), e.co, tuple(e.pc), tuple(b[2:] for b in e.bs), e.px)):
            if a[0] == 'v' and a[1] not in own or a[0] in ('key', 'coef') and a[1] not in own or a[0] in ('old', 't0e'):
                return False
        if any(b[0] not in ('rng', 'pt', 'rngv') or b[0] == 'pt' and b[2][0] != 'app' for b in e.bs):
            return False
    return True


def free_of(px):
    return {a[1] for a in atoms_of(px) if a[0] == 'v'}


def guard(rets):
    out = []
    for p, v in rets:
        for e in v.ems:
            out.append(Em(e.op, e.bs, tuple(p) + tuple(c for c in e.pc if c not in p), e.key, e.co, e.ty, e.line, e.px))
    return out


def plug(e, i, b, x, kf):
    """substitute the emission x (of the poly iterated by binder b) into e"""
    nm = b[1]
    comps = dict(zip(kf, x.key))
    if len(b) > 3 and b[3] is not None:
        from .interp import kind_of
        if any(kind_of(n) == 'seq0' and isinstance(v, tuple) and len(v) != b[3] for n, v in comps.items()):
            return Em(e.op, (), (False,), e.key, ZERO)

    def f(a):
        if a[0] == 'coef' and a[1] == nm:
            return x.co
        if a[0] == 'key' and a[1] == nm:
            v = comps[a[2]]
            for j in a[3:]:
                if not isinstance(v, tuple):
                    raise Stuck()
                v = v[int(j.const())]
            if not isinstance(v, E):
                raise Stuck()
            return v
        return None

    def kp(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'id' and k[1] == nm:
                return x.key
            return norm_seq(tuple(kp(y) for y in k))
        if isinstance(k, T0V):
            fs = []
            for z in k.fs:
                if z[0] == 'path' and z[1] == nm:
                    v = comps[z[2]]
                    if not isinstance(v, T0V):
                        raise Stuck()
                    fs.extend(v.fs)
                elif z[0] == 'path':
                    fs.append(z)
                else:
                    fs.append(tuple(v_subst(y, f) for y in z))
            return T0V(fs)
        if isinstance(k, Opq):
            if len(k.path) > 1 and k.path[1] == nm:
                raise Stuck()
            return k
        if isinstance(k, E):
            return subst(k, f)
        return k
    bs = list(e.bs[:i]) + list(x.bs)
    for y in e.bs[i + 1:]:
        if y[0] == 'pt':
            bs.append(('pt', y[1], v_subst(y[2], f)) + tuple(y[3:]))
        elif y[0] == 'rng':
            bs.append(('rng', y[1], subst(y[2], f), subst(y[3], f)) + tuple(y[4:]))
        else:
            bs.append(y)
    pc = [c_subst(c, f) for c in e.pc] + list(x.pc)
    if len(b) > 3 and b[3] is not None:
        for n, v in comps.items():
            from .interp import kind_of
            if kind_of(n) == 'seq0' and len(v) != b[3]:
                pc.append(False)
    return Em(e.op, bs, [c for c in pc if c is not True], kp(e.key), subst(e.co, f))
