"""Normal forms of emission sets (order- and name-independent)."""
import itertools
from .expr import E, ONE, ZERO, const, var, show, akey, atoms_of, atom
from .values import (Em, PV, T0V, Opq, ren_em, ren_f, c_not, c_ge, flatcomp, em_pxs, px_subst, rename, Num, Tup, Ch,
                     Const, Cond, c_subst)
from .facts import Facts


def skey(x):
    """a canonical, order-stable text of a frozen structure"""
    if isinstance(x, E):
        return 'E' + repr(x.key())
    if isinstance(x, PV):
        return 'PV' + repr(x.kf) + skey(x.canon()[1])
    if isinstance(x, Em):
        return 'Em' + ','.join(skey(y) for y in (x.op, x.bs, x.pc, x.key, x.co))
    if isinstance(x, T0V):
        return 'T0' + ','.join(sorted(skey(f) for f in x.fs))
    if isinstance(x, Opq):
        return 'O' + repr(x.path)
    if isinstance(x, (tuple, list)):
        return '(' + ','.join(skey(y) for y in x) + ')'
    if isinstance(x, frozenset):
        return '{' + ','.join(sorted(skey(y) for y in x)) + '}'
    return repr(x)


def bounds_to_pc(em):
    pcs = []
    for c in em.pc:
        if isinstance(c, tuple) and c[0] == 'and':
            pcs.extend(c[1])
        else:
            pcs.append(c)
    bs = []
    for b in em.bs:
        if b[0] == 'rng':
            v = var(b[1])
            for c in (c_ge(v - b[2]), c_ge(b[3] - v)):
                if c is False:
                    return None
                if c is not True and c not in pcs:
                    pcs.append(c)
            bs.append(('rngv', b[1]))
        elif b[0] == 'pt':
            bs.append(tuple(b[:4]) if len(b) > 3 else tuple(b) + (None,))
        else:
            bs.append(b)
    out = []
    for c in pcs:
        if c is False:
            return None
        if c is not True and c not in out:
            out.append(c)
    return bs, out


def minimise(pcs, requires):
    """drop conditions implied by the others"""
    pcs = sorted(pcs, key=skey)
    i = 0
    while i < len(pcs):
        rest = pcs[:i] + pcs[i + 1:]
        r = Facts(list(requires) + rest).decide(pcs[i])
        if r is True:
            pcs = rest
        elif r is False:
            return None
        else:
            i += 1
    return pcs


def zero_factor(x, co):
    """does x == 0 make the coefficient zero?  (x a coefficient of a term, a factor of every monomial of co)"""
    at = [a for a in atoms_of(x)]
    if len(at) != 1 or at[0][0] != 'coef' or x != atom(at[0]):
        return False
    return all(any(b == at[0] and e.is_int() and e.const() > 0 for b, e in m) for m in co.t)


def whole_key(em):
    """a key that lists every component of one term is the key of that term"""
    if not isinstance(em.key, tuple) or not em.key or not isinstance(em.key[0], E):
        return em
    for b in em.bs:
        if b[0] == 'pt' and len(b) > 4 and b[4] and len(b[4]) == len(em.key) and all(
                isinstance(k, E) and k == atom(('key', b[1], nm)) for k, nm in zip(em.key, b[4])):
            return Em(em.op, em.bs, em.pc, ('id', b[1]), em.co, em.ty, em.line, em.px)
    return em


def plain_source(pv):
    """the source a poly is an identity copy of (itself otherwise)"""
    if len(pv.ems) == 1:
        e = pv.ems[0]
        if e.op == 'add' and len(e.bs) == 1 and e.bs[0][0] == 'pt' and not e.pc:
            e = whole_key(e)
            if e.key == ('id', e.bs[0][1]) and e.co == atom(('coef', e.bs[0][1])):
                return e.bs[0][2]
    return pv


def canon_em(em, requires=()):
    r = bounds_to_pc(em)
    if r is None:
        return None
    bs, pcs = r
    pcs = minimise(pcs, requires)
    if pcs is None:
        return None
    em = whole_key(em)
    if any(c[0] in ('ne', 'or') for c in pcs):
        # a term with coefficient zero may be left out or kept
        pcs = [c for c in pcs if not (c[0] == 'ne' and em.co is not None and zero_factor(c[1], em.co))]
    pts = None
    for c in list(pcs):
        if c[0] == 'ne' and isinstance(c[1], E):
            # one of the terms of a poly is at hand: the poly is not empty
            at = [b for m in c[1].t for b, _ in m if isinstance(b, tuple) and b[0] == 'polylen']
            if len(at) == 1 and c[1] == atom(at[0]):
                if pts is None:
                    pts = {skey(b[2]) for b in bs if b[0] == 'pt'}
                if skey(plain_source(at[0][1])) in pts:
                    pcs.remove(c)
    co = em.co if em.co is not None else ZERO
    if em.co is not None and co.is_zero():
        return None
    base = Em(em.op, bs, pcs, em.key, em.co, 'x', None)
    n = len(bs)
    if n == 0:
        return (em.op, (), frozenset(pcs), em.key, co)

    def ren(order):
        mv, mb = {}, {}
        for i, j in enumerate(order):
            b = bs[j]
            nm = '%s%d' % ('$v' if b[0] == 'rngv' else '$b', i)
            if b[0] == 'rngv':
                mv[b[1]] = var(nm)
            mb[b[1]] = nm
        e2 = rename(Em(em.op, [bs[j] for j in order], pcs, em.key, em.co), mv, mb)
        e2bs = tuple(b for b in e2.bs)
        return (em.op, e2bs, frozenset(e2.pc), e2.key, e2.co if e2.co is not None else ZERO)
    if n == 1:
        return ren([0])
    # signatures: rename one binder to a mark, all others to a blank
    sigs = []
    for j in range(n):
        mv, mb = {}, {}
        for i, b in enumerate(bs):
            nm = '$mark' if i == j else '$blank'
            if b[0] == 'rngv':
                mv[b[1]] = var(nm)
            mb[b[1]] = nm
        e2 = rename(base, mv, mb)
        sigs.append((bs[j][0], skey(tuple(sorted(skey(b) for b in e2.bs))), skey(frozenset(e2.pc)), skey(e2.key), skey(co if e2.co is None else e2.co)))
    idx = sorted(range(n), key=lambda j: sigs[j])
    groups = []
    for j in idx:
        if groups and sigs[groups[-1][0]] == sigs[j]:
            groups[-1].append(j)
        else:
            groups.append([j])
    total = 1
    for g in groups:
        for i in range(2, len(g) + 1):
            total *= i
    if total == 1 or total > 120:
        return ren(idx)
    best = None
    for combo in itertools.product(*[itertools.permutations(g) for g in groups]):
        order = [j for g in combo for j in g]
        r = ren(order)
        k = skey((r[1], r[2], r[3], r[4]))
        if best is None or k < best[0]:
            best = (k, r)
    return best[1]


_memo = {}


def canon_ems(ems, requires=()):
    acc = {}
    for em in ems:
        if em.op == 'dropzero':
            continue
        k = (em, tuple(requires)) if not requires else None
        c = canon_em(em, requires)
        if c is None:
            continue
        kk = c[:4]
        acc[kk] = acc.get(kk, ZERO) + c[4]
    acc = {k: v for k, v in acc.items() if not v.is_zero()}
    # merge complementary conditions
    changed = True
    while changed:
        changed = False
        by = {}
        for (op, bs, pc, key), v in acc.items():
            by.setdefault((op, bs, key, v), []).append(pc)
        for (op, bs, key, v), pcs in by.items():
            if len(pcs) < 2:
                continue
            for a, b in itertools.combinations(pcs, 2):
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1 and c_not(next(iter(d1))) == next(iter(d2)):
                    del acc[(op, bs, a, key)]
                    del acc[(op, bs, b, key)]
                    k = (op, bs, a & b, key)
                    acc[k] = acc.get(k, ZERO) + v
                    changed = True
                    break
            if changed:
                break
    return frozenset((k, v) for k, v in acc.items() if not v.is_zero())


def canon_val(v, requires=()):
    if isinstance(v, PV):
        return ('poly', v.kf, canon_ems(v.ems, requires))
    if isinstance(v, Num):
        return ('num', v.e)
    if isinstance(v, Tup):
        return ('tup', tuple(canon_val(x, requires) for x in v.items))
    if isinstance(v, Const):
        return ('const', v.v)
    if isinstance(v, Cond):
        return ('cond', v.c)
    return ('?', id(v))


def canon_returns(rets, requires):
    """[(pc, value)] -> emission set guarded by the return conditions, or list of values"""
    rets = [(p, v) for p, v in rets]
    if rets and all(isinstance(v, PV) for _, v in rets):
        ems = []
        kfs = {v.kf for _, v in rets}
        if len(kfs) != 1:
            return None
        for p, v in rets:
            for e in v.ems:
                ems.append(Em(e.op, e.bs, tuple(p) + tuple(c for c in e.pc if c not in p), e.key, e.co))
        return ('poly', kfs.pop(), canon_ems(ems, requires))
    out = []
    for p, v in rets:
        pm = minimise([c for c in p], requires)
        if pm is None:
            continue
        out.append((frozenset(pm), canon_val(v, list(requires) + list(p))))
    return ('vals', frozenset(out))
