"""Analyses at fixed structure: the number of jumps, of summation indices, or the shapes of the terms are enumerated,
everything else stays symbolic."""
import itertools
from fractions import Fraction
from . import specapi as S
from .expr import Unsupported, const
from .framework import World, verify, key_s
from .interp import LV
from .values import PV, Tup, Num, Ch


class Report:
    def __init__(self):
        self.viol, self.cover, self.lost = [], {}, []

    def count(self, k, n=1):
        self.cover[k] = self.cover.get(k, 0) + n

    def bad(self, w, fq, rule, why, at='', line=None):
        r = w.prog.func(fq)
        self.viol.append({'file': w.prog.relpath(r[0]), 'function': fq, 'line': line or r[2].lineno, 'rule': rule, 'why': why, 'at': at})

    def out(self):
        return self.viol, self.cover, self.lost


def public_name(w, fq, rep):
    if w.prog.func(fq) is None:
        rep.lost.append('public function %s not found' % fq)
        return False
    return True


# ---------------------------------------------------------------- sums over jumps
SUMS = [('ajdmom.utils.fZ', 'fZ', 'lopqksJ'), ('ajdmom.mdl_srjd.cond2_mom.fZ', 'fZ2', 'loksJ'),
        ('ajdmom.utils.fZ_each_index', 'fZ_each_index', ('l', 'o', 'p', 'q', 'k', 's', 'J', 'index'))]


def sums(w, pid, tier, seed):
    """the sums over jumps equal their definition for every number of indices and jumps up to 3, symbolically in everything else"""
    rep = Report()
    for fq, nm, ar in SUMS:
        if not public_name(w, fq, rep):
            continue
        und = []
        for L, N in itertools.product(range(4), range(4)):
            idxs = [None]
            if nm == 'fZ_each_index':
                if L == 0 or N == 0 or N == 3 and L == 3:
                    continue
                idxs = list(itertools.product(range(N), repeat=L))
            for idx in idxs:
                L1 = max(L - 1, 0)
                kinds = dict(l=S.intlist(L), o=S.intlist(L1 if nm == 'fZ2' else L), p=S.intlist(L1), q=S.intlist(L1), k='real',
                             s=('reallist', N), J=('reallist', N), index=('constlist', idx))
                req = ['s[%d]<s[%d]' % (i, i + 1) for i in range(N - 1)] if N >= 3 or L >= 3 else []
                sp = S.Spec(fq, args={a: kinds[a] for a in ar}, ret='real', prop=pid, requires=req)
                sp.specmod, sp.name = 'specs.sums', nm
                w.spec_sums = {k: v for k, v in w.spec_sums.items() if k[0] != fq}
                r = verify(w, sp, tier, seed)
                rep.count('sums_over_jumps_cases')
                if r.status == 'mismatch':
                    wit = r.witness or {}
                    rep.bad(w, fq, 'sum', wit.get('why', 'differs from the definition'), '%d indices, %d jumps' % (L, N), wit.get('line'))
                    break
                if r.status == 'undecided':
                    und.append('%s at %d indices, %d jumps: %s' % (fq, L, N, '; '.join(r.why)[:120]))
                else:
                    rep.count('sums_over_jumps_equal')
            else:
                continue
            break
        rep.cover.setdefault('undecided_sums', [])
        rep.cover['undecided_sums'] += und[:3]
        w.spec_sums = {k: v for k, v in w.spec_sums.items() if k[0] != fq}
    return rep.out()


# ---------------------------------------------------------------- enumerators
def plain(v):
    if isinstance(v, Num) and v.e.is_int():
        return int(v.e.const())
    if isinstance(v, (Tup, LV)):
        if isinstance(v, LV) and v.segs:
            raise Unsupported('symbolic list')
        return tuple(plain(x) for x in v.items)
    raise Unsupported('not a constant')


def enumerators(w, pid, tier, seed):
    """the enumerations of compositions list each one once (constant propagation through the enumeration loop)"""
    rep = Report()
    for fq, want in (('ajdmom.utils.multilevel_comb', lambda n, m: sorted(x for x in itertools.product(range(m + 1), repeat=n) if sum(x) == m)),
                     ('ajdmom.utils.multilevel_index', lambda n, m: sorted(itertools.product(range(m), repeat=n)))):
        if not public_name(w, fq, rep):
            continue
        lo = 0 if fq.endswith('comb') else 1
        und = []
        for n in range(1, 5):
            for m in range(lo, 5 if n < 4 else 4):
                sp = S.Spec(fq, args=dict(n=S.one_of(n), m=S.one_of(m)), ret='any', prop=pid)
                rep.count('enumerations')
                try:
                    s = w.run(sp, {'n': n, 'm': m}, 'code')
                    rets = [v for _, v in s.returns]
                    if len(rets) != 1:
                        raise Unsupported('%d returns' % len(rets))
                    got = sorted(plain(rets[0]))
                except Unsupported as x:
                    und.append('%s(%d, %d): %s' % (fq, n, m, x))
                    continue
                if got != want(n, m):
                    miss = [x for x in want(n, m) if x not in got]
                    rep.bad(w, fq, 'enumeration', 'missing %s' % (miss[:3],) if miss else 'listed more than once or wrong: %s' %
                            ([x for x in got if got.count(x) > 1 or x not in want(n, m)][:3],), 'n=%d, m=%d' % (n, m))
                    break
                rep.count('enumerations_exact')
            else:
                continue
            break
        rep.cover.setdefault('undecided_enumerations', [])
        rep.cover['undecided_enumerations'] += und[:3]
    return rep.out()


# ---------------------------------------------------------------- grouping of terms
def grouping(w, pid, tier, seed):
    """the groups of a poly with jump sums are a partition of its terms by the number of jump indices"""
    from specs.svvj import KC, L, O, P, Q
    rep = Report()
    fq = 'ajdmom.mdl_svvj.cond2_cmom.classify'
    if not public_name(w, fq, rep):
        return rep.out()
    und = []
    shapes = (0, 1, 2, 3)
    for r in range(1, 4):
        for sub in itertools.permutations(shapes, r):
            terms, c = [], 1
            for rnd in range(2):
                for n in sub:
                    key = []
                    for i, nm in enumerate(KC):
                        key.append(tuple(range(n)) if nm in (L, O) else tuple(range(max(n - 1, 0))) if nm in (P, Q) else
                                   (3 * rnd + i) % 5)
                    c += 1
                    terms.append((tuple(key), c))
            rep.count('groupings')
            sp = S.Spec(fq, args=dict(poly=('litpoly', KC, tuple(terms))), ret='any', prop=pid)
            try:
                s = w.run(sp, {}, 'code')
                if len(s.returns) != 1 or not isinstance(s.returns[0][1], LV) or s.returns[0][1].segs:
                    raise Unsupported('the result is not a list of known length')
                groups = [(x.kf, const_poly(x)) for x in s.returns[0][1].items]
            except Unsupported as x:
                und.append(str(x))
                continue
            want = [[(k, v) for k, v in terms if len(k[6]) == n] for n in sorted(sub)]
            why = None
            if len(groups) != len(want):
                why = '%d groups for %d numbers of jump indices' % (len(groups), len(want))
            else:
                for (kf, g), t in zip(groups, want):
                    if len(t[0][0][6]) == 0:
                        names = KC[:6] + KC[10:]
                        ok = {k[:6] + k[10:]: v for k, v in t}
                    else:
                        names, ok = KC, dict(t)
                    if kf != names:
                        why = 'variable names %s of the group of %d jump indices' % (list(kf), len(t[0][0][6]))
                    elif g != ok:
                        bad = sorted(set(g.items()) ^ set(ok.items()))
                        why = 'term %s: %s' % (bad[0][0], 'lost, duplicated or altered')
            if why:
                rep.bad(w, fq, 'grouping', why, 'numbers of jump indices %s' % (sub,))
                break
            rep.count('groupings_exact')
    if und:
        rep.cover['undecided_groupings'] = sorted(set(und))[:3]
    return rep.out()


def const_poly(pv):
    d = {}
    for e in pv.ems:
        if e.bs or [c for c in e.pc if c is not True]:
            raise Unsupported('guarded term')
        if not isinstance(e.key, tuple):
            raise Unsupported('key')

        def comp(x):
            if isinstance(x, tuple):
                return tuple(comp(y) for y in x)
            if hasattr(x, 'is_int') and x.is_int():
                return int(x.const())
            if hasattr(x, 'items'):
                return tuple(comp(getattr(y, 'e', y)) for y in x.items)
            raise Unsupported('exponent %r' % (x,))
        k = tuple(comp(x) for x in e.key)
        if e.op == 'add':
            d[k] = d.get(k, 0) + e.co.const()
        elif e.op == 'set':
            d[k] = e.co.const()
        else:
            raise Unsupported('deletion')
    return d
