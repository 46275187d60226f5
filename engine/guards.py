"""Which requests are refused, and which polynomials may be combined: the paths of the code under enumerated shapes."""
import itertools
from . import checker
from . import specapi as S
from .expr import Absent, Unsupported, const
from .facts import Facts
from .literal import Report, public_name
from .values import Const, Ref, Cond
from .values import c_and

POLY = 'ajdmom.poly.Poly.'
OPS = ('__add__', '__sub__', '__mul__', 'merge')
MORE = ('__iadd__', '__isub__', '__imul__', '__radd__', '__rsub__')


def shapes():
    """pairs of names: every equality pattern up to three names, and the documented names with one changed, dropped, added or swapped"""
    out = []
    left = [('a', 'b', 'c')[:n] for n in range(4)]
    right = [t for n in range(4) for t in itertools.product('abc', repeat=n)] + [('b', 'a', 'd'), ('a', 'b', 'd'), ('a', 'b', 'c', 'd'), ('d',)]
    for x, y in itertools.product(left, right):
        out.append((x, y))
    out.append((('a', 'b', 'c', 'd'), ('a', 'b', 'c')))
    out.append((('a', 'A'), ('a', 'a')))
    return out


def documented(w):
    kfs = set()
    for s in w.allspecs.values():
        for k in [s.kf] + [kd[1] for kd in s.kinds.values() if isinstance(kd, tuple) and kd[0] == 'poly']:
            if isinstance(k, tuple) and all(isinstance(x, str) for x in k) and len(k) > 3:
                kfs.add(k)
    return sorted(kfs)


def near(k):
    out = [k]
    for i in range(len(k)):
        out.append(k[:i] + (k[i] + "'",) + k[i + 1:])
        out.append(k[:i] + k[i + 1:])
        if i:
            out.append(k[:i - 1] + (k[i], k[i - 1]) + k[i + 1:])
    out.append(k + ('z',))
    return out


def feasible(pc):
    c = c_and(*pc) if pc else True
    return Facts([]).simplify(c) is not False


def names(w, pid, tier, seed):
    """polynomials over different names are never combined; over identical names always"""
    rep = Report()
    pairs = shapes()
    docs = documented(w)
    for k in docs:
        pairs += [(k, x) for x in near(k)]
    for fq in (POLY + 'is_exact_type',) + tuple(POLY + o for o in OPS) + tuple(POLY + o for o in MORE):
        if w.prog.func(fq) is None:
            if not any(fq == POLY + o for o in MORE) and fq != POLY + 'is_exact_type':
                rep.lost.append('public function %s not found' % fq)
            continue
        und = None
        todo = pairs if fq.endswith('is_exact_type') or tier == 'thorough' else shapes() + [(k, x) for k in docs[:3] for x in near(k)]
        for a, b in todo:
            kinds = [('poly', b)]
            if len(b) == 3 or len(b) == 2:
                kinds.append(('litpoly', b, []))
            for kb in kinds:
                sp = S.Spec(fq, args=dict(self=('poly', a), other=kb), ret='any', prop=pid)
                rep.count('pairs_of_names')
                try:
                    s = w.run(sp, {}, 'code')
                except Unsupported as x:
                    und = str(x)
                    continue
                why = judge(fq, s, a == b)
                if why:
                    line, why = why
                    rep.bad(w, fq, 'names', why, '%r and %r%s' % (a, b, ', the second without terms' if kb[0] == 'litpoly' else ''), line)
                    break
                rep.count('pairs_decided')
            else:
                continue
            break
        rep.cover.setdefault('undecided_list', [])
        if und:
            rep.cover['undecided_list'].append('%s: %s' % (fq, und))
    return rep.out()


def judge(fq, s, same):
    """None, or (line, why)"""
    if fq.endswith('is_exact_type'):
        vals = [v for pc, v in s.returns if feasible(pc)]
        if len(vals) == 1 and isinstance(vals[0], Const):
            if bool(vals[0].v) != same:
                return None, 'says that %s names are %s' % (('identical', 'different') if same else ('different', 'identical'))
            return None
        raise Unsupported('is_exact_type has no constant answer')
    rets = [pc for pc, v in s.returns if feasible(pc)]
    raises = [(n, ln) for pc, n, ln, bs in s.raises if feasible(pc)]
    if same:
        bad = [(n, ln) for n, ln in raises]
        if bad:
            return bad[0][1], 'refuses polynomials over identical names (%s)' % bad[0][0]
        return None
    if rets:
        return None, 'combines polynomials over different names without an error'
    wrong = [(n, ln) for n, ln in raises if n != 'NotImplementedError']
    if wrong:
        return wrong[0][1], 'raises %s, not NotImplementedError, for different names' % wrong[0][0]
    if s.params_mut:
        return s.params_mut[0][1], 'changes %s before it refuses polynomials over different names' % s.params_mut[0][0]
    return None


# ---------------------------------------------------------------- requests out of range
def _any(*a):
    return any(x < 0 for x in a)


def _total(*a):
    return sum(a) < 0


A = 'ajdmom.'
#: function -> which of its (leading, integer) arguments decide, and when they are out of range
RANGES = [
    (A + 'ito_mom.int_et', 2, (1,), _any), (A + 'ito_cond_mom.int_et_fZ', 3, (1,), _any), (A + 'itos_mom.int_et', 3, (2,), _any),
    (A + 'ito_mom.moment_IEII', 3, (0, 1, 2), _total), (A + 'ito_cond_mom.moment_IEII', 3, (0, 1, 2), _total),
    (A + 'itos_mom.moment_IEI_IEII', 5, (0, 1, 2, 3, 4), _total),
    (A + 'cpp_mom.mnorm', 1, (0,), _any), (A + 'cpp_mom.mcpp_original', 1, (0,), _any), (A + 'cpp_mom.mcpp', 1, (0,), _any),
    (A + 'cpp_mom.cmcpp', 1, (0,), _any),
    (A + 'mdl_svcj.cmom.cmoment_y', 1, (0,), _any), (A + 'mdl_svcj.cond_mom.moment_y', 1, (0,), _any),
    (A + 'mdl_svcj.cond_cmom.cmoment_y', 1, (0,), _any),
    (A + 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 6, (0, 1, 2, 3, 4, 5), _any),
    (A + 'mdl_svcj.ieziziz_mom.moment_ejjj', 3, (0, 1, 2), _any), (A + 'mdl_svcj.ieziziz_mom.moment_ieziziz', 3, (0, 1, 2), _any),
    (A + 'mdl_srjd.cond_ie_iez_mom.moment_ie', 1, (0,), _any), (A + 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 2, (0, 1), _any),
    (A + 'mdl_srjd.cond_ie_iez_cmom.moment_ie', 1, (0,), _any), (A + 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 2, (0, 1), _any),
    (A + 'mdl_srjd.iez_cmom.cmoment_IEZ', 1, (0,), _any), (A + 'mdl_srjd.cmom.cmoment_v', 1, (0,), _any),
    (A + 'mdl_srjd.mom.moment_v', 1, (0,), _any), (A + 'mdl_srjd.iez_mom.moment_EJ', 1, (0,), _any),
    (A + 'mdl_srjd.iez_mom.moment_IEZ', 1, (0,), _any),
]
DT0 = A + 'mdl_2fsv.cmom.dt0'
WRONG = ('no such parameter', '', 'K', 'sigma', 'THETA', 'v0', 'k theta')


def points(arity, pos, tier):
    hi = {1: 4, 2: 3, 3: 2, 5: 1, 6: 1}[arity] + (tier == 'thorough' and arity < 5)
    lo = {1: -6, 2: -3, 3: -3, 5: -2, 6: -1}[arity] - (tier == 'thorough' and arity < 5)
    if arity < 5:
        return list(itertools.product(range(lo, hi + 1), repeat=arity))
    out = []                            # one or two orders away from zero, and sums that cancel
    for i in range(arity):
        for v in range(-4, 3):
            out.append(tuple(v if j == i else 0 for j in range(arity)))
            for m in range(arity):
                if m != i and v:
                    for u in (-2, -1, 1, 2):
                        out.append(tuple(v if j == i else u if j == m else 0 for j in range(arity)))
    return sorted(set(out))


def outcome(w, sp, case):
    """('returns', line) | ('raises', name, line) | ('undecided', why): what every path at these arguments does"""
    try:
        s = w.run(sp, case, 'code')
    except Absent as x:
        return ('raises', 'KeyError', None) if x.sure else ('undecided', str(x))
    except Unsupported as x:
        return 'undecided', str(x)
    rets = [pc for pc, v in s.returns if feasible(pc)]
    raises = [(n, ln, bs, pc) for pc, n, ln, bs in s.raises if feasible(pc)]
    sure = [r for r in raises if not r[2] and Facts([]).simplify(c_and(*r[3]) if r[3] else True) is True]
    if rets and not sure:
        return ('returns', None) if not raises else ('mixed', raises[0][0], raises[0][1])
    if sure and not rets:
        return 'raises', sure[0][0], sure[0][1]
    if raises and not rets:
        names = {r[0] for r in raises}
        return 'raises', (names - {'ValueError'} or names).pop(), raises[0][1]
    return 'undecided', 'no path is certain'


class Bare:
    """the same program without specifications: every callee is analysed where it is called"""
    def __init__(self, w):
        self.w = w

    def run(self, sp, case, what):
        w, keep = self.w, self.w.allspecs
        w.allspecs = {}
        try:
            return w.run(sp, case, what)
        finally:
            w.allspecs = keep


def one_range(w, pid, tier, item):
    fq, n, pos, invalid = item
    rep, und = Report(), []
    r = w.prog.func(fq)
    if r is None:
        rep.lost.append('function %s not found' % fq)
        return rep.out(), und
    a = r[2].args
    ps = [x.arg for x in a.posonlyargs + a.args][:n]
    if len(ps) < n:
        rep.lost.append('%s no longer takes %d orders' % (fq, n))
        return rep.out(), und
    sp = S.Spec(fq, args={p: 'integer' for p in ps}, ret='any', prop=pid)
    old = w.allspecs.get(fq)
    if old is not None:
        sp.ignore, sp.memo = old.ignore, old.memo
    for pt in points(n, pos, tier):
        bad = invalid(*[pt[i] for i in pos])
        if not bad and any(pt[i] < 0 for i in pos):
            continue                # neither refused nor promised
        rep.count('requests_out_of_range' if bad else 'requests_in_range')
        at = '(%s)' % ', '.join(map(str, pt))
        o = outcome(w, sp, dict(zip(ps, pt)))
        if bad and o[0] != 'raises':
            o2 = outcome(Bare(w), sp, dict(zip(ps, pt)))
            if o2[0] == 'raises' or o2[0] == 'returns' or o[0] == 'returns':
                o = o2                  # what it relies on may refuse: nothing certain unless these are seen through
        if o[0] == 'undecided':
            und.append('%s%s: %s' % (fq, at, o[1][:80]))
            continue
        rep.count('requests_decided')
        if bad and o[0] in ('returns', 'mixed'):
            rep.bad(w, fq, 'accepts', 'answers a request that is out of range instead of raising ValueError', at)
            break
        if bad and o[1] != 'ValueError':
            rep.bad(w, fq, 'accepts', 'meets %s, not ValueError, for a request that is out of range' % o[1], at, o[2])
            break
        if not bad and o[0] == 'raises':
            rep.bad(w, fq, 'refuses', 'raises %s for a request in range' % o[1], at, o[2])
            break
    return rep.out(), und


def one_names(w, pid, tier, fq):
    rep, und = Report(), []
    sp0, extra = w.allspecs.get(fq), {}
    if fq == DT0:
        sp0, extra = S.Spec(fq, args=dict(t0=S.t0seq(2), wrt=S.one_of('k1', 'k2')), ret='any', prop=pid), {'t0': 2}
    if w.prog.func(fq) is None:
        rep.lost.append('function %s not found' % fq)
        return rep.out(), und
    ok = sp0.kinds['wrt'][1]
    sp = S.Spec(fq, args=dict(sp0.kinds), ret='any', prop=pid)
    upper, more = tuple(x.upper() for x in ok if x.upper() != x), tuple(x + '_' for x in ok)
    for nm in tuple(ok) + tuple(x for x in WRONG + upper + more if x not in ok):
        bad = nm not in ok
        rep.count('unknown_names' if bad else 'known_names')
        o = outcome(w, sp, dict(extra, wrt=nm))
        if o[0] == 'undecided':
            und.append('%s %r: %s' % (fq, nm, o[1][:80]))
            continue
        rep.count('requests_decided')
        if bad and (o[0] in ('returns', 'mixed') or o[1] != 'ValueError'):
            rep.bad(w, fq, 'accepts', ('answers' if o[0] != 'raises' else 'raises %s for' % o[1])
                    + ' an unknown parameter name instead of raising ValueError', repr(nm))
            break
        if not bad and o[0] == 'raises':
            rep.bad(w, fq, 'refuses', 'raises %s for a documented parameter' % o[1], repr(nm), o[2])
            break
    return rep.out(), und


def refusals(w, pid, tier, seed):
    """orders out of range and unknown names of derivatives raise ValueError on every path; orders in range do not"""
    rep = Report()
    und = []
    named = sorted(fq for fq, s in w.reg.items() if fq.startswith(A) and s.kinds.get('wrt', ('',))[0] == 'enum') + [DT0]
    jobs = [(one_range, i) for i in range(len(RANGES))] + [(one_names, f) for f in named]
    for (v, c, l), u in checker.parallel(w, lambda j: j[0](w, pid, tier, RANGES[j[1]] if j[0] is one_range else j[1]), jobs):
        rep.viol += v
        rep.lost += l
        und += u
        for k, x in c.items():
            rep.count(k, x)
    rep.cover['functions'] = len(jobs)
    rep.cover['undecided'] = len(und)
    rep.cover['undecided_list'] = und[:20]
    return rep.out()
