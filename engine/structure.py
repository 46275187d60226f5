"""Structural observations on the summaries of the code: keys against names, index maps, number types."""
from . import geval
from .expr import E, Unsupported
from .framework import Gen, PARENV, jlen_of, key_s
from .values import PolyObj, PV, Ref


def reachable(w, sp, case, cs, pc, bs, tier, test=None):
    """sample points at which the path is taken (and the test holds): returns a description or None"""
    g = Gen(7)
    g.jlen, g.case = jlen_of(sp, case), case
    n = bad = 0
    for env in g.points(sp, tier):
        n += 1
        if n > 60:
            break
        e = {'v': dict(PARENV), 'b': {}}
        e['v'].update(env)
        ev = geval.Ev(w)
        try:
            if not all(ev.cond(c, e) for c in cs.requires):
                continue
            for e2 in ev.bind(tuple(bs), tuple(pc), e):
                if test is None or test(ev, e2):
                    return {k: v for k, v in env.items() if not isinstance(v, geval.Poly)}
        except geval.Bad:
            bad += 1
        except (geval.Undef, Unsupported):
            continue
    if bad and test is None:
        return {}                   # a path through values that have no closed form
    return None


def notes(w, sp, case, cs, tier):
    out = []
    seen = set()

    def note(rule, where, why, pc, bs, test=None, fatal=True):
        k = (rule, where, why)
        if k in seen:
            return
        at = reachable(w, sp, case, cs, pc, bs, tier, test)
        if at is None:
            return
        seen.add(k)
        out.append({'rule': rule, 'where': where, 'why': why, 'at': str(dict(at, **case)), 'in': sp.fq})
    for where, kf, why, pc, bs in cs.arity:
        if len(kf) == 1 and '...' in kf[0]:
            continue                    # a name that describes an encoded key as a whole
        note('key-length', where, why + ' %s' % (kf,), pc, bs)
    for where, ty, e, pc, bs in cs.keyty:
        note('exponent-type', where, 'an exponent is a %s' % {'float': 'floating-point number', 'frac': 'fraction'}.get(ty, ty), pc, bs)
    for where, what, a, b, pc, bs in cs.kfbad:
        if what.startswith('argument') and len(a) == len(b):
            continue
        note('names-differ', where, '%s: names %s and %s' % (what, a, b), pc, bs)
    for where, a, b, i1, i2, kf, pc, bs in cs.mulpoly:
        if len(i1) != len(kf) or len(i2) < len(i1):
            note('index-map', where, 'index lists of length %d and %d for %d names' % (len(i1), len(i2), len(kf)), pc, bs)
        for ix, src in ((i1, a), (i2, b)):
            if any(i >= len(src) for i in ix):
                note('index-map', where, 'an index beyond the %d names of %s' % (len(src), src), pc, bs)
    if sp.ret in ('poly', 'table', 't0') or sp.prop == 'C01' and sp.ret != 'real':
        for where, why, pc, bs in cs.floats:
            note('float', where, why, pc, bs)
        for where, x, pc, bs in cs.powneg:
            note('float', where, 'an integer to a negative power (%s) is a float' % str(x)[:80], pc, bs,
                 lambda ev, e2, x=x: ev.num(x, e2) < 0)
        for w_ in cs.warn:
            if len(w_) == 4:
                note('float', w_[0], w_[1], w_[2], w_[3])
    if sp.ret == 'poly':
        for pc, v in cs.returns:
            kf = getattr(v, 'kf', None)
            want = sp.kf
            if sp.by is not None:
                want = sp.by[2].get(case.get(sp.by[1]))
            if callable(want) or want is None or kf is None:
                continue
            if tuple(kf) != tuple(want):
                r = w.prog.func(sp.fq)
                note('result-names', (r[0].name, r[2].lineno), 'the result is over %s, documented %s' % (tuple(kf), tuple(want)), pc, ())
    return out


RULES = {'C04': ('key-length', 'exponent-type', 'names-differ', 'index-map', 'result-names'), 'C05': ('float', 'exponent-type')}


def function_at(w, where):
    """the function that contains a line"""
    mod, line = where if isinstance(where, tuple) else ('?', where)
    m = w.prog.mods.get(mod)
    if m is None or line is None:
        return None, None
    best = None
    for nm, node in m.funcs.items():
        if node.lineno <= line <= (node.end_lineno or node.lineno) and (best is None or node.lineno > best[1].lineno):
            best = (nm, node)
    return (mod + '.' + best[0] if best else mod), w.prog.relpath(m)


def analysis(w, pid, tier, seed):
    from . import checker
    rules = RULES[pid]
    w.notes = True
    roots = [f for f, s in w.reg.items() if s.public]
    res, viol, other = checker.check_functions(w, roots, tier, seed)
    w.notes = False
    out, seen = [], set()
    analysed = 0
    for f, r in sorted(res.items()):
        if w.reg[f].virtual or r.status in ('inlined', 'missing'):
            continue
        analysed += 1
        for n in r.notes:
            if n['rule'] not in rules or n['rule'] == 'result-names' and not w.reg[f].public:
                continue
            fn, file = function_at(w, n['where'])
            k = (n['rule'], fn, n['where'])
            if k in seen:
                continue
            seen.add(k)
            out.append({'rule': n['rule'], 'function': fn or f, 'file': file or '?', 'line': n['where'][1] if isinstance(n['where'], tuple) else n['where'],
                        'why': n['why'], 'at': '%s %s' % (n['in'], n['at'])})
    und = [f for f, r in res.items() if r.status == 'undecided' and not w.reg[f].virtual]
    cov = {'functions': analysed, 'cases': sum(r.cases for r in res.values()), 'undecided': len(und),
           'undecided_list': ['%s: %s' % (f, '; '.join(res[f].why)[:160]) for f in sorted(und)], 'rules': list(rules),
           'polynomial_returning': len([f for f in res if w.reg[f].ret == 'poly' and not w.reg[f].virtual])}
    lost = ['public function %s not found' % f for f in roots if res[f].status == 'missing']
    return out, cov, lost
