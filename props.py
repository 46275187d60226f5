"""Which analyses decide which property."""
from engine import checker, literal, effects, guards, simulators, structure, tables, writers


def values(own=()):
    """the value analysis: every public function of the property, with everything it uses, equals its specification;
    with own, only the functions of these properties are held against this one (a derivative of a wrong moment may be right)"""
    def run(w, pid, tier, seed):
        roots = [f for f, s in w.reg.items() if (s.prop == pid or pid in s.also)]
        pub = [f for f in roots if w.reg[f].public]
        report = {f for f, s in w.reg.items() if f in roots or s.prop in own or set(own) & set(s.also)} if own else None
        res, viol, other = checker.check_functions(w, roots, tier, seed, report)
        out = []
        for f, r in viol:
            d = dict(r.witness or {'why': r.status, 'function': f})
            d['rule'] = 'value'
            out.append(d)
        real = {f: r for f, r in res.items() if not w.reg[f].virtual}
        n = {}
        for r in real.values():
            n[r.status] = n.get(r.status, 0) + 1
        cov = {'functions': len(real), 'functions_of_the_property': len([f for f in roots if not w.reg[f].virtual]),
               'equal_for_all_inputs': n.get('proved', 0), 'equal_on_evaluated_domain': n.get('bounded', 0),
               'undecided': n.get('undecided', 0), 'analysed_inline': n.get('inlined', 0) + len([o for o in other if o.startswith('ajdmom.')]),
               'obligations': sum(r.cases + r.stores for r in real.values()),
               'discharged': sum(r.proved + r.stores_proved for r in real.values()),
               'evaluated_points': sum(r.points for r in real.values()),
               'undecided_list': ['%s: %s' % (f, '; '.join(r.why)[:200]) for f, r in sorted(real.items()) if r.status == 'undecided'],
               'bounded_list': sorted(f for f, r in real.items() if r.status == 'bounded')}
        lost = ['public function %s not found' % f for f in pub if res[f].status == 'missing']
        mine = [r.status for f, r in real.items() if f in roots]
        if mine and sum(s == 'undecided' for s in mine) * 2 > len(mine) and not out:
            lost.append('most functions of the property could not be analysed')
        return out, cov, lost
    return run


ASSUME = ['the specification in /verif/specs states the intended mathematics',
          'the abstract interpreter and the canonicaliser in /verif/engine are sound',
          'Python integers, Fraction, math.comb, math.factorial and itertools behave as documented']
EXPL = ('The source of every function that the property depends on is interpreted over symbolic arguments to a closed form '
        '(sums of monomials under guards and ranges); the closed form is compared with that of the specification. '
        'equal_for_all_inputs: the normal forms coincide or the equality is derived by rewriting, for every order; '
        'equal_on_evaluated_domain: the two closed forms agree at evaluated_points sample points of the index space.')

PROPS = {}


def prop(pid, *analyses, **k):
    PROPS[pid] = dict(analyses=analyses or (values(),), explain=k.get('explain', EXPL), level=k.get('level', 'other'),
                      assume=k.get('assume', ASSUME), note=k.get('note', ''), technique=k.get('technique', TECH))


TECH = 'abstract interpretation of the source to closed forms, equality with a specification by normalisation and rewriting'
for _p in ('C01', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16'):
    prop(_p)
prop('C15', values(own=('C15', 'C01', 'C20')))
prop('C16', values(own=('C16',)))

PROPS['C14']['analyses'] += (literal.grouping,)
PROPS['C16']['analyses'] += (literal.sums,)
prop('C20', values(), literal.enumerators)

prop('C02', effects.independent, technique='interprocedural alias and side-effect analysis over the syntax trees',
     explain='Every function of the tree is abstracted to the locations it changes, returns, holds and keeps (fixed point over the call graph); '
             'reported are changes of an argument, results that alias an argument, module-level state or a cache, and module-level memos whose key '
             'does not determine what they hold.',
     assume=['the alias and effect analyser in /verif/engine/effects.py is sound for the Python constructs used',
             'UserDict copies its argument on construction and in copy()'])

prop('C03', guards.names, technique='abstract interpretation of the guarded operations over enumerated patterns of variable names',
     explain='is_exact_type, the operators and merge are interpreted on polynomials with arbitrary terms and with every pattern of names up to length 3 '
             'and every documented list of names with one name changed, dropped, added or swapped: no path may combine different names, change the '
             'receiver before the error, or refuse identical names.')

prop('C04', structure.analysis, technique='abstract interpretation: arity, component kinds and names of every polynomial built',
     explain='In the interpretation of every function each key stored is held against the names of its polynomial, each index map against the names it '
             'selects from, operands of sums, products and merges against each other, exponents must be integers, and the names of every result '
             'must be the documented ones.')
prop('C05', structure.analysis, technique='abstract interpretation with number types (int, fraction, float)',
     explain='Every coefficient and exponent carries its number type through the interpretation; reported are floats that reach a coefficient, '
             'integer divisions, integer powers with an exponent that can be negative, and fractions made of floats in derivations.')

prop('C19', guards.refusals, technique='abstract interpretation of the guards at enumerated orders and names, other arguments symbolic',
     explain='Every function that documents a range of orders, and every derivative with a parameter name, is interpreted at orders on both sides of the '
             'boundary (all small ones) and at documented and other names, all other arguments symbolic: out of range every path must raise '
             'ValueError, in range none may.')

prop('C17', tables.available, technique='typestate of table entries: store, look-up and removal events, laid out over the loops at every order up to a bound',
     explain='The stores, look-ups and removals of every derivation that keeps a table of lower orders, and of the functions it hands the table to, are '
             'found by abstract interpretation with symbolic orders; laid out in program order at every order up to the bound, every look-up must '
             'find an entry, and a table returned on request must hold every lower total order.',
     note='Bounded: total orders as in the coverage; the events themselves hold for every order.')

prop('C18', writers.files, technique='abstract interpretation of the writers over text templates with symbolic exponents and coefficients',
     explain='The writers are interpreted on polynomials of 0 to 3 terms whose exponents and coefficients are symbols (tuple-valued ones included), over '
             'names of every kind that is written; every path must leave a file whose header has the columns of the lines below it and whose lines '
             'are the terms, each once, with exactly their coefficients.',
     note='The loops over terms are uniform, so that polynomials with 0 to 3 terms stand for all; lengths of sums 0 to 3 (quick) or 5.')

prop('C21', simulators.steps, technique='abstract interpretation of the simulators over formal random expressions, compared with the documented scheme in a normal form',
     explain='The observations of every simulator are derived from its source as formal expressions of the parameters, the state and the draws '
             '(unrolled for small numbers of observations, steps and jumps and every kind of placement of the jumps in the grid) and compared, up to '
             'renaming of draws of the same law, with the expressions of the documented scheme.',
     note='Bounded: numbers of observations, steps and jumps 0 to 3 (quick) and the placements of the jumps listed in the evidence; parameters, state and '
          'draws are symbolic.')

NOTE = ('For every function marked equal_for_all_inputs in the evidence the equality with the specification holds for every order; functions '
        'marked equal_on_evaluated_domain agree at sample points of the closed forms; undecided ones are taken as specified. '
        'Trusted: the specification, the analyser in /verif/engine, exact integer and Fraction arithmetic of Python.')
NOT_APPLICABLE = {
    'C22': 'agreement of sample statistics with moments and positivity over the admissible parameters quantify over real parameter values and random '
           'samples; no static argument in reach bounds them (the algebra behind the derived moments is decided under C06-C14)',
    'C23': 'rounding error of a sum with cancellation depends on run-time magnitudes of all terms; no sound static bound over every admissible '
           'parameter set is in reach, and none is documented',
}
