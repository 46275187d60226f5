"""writes /verif/properties.jsonl (the texts live here, one call per property)"""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': ['src/ajdmom/' + f for f in files],
                     'mechanism': [{'name': n, 'where': 'src/ajdmom/' + w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, (id, len(title))
    P.append(d)


p('C01', 'Polynomial arithmetic is exact ring arithmetic',
  'Sum, difference, product, scalar multiple, natural power and variable-remapping product of two polynomials equal the mathematical result: the coefficient of every monomial of the result is exactly the sum, difference or convolution of the operands\' coefficients, for every operand including the empty one. '
  'Adding a term accumulates into an existing one, merging accumulates every term of the argument, and dropping zero terms drops exactly those whose coefficient is zero. '
  'The result carries the variable names of the operands (or the names given), in the same order as its exponents.',
  ['inputs'], 'every pair of polynomials over the same variables, every scalar, every natural power, every index map of the variable-remapping product',
  'seven unit tests use one or two literal polynomials with two or three terms; cancelling terms, empty operands, power 0 and 1 and general index maps are not sampled',
  ['poly.py'], [('term-by-term accumulation', 'poly.py Poly.add_keyval, __add__, merge, __sub__'),
                ('convolution over all pairs of terms', 'poly.py Poly.__mul__, mul_poly'), ('powers', 'poly.py Poly.__pow__')],
  ['ajdmom.poly.Poly'])

p('C02', 'No operation changes its inputs; results are independent objects',
  'No public operation changes a polynomial, dictionary, list or parameter set that it was given, except the in-place operations documented as such (adding a term, merging into the receiver, dropping zeros, naming the variables). '
  'Every result is a new object that shares no mutable state with the inputs, with module-level data or with the result of another call, so that changing one result never changes another result or a later call. '
  'Calling the same function again with equal arguments gives an equal result, whatever was called in between.',
  ['inputs', 'histories'], 'every sequence of calls of the public functions, every later mutation of a result by the caller',
  'each test calls a function once with fresh arguments and compares the result; none mutates a result and calls again, and none compares the arguments before and after',
  ['poly.py', 'utils.py', 'ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'cpp_mom.py', 'mdl_1fsv/', 'mdl_2fsv/', 'mdl_svvj/', 'mdl_srjd/', 'mdl_svcj/'],
  [('binary operations start from a fresh Poly', 'poly.py Poly.__add__, __sub__, __mul__, __pow__'),
   ('recursion tables are local to a driver call', 'ito_mom.py moment_IEII, itos_mom.py moment_IEI_IEII'),
   ('the central-moment wrappers copy par before changing it', 'mdl_1fsvj/mom.py m')])

p('C03', 'Polynomials over different variables are never combined silently',
  'Adding, subtracting, merging or multiplying two polynomials whose variable names differ (in any name, in their order or in their number) raises NotImplementedError. '
  'The error is raised before the receiver is changed. '
  'Polynomials with identical variable names are always accepted.',
  ['inputs'], 'every pair of polynomials, every pair of variable-name lists',
  'the tests only combine polynomials with equal names; the refusing branch is never taken',
  ['poly.py'], [('guard on the names', 'poly.py Poly.is_exact_type and its callers')], ['ajdmom.poly.Poly'])

p('C04', 'Every returned polynomial has keys that match its variable names',
  'In every polynomial that a derivation returns or builds on the way, each term has exactly one exponent per declared variable name (a tuple of exponents for the tuple-valued jump variables), in the declared order, and all exponents are integers of the documented sign. '
  'The declared names of a result are the documented ones for that model and derivation.',
  ['inputs', 'configurations'], 'every order of every derivation of every model, base cases and empty polynomials included',
  'most tests evaluate a polynomial to a number for a few orders; base-case polynomials with a wrong arity or without names go unnoticed unless that order is evaluated',
  ['ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'mdl_1fsv/mom.py', 'mdl_2fsv/mom.py', 'mdl_srjd/cond2_mom.py', 'mdl_svcj/cond2_mom.py', 'mdl_svvj/cond2_mom.py'],
  [('names set where a polynomial is created', 'ito_mom.py int_et, moment_IEII'), ('names of the remapping product', 'poly.py Poly.mul_poly')])

p('C05', 'Derivations are carried out in exact rational arithmetic',
  'Every coefficient of every polynomial produced by a derivation is an integer or an exact fraction: no floating-point number enters a coefficient or an exponent anywhere between the request and the returned polynomial. '
  'Floating-point numbers appear only when a polynomial is evaluated at numerical parameter values or when paths are simulated.',
  ['inputs'], 'every order of every derivation of every model',
  'tests compare numbers within tolerances of 1e-3 to 10 %, so a coefficient rounded to double precision is invisible',
  ['poly.py', 'utils.py', 'cpp_mom.py', 'ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'mdl_1fsv/cmom.py', 'mdl_srjd/cmom.py', 'mdl_svcj/cond2_mom.py'],
  [('Fraction for every quotient', 'ito_mom.py c_nmi, int_et'), ('Fraction coefficients of the return decomposition', 'mdl_1fsv/cmom.py b_n')])

p('C06', 'One-factor joint Ito-integral moments equal their recursion solution, any order',
  'For every order the derived moments of the Ito processes of a square-root variance (e^{ks}-weighted diffusion integral, return diffusion integral and integrated variance), unconditional, given the initial variance, and given the jumps, equal the solution of the Ito-formula recursion: the base cases are exact and the moment of order (n3,n4,n5) is the sum of its documented lower-order terms, each integrated against its kernel. '
  'Odd-order and mixed-order terms vanish or survive exactly as the recursion says, in every direction of the order space.',
  ['inputs'], 'every order (n3, n4, n5) with non-negative components, every path of the recursion through lower orders',
  'the tests list the polynomials of a few orders up to total order 3 or 4; higher orders, where other recursion branches contribute, are never compared',
  ['ito_mom.py', 'ito_cond_mom.py', 'mdl_1fsv/cond_cmom.py', 'mdl_srjd/cond2_mom.py', 'mdl_svvj/cond2_mom.py'],
  [('recursion step', 'ito_mom.py recursive_IEII'), ('driver by total order', 'ito_mom.py moment_IEII'),
   ('jump kernels', 'ito_cond_mom.py int_et_fZ, int_e_poly, int_e_IEZ_poly, recursive_IEII')])

p('C07', 'Two-factor joint Ito-integral moments equal their recursion solution, any order',
  'For every order the derived joint moments of the Ito processes of two superposed square-root variances equal the solution of the Ito-formula recursion: base cases are exact and every order is the sum of its documented lower-order terms integrated against the kernels of the two mean-reversion rates. '
  'The two factors are treated symmetrically: exchanging the roles of the factors exchanges the result.',
  ['inputs'], 'every order (n4, n5, n6, n7, n8) with non-negative components',
  'tests cover orders up to (3,0,0,0,0) and a handful of mixed orders of total order two; the cross terms between the factors appear only beyond them',
  ['itos_mom.py'], [('recursion step', 'itos_mom.py recursive_IEI_IEII, int_mIEI_IEII'), ('driver', 'itos_mom.py moment_IEI_IEII'),
                    ('integration against the kernel', 'itos_mom.py coef_poly, t_mul_t0')])

p('C08', 'Jump-process joint moments equal their recursion solution, any order',
  'For every order the joint moments of the compound-Poisson integrals of the variance jumps (weighted and unweighted sums, and their product with the diffusion integrals) equal the solution of their recursion: base cases are exact, each order is the sum of its documented lower-order terms, and the jump-driven starting moments are those of a marked Poisson process with exponentially distributed (and conditionally normal) jumps. '
  'The central versions are the binomial re-centrings of the raw ones with the exact mean.',
  ['inputs'], 'every order of the joint moments of the square-root jump-diffusion and contemporaneous-jump models',
  'only numerical agreement at a few orders and one parameter set is tested, within 10 % tolerances; the terms of higher orders are never looked at',
  ['mdl_srjd/iez_mom.py', 'mdl_srjd/iez_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py', 'mdl_svcj/ieziziz_mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
  [('recursion step', 'mdl_srjd/cond_ie_iez_mom.py recursive_ie_iez'), ('jump moment from the derivative of the transform', 'mdl_srjd/iez_mom.py moment_IEZ, mdl_svcj/ieziziz_mom.py moment_ieziziz')])

p('C09', 'The exponential-polynomial kernel integrals are exact antiderivatives',
  'The closed form returned for the integral of e^{nks} s^m over [0,t] (one mean-reversion rate), of e^{(n1 k1 + n2 k2)s} s^m (two rates), and of their jump-conditional versions has the integrand as derivative in t and vanishes at t = 0. '
  'It is also right in the degenerate cases: zero exponent, zero power, and exponents of either sign.',
  ['inputs'], 'every integer n (both signs and zero, and every sign combination of n1 and n2) and every natural m',
  'no test calls the kernel integrals directly; they are reached only with the few (n, m) that orders up to 3 or 4 produce',
  ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py'],
  [('coefficients of the antiderivative', 'ito_mom.py c_nmi, itos_mom.py c'), ('integral', 'ito_mom.py int_et, itos_mom.py int_et, ito_cond_mom.py int_et_fZ')])

p('C10', 'Return moments are assembled by the exact multinomial expansion, any order',
  'For the one-factor and the two-factor stochastic volatility model, the derived moment and central moment of the return of every order equal the multinomial expansion of the documented decomposition of the return: each combination appears exactly once with its exact multinomial coefficient and powers, the stationary moments of the variance replace its powers, and drift terms are those of the documented decomposition. '
  'Evaluating the polynomial at parameter values gives the moment.',
  ['inputs'], 'every order l, every parameter set',
  'tests compare numbers for orders up to 4 within tolerance for one parameter set; two-factor models have no test at all',
  ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'ito_mom.py'],
  [('coefficient of a combination', 'mdl_1fsv/cmom.py b_n, mdl_2fsv/cmom.py b_n'), ('sum over all combinations', 'mdl_1fsv/cmom.py cmoment_y'),
   ('stationary variance moments', 'ito_mom.py moment_v, mdl_1fsv/cmom.py sub_v')])

p('C11', 'Lagged covariances equal the joint moment minus the product of moments',
  'For every pair of orders, the derived covariance of powers of consecutive returns (one- and two-factor models, with and without jumps) is the joint moment assembled from the nested expansion over both periods, minus the product of the two moments. '
  'The joint moment uses every combination of the two expansions once, with the later return expanded first on the variance at the end of the earlier period.',
  ['inputs'], 'every pair of orders (l1, l2) and every parameter set',
  'the tests evaluate orders up to (2,2) of the one-factor models within tolerance; two-factor covariances have no test',
  ['mdl_1fsv/cov.py', 'mdl_1fsvj/cov.py', 'mdl_2fsv/cov.py', 'mdl_2fsvj/cov.py'],
  [('inner and outer combination', 'mdl_1fsv/cov.py moment_inner_comb, moment_outer_comb'), ('covariance', 'mdl_1fsv/cov.py cov_yy')])

p('C12', 'Moments of models with jumps are the exact binomial composition with jumps',
  'For the models with jumps in the return, the derived moment or central moment of every order is the binomial sum over i of C(n,i) times the moment of the diffusion part of order i times the (central) moment of the compound-Poisson jump sum of order n-i, each once. '
  'The moments of the compound Poisson sum with normal jumps are the exact ones of its moment generating function, for every order, in raw and in central form. '
  'Order 0 gives the constant one.',
  ['inputs'], 'every order of every jump model',
  'numerical tests of low order with 10 % tolerance for one-factor models; the two-factor jump models have no test',
  ['mdl_1fsvj/', 'mdl_2fsvj/', 'mdl_svij/', 'mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py', 'cpp_mom.py'],
  [('composition', 'mdl_1fsvj/mom.py moment_y, mdl_2fsvj/cmom.py cmoment_y'), ('compound Poisson moments', 'cpp_mom.py mcpp, cmcpp, dterm, decode')])

p('C13', 'Conditional, unconditional and central moments of jump models are consistent',
  'For the square-root jump-diffusion and the contemporaneous-jump model, the conditional moment of every order given the initial variance is the binomial expansion of the documented solution of the model, the unconditional variance moments solve the stationarity equation exactly, and the central moment of every order is the alternating binomial sum of raw moments with powers of the exact mean. '
  'Replacing the initial variance by its stationary moments turns the conditional into the unconditional moment.',
  ['inputs'], 'every order and every parameter set',
  'tests reach orders up to 3 or 4 of the doubly conditional moments only; the singly conditional and unconditional derivations have no test',
  ['mdl_srjd/cond_mom.py', 'mdl_srjd/cond_cmom.py', 'mdl_srjd/mom.py', 'mdl_srjd/cmom.py', 'mdl_svcj/cond_mom.py', 'mdl_svcj/cond_cmom.py', 'mdl_svcj/mom.py', 'mdl_svcj/cmom.py'],
  [('expansion', 'mdl_srjd/cond_mom.py moment_x, moment_v; mdl_svcj/cond_mom.py moment_y'), ('stationarity equation', 'mdl_srjd/cmom.py solve_polynomial'),
   ('mean subtraction', 'mdl_svcj/cond_cmom.py cmoment_y')])

p('C14', 'Moments given the jumps equal the exact expansion for every order',
  'For the model with jumps in the variance, and for the variance of the square-root jump-diffusion, the moment and central moment of every order given the initial variance and the jump times and sizes equal the multinomial expansion of the documented conditional decomposition, each combination once, with the exact moments of the Ito processes given the jumps. '
  'Grouping of terms for evaluation or export neither loses, duplicates nor alters a term, and order 0 gives one.',
  ['inputs'], 'every order and every jump sequence',
  'the tests evaluate a few orders within 10 % of simulated values; a term lost at a higher order is within the noise',
  ['mdl_svvj/cond2_mom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_srjd/cond2_mom.py', 'mdl_srjd/cond2_cmom.py'],
  [('expansion', 'mdl_svvj/cond2_mom.py moments_y_to, moment_comb; mdl_svvj/cond2_cmom.py cmoments_y_to'), ('grouping', 'mdl_svvj/cond2_cmom.py classify')])

p('C15', 'Derived partial derivatives are the true partial derivatives',
  'The polynomial returned as derivative of a moment or covariance with respect to a model parameter is its exact partial derivative with respect to that parameter: product rule over every factor that depends on the parameter (also through exponentials, combined rates and derived quantities), for every monomial. '
  'Evaluating the derivative at parameter values gives the derivative of the evaluated moment, and asking for a derivative with respect to anything else raises ValueError.',
  ['inputs'], 'every order, every parameter name, every monomial that can occur',
  'no test calls any derivative function',
  ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_1fsv/cov.py', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/'],
  [('per-monomial product rule', 'mdl_1fsv/cmom.py dpoly, mdl_2fsv/cmom.py dpoly, dt0'), ('evaluation of derivatives', 'mdl_1fsv/cmom.py dcm')])

p('C16', 'Evaluating a polynomial gives the value its variable names define',
  'Evaluating a derived polynomial at numerical parameters gives the sum over its terms of the coefficient times the product of the named variables raised to the term\'s exponents, where each variable has its documented value (rates, exponentials of rate times time, functions of jump times and sizes). '
  'Every moment, central-moment, covariance and derivative entry point evaluates the polynomial of exactly the requested order at exactly the given parameters.',
  ['inputs'], 'every polynomial over the documented variables, every parameter set',
  'tests use one parameter set per model in which several quantities coincide numerically or vanish, and orders up to 4',
  ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svcj/', 'mdl_svij/', 'mdl_svvj/'],
  [('evaluation', 'mdl_1fsv/cmom.py poly2num and its namesakes'), ('entry points', 'mdl_1fsv/mom.py m, mdl_1fsv/cov.py cov, mdl_srjd/mom.py')])

p('C17', 'Every valid order can be derived: no lower order is missing when needed',
  'A derivation that proceeds by increasing total order has, at the moment it computes an order, every lower order that this order refers to, whatever intermediate results it discards to save memory. '
  'Every valid order is therefore derived to completion, never failing on a missing intermediate result, and a request that asks for all intermediate results gets all of them.',
  ['inputs', 'histories'], 'every order, every order of traversal that the drivers use, every discarded intermediate result',
  'the tests run the drivers up to total order 4; which orders are discarded matters only when a later order refers to them',
  ['ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'mdl_1fsv/cond_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py', 'mdl_srjd/cond2_mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
  [('window of two total orders', 'ito_mom.py moment_IEII'), ('store and look-up of lower orders', 'ito_mom.py recursive_IEII')])

p('C18', 'Written text and CSV files contain the whole polynomial, faithfully',
  'Writing a polynomial to a text or CSV file writes every term exactly once with its exponents and its exact coefficient, after a header that names the variables in the order of the exponents. '
  'In the CSV file every line, the header included, has the same number of columns, and a reader of the file gets back exactly the terms of the polynomial, for every polynomial including the empty one and those with tuple-valued exponents or names that contain commas.',
  ['inputs'], 'every polynomial of every model, including empty ones and tuple-valued keys',
  'no test writes a file',
  ['poly.py', 'mdl_svvj/cond2_cmom.py'], [('writers', 'poly.py Poly.write_to_txt, write_to_csv, kv'), ('split writing', 'mdl_svvj/cond2_cmom.py write_to_subpolys')])

p('C19', 'Invalid orders and arguments are refused with ValueError, never answered',
  'Each function that states a range for its orders (the derivations of moments of Ito integrals and of jump sums, the kernel integrals, the compound-Poisson and normal moments, and the SVCJ and SRJD moments built on them) raises ValueError, before it answers anything, for a negative total order, or for any negative order where each has to be non-negative, or for a negative power of time. '
  'Each derivative function given a name that is not one of its parameters raises ValueError. Every valid order, zero included, and every documented parameter name is accepted.',
  ['inputs'], 'every integer order, both sides of the boundary of validity',
  'no test passes an invalid order',
  ['ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'utils.py', 'mdl_1fsv/', 'mdl_svvj/', 'mdl_srjd/', 'mdl_svcj/'],
  [('guards at the start of the drivers', 'ito_mom.py moment_IEII, itos_mom.py moment_IEI_IEII'), ('derivative names', 'mdl_1fsv/cmom.py dpoly')])

p('C20', 'Combinatorial and simplification helpers are exact',
  'Multinomial coefficients, double factorials, central normal moments, and the enumeration of ordered compositions equal their mathematical definitions for every argument (each composition exactly once). '
  'Substituting the square of the correlation complement, expanding its square root or merging equal variables is a polynomial identity: the simplified polynomial has the same value as the original at every parameter value, with no remaining occurrence of the eliminated variable.',
  ['inputs'], 'every argument of the helpers; every polynomial with even powers of the eliminated square root',
  'tests use one or two literal arguments per helper',
  ['utils.py', 'mdl_svvj/cond2_cmom.py', 'mdl_svcj/cond_mom.py', 'mdl_1fsv/cond_cmom.py'],
  [('helpers', 'utils.py comb, dbfactorial, cmnorm, multilevel_comb, simplify_rho'), ('simplification', 'mdl_svcj/cond_mom.py expand_sqrt, mdl_1fsv/cond_cmom.py simplify')])

p('C21', 'Each simulated step follows the documented Euler scheme of the model',
  'In every simulator each time step advances the state by exactly the documented drift times the step length, diffusion coefficient times a normal with variance equal to the step length (with the documented correlation), and the jumps that fall in the step; the step lengths of an interval add up to the interval, and the square root is never taken of a negative variance. '
  'The simulated sample has the requested number of observations.',
  ['inputs', 'histories'], 'every parameter set, step count and seed, every step of a path',
  'tests compare sample moments with 10 % tolerance and only exercise parts of the simulators',
  ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py', 'mdl_srjd/euler.py', 'mdl_svcj/euler.py', 'mdl_svij/euler.py', 'mdl_svvj/euler.py'],
  [('update statements of the step loops', 'mdl_1fsv/euler.py r1FSV and its namesakes')])

p('C22', 'Derived moments agree with simulated moments of the model',
  'For every admissible parameter set the derived moments, central moments and covariances agree with the corresponding sample statistics of long simulated paths, as the step length goes to zero and the sample grows. '
  'Even central moments are non-negative and Cauchy-Schwarz holds between derived moments and covariances.',
  ['inputs'], 'every admissible parameter set and order', 'tests compare at one parameter set with 10 % tolerance',
  ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svcj/', 'mdl_svij/', 'mdl_svvj/'],
  [('derivation versus simulator', 'mdl_1fsv/mom.py m, mdl_1fsv/euler.py r1FSV')])

p('C23', 'Numerical evaluation stays accurate for extreme parameters and high orders',
  'Evaluating a derived polynomial in floating point gives a result within a stated relative error of the exact value for every admissible parameter set, including small mean-reversion rates and time steps, where terms nearly cancel.',
  ['inputs'], 'every admissible parameter set and order', 'tests use one benign parameter set',
  ['mdl_1fsv/cmom.py', 'mdl_2fsv/cmom.py', 'mdl_svvj/cond2_cmom.py'], [('floating-point summation of the terms', 'mdl_1fsv/cmom.py poly2num')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
