"""One-factor Ito recursion given the initial variance and the jumps of the variance (IE, I, I*)."""
from fractions import Fraction
from engine.specapi import *
from specs.ito import c_nmi

TZ = ('e^{kt}', 't', 'k^{-}', 'e^{k(s_i1 v...v s_in)}', '(s_i1 v...v s_in)')
K10 = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
M = 'ajdmom.ito_cond_mom.'
E, T, KI = 'e^{kt}', 't', 'k^{-}'
ES, S = 'e^{k(s_i1 v...v s_in)}', '(s_i1 v...v s_in)'


@of(M + 'int_et_fZ', args=dict(n=integer, m=nat, N_sum=nat), ret=poly(TZ), prop='C09',
    grid={'n': range(-3, 4), 'm': range(0, 5), 'N_sum': range(0, 3)})
def int_et_fZ(n, m, N_sum):
    """integral of e^{nks} s^m from (the latest jump, or 0 when there is none) to t"""
    p = NP(TZ)
    if n == 0:
        emit(p, Fraction(1, m + 1), {T: m + 1})
        if N_sum != 0:
            emit(p, -Fraction(1, m + 1), {S: m + 1})
    else:
        for i in range(0, m + 1):
            emit(p, (-1) ** i * Fraction(facto(m), facto(m - i)) / n ** (i + 1), {E: n, T: m - i, KI: i + 1})
            if N_sum != 0:
                emit(p, -(-1) ** i * Fraction(facto(m), facto(m - i)) / n ** (i + 1), {KI: i + 1, ES: n, S: m - i})
        if N_sum == 0:
            emit(p, -(-1) ** m * facto(m) / n ** (m + 1), {KI: m + 1})
    return p


@of(M + 'int_e_poly', args=dict(coef=rational, tp=one_of(1, 2, 3), m=integer, poly=poly(K10)), ret=poly(K10), prop='C06',
    grid={'m': range(-1, 3)})
def int_e_poly(coef, tp, m, poly):
    p = NP(K10)
    for k, a in terms(poly):
        l, o, pp, q = k['l_{1:n}'], k['o_{1:n}'], k['p_{2:n}'], k['q_{2:n}']
        for j, b in terms(int_et_fZ(m + k[E], k[T], len(l))):
            key = {E: j[E], T: j[T], KI: k[KI] + j[KI], 'v0-theta': k['v0-theta'], 'theta': k['theta'], 'sigma': k['sigma']}
            if len(l) == 0:
                low = {}
            elif len(l) == 1:
                low = {'l_{1:n}': (l[0] + j[ES],), 'o_{1:n}': (o[0] + j[S],)}
            else:
                low = {'l_{1:n}': l, 'o_{1:n}': o, 'p_{2:n}': pp[:-1] + (pp[-1] + j[ES],), 'q_{2:n}': q[:-1] + (q[-1] + j[S],)}
            if tp == 1:
                emit(p, coef * a * b, key, low, {'v0-theta': 1})
            elif tp == 2:
                emit(p, coef * a * b, key, low, {'theta': 1})
            else:
                emit(p, coef * a * b, key, low, {'sigma': 1})
    return p


@of(M + 'int_e_IEZ_poly', args=dict(coef=rational, m=integer, poly=poly(K10)), ret=poly(K10), prop='C06',
    grid={'m': range(-1, 3)})
def int_e_IEZ_poly(coef, m, poly):
    p = NP(K10)
    for k, a in terms(poly):
        l, o, pp, q = k['l_{1:n}'] + (1,), k['o_{1:n}'] + (0,), k['p_{2:n}'], k['q_{2:n}']
        if len(l) >= 2:
            pp, q = pp + (0,), q + (0,)
        for j, b in terms(int_et_fZ(m + k[E], k[T], len(l))):
            key = {E: j[E], T: j[T], KI: k[KI] + j[KI], 'v0-theta': k['v0-theta'], 'theta': k['theta'], 'sigma': k['sigma']}
            if len(l) == 1:
                low = {'l_{1:n}': (l[0] + j[ES],), 'o_{1:n}': (o[0] + j[S],)}
            else:
                low = {'l_{1:n}': l, 'o_{1:n}': o, 'p_{2:n}': pp[:-1] + (pp[-1] + j[ES],), 'q_{2:n}': q[:-1] + (q[-1] + j[S],)}
            emit(p, coef * a * b, key, low)
    return p


def step(c, m, below, shifted):
    return int_e_poly(c, 1, m, below) + int_e_poly(c, 2, m + 1, below) + int_e_poly(c, 3, m, shifted) + \
        int_e_IEZ_poly(c, m, below)


@of(M + 'recursive_IEII', args=dict(n1=nat, n2=nat, n3=nat), ignore={'IEII': table(M + 'moment_IEII')}, ret=poly(K10),
    prop='C06', memo=M + 'moment_IEII')
def recursive_IEII(n1, n2, n3):
    p = NP(K10)
    if n1 >= 2:
        p.merge(step(Fraction(n1 * (n1 - 1), 2), 1, moment_IEII(n1 - 2, n2, n3), moment_IEII(n1 - 1, n2, n3)))
    if n2 >= 2:
        p.merge(step(Fraction(n2 * (n2 - 1), 2), -1, moment_IEII(n1, n2 - 2, n3), moment_IEII(n1 + 1, n2 - 2, n3)))
    if n1 >= 1 and n2 >= 1:
        p.merge(step(n1 * n2, 0, moment_IEII(n1 - 1, n2 - 1, n3), moment_IEII(n1, n2 - 1, n3)))
    if n3 >= 2:
        p.merge(step(Fraction(n3 * (n3 - 1), 2), -1, moment_IEII(n1, n2, n3 - 2), moment_IEII(n1 + 1, n2, n3 - 2)))
    return p


@of(M + 'moment_IEII', args=dict(n1=nat, n2=nat, n3=nat), ret=poly(K10), prop='C06', public=True)
def moment_IEII(n1, n2, n3):
    if n1 + n2 + n3 == 0:
        p = NP(K10)
        emit(p, 1)
        return p
    return recursive_IEII(n1, n2, n3)
