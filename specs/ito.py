"""One-factor Ito recursion with the raw initial variance (joint moments of IE, I, I*)."""
from fractions import Fraction
from engine.specapi import *

T3 = ('e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'k^{-}')
K7 = ('e^{k(n-1)h}', 'e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v')
M = 'ajdmom.ito_mom.'


@of(M + 'int_et', args=dict(n=integer, m=nat), ret=poly(T3), prop='C09', grid={'n': range(-3, 5), 'm': range(0, 6)})
def int_et(n, m):
    p = NP(T3)
    if n == 0:
        emit(p, Fraction(1, m + 1), {'[t-(n-1)h]': m + 1})
    else:
        for i in range(0, m + 1):
            emit(p, (-1) ** i * Fraction(facto(m), facto(m - i)) / n ** (i + 1),
                 {'e^{k[t-(n-1)h]}': n, '[t-(n-1)h]': m - i, 'k^{-}': i + 1})
        emit(p, -(-1) ** m * facto(m) / n ** (m + 1), {'k^{-}': m + 1})
    return p


@of(M + 'c_nmi', args=dict(n=integer, m=nat, i=nat), ret=rational, prop='C09', requires=['n!=0', 'm>=i'])
def c_nmi(n, m, i):
    return (-1) ** i * facto(m) / facto(m - i) / n ** (i + 1)


@of(M + 'int_e_poly', args=dict(c=rational, tp=one_of(1, 2, 3, 4), m=integer, poly=poly(K7)), ret=poly(K7), prop='C06',
    grid={'m': range(-1, 3)})
def int_e_poly(c, tp, m, poly):
    p = NP(K7)
    for k, a in terms(poly):
        for q, b in terms(int_et(m + k['e^{k[t-(n-1)h]}'], k['[t-(n-1)h]'])):
            rest = drop(k, 'e^{k[t-(n-1)h]}', '[t-(n-1)h]')
            if tp == 1:
                emit(p, c * a * b, rest, q, {'e^{k(n-1)h}': m + 1, 'v_{n-1}': 1})
            elif tp == 2:
                emit(p, -c * a * b, rest, q, {'e^{k(n-1)h}': m + 1, 'theta': 1})
            elif tp == 3:
                emit(p, c * a * b, rest, q, {'e^{k(n-1)h}': m, 'theta': 1})
            else:
                emit(p, c * a * b, rest, q, {'e^{k(n-1)h}': m, 'sigma_v': 1})
    return p


def step(c, m, below, shifted):
    """ c * integral e^{ks m} { v e^{k(n-1)h} - theta e^{k(n-1)h} , + theta e^{ks}, + sigma * IE } of the lower moment"""
    return int_e_poly(c, 1, m, below) + int_e_poly(c, 2, m, below) + int_e_poly(c, 3, m + 1, below) + \
        int_e_poly(c, 4, m, shifted)


@of(M + 'recursive_IEII', args=dict(n3=nat, n4=nat, n5=nat), ignore={'IEII': table(M + 'moment_IEII')}, ret=poly(K7), prop='C06', memo=M + 'moment_IEII')
def recursive_IEII(n3, n4, n5):
    p = NP(K7)
    if n3 >= 2:
        p.merge(step(Fraction(n3 * (n3 - 1), 2), 1, moment_IEII(n3 - 2, n4, n5), moment_IEII(n3 - 1, n4, n5)))
    if n4 >= 2:
        p.merge(step(Fraction(n4 * (n4 - 1), 2), -1, moment_IEII(n3, n4 - 2, n5), moment_IEII(n3 + 1, n4 - 2, n5)))
    if n3 >= 1 and n4 >= 1:
        p.merge(step(n3 * n4, 0, moment_IEII(n3 - 1, n4 - 1, n5), moment_IEII(n3, n4 - 1, n5)))
    if n5 >= 2:
        p.merge(step(Fraction(n5 * (n5 - 1), 2), -1, moment_IEII(n3, n4, n5 - 2), moment_IEII(n3 + 1, n4, n5 - 2)))
    return p


@of(M + 'moment_IEII', args=dict(n3=nat, n4=nat, n5=nat), ret=poly(K7), prop='C06', public=True)
def moment_IEII(n3, n4, n5):
    if n3 + n4 + n5 == 0:
        p = NP(K7)
        emit(p, 1)
        return p
    return recursive_IEII(n3, n4, n5)


@of(M + 'moment_v', args=dict(n=nat), ret=poly(('theta', 'sigma_v^2/k')), prop='C10', public=True)
def moment_v(n):
    p = NP(('theta', 'sigma_v^2/k'))
    if n == 0:
        emit(p, 1)
        return p
    for k, a in terms(moment_v(n - 1)):
        emit(p, a, k, {'theta': 1})
        emit(p, a * Fraction(n - 1, 2), k, {'sigma_v^2/k': 1})
    return p
