"""Two-factor Ito recursion (joint moments of IE1, I1, IE2, I2, I*)."""
from fractions import Fraction
from engine.specapi import *

T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'
EH, ET, DT = 'e^{(m_4*k1+m_6*k2)(n-1)h}', 'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}', '[t-(n-1)h]'
V1, V2 = 'v_{1,n-1}', 'v_{2,n-1}'
TRI, ETT = '(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}'
K3 = (TRI, ETT, DT)
K10 = (T0, EH, ET, DT, V1, 'theta1', 'sigma_v1', V2, 'theta2', 'sigma_v2')
M = 'ajdmom.itos_mom.'


@of(M + 'int_et', args=dict(n1=integer, n2=integer, m=nat), ret=poly(K3), prop='C09',
    grid={'n1': range(-2, 4), 'n2': range(-2, 4), 'm': range(0, 5)})
def int_et(n1, n2, m):
    """integral of e^{(n1 k1 + n2 k2) u} u^m over [0, u]"""
    p = NP(K3)
    if n1 == 0 and n2 == 0:
        emit(p, Fraction(1, m + 1), {DT: m + 1})
    else:
        for i in range(0, m + 1):
            emit(p, (-1) ** i * facto(m) / facto(m - i), {TRI: (n1, n2, i + 1), ETT: (n1, n2), DT: m - i})
        emit(p, -(-1) ** m * facto(m), {TRI: (n1, n2, m + 1)})
    return p


@of(M + 't_mul_t0', args=dict(t=tri(), t0=t0seq(1, 2, 3)), ret=t0(), prop='C09')
def t_mul_t0(t, t0):
    """the product of a factor and of a denominator"""
    return t0 + (t,)


@of(M + 'int_mIEI_IEII', args=dict(i=one_of(1, 2), m=integer, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat),
    ignore={'IEI_IEII': table(M + 'moment_IEI_IEII')}, ret=poly(K10), prop='C07', memo=M + 'moment_IEI_IEII',
    grid={'m': range(-1, 3)})
def int_mIEI_IEII(i, m, n4, n5, n6, n7, n8):
    """integral of e^{m k_i s} times the lower moment"""
    p = NP(K10)
    d1 = m if i == 1 else 0
    d2 = m if i == 2 else 0
    for k, a in terms(moment_IEI_IEII(n4, n5, n6, n7, n8)):
        for q, b in terms(int_et(k[ET][0] + d1, k[ET][1] + d2, k[DT])):
            emit(p, a * b, drop(k, ET, DT), {EH: (d1, d2), ET: q[ETT], DT: q[DT], T0: q[TRI]})
    return p


@of(M + 'coef_poly', args=dict(coef=rational, poly=poly(K10), tp=one_of(1, 2, 3, 4, 5, 6, 7, 8)), ret=poly(K10), prop='C07')
def coef_poly(coef, poly, tp):
    p = NP(K10)
    for k, a in terms(poly):
        if tp == 1:
            emit(p, coef * a, k, {EH: (1, 0), V1: 1})
        if tp == 2:
            emit(p, -coef * a, k, {EH: (1, 0), 'theta1': 1})
        if tp == 3:
            emit(p, coef * a, k, {'theta1': 1})
        if tp == 4:
            emit(p, coef * a, k, {'sigma_v1': 1})
        if tp == 5:
            emit(p, coef * a, k, {EH: (0, 1), V2: 1})
        if tp == 6:
            emit(p, -coef * a, k, {EH: (0, 1), 'theta2': 1})
        if tp == 7:
            emit(p, coef * a, k, {'theta2': 1})
        if tp == 8:
            emit(p, coef * a, k, {'sigma_v2': 1})
    return p


def one(c, m, n4, n5, n6, n7, n8):
    """c * integral of e^{m k1 s} v1(s) times the moment, v1 expanded"""
    low = int_mIEI_IEII(1, m, n4, n5, n6, n7, n8)
    return coef_poly(c, low, 1) + coef_poly(c, low, 2) + coef_poly(c, int_mIEI_IEII(1, m + 1, n4, n5, n6, n7, n8), 3) + \
        coef_poly(c, int_mIEI_IEII(1, m, n4 + 1, n5, n6, n7, n8), 4)


def two(c, m, n4, n5, n6, n7, n8):
    low = int_mIEI_IEII(2, m, n4, n5, n6, n7, n8)
    return coef_poly(c, low, 5) + coef_poly(c, low, 6) + coef_poly(c, int_mIEI_IEII(2, m + 1, n4, n5, n6, n7, n8), 7) + \
        coef_poly(c, int_mIEI_IEII(2, m, n4, n5, n6 + 1, n7, n8), 8)


@of(M + 'recursive_IEI_IEII', args=dict(n4=nat, n5=nat, n6=nat, n7=nat, n8=nat),
    ignore={'IEI_IEII': table(M + 'moment_IEI_IEII')}, ret=poly(K10), prop='C07', memo=M + 'moment_IEI_IEII')
def recursive_IEI_IEII(n4, n5, n6, n7, n8):
    p = NP(K10)
    if n4 >= 2:
        p.merge(one(Fraction(n4 * (n4 - 1), 2), 1, n4 - 2, n5, n6, n7, n8))
    if n5 >= 2:
        p.merge(one(Fraction(n5 * (n5 - 1), 2), -1, n4, n5 - 2, n6, n7, n8))
    if n4 >= 1 and n5 >= 1:
        p.merge(one(n4 * n5, 0, n4 - 1, n5 - 1, n6, n7, n8))
    if n6 >= 2:
        p.merge(two(Fraction(n6 * (n6 - 1), 2), 1, n4, n5, n6 - 2, n7, n8))
    if n7 >= 2:
        p.merge(two(Fraction(n7 * (n7 - 1), 2), -1, n4, n5, n6, n7 - 2, n8))
    if n6 >= 1 and n7 >= 1:
        p.merge(two(n6 * n7, 0, n4, n5, n6 - 1, n7 - 1, n8))
    if n8 >= 2:
        p.merge(one(Fraction(n8 * (n8 - 1), 2), -1, n4, n5, n6, n7, n8 - 2))
        p.merge(two(Fraction(n8 * (n8 - 1), 2), -1, n4, n5, n6, n7, n8 - 2))
    return p


@of(M + 'moment_IEI_IEII', args=dict(n4=nat, n5=nat, n6=nat, n7=nat, n8=nat), ret=poly(K10), prop='C07', public=True,
    variants={'return_all': True})
def moment_IEI_IEII(n4, n5, n6, n7, n8):
    if n4 + n5 + n6 + n7 + n8 == 0:
        p = NP(K10)
        emit(p, 1)
        return p
    return recursive_IEI_IEII(n4, n5, n6, n7, n8)
