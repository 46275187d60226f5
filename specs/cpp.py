"""Moments of the normal distribution and of the compound Poisson process."""
from engine.specapi import *

A = 'ajdmom.cpp_mom.'
KN = ('mu', 'sigma^2')
KCPP2 = ('lambda*h', 'mu', 'sigma^2')
KCPP = ('lambda*h', 'mu', 'sigma')
LH = 'lambda*h'


@of(A + 'dmgf', args=dict(poly=poly(KN)), ret=poly(KN), prop='C12')
def dmgf(poly):
    """x P + s2 dP/dx"""
    p = NP(KN)
    for k, a in terms(poly):
        emit(p, a, k, {'mu': 1})
        if k['mu'] > 0:
            emit(p, a * k['mu'], k, {'mu': -1, 'sigma^2': 1})
    return p


@of(A + 'mnorm', args=dict(n=nat), ret=poly(KN), prop='C12', public=True)
def mnorm(n):
    """E[X^n], X normal"""
    if n == 0:
        p = NP(KN)
        emit(p, 1)
        return p
    return dmgf(mnorm(n - 1))


@of(A + 'mcpp_original', args=dict(n=nat), ret=poly(KCPP2), prop='C12', grid={'n': range(0, 7)})
def mcpp_original(n):
    """E[S^n] of a compound Poisson sum with normal jumps: E[S^n] = lh sum_j C(n-1, j) E[X^{j+1}] E[S^{n-1-j}]"""
    p = NP(KCPP2)
    if n == 0:
        emit(p, 1)
        return p
    for j in range(0, n):
        for k, a in terms(mnorm(j + 1)):
            for q, b in terms(mcpp_original(n - 1 - j)):
                emit(p, binomial(n - 1, j) * a * b, k, q, {LH: 1})
    return p


@of(A + 'mcpp', args=dict(n=nat), ret=poly(KCPP), prop='C12', public=True)
def mcpp(n):
    p = NP(KCPP)
    for k, a in terms(mcpp_original(n)):
        emit(p, a, drop(k, 'sigma^2'), {'sigma': 2 * k['sigma^2']})
    return p


@of(A + 'cmcpp', args=dict(n=nat), ret=poly(KCPP), prop='C12', public=True)
def cmcpp(n):
    """E[(S - lh mu)^n]"""
    p = NP(KCPP)
    for i in range(0, n + 1):
        for k, a in terms(mcpp(i)):
            emit(p, binomial(n, i) * (-1) ** (n - i) * a, k, {LH: n - i, 'mu': n - i})
    return p
