"""Combinatorial helpers."""
import math
from fractions import Fraction
from engine.specapi import *

U = 'ajdmom.utils.'
KS = ('sigma',)


@of(U + 'dbfactorial', args=dict(n=nat), ret='int', prop='C20', public=True, grid={'n': range(0, 12)})
def dbfactorial(n):
    """n (n-2) (n-4) ..."""
    r = 1
    for i in range(0, (n + 1) // 2):
        r *= n - 2 * i
    return r


@of(U + 'cmnorm', args=dict(n=nat), ret=poly(KS), prop='C20', public=True, grid={'n': range(0, 12)}, also=('C14',))
def cmnorm(n):
    """E[(X - mu)^n], X normal with standard deviation sigma"""
    p = NP(KS)
    if n == 0:
        emit(p, 1)
    elif n % 2 == 0:
        emit(p, dbfactorial(n - 1), {'sigma': n})
    return p


@of(U + 'comb', args=dict(n=nat, ns=intlists(1, 2, 3, 4, 5)), ret='int', prop='C20', public=True, requires=['sum(ns)==n'], inline=True)
def comb(n, ns):
    return multinomial(n, ns)


KR = ('a', 'rho', 'sqrt(1-rho^2)', 'b')


@of(U + 'simplify_rho', args=dict(poly=poly(KR), n=one_of(2)), ret=poly(('a', 'rho', 'b')), prop='C20', public=True, partial=True, inline=True,
    drops=True)
def simplify_rho(poly, n):
    """(1-rho^2)^{j/2}, j even, is expanded; rho is the component before"""
    p = NP(('a', 'rho', 'b'))
    for k, a in terms(poly):
        if k['sqrt(1-rho^2)'] % 2 == 0:
            for i in range(0, k['sqrt(1-rho^2)'] // 2 + 1):
                emit(p, a * binomial(k['sqrt(1-rho^2)'] // 2, i) * (-1) ** i, drop(k, 'sqrt(1-rho^2)'), {'rho': 2 * i})
    return p
