"""SV model with independent jumps in return and variance: conditional moments given v_0 and the jumps of the variance."""
import math
from engine.specapi import *
from specs.cpp import mcpp, cmcpp
from specs import svvj
from specs.svvj import KC as KC0, KM as KM0, T, num, mnum, cmom as cm0, mom as m0, SQ

C = 'ajdmom.mdl_svij.cond2_cmom.'
M = 'ajdmom.mdl_svij.cond2_mom.'
LS, MS, SS = 'lmbd_s', 'mu_s', 'sigma_s'
KC = KC0 + (LS, MS, SS)
KM = KM0 + (LS, MS, SS)


@of('svij.cmom', args=dict(n=nat), ret=poly(KC), prop='C12', virtual=True)
def cmom(n):
    p = NP(KC)
    for i in range(0, n + 1):
        for k, a in terms(cm0(i)):
            for q, b in terms(cmcpp(n - i)):
                emit(p, binomial(n, i) * a * b, k, {T: q['lambda*h'], LS: q['lambda*h'], MS: q['mu'], SS: q['sigma']})
    return p


@of('svij.mom', args=dict(n=nat), ret=poly(KM), prop='C12', virtual=True)
def mom(n):
    p = NP(KM)
    for i in range(0, n + 1):
        for k, a in terms(m0(i)):
            for q, b in terms(mcpp(n - i)):
                emit(p, binomial(n, i) * a * b, k, {T: q['lambda*h'], LS: q['lambda*h'], MS: q['mu'], SS: q['sigma']})
    return p


@of(C + 'cmoments_y_to', args=dict(l=nat), ret=table('svij.cmom'), prop='C12', public=True, grid={'l': range(0, 4)})
def cmoments_y_to(l):
    return l


@of(C + 'cmoment_y', args=dict(l=nat), ret=poly(KC), prop='C12', public=True, grid={'l': range(0, 4)})
def cmoment_y(l):
    return cmom(l)


@of(M + 'moments_y_to', args=dict(l=nat), ret=table('svij.mom'), exact='l', prop='C12', public=True, grid={'l': range(0, 4)})
def moments_y_to(l):
    return l


@of(M + 'moment_y', args=dict(l=nat), ret=poly(KM), prop='C12', public=True, grid={'l': range(0, 4)})
def moment_y(l):
    return mom(l)


@of(C + 'poly2num', args=dict(poly=poly(KC), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * num(k, par) * par['lmbd_s'] ** k[LS] * par['mu_s'] ** k[MS] * par['sigma_s'] ** k[SS]
    return s


@of(M + 'poly2num', args=dict(poly=poly(KM), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def m_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * mnum(k, par) * par['lmbd_s'] ** k[LS] * par['mu_s'] ** k[MS] * par['sigma_s'] ** k[SS]
    return s


@of(C + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cm(l, par):
    return poly2num(cmoment_y(l), par)


@of(M + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def m(l, par):
    return m_poly2num(moment_y(l), par)
