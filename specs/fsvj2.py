"""Two-factor SV model with independent jumps in the return."""
import math
from engine.specapi import *
from specs.cpp import mcpp, cmcpp
from specs.fsv2 import cmoment_y as cm2, moment_y as m2, moment_yy as m22, dp as dp2, d_one, t0num, T0, EE, H, MU, TH1, SG1, TH2, SG2

C = 'ajdmom.mdl_2fsvj.cmom.'
M = 'ajdmom.mdl_2fsvj.mom.'
V = 'ajdmom.mdl_2fsvj.cov.'
LA, MJ, SJ = 'lambda', 'mu_j', 'sigma_j'
KC = (T0, EE, H, TH1, SG1, TH2, SG2, LA, MJ, SJ)
KM = (T0, EE, H, MU, TH1, SG1, TH2, SG2, LA, MJ, SJ)
WRT = one_of('mu', 'k1', 'k2', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2', 'lambda', 'mu_j', 'sigma_j')


@of(C + 'cmoment_y', args=dict(l=nat), ret=poly(KC), prop='C12', public=True, grid={'l': range(0, 3)})
def cmoment_y(l):
    p = NP(KC)
    for i in range(0, l + 1):
        for k, a in terms(cm2(i)):
            for q, b in terms(cmcpp(l - i)):
                emit(p, binomial(l, i) * a * b, k, {H: q['lambda*h'], LA: q['lambda*h'], MJ: q['mu'], SJ: q['sigma']})
    return p


@of(M + 'moment_y', args=dict(l=nat), ret=poly(KM), prop='C12', public=True, grid={'l': range(0, 3)})
def moment_y(l):
    p = NP(KM)
    for i in range(0, l + 1):
        for k, a in terms(m2(i)):
            for q, b in terms(mcpp(l - i)):
                emit(p, binomial(l, i) * a * b, k, {H: q['lambda*h'], LA: q['lambda*h'], MJ: q['mu'], SJ: q['sigma']})
    return p


@of(V + 'moment_yy', args=dict(l1=nat, l2=nat), ret=poly(KM), prop='C11', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def moment_yy(l1, l2):
    p = NP(KM)
    for i in range(0, l1 + 1):
        for j in range(0, l2 + 1):
            for k, a in terms(m22(i, j)):
                for q, b in terms(mcpp(l1 - i)):
                    for r, c in terms(mcpp(l2 - j)):
                        emit(p, binomial(l1, i) * binomial(l2, j) * a * b * c, k,
                             {H: q['lambda*h'] + r['lambda*h'], LA: q['lambda*h'] + r['lambda*h'],
                              MJ: q['mu'] + r['mu'], SJ: q['sigma'] + r['sigma']})
    return p


@of(V + 'cov_yy', args=dict(l1=nat, l2=nat), ret=poly(KM), prop='C11', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def cov_yy(l1, l2):
    p = NP(KM)
    for k, a in terms(moment_y(l1)):
        for q, b in terms(moment_y(l2)):
            emit(p, -a * b, k, q)
    return moment_yy(l1, l2) + p


def dp(p, poly, wrt):
    dp2(p, poly, wrt)
    if wrt == 'lambda':
        d_one(p, poly, LA)
    if wrt == 'mu_j':
        d_one(p, poly, MJ)
    if wrt == 'sigma_j':
        d_one(p, poly, SJ)


@of(C + 'dpoly', args=dict(poly=poly(KC), wrt=WRT), ret=poly(KC), prop='C15', public=True)
def c_dpoly(poly, wrt):
    p = NP(KC)
    dp(p, poly, wrt)
    return p


@of(M + 'dpoly', args=dict(poly=poly(KM), wrt=WRT), ret=poly(KM), prop='C15', public=True)
def dpoly(poly, wrt):
    p = NP(KM)
    dp(p, poly, wrt)
    if wrt == 'mu':
        d_one(p, poly, MU)
    return p


def num(k, par):
    return t0num(k[T0], par) * math.exp(-(k[EE][0] * par['k1'] + k[EE][1] * par['k2']) * par['h']) * par['h'] ** k[H] \
        * par['theta1'] ** k[TH1] * par['sigma_v1'] ** k[SG1] * par['theta2'] ** k[TH2] * par['sigma_v2'] ** k[SG2] \
        * par['lambda'] ** k[LA] * par['mu_j'] ** k[MJ] * par['sigma_j'] ** k[SJ]


@of(C + 'poly2num', args=dict(poly=poly(KC), par=par), ret=real, prop='C16', public=True)
def c_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * num(k, par)
    return s


@of(M + 'poly2num', args=dict(poly=poly(KM), par=par), ret=real, prop='C16', public=True)
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * num(k, par) * par['mu'] ** k[MU]
    return s


@of(C + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def cm(l, par):
    return c_poly2num(cmoment_y(l), par)


@of(C + 'dcm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def dcm(l, par, wrt):
    return c_poly2num(c_dpoly(cmoment_y(l), wrt), par)


@of(M + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def m(l, par):
    return poly2num(moment_y(l), par)


@of(M + 'dm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def dm(l, par, wrt):
    return poly2num(dpoly(moment_y(l), wrt), par)


@of(V + 'cov', args=dict(l1=nat, l2=nat, par=par), ret=real, prop='C16', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def cov(l1, l2, par):
    return poly2num(cov_yy(l1, l2), par)


@of(V + 'dcov', args=dict(l1=nat, l2=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True,
    grid={'l1': range(0, 2), 'l2': range(0, 2)})
def dcov(l1, l2, par, wrt):
    return poly2num(dpoly(cov_yy(l1, l2), wrt), par)
