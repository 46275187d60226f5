"""One-factor SV model with jumps in the return (jump part independent of the diffusion part)."""
import math
from engine.specapi import *
from specs.cpp import mcpp, cmcpp
from specs.fsv1 import cmoment_y as cm1, moment_y as m1, moment_yy as m11, d_k, d_one, d_rho

M = 'ajdmom.mdl_1fsvj.mom.'
C = 'ajdmom.mdl_1fsvj.cmom.'
V = 'ajdmom.mdl_1fsvj.cov.'
E, H, K, MU, TH, SG, RH, SQ = 'e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)'
LA, MJ, SJ = 'lambda', 'mu_j', 'sigma_j'
KC = (E, H, K, TH, SG, RH, SQ, LA, MJ, SJ)
KM = (E, H, K, MU, TH, SG, RH, SQ, LA, MJ, SJ)
WRT = one_of('mu', 'k', 'theta', 'sigma_v', 'rho', 'lambda', 'mu_j', 'sigma_j')




@of(C + 'cmoment_y', args=dict(l=nat), ret=poly(KC), prop='C12', public=True)
def cmoment_y(l):
    p = NP(KC)
    for i in range(0, l + 1):
        for k, a in terms(cm1(i)):
            for q, b in terms(cmcpp(l - i)):
                emit(p, binomial(l, i) * a * b, k, {H: q['lambda*h'], LA: q['lambda*h'], MJ: q['mu'], SJ: q['sigma']})
    return p


@of(M + 'moment_y', args=dict(l=nat), ret=poly(KM), prop='C12', public=True)
def moment_y(l):
    p = NP(KM)
    for i in range(0, l + 1):
        for k, a in terms(m1(i)):
            for q, b in terms(mcpp(l - i)):
                emit(p, binomial(l, i) * a * b, k, {H: q['lambda*h'], LA: q['lambda*h'], MJ: q['mu'], SJ: q['sigma']})
    return p


@of(V + 'moment_yy', args=dict(l1=nat, l2=nat), ret=poly(KM), prop='C11', public=True, grid={'l1': range(0, 3), 'l2': range(0, 3)})
def moment_yy(l1, l2):
    p = NP(KM)
    for i in range(0, l2 + 1):
        for j in range(0, l1 + 1):
            for k, a in terms(m11(j, i)):
                for q, b in terms(mcpp(l2 - i)):
                    for r, c in terms(mcpp(l1 - j)):
                        emit(p, binomial(l2, i) * binomial(l1, j) * a * b * c, k,
                             {H: q['lambda*h'] + r['lambda*h'], LA: q['lambda*h'] + r['lambda*h'],
                              MJ: q['mu'] + r['mu'], SJ: q['sigma'] + r['sigma']})
    return p


def dp(p, poly, wrt):
    if wrt == 'k':
        d_k(p, poly)
    if wrt == 'theta':
        d_one(p, poly, TH)
    if wrt == 'sigma_v':
        d_one(p, poly, SG)
    if wrt == 'rho':
        d_rho(p, poly)
    if wrt == 'lambda':
        d_one(p, poly, LA)
    if wrt == 'mu_j':
        d_one(p, poly, MJ)
    if wrt == 'sigma_j':
        d_one(p, poly, SJ)


@of(C + 'dpoly', args=dict(poly=poly(KC), wrt=WRT), ret=poly(KC), prop='C15', public=True)
def c_dpoly(poly, wrt):
    p = NP(KC)
    dp(p, poly, wrt)
    return p


@of(M + 'dpoly', args=dict(poly=poly(KM), wrt=WRT), ret=poly(KM), prop='C15', public=True)
def dpoly(poly, wrt):
    p = NP(KM)
    dp(p, poly, wrt)
    if wrt == 'mu':
        d_one(p, poly, MU)
    return p


@of(C + 'poly2num', args=dict(poly=poly(KC), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def c_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(-k[E] * par['k'] * par['h']) * par['h'] ** k[H] * par['k'] ** (-k[K]) * par['theta'] ** k[TH] \
            * par['sigma_v'] ** k[SG] * par['rho'] ** k[RH] * (1 - par['rho'] ** 2) ** (k[SQ] / 2) \
            * par['lambda'] ** k[LA] * par['mu_j'] ** k[MJ] * par['sigma_j'] ** k[SJ]
    return s


@of(M + 'poly2num', args=dict(poly=poly(KM), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(-k[E] * par['k'] * par['h']) * par['h'] ** k[H] * par['k'] ** (-k[K]) * par['mu'] ** k[MU] \
            * par['theta'] ** k[TH] * par['sigma_v'] ** k[SG] * par['rho'] ** k[RH] * (1 - par['rho'] ** 2) ** (k[SQ] / 2) \
            * par['lambda'] ** k[LA] * par['mu_j'] ** k[MJ] * par['sigma_j'] ** k[SJ]
    return s


@of(C + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cm(l, par):
    return c_poly2num(cmoment_y(l), par)


@of(C + 'dcm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def dcm(l, par, wrt):
    return c_poly2num(c_dpoly(cmoment_y(l), wrt), par)


@of(M + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def m(l, par):
    return poly2num(moment_y(l), par)


@of(M + 'dm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def dm(l, par, wrt):
    return poly2num(dpoly(moment_y(l), wrt), par)


@of(V + 'cov_yy', args=dict(l1=nat, l2=nat), ret=poly(KM), prop='C11', public=True, grid={'l1': range(0, 3), 'l2': range(0, 3)})
def cov_yy(l1, l2):
    return moment_yy(l1, l2) - moment_y(l1) * moment_y(l2)


@of(V + 'cov', args=dict(l1=nat, l2=nat, par=par), ret=real, prop='C16', public=True, grid={'l1': range(0, 3), 'l2': range(0, 2)})
def cov(l1, l2, par):
    return poly2num(cov_yy(l1, l2), par)


@of(V + 'dcov', args=dict(l1=nat, l2=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True,
    grid={'l1': range(0, 3), 'l2': range(0, 2)})
def dcov(l1, l2, par, wrt):
    return poly2num(dpoly(cov_yy(l1, l2), wrt), par)
