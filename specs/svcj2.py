"""SV model with contemporaneous jumps: conditional (central) moments given v_0 and the jumps of the variance.
The return jumps are J^s_i = mu_s + rho_J J_i + sigma_s Z_i given the variance jumps J_i."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.cpp import mnorm
from specs.utils import cmnorm, dbfactorial
from specs.svvj import cmom as svvj_cmom, mom as svvj_mom, KC as SKC, KM as SKM, num, mnum, SQ

C = 'ajdmom.mdl_svcj.cond2_cmom.'
M = 'ajdmom.mdl_svcj.cond2_mom.'
MS, RJ, SS, JI, JV = 'mu_s', 'rho_J', 'sigma_s', 'J_i', 'J_{1:n}'
K1 = (MS, RJ, SS, JI)
KN = (MS, RJ, SS, JV)
KC = SKC + (SS,)
KM = SKM + KN
LEN = (0, 1, 2, 3)


@of(M + 'mnorm_cond', args=dict(n=nat), ret=poly(K1), prop='C14')
def mnorm_cond(n):
    """E[(mu_s + rho_J J + sigma_s Z)^n]"""
    p = NP(K1)
    for k, a in terms(mnorm(n)):
        for i in range(0, k['mu'] + 1):
            j = k['mu'] - i
            emit(p, a * binomial(i + j, i), {MS: i, RJ: j, SS: 2 * k['sigma^2'], JI: j})
    return p


@of(M + 'moment_IZs', args=dict(m=nat, J=reals(*LEN)), ret=poly(KN), prop='C14', grid={'m': range(0, 5)})
def moment_IZs(m, J):
    """E[(sum_i J^s_i)^m], the exponents of J_1, .., J_n in the last component"""
    p = NP(KN)
    if len(J) == 0:
        if m == 0:
            emit(p, 1, {JV: ()})
    if len(J) == 1:
        for k, a in terms(mnorm_cond(m)):
            emit(p, a, {MS: k[MS], RJ: k[RJ], SS: k[SS], JV: (k[JI],)})
    if len(J) == 2:
        for i in range(0, m + 1):
            for k, a in terms(mnorm_cond(i)):
                for q, b in terms(mnorm_cond(m - i)):
                    emit(p, binomial(m, i) * a * b, {MS: k[MS] + q[MS], RJ: k[RJ] + q[RJ], SS: k[SS] + q[SS], JV: (k[JI], q[JI])})
    if len(J) == 3:
        for i in range(0, m + 1):
            for j in range(0, m - i + 1):
                for k, a in terms(mnorm_cond(i)):
                    for q, b in terms(mnorm_cond(j)):
                        for r, c in terms(mnorm_cond(m - i - j)):
                            emit(p, multinomial(m, [i, j, m - i - j]) * a * b * c,
                                 {MS: k[MS] + q[MS] + r[MS], RJ: k[RJ] + q[RJ] + r[RJ], SS: k[SS] + q[SS] + r[SS],
                                  JV: (k[JI], q[JI], r[JI])})
    return p


@of('svcj2.mom', args=dict(n=nat, J=reals(*LEN)), ret=poly(KM), prop='C14', virtual=True)
def mom(n, J):
    p = NP(KM)
    for i in range(0, n + 1):
        for k, a in terms(svvj_mom(i)):
            for q, b in terms(moment_IZs(n - i, J)):
                emit(p, binomial(n, i) * a * b, k, q)
    return p


@of(M + 'moments_y_to', args=dict(l=nat, J=reals(*LEN)), exact='l', ret=table('svcj2.mom'), prop='C14', public=True, grid={'l': range(0, 3)})
def moments_y_to(l, J):
    return l


@of(M + 'moment_y', args=dict(l=nat, J=reals(*LEN)), ret=poly(KM), prop='C14', public=True, grid={'l': range(0, 3)})
def moment_y(l, J):
    return mom(l, J)


@of(C + 'cmoment_IZs', args=dict(m=nat, J=reals(*LEN)), ret=poly((SS,)), prop='C14', grid={'m': range(0, 5)})
def cmoment_IZs(m, J):
    """E[(sum_i (J^s_i - E J^s_i))^m] of n normals with variance sigma_s^2"""
    p = NP((SS,))
    if m == 0:
        emit(p, 1)
    elif m % 2 == 0 and len(J) >= 1:
        emit(p, dbfactorial(m - 1) * len(J) ** (m // 2), {SS: m})
    return p


@of('svcj2.cmom', args=dict(n=nat, J=reals(*LEN)), ret=poly(KC), prop='C14', virtual=True)
def cmom(n, J):
    p = NP(KC)
    for i in range(0, n + 1):
        for k, a in terms(svvj_cmom(i)):
            for q, b in terms(cmoment_IZs(n - i, J)):
                emit(p, binomial(n, i) * a * b, k, q)
    return p


@of(C + 'cmoments_y_to', args=dict(l=nat, J=reals(*LEN)), ret=table('svcj2.cmom'), prop='C14', public=True, grid={'l': range(0, 4)})
def cmoments_y_to(l, J):
    return l


@of(C + 'cmoment_y', args=dict(l=nat, J=reals(*LEN)), ret=poly(KC), prop='C14', public=True, grid={'l': range(0, 4)})
def cmoment_y(l, J):
    return cmom(l, J)


def jumps(k, par):
    r = par['mu_s'] ** k[MS] * par['rho_J'] ** k[RJ] * par['sigma_s'] ** k[SS]
    for i in range(0, len(par['jumpsize'])):
        r *= par['jumpsize'][i] ** k[JV][i]
    return r


@of(M + 'poly2num', args=dict(poly=poly(KM), par=parj(*LEN)), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def m_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * mnum(k, par) * jumps(k, par)
    return s


@of(M + 'm', args=dict(l=nat, par=parj(*LEN)), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def m(l, par):
    return m_poly2num(mom(l, par['jumpsize']), par)


@of(C + 'poly2num', args=dict(poly=poly(KC), par=parj(*LEN)), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * num(k, par) * par['sigma_s'] ** k[SS]
    return s


@of(C + 'cm', args=dict(l=nat, par=parj(*LEN)), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cm(l, par):
    return poly2num(cmom(l, par['jumpsize']), par)
