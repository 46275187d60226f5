"""SV model with jumps in the variance: conditional (central) moments given v_0 and the jumps of the variance."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.ito_cond import moment_IEII
from specs.jumps import fZ

C = 'ajdmom.mdl_svvj.cond2_cmom.'
M = 'ajdmom.mdl_svvj.cond2_mom.'
L, O, P, Q = 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}'
S1, S2, SQ, RH = 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)', 'rho'
E, EM, T, K, V0, TH, SI = 'e^{kt}', 'e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma'
KC = (E, T, K, V0, TH, SI, L, O, P, Q, S1, S2, SQ)
KC0 = (EM,) + KC[1:]
KC1 = (EM, T, K, V0, TH, SI, L, O, P, Q, RH)
BT, MT = 'beta_t', 'mu-theta/2'
KM = (E, T, K, BT, MT, V0, TH, SI, L, O, P, Q, S1, S2, SQ)


@of('svvj.cmom', args=dict(n=nat), ret=poly(KC), prop='C14', virtual=True)
def cmom(n):
    """E[(y - E y)^n | v_0, jumps]"""
    p = NP(KC)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(moment_IEII(i, j, n - i - j)):
                emit(p, multinomial(n, [i, j, n - i - j]) * a, k, {E: -i, S1: i, S2: j, SQ: n - i - j})
    return p


@of(C + 'cmoments_y_to', args=dict(l=nat), ret=table('svvj.cmom'), prop='C14', public=True,
    memo='ajdmom.ito_cond_mom.moment_IEII', grid={'l': range(0, 5)})
def cmoments_y_to(l):
    return l


@of(C + 'cmoment_y', args=dict(l=nat), ret=poly(KC), prop='C14', public=True, grid={'l': range(0, 5)})
def cmoment_y(l):
    return cmom(l)


@of(C + 'simplify', args=dict(poly=poly(KC), tp=one_of(0, 1)), ret=poly_by('tp', {0: KC0, 1: KC1}), prop='C20',
    dom={SQ: 'even'}, public=True)
def simplify(poly, tp):
    p = NP(KC0)
    if tp == 0:
        for k, a in terms(poly):
            emit(p, a, drop(k, E), {EM: -k[E]})
        return p
    p = NP(KC1)
    for k, a in terms(poly):
        if k[SQ] % 2 == 0:
            for i in range(0, k[S2] + 1):
                for j in range(0, k[SQ] // 2 + 1):
                    r = k[S1] + i
                    emit(p, a * binomial(k[S2], i) * (-1) ** i / 2 ** r * binomial(k[SQ] // 2, j) * (-1) ** j,
                         drop(k, E, S1, S2, SQ), {EM: -k[E], K: r, SI: r, RH: k[S2] - i + 2 * j})
    return p


def num(k, par):
    """sum over the jumps included; s_i, J_i: jump times and sizes"""
    return math.exp(k[E] * par['k'] * par['h']) * par['h'] ** k[T] * par['k'] ** (-k[K]) * (par['v0'] - par['theta']) ** k[V0] \
        * par['theta'] ** k[TH] * par['sigma'] ** k[SI] \
        * fZ(k[L], k[O], k[P], k[Q], par['k'], par['jumptime'], par['jumpsize']) \
        * (par['sigma'] / (2 * par['k'])) ** k[S1] * (par['rho'] - par['sigma'] / (2 * par['k'])) ** k[S2] \
        * (1 - par['rho'] ** 2) ** (k[SQ] / 2)


@of(C + 'poly2num', args=dict(poly=poly(KC), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * num(k, par)
    return s


@of(C + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cm(l, par):
    return poly2num(cmom(l), par)


# y = (mu - theta/2) t - beta_t (v0 - theta) + (e^{-kt} EZ - Z)/(2k) + martingale part
@of(M + 'moment_comb', args=dict(n=nat, n1=nat, n2=nat, n3=nat, n4=nat, PY=poly(KC)), ret=poly(KM), prop='C14',
    requires=['n1+n2+n3+n4<=n'], grid={'n': range(0, 3)})
def moment_comb(n, n1, n2, n3, n4, PY):
    p = NP(KM)
    for k, a in terms(PY):
        if len(k[L]) == 0:
            m = n3 + n4 - 1
        else:
            m = n3 + n4
        emit(p, a * multinomial(n, [n1, n2, n3, n4, n - n1 - n2 - n3 - n4]) * (-1) ** (n2 + n4) / 2 ** (n3 + n4),
             drop(k, L, O, P, Q), {E: -n3, T: n1, K: n3 + n4, BT: n2, MT: n1, V0: n2},
             {L: k[L] + (1,) * n3 + (0,) * n4, O: k[O] + (0,) * (n3 + n4), P: k[P] + (0,) * m, Q: k[Q] + (0,) * m})
    return p


@of('svvj.mom', args=dict(n=nat), ret=poly(KM), prop='C14', virtual=True)
def mom(n):
    p = NP(KM)
    for n1 in range(0, n + 1):
        for n2 in range(0, n - n1 + 1):
            for n3 in range(0, n - n1 - n2 + 1):
                for n4 in range(0, n - n1 - n2 - n3 + 1):
                    p.merge(moment_comb(n, n1, n2, n3, n4, cmom(n - n1 - n2 - n3 - n4)))
    return p


@of(M + 'moments_y_to', args=dict(l=nat), exact='l', ret=table('svvj.mom'), prop='C14', public=True, grid={'l': range(0, 4)})
def moments_y_to(l):
    return l


@of(M + 'moment_y', args=dict(l=nat), ret=poly(KM), prop='C14', public=True, grid={'l': range(0, 4)})
def moment_y(l):
    return mom(l)


def mnum(k, par):
    return num(k, par) * ((1 - math.exp(-par['k'] * par['h'])) / (2 * par['k'])) ** k[BT] * (par['mu'] - par['theta'] / 2) ** k[MT]


@of(M + 'poly2num', args=dict(poly=poly(KM), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def m_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * mnum(k, par)
    return s


@of(M + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def m(l, par):
    return m_poly2num(mom(l), par)
