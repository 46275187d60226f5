"""SV model with contemporaneous jumps: joint moments of the jump sums and the Ito processes, moments of the return."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.cpp import mnorm
from specs.ito import int_et
from specs import srjd

Z = 'ajdmom.mdl_svcj.ieziziz_mom.'
I = 'ajdmom.mdl_svcj.cond_ieii_ieziziz_mom.'
C = 'ajdmom.mdl_svcj.cond_mom.'
CC = 'ajdmom.mdl_svcj.cond_cmom.'
U = 'ajdmom.mdl_svcj.mom.'
UC = 'ajdmom.mdl_svcj.cmom.'
E, ES, TS, K, LM, MV, MS, SS = 'e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'
T, S, V0, TH, SI = 't', 's', 'v0-theta', 'theta', 'sigma'
KZ = (E, ES, TS, K, LM, MV, MS, SS)
KX = (E, T, ES, S, K, LM, MV, MS, SS)
KI = (E, T, K, V0, TH, SI, LM, MV, MS, SS)


@of(Z + 'moment_ejjj', args=dict(n1=nat, n2=nat, n3=nat), ret=poly(KZ), prop='C08')
def moment_ejjj(n1, n2, n3):
    """E[(e^{ku} J)^n1 J^n2 Js^n3], u uniform on (s, t), J exponential, Js normal"""
    p = NP(KZ)
    for q, b in terms(mnorm(n3)):
        if n1 == 0:
            emit(p, facto(n2) * b, {MV: n2, MS: q['mu'], SS: 2 * q['sigma^2']})
        else:
            c = Fraction(facto(n1 + n2), n1)
            emit(p, c * b, {E: n1, TS: -1, K: 1, MV: n1 + n2, MS: q['mu'], SS: 2 * q['sigma^2']})
            emit(p, -c * b, {ES: n1, TS: -1, K: 1, MV: n1 + n2, MS: q['mu'], SS: 2 * q['sigma^2']})
    return p


def cumulant(p, c, ejjj, rest):
    for k, a in terms(ejjj):
        for q, b in terms(rest):
            emit(p, c * a * b, k, q, {TS: 1, LM: 1})


@of(Z + 'moment_ieziziz', args=dict(n1=nat, n2=nat, n3=nat), ret=poly(KZ), prop='C08', public=True)
def moment_ieziziz(n1, n2, n3):
    """joint moment of three compound Poisson sums over (s, t) with common jump times: recursion through the cumulants
    lambda (t-s) E[(e^{ku} J)^j1 J^j2 Js^j3]"""
    p = NP(KZ)
    if n1 == 0 and n2 == 0 and n3 == 0:
        emit(p, 1)
        return p
    for j1 in range(0, n1 + 1):
        for j2 in range(0, n2 + 1):
            for j3 in range(0, n3 + 1):
                if n1 >= 1:
                    if j1 >= 1:
                        cumulant(p, binomial(n1 - 1, j1 - 1) * binomial(n2, j2) * binomial(n3, j3),
                                 moment_ejjj(j1, j2, j3), moment_ieziziz(n1 - j1, n2 - j2, n3 - j3))
                elif n2 >= 1:
                    if j2 >= 1:
                        cumulant(p, binomial(n2 - 1, j2 - 1) * binomial(n3, j3),
                                 moment_ejjj(j1, j2, j3), moment_ieziziz(n1 - j1, n2 - j2, n3 - j3))
                else:
                    if j3 >= 1:
                        cumulant(p, binomial(n3 - 1, j3 - 1),
                                 moment_ejjj(j1, j2, j3), moment_ieziziz(n1 - j1, n2 - j2, n3 - j3))
    return p


@of(Z + 'poly2num', args=dict(poly=poly(KZ), par=par), ret=real, prop='C16', public=True, dom={ES: (0,)})
def z_poly2num(poly, par):
    """over the interval (0, h)"""
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(k[E] * par['k'] * par['h']) * par['h'] ** k[TS] * par['k'] ** (-k[K]) * par['lmbd'] ** k[LM] \
            * par['mu_v'] ** k[MV] * par['mu_s'] ** k[MS] * par['sigma_s'] ** k[SS]
    return s


# ------------------------------------------------ with the Ito processes, given v_0
@of(I + 'ieziziz_to_ieii_ieziziz', args=dict(poly=poly(KZ)), ret=poly(KI), prop='C08')
def over_0t(poly):
    p = NP(KI)
    for k, a in terms(poly):
        emit(p, a, drop(k, ES, TS), {T: k[TS]})
    return p


@of(I + 'expand_ieziziz', args=dict(poly=poly(KZ)), ret=poly(KX), prop='C08', dom={TS: (0, 1, 2, 3)})
def expand(poly):
    p = NP(KX)
    for k, a in terms(poly):
        for i in range(0, k[TS] + 1):
            emit(p, a * binomial(k[TS], i) * (-1) ** (k[TS] - i), drop(k, TS), {T: i, S: k[TS] - i})
    return p


@of(I + 'int_e_s_poly', args=dict(c=rational, tp=one_of(1, 2, 3, 4), m1=integer, m2=nat, poly=poly(KI)), ret=poly(KI), prop='C08',
    grid={'m1': range(-1, 3), 'm2': range(0, 3)})
def int_e_s_poly(c, tp, m1, m2, poly):
    p = NP(KI)
    for k, a in terms(poly):
        for q, b in terms(int_et(k[E] + m1, k[T] + m2)):
            d = {E: q['e^{k[t-(n-1)h]}'], T: q['[t-(n-1)h]'], K: q['k^{-}']}
            if tp == 1:
                emit(p, c * a * b, drop(k, E, T), d, {V0: 1})
            elif tp == 2:
                emit(p, c * a * b, drop(k, E, T), d, {TH: 1})
            elif tp == 3:
                emit(p, c * a * b, drop(k, E, T), d, {SI: 1})
            else:
                emit(p, c * a * b, drop(k, E, T), d)
    return p


@of(I + 'key_times_poly', args=dict(k=keyvar(KX), poly=poly(KI)), ret=poly(KI), prop='C08')
def key_times_poly(k, poly):
    p = NP(KI)
    for q, b in terms(poly):
        emit(p, b, drop(k, ES, S), q)
    return p


def four(c, m, s, a, shifted, jump):
    """e^{ku} v_u = v0 - theta + theta e^{ku} + sigma IE_u + IEZ_u"""
    return int_e_s_poly(c, 1, m, s, a) + int_e_s_poly(c, 2, m + 1, s, a) + int_e_s_poly(c, 3, m, s, shifted) + int_e_s_poly(c, 4, m, s, jump)


W = I + 'moment_ieii_ieziziz'


@of(I + 'recursive_ieii_ieziziz', args=dict(n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat), ignore={'ieii_ieziziz': table(W)},
    ret=poly(KI), prop='C08', memo=W)
def recursive(n1, n2, n3, n4, n5, n6):
    p = NP(KI)
    if n1 == 0 and n2 == 0 and n3 == 0:
        p.merge(over_0t(moment_ieziziz(n4, n5, n6)))
        return p
    for i1 in range(0, n4 + 1):
        for i2 in range(0, n5 + 1):
            for i3 in range(0, n6 + 1):
                bi = binomial(n4, i1) * binomial(n5, i2) * binomial(n6, i3)
                for k, v in terms(expand(moment_ieziziz(n4 - i1, n5 - i2, n6 - i3))):
                    if n1 >= 2:
                        p.merge(key_times_poly(k, four(bi * Fraction(n1 * (n1 - 1), 2) * v, k[ES] + 1, k[S],
                                                       M(n1 - 2, n2, n3, i1, i2, i3), M(n1 - 1, n2, n3, i1, i2, i3),
                                                       M(n1 - 2, n2, n3, i1 + 1, i2, i3))))
                    if n2 >= 2:
                        p.merge(key_times_poly(k, four(bi * Fraction(n2 * (n2 - 1), 2) * v, k[ES] - 1, k[S],
                                                       M(n1, n2 - 2, n3, i1, i2, i3), M(n1 + 1, n2 - 2, n3, i1, i2, i3),
                                                       M(n1, n2 - 2, n3, i1 + 1, i2, i3))))
                    if n1 >= 1 and n2 >= 1:
                        p.merge(key_times_poly(k, four(bi * n1 * n2 * v, k[ES], k[S],
                                                       M(n1 - 1, n2 - 1, n3, i1, i2, i3), M(n1, n2 - 1, n3, i1, i2, i3),
                                                       M(n1 - 1, n2 - 1, n3, i1 + 1, i2, i3))))
                    if n3 >= 2:
                        p.merge(key_times_poly(k, four(bi * Fraction(n3 * (n3 - 1), 2) * v, k[ES] - 1, k[S],
                                                       M(n1, n2, n3 - 2, i1, i2, i3), M(n1 + 1, n2, n3 - 2, i1, i2, i3),
                                                       M(n1, n2, n3 - 2, i1 + 1, i2, i3))))
    return p


@of(W, args=dict(n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat), ret=poly(KI), prop='C08', public=True)
def M(n1, n2, n3, n4, n5, n6):
    """E[IE^n1 I^n2 I*^n3 IEZ^n4 IZ^n5 IZ*^n6 | v_0]"""
    p = NP(KI)
    if n1 + n2 + n3 + n4 + n5 + n6 == 0:
        emit(p, 1)
        return p
    return recursive(n1, n2, n3, n4, n5, n6)


@of(I + 'poly2num', args=dict(poly=poly(KI), par=par), ret=real, prop='C16', public=True)
def i_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(k[E] * par['k'] * par['h']) * par['h'] ** k[T] * par['k'] ** (-k[K]) * (par['v0'] - par['theta']) ** k[V0] \
            * par['theta'] ** k[TH] * par['sigma'] ** k[SI] * par['lmbd'] ** k[LM] * par['mu_v'] ** k[MV] * par['mu_s'] ** k[MS] \
            * par['sigma_s'] ** k[SS]
    return s


# ------------------------------------------------ moments of the return given v_0
MU, RH, SQ, RJ, EV = 'mu', 'rho', 'sqrt(1-rho^2)', 'rhoJ', 'E[v]'
KB = (E, T, K, MU, V0, TH, SI, RH, SQ, LM, MV, RJ, MS, SS)
KY = (E, T, K, MU, V0, TH, SI, RH, LM, MV, RJ, MS, SS)
KU = (E, T, K, MU, EV, TH, SI, RH, LM, MV, RJ, MS, SS)
KV = (K, EV, SI, LM, MV)


@of(C + 'b_n', args=dict(n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat), ret=poly(KB), prop='C13')
def b_n(n1, n2, n3, n4, n5, n6, n7, n8):
    """y = sigma e^{-kt}/(2k) IE + (rho - sigma/2k) I + sqrt(1-rho^2) I* + e^{-kt}/(2k) IEZ + (rhoJ - 1/2k) IZ + IZ*
    + (mu - theta/2) t - (1 - e^{-kt}) (v0 - theta) / (2k)"""
    p = NP(KB)
    for i in range(0, n2 + 1):
        for j in range(0, n5 + 1):
            for l in range(0, n7 + 1):
                for m in range(0, n8 + 1):
                    emit(p, Fraction(binomial(n2, i) * binomial(n5, j) * binomial(n7, l) * binomial(n8, m) * (-1) ** (i + j + l + m),
                                     2 ** (n1 + i + n4 + j + l + n8)),
                         {E: -n1 - n4 - (n8 - m), T: n7, K: n1 + i + n4 + j + n8, MU: n7 - l, V0: n8, TH: l, SI: n1 + i, RH: n2 - i,
                          SQ: n3, RJ: n5 - j})
    return p


@of(C + 'enlarge', args=dict(poly=poly(KI), new_keyfor=one_of(KB)), ret=poly(KB), prop='C13')
def enlarge(poly, new_keyfor):
    p = NP(KB)
    for k, a in terms(poly):
        emit(p, a, k)
    return p


@of(C + 'expand_sqrt', args=dict(poly=poly(KB)), ret=poly(KY), prop='C20', dom={SQ: 'even'}, also=('C13',), public=True)
def expand_sqrt(poly):
    p = NP(KY)
    for k, a in terms(poly):
        if k[SQ] % 2 == 0:
            for i in range(0, k[SQ] // 2 + 1):
                emit(p, a * binomial(k[SQ] // 2, i) * (-1) ** i, drop(k, SQ), {RH: 2 * i})
    return p


@of(C + 'moment_y', args=dict(n=nat), ret=poly(KY), prop='C13', public=True, grid={'n': range(0, 3)})
def moment_y(n):
    p = NP(KB)
    for n1 in range(0, n + 1):
        for n2 in range(0, n - n1 + 1):
            for n3 in range(0, n - n1 - n2 + 1):
                for n4 in range(0, n - n1 - n2 - n3 + 1):
                    for n5 in range(0, n - n1 - n2 - n3 - n4 + 1):
                        for n6 in range(0, n - n1 - n2 - n3 - n4 - n5 + 1):
                            for n7 in range(0, n - n1 - n2 - n3 - n4 - n5 - n6 + 1):
                                n8 = n - n1 - n2 - n3 - n4 - n5 - n6 - n7
                                c = multinomial(n, [n1, n2, n3, n4, n5, n6, n7, n8])
                                for k, a in terms(b_n(n1, n2, n3, n4, n5, n6, n7, n8)):
                                    for q, b in terms(M(n1, n2, n3, n4, n5, n6)):
                                        emit(p, c * a * b, k, q)
    return expand_sqrt(p)


def ynum(k, par, name, value):
    return math.exp(k[E] * par['k'] * par['h']) * par['h'] ** k[T] * par['k'] ** (-k[K]) * par['mu'] ** k[MU] * value ** k[name] \
        * par['theta'] ** k[TH] * par['sigma'] ** k[SI] * par['rho'] ** k[RH] * par['lmbd'] ** k[LM] * par['mu_v'] ** k[MV] \
        * par['rhoJ'] ** k[RJ] * par['mu_s'] ** k[MS] * par['sigma_s'] ** k[SS]


@of(C + 'poly2num', args=dict(poly=poly(KY), par=par), ret=real, prop='C16', public=True)
def y_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * ynum(k, par, V0, par['v0'] - par['theta'])
    return s


@of(C + 'm_y', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 2)})
def m_y(n, par):
    return y_poly2num(moment_y(n), par)


@of(CC + 'cmoment_y', args=dict(n=nat), ret=poly(KY), prop='C13', public=True, grid={'n': range(0, 3)})
def cmoment_y(n):
    p = NP(KY)
    for i in range(0, n + 1):
        if i == 0:
            p.merge(moment_y(n))
        else:
            p.merge(binomial(n, i) * (-1) ** i * (moment_y(1) ** i * moment_y(n - i)))
    return p


@of(CC + 'cm_y', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 2)})
def cm_y(n, par):
    return y_poly2num(cmoment_y(n), par)


# ------------------------------------------------ unconditional
@of(U + 'moment_v_theta', args=dict(n=nat), ret=poly(KV), prop='C13', grid={'n': range(0, 4)})
def moment_v_theta(n):
    """E[(v - theta)^n], v - theta = (v - E v) + lambda mu_v / k"""
    p = NP(KV)
    for i in range(0, n + 1):
        for k, a in terms(srjd.ucmoment_v(n - i)):
            emit(p, binomial(n, i) * a, k, {K: i, LM: i, MV: i})
    return p


@of(U + 'key_times_poly', args=dict(coef=rational, k=keyvar(KY), poly=poly(KV)), ret=poly(KU), prop='C13')
def u_key_times_poly(coef, k, poly):
    p = NP(KU)
    for q, b in terms(poly):
        emit(p, coef * b, drop(k, V0), q)
    return p


@of(U + 'moment_y', args=dict(n=nat), ret=poly(KU), prop='C13', public=True, grid={'n': range(0, 3)})
def umoment_y(n):
    p = NP(KU)
    for k, a in terms(moment_y(n)):
        for q, b in terms(moment_v_theta(k[V0])):
            emit(p, a * b, drop(k, V0), q)
    return p


@of(U + 'poly2num', args=dict(poly=poly(KU), par=par), ret=real, prop='C16', public=True)
def u_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * ynum(k, par, EV, par['theta'] + par['lmbd'] * par['mu_v'] / par['k'])
    return s


@of(U + 'unm_y', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 2)})
def unm_y(n, par):
    return u_poly2num(umoment_y(n), par)


@of(UC + 'cmoment_y', args=dict(n=nat), ret=poly(KU), prop='C13', public=True, grid={'n': range(0, 3)})
def ucmoment_y(n):
    p = NP(KU)
    if n == 1:
        return p
    for i in range(0, n + 1):
        if i == 0:
            p.merge(umoment_y(n))
        else:
            p.merge(binomial(n, i) * (-1) ** i * (umoment_y(1) ** i * umoment_y(n - i)))
    return p


@of(UC + 'cm_y', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 2)})
def ucm_y(n, par):
    return u_poly2num(ucmoment_y(n), par)


KR = ('e^{-kt}', T, K, EV, TH, SI, RH, LM, MV, RJ, MS, SS)


@of(UC + 'remove_mu_column', args=dict(poly=poly(KU)), ret=poly(KR), prop='C20', dom={MU: (0,)}, public=True, partial=True)
def remove_mu_column(poly):
    p = NP(KR)
    for k, a in terms(poly):
        if k[MU] == 0:
            emit(p, a, drop(k, E, MU), {'e^{-kt}': -k[E]})
    return p
