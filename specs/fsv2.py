"""Two-factor SV model: central moments, moments, covariances."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.ito import moment_v
from specs.two import moment_IEI_IEII, t_mul_t0, T0, EH, ET, DT, V1, V2
from specs.fsv1 import exp_vn, EI

A = 'ajdmom.mdl_2fsv.cmom.'
B = 'ajdmom.mdl_2fsv.mom.'
C = 'ajdmom.mdl_2fsv.cov.'
EE, H, MU, TH1, SG1, TH2, SG2 = 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2'
E1, K1, E2, K2 = 'e^{-k1h}', 'k1^{-}', 'e^{-k2h}', 'k2^{-}'
KB = (E1, K1, TH1, SG1, E2, K2, TH2, SG2)
KB2 = KB + (H, MU)
KVV = (T0, EE, H, V1, TH1, SG1, V2, TH2, SG2)
KC = KVV
KCV = (T0, EE, H, TH1, SG1, TH2, SG2)
KM = (T0, EE, H, MU, V1, TH1, SG1, V2, TH2, SG2)
KMV = (T0, EE, H, MU, TH1, SG1, TH2, SG2)
EI1, EI2 = 'e^{-k1*nh}eI_{1,n}', 'e^{-k2*nh}eI_{2,n}'
KEI = (EI1, EI2, T0, EE, H, V1, TH1, SG1, V2, TH2, SG2)
N7 = dict(n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat)
G0 = range(0, 2)


@of(A + 'b_n', args=N7, ret=poly(KB), prop='C10', grid={'n%d' % i: G0 for i in range(1, 8)})
def c_b_n(n1, n2, n3, n4, n5, n6, n7):
    """theta part ^n1, v1, v2, sigma1/(2k1) IE1, -sigma1/(2k1) I1, the same for the second factor"""
    p = NP(KB)
    for i1 in range(0, n1 + 1):
        for i2 in range(0, n1 - i1 + 1):
            for i3 in range(0, n1 - i1 - i2 + 1):
                i4 = n1 - i1 - i2 - i3
                for j in range(0, n2 + 1):
                    for q in range(0, n3 + 1):
                        emit(p, multinomial(n1, [i1, i2, i3, i4]) * binomial(n2, j) * binomial(n3, q)
                             * (-1) ** (i2 + i4 + n2 + j + n3 + q + n5 + n7) / 2 ** (n1 + n2 + n3 + n4 + n5 + n6 + n7),
                             {E1: i2 + j, K1: i1 + i2 + n2 + n4 + n5, TH1: i1 + i2, SG1: n4 + n5,
                              E2: i4 + q, K2: i3 + i4 + n3 + n6 + n7, TH2: i3 + i4, SG2: n6 + n7})
    return p


@of(A + 'vvee_IEI_IEII', args=dict(n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat), ret=poly(KVV), prop='C10')
def vvee(n2, n3, n4, n5, n6, n7, n8):
    p = NP(KVV)
    for k, a in terms(moment_IEI_IEII(n4, n5, n6, n7, n8)):
        emit(p, a, {T0: k[T0], EE: (n4 - k[ET][0], n6 - k[ET][1]), H: k[DT], V1: k[V1] + n2, TH1: k[TH1], SG1: k[SG1],
                    V2: k[V2] + n3, TH2: k[TH2], SG2: k[SG2]})
    return p


@of(A + 'moment_comb', args=dict(n=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat),
    requires=['n==n1+n2+n3+n4+n5+n6+n7+n8'], ret=poly(KC), prop='C10')
def c_moment_comb(n, n1, n2, n3, n4, n5, n6, n7, n8):
    p = NP(KC)
    for k, a in terms(vvee(n2, n3, n4, n5, n6, n7, n8)):
        for q, b in terms(c_b_n(n1, n2, n3, n4, n5, n6, n7)):
            emit(p, multinomial(n, [n1, n2, n3, n4, n5, n6, n7, n8]) * a * b, k, {T0: (1, 0, q[K1])}, {T0: (0, 1, q[K2])},
                 {EE: (q[E1], q[E2]), TH1: q[TH1], SG1: q[SG1], TH2: q[TH2], SG2: q[SG2]})
    return p


def subv(p, poly):
    for k, a in terms(poly):
        for q, b in terms(moment_v(k[V1])):
            for r, c in terms(moment_v(k[V2])):
                emit(p, a * b * c, drop(k, V1, V2), {T0: (1, 0, q['sigma_v^2/k']), TH1: q['theta'], SG1: 2 * q['sigma_v^2/k']},
                     {T0: (0, 1, r['sigma_v^2/k']), TH2: r['theta'], SG2: 2 * r['sigma_v^2/k']})


@of(A + 'sub_v', args=dict(poly=poly(KC)), ret=poly(KCV), prop='C10')
def c_sub_v(poly):
    p = NP(KCV)
    subv(p, poly)
    return p


@of(A + 'cmoment_y', args=dict(l=nat), ret=poly(KCV), prop='C10', public=True, grid={'l': range(0, 3)})
def cmoment_y(l):
    p = NP(KC)
    for n1 in range(0, l + 1):
        for n2 in range(0, l - n1 + 1):
            for n3 in range(0, l - n1 - n2 + 1):
                for n4 in range(0, l - n1 - n2 - n3 + 1):
                    for n5 in range(0, l - n1 - n2 - n3 - n4 + 1):
                        for n6 in range(0, l - n1 - n2 - n3 - n4 - n5 + 1):
                            for n7 in range(0, l - n1 - n2 - n3 - n4 - n5 - n6 + 1):
                                p.merge(c_moment_comb(l, n1, n2, n3, n4, n5, n6, n7, l - n1 - n2 - n3 - n4 - n5 - n6 - n7))
    return c_sub_v(p)


@of(B + 'b_n', args=N7, ret=poly(KB2), prop='C10', grid={'n%d' % i: G0 for i in range(1, 8)})
def b_n(n1, n2, n3, n4, n5, n6, n7):
    p = NP(KB2)
    for i1 in range(0, n1 + 1):
        for i2 in range(0, n1 - i1 + 1):
            for i3 in range(0, n1 - i1 - i2 + 1):
                for i4 in range(0, n1 - i1 - i2 - i3 + 1):
                    for i5 in range(0, n1 - i1 - i2 - i3 - i4 + 1):
                        for i6 in range(0, n1 - i1 - i2 - i3 - i4 - i5 + 1):
                            i7 = n1 - i1 - i2 - i3 - i4 - i5 - i6
                            for j in range(0, n2 + 1):
                                for q in range(0, n3 + 1):
                                    emit(p, multinomial(n1, [i1, i2, i3, i4, i5, i6, i7]) * binomial(n2, j) * binomial(n3, q)
                                         * (-1) ** (i2 + i4 + i5 + i6 + n2 + j + n3 + q + n5 + n7)
                                         / 2 ** (n1 - i7 + n2 + n3 + n4 + n5 + n6 + n7),
                                         {E1: i2 + j, K1: i1 + i2 + n2 + n4 + n5, TH1: i1 + i2 + i5, SG1: n4 + n5,
                                          E2: i4 + q, K2: i3 + i4 + n3 + n6 + n7, TH2: i3 + i4 + i6, SG2: n6 + n7,
                                          H: i5 + i6 + i7, MU: i7})
    return p


@of(B + 'moment_comb', args=dict(n=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat),
    requires=['n==n1+n2+n3+n4+n5+n6+n7+n8'], ret=poly(KM), prop='C10')
def moment_comb(n, n1, n2, n3, n4, n5, n6, n7, n8):
    p = NP(KM)
    for k, a in terms(vvee(n2, n3, n4, n5, n6, n7, n8)):
        for q, b in terms(b_n(n1, n2, n3, n4, n5, n6, n7)):
            emit(p, multinomial(n, [n1, n2, n3, n4, n5, n6, n7, n8]) * a * b, k, {T0: (1, 0, q[K1])}, {T0: (0, 1, q[K2])},
                 {EE: (q[E1], q[E2]), TH1: q[TH1], SG1: q[SG1], TH2: q[TH2], SG2: q[SG2], H: q[H], MU: q[MU]})
    return p


@of(B + 'sub_v', args=dict(poly=poly(KM)), ret=poly(KMV), prop='C10')
def sub_v(poly):
    p = NP(KMV)
    subv(p, poly)
    return p


@of(B + 'moment_y', args=dict(l=nat), ret=poly(KMV), prop='C10', public=True, grid={'l': range(0, 3)})
def moment_y(l):
    p = NP(KM)
    for n1 in range(0, l + 1):
        for n2 in range(0, l - n1 + 1):
            for n3 in range(0, l - n1 - n2 + 1):
                for n4 in range(0, l - n1 - n2 - n3 + 1):
                    for n5 in range(0, l - n1 - n2 - n3 - n4 + 1):
                        for n6 in range(0, l - n1 - n2 - n3 - n4 - n5 + 1):
                            for n7 in range(0, l - n1 - n2 - n3 - n4 - n5 - n6 + 1):
                                p.merge(moment_comb(l, n1, n2, n3, n4, n5, n6, n7, l - n1 - n2 - n3 - n4 - n5 - n6 - n7))
    return sub_v(p)


WRTC = one_of('mu', 'k1', 'k2', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2')


def d_one(p, poly, name):
    for k, a in terms(poly):
        emit(p, k[name] * a, k, {name: -1})


@of(C + 'vvee_IEI_IEII_vnvn', args=dict(n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat), ret=poly(KEI), prop='C11')
def vvee_vn(n2, n3, n4, n5, n6, n7, n8):
    p = NP(KEI)
    for k, a in terms(vvee(n2, n3, n4, n5, n6, n7, n8)):
        for q, b in terms(exp_vn(k[V1])):
            for r, c in terms(exp_vn(k[V2])):
                emit(p, a * b * c, drop(k, V1, V2), {EI1: q[EI], EE: (q['e^{-kh}'], 0), V1: q['v_{n-1}'], TH1: q['theta'], SG1: q['sigma_v']},
                     {EI2: r[EI], EE: (0, r['e^{-kh}']), V2: r['v_{n-1}'], TH2: r['theta'], SG2: r['sigma_v']})
    return p


M8 = dict(l1=nat, m1=nat, m2=nat, m3=nat, m4=nat, m5=nat, m6=nat, m7=nat, m8=nat, poly_eIv=poly(KEI))
GI = {'m%d' % i: G0 for i in range(1, 9)}


@of(C + 'moment_inner_comb', args=M8, ret=poly(KM), prop='C11', requires=['l1==m1+m2+m3+m4+m5+m6+m7+m8'], grid=GI)
def moment_inner_comb(l1, m1, m2, m3, m4, m5, m6, m7, m8, poly_eIv):
    p = NP(KM)
    for k, a in terms(poly_eIv):
        for q, b in terms(vvee(m2 + k[V1], m3 + k[V2], m4 + k[EI1], m5, m6 + k[EI2], m7, m8)):
            for r, c in terms(b_n(m1, m2, m3, m4, m5, m6, m7)):
                emit(p, multinomial(l1, [m1, m2, m3, m4, m5, m6, m7, m8]) * a * b * c, drop(k, EI1, EI2, V1, V2), q,
                     {T0: (1, 0, r[K1])}, {T0: (0, 1, r[K2])},
                     {EE: (r[E1], r[E2]), TH1: r[TH1], SG1: r[SG1], TH2: r[TH2], SG2: r[SG2], H: r[H], MU: r[MU]})
    return p


@of(C + 'moment_outer_comb', args=dict(l2=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, n6=nat, n7=nat, n8=nat, l1=nat),
    ret=poly(KM), prop='C11', requires=['l2==n1+n2+n3+n4+n5+n6+n7+n8'], grid=dict({'n%d' % i: G0 for i in range(1, 9)}, l1=G0))
def moment_outer_comb(l2, n1, n2, n3, n4, n5, n6, n7, n8, l1):
    p = NP(KM)
    x = vvee_vn(n2, n3, n4, n5, n6, n7, n8)
    for m1 in range(0, l1 + 1):
        for m2 in range(0, l1 - m1 + 1):
            for m3 in range(0, l1 - m1 - m2 + 1):
                for m4 in range(0, l1 - m1 - m2 - m3 + 1):
                    for m5 in range(0, l1 - m1 - m2 - m3 - m4 + 1):
                        for m6 in range(0, l1 - m1 - m2 - m3 - m4 - m5 + 1):
                            for m7 in range(0, l1 - m1 - m2 - m3 - m4 - m5 - m6 + 1):
                                for k, a in terms(moment_inner_comb(l1, m1, m2, m3, m4, m5, m6, m7, l1 - m1 - m2 - m3 - m4 - m5 - m6 - m7, x)):
                                    for r, c in terms(b_n(n1, n2, n3, n4, n5, n6, n7)):
                                        emit(p, multinomial(l2, [n1, n2, n3, n4, n5, n6, n7, n8]) * a * c, k,
                                             {T0: (1, 0, r[K1])}, {T0: (0, 1, r[K2])},
                                             {EE: (r[E1], r[E2]), TH1: r[TH1], SG1: r[SG1], TH2: r[TH2], SG2: r[SG2], H: r[H], MU: r[MU]})
    return p


@of(C + 'moment_yy', args=dict(l1=nat, l2=nat), ret=poly(KMV), prop='C11', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def moment_yy(l1, l2):
    p = NP(KM)
    for n1 in range(0, l2 + 1):
        for n2 in range(0, l2 - n1 + 1):
            for n3 in range(0, l2 - n1 - n2 + 1):
                for n4 in range(0, l2 - n1 - n2 - n3 + 1):
                    for n5 in range(0, l2 - n1 - n2 - n3 - n4 + 1):
                        for n6 in range(0, l2 - n1 - n2 - n3 - n4 - n5 + 1):
                            for n7 in range(0, l2 - n1 - n2 - n3 - n4 - n5 - n6 + 1):
                                p.merge(moment_outer_comb(l2, n1, n2, n3, n4, n5, n6, n7, l2 - n1 - n2 - n3 - n4 - n5 - n6 - n7, l1))
    return sub_v(p)


@of(C + 'cov_yy', args=dict(l1=nat, l2=nat), ret=poly(KMV), prop='C11', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def cov_yy(l1, l2):
    p = NP(KMV)
    for k, a in terms(moment_y(l1)):
        for q, b in terms(moment_y(l2)):
            emit(p, -a * b, k, q)
    return moment_yy(l1, l2) + p


def d_rate(p, poly, i):
    """derivative in k_i of prod (n1 k1 + n2 k2)^{-m} e^{-(n1 k1 + n2 k2) h}"""
    for k, a in terms(poly):
        for t in k[T0]:
            emit(p, -t[2] * t[i] * a, k, {T0: (t[0], t[1], 1)})
        emit(p, -k[EE][i] * a, k, {H: 1})


def dp(p, poly, wrt):
    if wrt == 'k1':
        d_rate(p, poly, 0)
    if wrt == 'k2':
        d_rate(p, poly, 1)
    if wrt == 'theta1':
        d_one(p, poly, TH1)
    if wrt == 'sigma_v1':
        d_one(p, poly, SG1)
    if wrt == 'theta2':
        d_one(p, poly, TH2)
    if wrt == 'sigma_v2':
        d_one(p, poly, SG2)


@of(A + 'dpoly', args=dict(poly=poly(KCV), wrt=WRTC), ret=poly(KCV), prop='C15', public=True)
def c_dpoly(poly, wrt):
    p = NP(KCV)
    dp(p, poly, wrt)
    return p


@of(B + 'dpoly', args=dict(poly=poly(KMV), wrt=WRTC), ret=poly(KMV), prop='C15', public=True)
def dpoly(poly, wrt):
    p = NP(KMV)
    dp(p, poly, wrt)
    if wrt == 'mu':
        d_one(p, poly, MU)
    return p


def t0num(t0, par):
    f = 1
    for t in t0:
        f *= (t[0] * par['k1'] + t[1] * par['k2']) ** (-t[2])
    return f


@of(A + 'poly2num', args=dict(poly=poly(KCV), par=par), ret=real, prop='C16', public=True)
def c_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * t0num(k[T0], par) * math.exp(-(k[EE][0] * par['k1'] + k[EE][1] * par['k2']) * par['h']) * par['h'] ** k[H] \
            * par['theta1'] ** k[TH1] * par['sigma_v1'] ** k[SG1] * par['theta2'] ** k[TH2] * par['sigma_v2'] ** k[SG2]
    return s


@of(B + 'poly2num', args=dict(poly=poly(KMV), par=par), ret=real, prop='C16', public=True)
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * t0num(k[T0], par) * math.exp(-(k[EE][0] * par['k1'] + k[EE][1] * par['k2']) * par['h']) * par['h'] ** k[H] \
            * par['mu'] ** k[MU] * par['theta1'] ** k[TH1] * par['sigma_v1'] ** k[SG1] * par['theta2'] ** k[TH2] \
            * par['sigma_v2'] ** k[SG2]
    return s


@of(A + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def cm(l, par):
    return c_poly2num(cmoment_y(l), par)


@of(A + 'dcm', args=dict(l=nat, par=par, wrt=WRTC), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def dcm(l, par, wrt):
    return c_poly2num(c_dpoly(cmoment_y(l), wrt), par)


@of(B + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def m(l, par):
    return poly2num(moment_y(l), par)


@of(B + 'dm', args=dict(l=nat, par=par, wrt=WRTC), ret=real, prop='C16', public=True, grid={'l': range(0, 3)})
def dm(l, par, wrt):
    return poly2num(dpoly(moment_y(l), wrt), par)


@of(C + 'cov', args=dict(l1=nat, l2=nat, par=par), ret=real, prop='C16', public=True, grid={'l1': range(0, 2), 'l2': range(0, 2)})
def cov(l1, l2, par):
    return poly2num(cov_yy(l1, l2), par)


@of(C + 'dcov', args=dict(l1=nat, l2=nat, par=par, wrt=WRTC), ret=real, prop='C16', public=True,
    grid={'l1': range(0, 2), 'l2': range(0, 2)})
def dcov(l1, l2, par, wrt):
    return poly2num(dpoly(cov_yy(l1, l2), wrt), par)
