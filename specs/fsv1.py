"""One-factor SV model: unconditional moments, central moments, covariances, conditional central moments."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.ito import moment_v, moment_IEII, int_et

A = 'ajdmom.mdl_1fsv.cmom.'
B = 'ajdmom.mdl_1fsv.mom.'
C = 'ajdmom.mdl_1fsv.cov.'
D = 'ajdmom.mdl_1fsv.cond_cmom.'
E, H, V, K, MU, TH, SG, RH, SQ = 'e^{-kh}', 'h', 'v_{n-1}', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)'
KB = (E, K, TH, SG, RH, SQ)
KB2 = (E, H, K, MU, TH, SG, RH, SQ)
KVE = (E, H, V, K, TH, SG)
KC = (E, H, V, K, TH, SG, RH, SQ)
KCV = (E, H, K, TH, SG, RH, SQ)
KM = (E, H, V, K, MU, TH, SG, RH, SQ)
KMV = KB2
EI = 'e^{-knh}eI_n'
KV = (EI, E, V, TH, SG)
KEV = (EI, E, H, V, K, TH, SG)
PAR = ('k', 'h', 'mu', 'theta', 'sigma_v', 'rho')
N5 = dict(n1=nat, n2=nat, n3=nat, n4=nat, n5=nat)


def cfactor(n1, n2, n3, n4, n5):
    """the five summands of the centred return (theta, v, sigma/(2k) IE, (rho - sigma/(2k)) I, sqrt(1-rho^2) I*)
    raised to n1..n5, without IE, I, I* and v; (1 - e^{-kh}) / (2k) multiplies theta, and -v"""
    p = NP(KB)
    for i in range(0, n1 + n2 + 1):
        for j in range(0, n4 + 1):
            emit(p, (-1) ** n2 * (-1) ** i * binomial(n1 + n2, i) * (-1) ** j * binomial(n4, j) / 2 ** (n1 + n2 + n3 + j),
                 {E: i, K: n1 + n2 + n3 + j, TH: n1, SG: n3 + j, RH: n4 - j, SQ: n5})
    return p


@of(A + 'b_n', args=N5, ret=poly(KB), prop='C10')
def c_b_n(n1, n2, n3, n4, n5):
    return cfactor(n1, n2, n3, n4, n5)


@of(A + 've_IEII', args=dict(n2=nat, n3=nat, n4=nat, n5=nat), ret=poly(KVE), prop='C10')
def ve_IEII(n2, n3, n4, n5):
    p = NP(KVE)
    for k, a in terms(moment_IEII(n3, n4, n5)):
        emit(p, a, {E: n3 - k['e^{k[t-(n-1)h]}'], H: k['[t-(n-1)h]'], V: n2 + k[V], K: k[K], TH: k[TH], SG: k[SG]})
    return p


@of(A + 'moment_comb', args=dict(n=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat), requires=['n==n1+n2+n3+n4+n5'],
    ret=poly(KC), prop='C10')
def c_moment_comb(n, n1, n2, n3, n4, n5):
    p = NP(KC)
    for k, a in terms(ve_IEII(n2, n3, n4, n5)):
        for q, b in terms(c_b_n(n1, n2, n3, n4, n5)):
            emit(p, multinomial(n, [n1, n2, n3, n4, n5]) * a * b, k, q)
    return p


@of(A + 'sub_v', args=dict(poly=poly(KC)), ret=poly(KCV), prop='C10')
def c_sub_v(poly):
    p = NP(KCV)
    for k, a in terms(poly):
        for q, b in terms(moment_v(k[V])):
            emit(p, a * b, drop(k, V), {K: q['sigma_v^2/k'], TH: q['theta'], SG: 2 * q['sigma_v^2/k']})
    return p


@of(A + 'cmoment_y', args=dict(l=nat), ret=poly(KCV), prop='C10', public=True)
def cmoment_y(l):
    p = NP(KC)
    for n1 in range(0, l + 1):
        for n2 in range(0, l - n1 + 1):
            for n3 in range(0, l - n1 - n2 + 1):
                for n4 in range(0, l - n1 - n2 - n3 + 1):
                    p.merge(c_moment_comb(l, n1, n2, n3, n4, l - n1 - n2 - n3 - n4))
    return c_sub_v(p)


@of(B + 'b_n', args=N5, ret=poly(KB2), prop='C10')
def b_n(n1, n2, n3, n4, n5):
    """n1: (mu - theta/2) h + theta (1 - e^{-kh}) / (2k); the rest as in the centred return"""
    p = NP(KB2)
    for a in range(0, n1 + 1):
        for b in range(0, n1 - a + 1):
            for c in range(0, n1 - a - b + 1):
                d = n1 - a - b - c
                for i in range(0, n2 + 1):
                    for j in range(0, n4 + 1):
                        emit(p, multinomial(n1, [a, b, c, d]) * binomial(n2, i) * binomial(n4, j)
                             * (-1) ** (b + d + n2 + i + j) / 2 ** (b + c + d + n2 + n3 + j),
                             {E: d + i, H: a + b, K: c + d + n2 + n3 + j, MU: a, TH: b + c + d, SG: n3 + j, RH: n4 - j, SQ: n5})
    return p


@of(B + 'moment_comb', args=dict(n=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat), requires=['n==n1+n2+n3+n4+n5'],
    ret=poly(KM), prop='C10')
def moment_comb(n, n1, n2, n3, n4, n5):
    p = NP(KM)
    for k, a in terms(ve_IEII(n2, n3, n4, n5)):
        for q, b in terms(b_n(n1, n2, n3, n4, n5)):
            emit(p, multinomial(n, [n1, n2, n3, n4, n5]) * a * b, k, q)
    return p


@of(B + 'sub_v', args=dict(poly=poly(KM)), ret=poly(KMV), prop='C10')
def sub_v(poly):
    p = NP(KMV)
    for k, a in terms(poly):
        for q, b in terms(moment_v(k[V])):
            emit(p, a * b, drop(k, V), {K: q['sigma_v^2/k'], TH: q['theta'], SG: 2 * q['sigma_v^2/k']})
    return p


@of(B + 'moment_y', args=dict(l=nat), ret=poly(KMV), prop='C10', public=True)
def moment_y(l):
    p = NP(KM)
    for n1 in range(0, l + 1):
        for n2 in range(0, l - n1 + 1):
            for n3 in range(0, l - n1 - n2 + 1):
                for n4 in range(0, l - n1 - n2 - n3 + 1):
                    p.merge(moment_comb(l, n1, n2, n3, n4, l - n1 - n2 - n3 - n4))
    return sub_v(p)


def d_k(p, poly):
    """e^{-ikh} h^j k^{-l}: derivative in k"""
    for k, a in terms(poly):
        emit(p, -k[E] * a, k, {H: 1})
        emit(p, -k[K] * a, k, {K: 1})


def d_one(p, poly, name):
    for k, a in terms(poly):
        emit(p, k[name] * a, k, {name: -1})


def d_rho(p, poly):
    """rho^i (1-rho^2)^{j/2}"""
    for k, a in terms(poly):
        emit(p, k[RH] * a, k, {RH: -1})
        emit(p, -k[SQ] * a, k, {RH: 1, SQ: -2})


@of(A + 'dpoly', args=dict(poly=poly(KCV), wrt=one_of('mu', 'k', 'theta', 'sigma_v', 'rho')), ret=poly(KCV), prop='C15', public=True)
def c_dpoly(poly, wrt):
    p = NP(KCV)
    if wrt == 'k':
        d_k(p, poly)
    if wrt == 'theta':
        d_one(p, poly, TH)
    if wrt == 'sigma_v':
        d_one(p, poly, SG)
    if wrt == 'rho':
        d_rho(p, poly)
    return p


@of(B + 'dpoly', args=dict(poly=poly(KMV), wrt=one_of('mu', 'k', 'theta', 'sigma_v', 'rho')), ret=poly(KMV), prop='C15', public=True)
def dpoly(poly, wrt):
    p = NP(KMV)
    if wrt == 'k':
        d_k(p, poly)
    if wrt == 'mu':
        d_one(p, poly, MU)
    if wrt == 'theta':
        d_one(p, poly, TH)
    if wrt == 'sigma_v':
        d_one(p, poly, SG)
    if wrt == 'rho':
        d_rho(p, poly)
    return p


@of(A + 'poly2num', args=dict(poly=poly(KCV), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def c_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(-k[E] * par['k'] * par['h']) * par['h'] ** k[H] * par['k'] ** (-k[K]) * par['theta'] ** k[TH] \
            * par['sigma_v'] ** k[SG] * par['rho'] ** k[RH] * (1 - par['rho'] ** 2) ** (k[SQ] / 2)
    return s


@of(B + 'poly2num', args=dict(poly=poly(KMV), par=par), ret=real, prop='C16', public=True, dom={SQ: 'even'})
def poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(-k[E] * par['k'] * par['h']) * par['h'] ** k[H] * par['k'] ** (-k[K]) * par['mu'] ** k[MU] \
            * par['theta'] ** k[TH] * par['sigma_v'] ** k[SG] * par['rho'] ** k[RH] * (1 - par['rho'] ** 2) ** (k[SQ] / 2)
    return s


WRT = one_of('mu', 'k', 'theta', 'sigma_v', 'rho')


@of(A + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cm(l, par):
    return c_poly2num(cmoment_y(l), par)


@of(A + 'dcm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def dcm(l, par, wrt):
    return c_poly2num(c_dpoly(cmoment_y(l), wrt), par)


@of(B + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def m(l, par):
    return poly2num(moment_y(l), par)


@of(B + 'dm', args=dict(l=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def dm(l, par, wrt):
    return poly2num(dpoly(moment_y(l), wrt), par)


@of(C + 'exp_vn', args=dict(l=nat), ret=poly(KV), prop='C11')
def exp_vn(l):
    """v_n^l with v_n = e^{-kh} v_{n-1} + theta (1 - e^{-kh}) + sigma_v e^{-knh} eI_n"""
    p = NP(KV)
    for i in range(0, l + 1):
        for j in range(0, l - i + 1):
            for r in range(0, l - i - j + 1):
                q = l - i - j - r
                emit(p, multinomial(l, [i, j, r, q]) * (-1) ** r, {EI: q, E: i + r, V: i, TH: j + r, SG: q})
    return p


@of(C + 've_IEII_vn', args=dict(n2=nat, n3=nat, n4=nat, n5=nat), ret=poly(KEV), prop='C11')
def ve_IEII_vn(n2, n3, n4, n5):
    p = NP(KEV)
    for k, a in terms(ve_IEII(n2, n3, n4, n5)):
        for q, b in terms(exp_vn(k[V])):
            emit(p, a * b, drop(k, V), q)
    return p


@of(C + 'moment_inner_comb', args=dict(l1=nat, m1=nat, m2=nat, m3=nat, m4=nat, m5=nat, poly_eIv=poly(KEV)), ret=poly(KM),
    prop='C11', requires=['l1==m1+m2+m3+m4+m5'])
def moment_inner_comb(l1, m1, m2, m3, m4, m5, poly_eIv):
    p = NP(KM)
    for k, a in terms(poly_eIv):
        for q, b in terms(ve_IEII(m2 + k[V], m3 + k[EI], m4, m5)):
            for r, c in terms(b_n(m1, m2, m3, m4, m5)):
                emit(p, multinomial(l1, [m1, m2, m3, m4, m5]) * a * b * c, drop(k, EI, V), q, r)
    return p


@of(C + 'moment_outer_comb', args=dict(l2=nat, n1=nat, n2=nat, n3=nat, n4=nat, n5=nat, l1=nat), ret=poly(KM), prop='C11',
    requires=['l2==n1+n2+n3+n4+n5'])
def moment_outer_comb(l2, n1, n2, n3, n4, n5, l1):
    p = NP(KM)
    x = ve_IEII_vn(n2, n3, n4, n5)
    for m1 in range(0, l1 + 1):
        for m2 in range(0, l1 - m1 + 1):
            for m3 in range(0, l1 - m1 - m2 + 1):
                for m4 in range(0, l1 - m1 - m2 - m3 + 1):
                    for k, a in terms(moment_inner_comb(l1, m1, m2, m3, m4, l1 - m1 - m2 - m3 - m4, x)):
                        for q, b in terms(b_n(n1, n2, n3, n4, n5)):
                            emit(p, multinomial(l2, [n1, n2, n3, n4, n5]) * a * b, k, q)
    return p


@of(C + 'moment_yy', args=dict(l1=nat, l2=nat), ret=poly(KMV), prop='C11', public=True)
def moment_yy(l1, l2):
    """E[y_n^{l1} y_{n+1}^{l2}]"""
    p = NP(KM)
    for n1 in range(0, l2 + 1):
        for n2 in range(0, l2 - n1 + 1):
            for n3 in range(0, l2 - n1 - n2 + 1):
                for n4 in range(0, l2 - n1 - n2 - n3 + 1):
                    p.merge(moment_outer_comb(l2, n1, n2, n3, n4, l2 - n1 - n2 - n3 - n4, l1))
    return sub_v(p)


@of(C + 'cov_yy', args=dict(l1=nat, l2=nat), ret=poly(KMV), prop='C11', public=True, grid={'l1': range(0, 3), 'l2': range(0, 3)})
def cov_yy(l1, l2):
    return moment_yy(l1, l2) - moment_y(l1) * moment_y(l2)


@of(C + 'cov', args=dict(l1=nat, l2=nat, par=par), ret=real, prop='C16', public=True, grid={'l1': range(0, 3), 'l2': range(0, 2)})
def cov(l1, l2, par):
    return poly2num(cov_yy(l1, l2), par)


@of(C + 'dcov', args=dict(l1=nat, l2=nat, par=par, wrt=WRT), ret=real, prop='C16', public=True,
    grid={'l1': range(0, 3), 'l2': range(0, 2)})
def dcov(l1, l2, par, wrt):
    return poly2num(dpoly(cov_yy(l1, l2), wrt), par)


# ---------------------------------------------------------------- conditional central moments given v_0
K6 = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma')
S1, S2 = 'sigma/2k', 'rho-sigma/2k'
K9 = K6 + (S1, S2, SQ)
ET, T, V0, SI = 'e^{kt}', 't', 'v_0-theta', 'sigma'


@of(D + 'int_mIEII', args=dict(c=rational, tp=one_of(1, 2, 3), m=integer, poly=poly(K6)), ret=poly(K6), prop='C06',
    grid={'m': range(-1, 3)})
def int_mIEII(c, tp, m, poly):
    p = NP(K6)
    for k, a in terms(poly):
        for q, b in terms(int_et(m + k[ET], k[T])):
            low = {ET: q['e^{k[t-(n-1)h]}'], T: q['[t-(n-1)h]'], K: q['k^{-}']}
            if tp == 1:
                emit(p, c * a * b, drop(k, ET, T), low, {V0: 1})
            elif tp == 2:
                emit(p, c * a * b, drop(k, ET, T), low, {TH: 1})
            else:
                emit(p, c * a * b, drop(k, ET, T), low, {SI: 1})
    return p


def dstep(c, m, low, sh):
    return int_mIEII(c, 1, m, low) + int_mIEII(c, 2, m + 1, low) + int_mIEII(c, 3, m, sh)


@of(D + 'recursive_IEII', args=dict(n3=nat, n4=nat, n5=nat), ignore={'IEII': table('cond.IEII')}, ret=poly(K6), prop='C06',
    memo='cond.IEII')
def recursive_IEII(n3, n4, n5):
    p = NP(K6)
    if n3 >= 2:
        p.merge(dstep(Fraction(n3 * (n3 - 1), 2), 1, IEII(n3 - 2, n4, n5), IEII(n3 - 1, n4, n5)))
    if n4 >= 2:
        p.merge(dstep(Fraction(n4 * (n4 - 1), 2), -1, IEII(n3, n4 - 2, n5), IEII(n3 + 1, n4 - 2, n5)))
    if n3 >= 1 and n4 >= 1:
        p.merge(dstep(n3 * n4, 0, IEII(n3 - 1, n4 - 1, n5), IEII(n3, n4 - 1, n5)))
    if n5 >= 2:
        p.merge(dstep(Fraction(n5 * (n5 - 1), 2), -1, IEII(n3, n4, n5 - 2), IEII(n3 + 1, n4, n5 - 2)))
    return p


@of('cond.IEII', args=dict(n3=nat, n4=nat, n5=nat), ret=poly(K6), prop='C06', virtual=True)
def IEII(n3, n4, n5):
    """conditional joint moment given v_0 (no jumps)"""
    if n3 + n4 + n5 == 0:
        p = NP(K6)
        emit(p, 1)
        return p
    return recursive_IEII(n3, n4, n5)


@of('cond.cmom', args=dict(n=nat), ret=poly(K9), prop='C14', virtual=True)
def ccmom(n):
    """n-th conditional central moment given v_0, in the powers of sigma/2k, rho - sigma/2k, sqrt(1-rho^2)"""
    p = NP(K9)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(IEII(i, j, n - i - j)):
                emit(p, multinomial(n, [i, j, n - i - j]) * a, k, {ET: -i, S1: i, S2: j, SQ: n - i - j})
    return p


@of(D + 'cmoments_y_to', args=dict(l=nat), ret=table('cond.cmom'), prop='C14', public=True, memo='cond.IEII', grid={'l': range(0, 6)})
def cmoments_y_to(l):
    return l


EM = 'e^{-kt}'
KS1 = (EM,) + ('t', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KS2 = (EM, 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
KS3 = (EM, 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho')


def simp1(poly):
    p = NP(KS1)
    for k, a in terms(poly):
        emit(p, a, drop(k, ET), {EM: -k[ET]})
    return p


def simp2(poly):
    """(sigma/2k)^a (rho - sigma/2k)^b (1-rho^2)^{c/2} expanded in rho, sigma, k; c is even"""
    p = NP(KS2)
    for k, a in terms(poly):
        if k[SQ] % 2 == 0:
            for i in range(0, k[S2] + 1):
                for j in range(0, k[SQ] // 2 + 1):
                    r = k[S1] + i
                    emit(p, a * binomial(k[S2], i) * (-1) ** i / 2 ** r * binomial(k[SQ] // 2, j) * (-1) ** j,
                         drop(k, ET, S1, S2, SQ), {EM: -k[ET], K: r, SI: r, RH: k[S2] - i + 2 * j})
    return p


def simp3(poly):
    p = NP(KS3)
    for k, a in terms(simp2(poly)):
        for i in range(0, k[V0] + 1):
            emit(p, a * binomial(k[V0], i) * (-1) ** i, drop(k, V0), {'v_0': k[V0] - i, TH: i})
    return p


@of(D + 'simplify', args=dict(poly=poly(K9), tp=one_of(1, 2, 3)), ret=poly_by('tp', {1: KS1, 2: KS2, 3: KS3}), prop='C20',
    dom={SQ: 'even'}, public=True)
def simplify(poly, tp):
    if tp == 1:
        return simp1(poly)
    if tp == 2:
        return simp2(poly)
    return simp3(poly)


@of(D + 'poly2num', args=dict(poly=poly(KS2), par=par), ret=real, prop='C16', public=True)
def d_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(-k[EM] * par['k'] * par['h']) * par['h'] ** k['t'] * par['k'] ** (-k['k^{-}']) \
            * (par['v0'] - par['theta']) ** k['v_0-theta'] * par['theta'] ** k['theta'] * par['sigma_v'] ** k['sigma'] \
            * par['rho'] ** k['rho']
    return s


@of(D + 'cond_cm', args=dict(l=nat, par=par), ret=real, prop='C14', public=True, grid={'l': range(0, 4)})
def cond_cm(l, par):
    return d_poly2num(simplify(ccmom(l), 2), par)
