"""Square-root jump diffusion: moments of IE, IEZ, of v given v_0 (and the jumps), stationary moments."""
import math
from fractions import Fraction
from engine.specapi import *
from specs.jumps import fZ2

A = 'ajdmom.mdl_srjd.iez_mom.'
B = 'ajdmom.mdl_srjd.iez_cmom.'
C = 'ajdmom.mdl_srjd.cond_ie_iez_mom.'
D = 'ajdmom.mdl_srjd.cond_ie_iez_cmom.'
F = 'ajdmom.mdl_srjd.cond2_mom.'
G = 'ajdmom.mdl_srjd.cond2_cmom.'
H = 'ajdmom.mdl_srjd.cond_mom.'
I = 'ajdmom.mdl_srjd.cond_cmom.'
J = 'ajdmom.mdl_srjd.mom.'
K = 'ajdmom.mdl_srjd.cmom.'
ET, ES, KI, LM, MV, TS = 'e^{kt}', 'e^{ks}', 'k^{-}', 'lmbd', 'mu_v', 't-s'
VT, TH, SI, VE, EV = 'v0-theta', 'theta', 'sigma', 'v0-E[v]', 'E[v]'
KEJ = (ET, ES, TS, KI, MV)
KZ = (ET, ES, KI, LM, MV)
K7 = (ET, KI, VT, TH, SI, LM, MV)
C7 = (ET, KI, VE, EV, SI, LM, MV)


@of(A + 'moment_EJ', args=dict(n=nat), ret=poly(KEJ), prop='C08')
def moment_EJ(n):
    """E[(e^{ks_i} J_i)^n], s_i uniform on (s, t), J_i exponential: n! mu^n (e^{nkt} - e^{nks}) / (n k (t-s))"""
    p = NP(KEJ)
    if n == 0:
        emit(p, 1)
    else:
        emit(p, facto(n - 1), {ET: n, TS: -1, KI: 1, MV: n})
        emit(p, -facto(n - 1), {ES: n, TS: -1, KI: 1, MV: n})
    return p


@of(A + 'moment_IEZ', args=dict(n=nat), ret=poly(KZ), prop='C08', public=True, grid={'n': range(0, 6)})
def moment_IEZ(n):
    """E[IEZ_{s,t}^n]: the j-th cumulant is lambda (t-s) E[(e^{ks_i} J_i)^j]"""
    p = NP(KZ)
    if n == 0:
        emit(p, 1)
        return p
    for j in range(1, n + 1):
        for k, a in terms(moment_EJ(j)):
            for q, b in terms(moment_IEZ(n - j)):
                emit(p, binomial(n - 1, j - 1) * a * b, drop(k, TS), q, {LM: 1})
    return p


@of(B + 'cmoment_IEZ', args=dict(n=nat), ret=poly(KZ), prop='C08', public=True, grid={'n': range(0, 5)})
def cmoment_IEZ(n):
    """E[(IEZ - E[IEZ])^n]"""
    p = NP(KZ)
    for i in range(0, n + 1):
        if i == 0:
            p.merge(moment_IEZ(n))
        else:
            p.merge((-1) ** i * binomial(n, i) * (moment_IEZ(1) ** i * moment_IEZ(n - i)))
    return p


def znum(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(k[ET] * par['k'] * par['ub']) * math.exp(k[ES] * par['k'] * par['lb']) * par['k'] ** (-k[KI]) \
            * par['lmbd'] ** k[LM] * par['mu_v'] ** k[MV]
    return s


@of(A + 'poly2num', args=dict(poly=poly(KZ), par=par), ret=real, prop='C16', public=True)
def iez_poly2num(poly, par):
    return znum(poly, par)


@of(A + 'm', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 4)})
def iez_m(n, par):
    return iez_poly2num(moment_IEZ(n), par)


@of(B + 'cm', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 4)})
def iez_cm(n, par):
    return iez_poly2num(cmoment_IEZ(n), par)


# ------------------------------------------------ joint moments of IE and IEZ given v_0
def integral(p, c, tp, m, poly, n1, n2, n3):
    """c int_0^t e^{m k s} poly(s) ds times one of v0-theta, theta, sigma, 1; every exponent is positive"""
    for k, a in terms(poly):
        r = k[ET] + m
        if tp == 1:
            emit(p, c * a / r, drop(k, ET), {ET: r, KI: 1, n1: 1})
            emit(p, -c * a / r, drop(k, ET), {KI: 1, n1: 1})
        elif tp == 2:
            emit(p, c * a / r, drop(k, ET), {ET: r, KI: 1, n2: 1})
            emit(p, -c * a / r, drop(k, ET), {KI: 1, n2: 1})
        elif tp == 3:
            emit(p, c * a / r, drop(k, ET), {ET: r, KI: 1, n3: 1})
            emit(p, -c * a / r, drop(k, ET), {KI: 1, n3: 1})
        else:
            emit(p, c * a / r, drop(k, ET), {ET: r, KI: 1})
            emit(p, -c * a / r, drop(k, ET), {KI: 1})


TP = one_of(1, 2, 3, 4)


@of(C + 'int_e_poly', args=dict(c=rational, tp=TP, m=pos, poly=poly(K7)), ret=poly(K7), prop='C08', dom={ET: (0, 1, 2)})
def int_e_poly(c, tp, m, poly):
    p = NP(K7)
    integral(p, c, tp, m, poly, VT, TH, SI)
    return p


@of(D + 'int_e_poly', args=dict(c=rational, tp=TP, m=pos, poly=poly(C7)), ret=poly(C7), prop='C08', dom={ET: (0, 1, 2)})
def c_int_e_poly(c, tp, m, poly):
    p = NP(C7)
    integral(p, c, tp, m, poly, VE, EV, SI)
    return p


@of(C + 'iez_to_ie_iez', args=dict(poly=poly(KZ)), ret=poly(K7), prop='C08')
def iez_to_ie_iez(poly):
    """the interval is (0, t)"""
    p = NP(K7)
    for k, a in terms(poly):
        emit(p, a, drop(k, ES))
    return p


@of(D + 'iez_to_ie_iez', args=dict(poly=poly(KZ)), ret=poly(C7), prop='C08')
def c_iez_to_ie_iez(poly):
    p = NP(C7)
    for k, a in terms(poly):
        emit(p, a, drop(k, ES))
    return p


def shift(k, poly, p):
    """monomial k of IEZ_{s,t} times poly; the exponent of e^{ks} is part of the integrand"""
    for q, b in terms(poly):
        emit(p, b, drop(k, ES), q)


@of(C + 'key_times_poly', args=dict(k=keyvar(KZ), poly=poly(K7)), ret=poly(K7), prop='C08')
def key_times_poly(k, poly):
    p = NP(K7)
    shift(k, poly, p)
    return p


@of(D + 'key_times_poly', args=dict(k=keyvar(KZ), poly=poly(C7)), ret=poly(C7), prop='C08')
def c_key_times_poly(k, poly):
    p = NP(C7)
    shift(k, poly, p)
    return p


@of(C + 'recursive_ie_iez', args=dict(n1=nat, n2=nat), ignore={'IE_IEZ': table(C + 'moment_ie_iez')}, ret=poly(K7), prop='C08',
    memo=C + 'moment_ie_iez')
def recursive_ie_iez(n1, n2):
    """n1(n1-1)/2 int_0^t e^{2ks} E[v_s IE_s^{n1-2} (IEZ_s + IEZ_{s,t})^{n2}] ds,
    e^{ks} v_s = v0-theta + theta e^{ks} + sigma IE_s + IEZ_s"""
    p = NP(K7)
    if n1 == 0:
        p.merge(iez_to_ie_iez(moment_IEZ(n2)))
    if n1 >= 2:
        for i in range(0, n2 + 1):
            for k, a in terms(moment_IEZ(n2 - i)):
                c = binomial(n2, i) * Fraction(n1 * (n1 - 1), 2) * a
                x = int_e_poly(c, 1, 1 + k[ES], moment_ie_iez(n1 - 2, i)) + int_e_poly(c, 2, 2 + k[ES], moment_ie_iez(n1 - 2, i)) \
                    + int_e_poly(c, 3, 1 + k[ES], moment_ie_iez(n1 - 1, i)) + int_e_poly(c, 4, 1 + k[ES], moment_ie_iez(n1 - 2, i + 1))
                p.merge(key_times_poly(k, x))
    return p


@of(C + 'moment_ie_iez', args=dict(n1=nat, n2=nat), ret=poly(K7), prop='C08', public=True, grid={'n1': range(0, 4), 'n2': range(0, 3)})
def moment_ie_iez(n1, n2):
    """E[IE_t^{n1} IEZ_t^{n2} | v_0]"""
    if n1 + n2 == 0:
        p = NP(K7)
        emit(p, 1)
        return p
    return recursive_ie_iez(n1, n2)


@of(D + 'recursive_ie_iez', args=dict(n1=nat, n2=nat), ignore={'IE_IEZ': table(D + 'cmoment_ie_iez')}, ret=poly(C7), prop='C08',
    memo=D + 'cmoment_ie_iez')
def c_recursive_ie_iez(n1, n2):
    """the same with IEZ centred: e^{ks} v_s = v0-E[v] + E[v] e^{ks} + sigma IE_s + (IEZ_s - E[IEZ_s])"""
    p = NP(C7)
    if n1 == 0:
        p.merge(c_iez_to_ie_iez(cmoment_IEZ(n2)))
    if n1 >= 2:
        for i in range(0, n2 + 1):
            for k, a in terms(cmoment_IEZ(n2 - i)):
                c = binomial(n2, i) * Fraction(n1 * (n1 - 1), 2) * a
                x = c_int_e_poly(c, 1, 1 + k[ES], cmoment_ie_iez(n1 - 2, i)) + c_int_e_poly(c, 2, 2 + k[ES], cmoment_ie_iez(n1 - 2, i)) \
                    + c_int_e_poly(c, 3, 1 + k[ES], cmoment_ie_iez(n1 - 1, i)) + c_int_e_poly(c, 4, 1 + k[ES], cmoment_ie_iez(n1 - 2, i + 1))
                p.merge(c_key_times_poly(k, x))
    return p


@of(D + 'cmoment_ie_iez', args=dict(n1=nat, n2=nat), ret=poly(C7), prop='C08', public=True, grid={'n1': range(0, 4), 'n2': range(0, 3)})
def cmoment_ie_iez(n1, n2):
    if n1 + n2 == 0:
        p = NP(C7)
        emit(p, 1)
        return p
    return c_recursive_ie_iez(n1, n2)


@of(C + 'recursive_ie', args=dict(n=nat), ignore={'IE': table(C + 'moment_ie'), 'IE_IEZ': table(C + 'moment_ie_iez')},
    ret=poly(K7), prop='C08', memo=C + 'moment_ie_iez')
def recursive_ie(n):
    p = NP(K7)
    if n >= 2:
        c = Fraction(n * (n - 1), 2)
        p.merge(int_e_poly(c, 1, 1, moment_ie(n - 2)))
        p.merge(int_e_poly(c, 2, 2, moment_ie(n - 2)))
        p.merge(int_e_poly(c, 3, 1, moment_ie(n - 1)))
        p.merge(int_e_poly(c, 4, 1, moment_ie_iez(n - 2, 1)))
    return p


@of(C + 'moment_ie', args=dict(n=nat), ret=poly(K7), prop='C08', public=True, grid={'n': range(0, 5)})
def moment_ie(n):
    return moment_ie_iez(n, 0)


@of(D + 'recursive_ie', args=dict(n=nat), ignore={'IE': table(D + 'moment_ie'), 'IE_IEZ': table(D + 'cmoment_ie_iez')},
    ret=poly(C7), prop='C08', memo=D + 'cmoment_ie_iez')
def c_recursive_ie(n):
    p = NP(C7)
    if n >= 2:
        c = Fraction(n * (n - 1), 2)
        p.merge(c_int_e_poly(c, 1, 1, c_moment_ie(n - 2)))
        p.merge(c_int_e_poly(c, 2, 2, c_moment_ie(n - 2)))
        p.merge(c_int_e_poly(c, 3, 1, c_moment_ie(n - 1)))
        p.merge(c_int_e_poly(c, 4, 1, cmoment_ie_iez(n - 2, 1)))
    return p


@of(D + 'moment_ie', args=dict(n=nat), ret=poly(C7), prop='C08', public=True, grid={'n': range(0, 5)})
def c_moment_ie(n):
    return cmoment_ie_iez(n, 0)


def k7num(poly, par, kv0, kth, kl, mean):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(k[ET] * par['k'] * par['h']) * par['k'] ** (-k[KI]) * (par['v0'] - mean) ** k[kv0] * mean ** k[kth] \
            * par['sigma'] ** k[SI] * par['lmbd'] ** k[LM] * par['mu_v'] ** k[MV]
    return s


@of(C + 'poly2num', args=dict(poly=poly(K7), par=par), ret=real, prop='C16', public=True)
def poly2num(poly, par):
    return k7num(poly, par, VT, TH, LM, par['theta'])


@of(H + 'poly2num', args=dict(poly=poly(K7), par=par), ret=real, prop='C16', public=True)
def h_poly2num(poly, par):
    return k7num(poly, par, VT, TH, LM, par['theta'])


@of(D + 'poly2num', args=dict(poly=poly(C7), par=par), ret=real, prop='C16', public=True)
def c_poly2num(poly, par):
    return k7num(poly, par, VE, EV, LM, par['theta'] + par['lmbd'] * par['mu_v'] / par['k'])


@of(C + 'm_ie', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 4)})
def m_ie(n, par):
    return poly2num(moment_ie(n), par)


@of(C + 'm_ie_iez', args=dict(n1=nat, n2=nat, par=par), ret=real, prop='C16', public=True, grid={'n1': range(0, 3), 'n2': range(0, 2)})
def m_ie_iez(n1, n2, par):
    return poly2num(moment_ie_iez(n1, n2), par)


@of(D + 'm_ie', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 4)})
def c_m_ie(n, par):
    return c_poly2num(c_moment_ie(n), par)


@of(D + 'cm_ie_iez', args=dict(n1=nat, n2=nat, par=par), ret=real, prop='C16', public=True, grid={'n1': range(0, 3), 'n2': range(0, 2)})
def cm_ie_iez(n1, n2, par):
    return c_poly2num(cmoment_ie_iez(n1, n2), par)


# ------------------------------------------------ moments of v_t given v_0
@of(H + 'moment_x', args=dict(n=nat), ret=poly(K7), prop='C13', public=True, grid={'n': range(0, 4)})
def moment_x(n):
    """x = sigma IE + IEZ"""
    p = NP(K7)
    for i in range(0, n + 1):
        for k, a in terms(moment_ie_iez(i, n - i)):
            emit(p, binomial(n, i) * a, k, {SI: i})
    return p


@of(H + 'moment_v', args=dict(n=nat), ret=poly(K7), prop='C13', public=True, grid={'n': range(0, 4)})
def moment_v(n):
    """v_t = e^{-kt} (v0 - theta) + theta + e^{-kt} x"""
    p = NP(K7)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(moment_x(n - i - j)):
                emit(p, binomial(n, i) * binomial(n - i, j) * a, k, {ET: j - n, VT: i, TH: j})
    return p


@of(H + 'm_x', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 3)})
def m_x(n, par):
    return h_poly2num(moment_x(n), par)


@of(H + 'm', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 3)})
def m(n, par):
    return h_poly2num(moment_v(n), par)


@of(I + 'cmoment_x', args=dict(n=nat), ret=poly(K7), prop='C13', public=True, grid={'n': range(0, 4)})
def cmoment_x(n):
    """E[x] = lambda mu (e^{kt} - 1) / k"""
    p = NP(K7)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(moment_x(i)):
                emit(p, binomial(n, i) * binomial(n - i, j) * (-1) ** j * a, k, {ET: j, KI: n - i, LM: n - i, MV: n - i})
    return p


@of(I + 'cmoment_v', args=dict(n=nat), ret=poly(K7), prop='C13', public=True, grid={'n': range(0, 4)})
def cmoment_v(n):
    """v - E v = e^{-kt} (x - E x)"""
    p = NP(K7)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(moment_x(i)):
                emit(p, binomial(n, i) * binomial(n - i, j) * (-1) ** (n - i - j) * a, k, {ET: -i - j, KI: n - i, LM: n - i, MV: n - i})
    return p


@of(I + 'cm_x', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 3)})
def cm_x(n, par):
    return h_poly2num(cmoment_x(n), par)


@of(I + 'cm', args=dict(n=nat, par=par), ret=real, prop='C16', public=True, grid={'n': range(0, 3)})
def cm(n, par):
    return h_poly2num(cmoment_v(n), par)


# ------------------------------------------------ stationary moments of v
KU = (KI, EV, SI, LM, MV)
KT = (ET, KI, EV, SI, LM, MV)
KX = (KI, TH, SI, LM, MV)


@of(K + 'cond_cmoment_v', args=dict(n=nat), ret=poly(C7), prop='C13', grid={'n': range(0, 4)})
def cond_cmoment_v(n):
    """v_t - E v = e^{-kt} (v0 - E v + sigma IE + IEZ - E IEZ)"""
    p = NP(C7)
    for i in range(0, n + 1):
        for j in range(0, n - i + 1):
            for k, a in terms(cmoment_ie_iez(i, j)):
                emit(p, multinomial(n, [i, j, n - i - j]) * a, k, {ET: -n, VE: n - i - j, SI: i})
    return p


@of(K + 'key_times_poly', args=dict(coef=rational, k=keyvar(C7), poly=poly(KU)), ret=poly(KT), prop='C13')
def mul_key(coef, k, poly):
    p = NP(KT)
    for q, b in terms(poly):
        emit(p, coef * b, drop(k, VE), q)
    return p


def expect(p, k, a):
    """replace (v0 - E v)^i by its stationary moment"""
    if k[VE] == 0:
        emit(p, a, drop(k, VE))
    if k[VE] >= 2:
        for q, b in terms(ucmoment_v(k[VE])):
            emit(p, a * b, drop(k, VE), q)


@of(K + 'last_expectation', args=dict(poly=poly(C7)), ignore={'uncond_cm': table(K + 'cmoment_v')}, ret=poly(KT), prop='C13',
    memo=K + 'cmoment_v')
def last_expectation(poly):
    p = NP(KT)
    for k, a in terms(poly):
        expect(p, k, a)
    return p


@of(K + 'divide', args=dict(n=pos, poly=poly(KT)), ret=poly(KU), prop='C13', partial=True)
def divide(n, poly):
    """A with poly = A (1 - e^{-nkt})"""
    p = NP(KU)
    for k, a in terms(poly):
        if k[ET] == 0:
            emit(p, a, drop(k, ET))
    return p


@of(K + 'solve_polynomial', args=dict(n=pos), ignore={'uncond_cm': table(K + 'cmoment_v')}, ret=poly(KU), prop='C13', partial=True,
    memo=K + 'cmoment_v', grid={'n': range(2, 4)})
def solve_polynomial(n):
    """E[(v - E v)^n] (1 - e^{-nkt}): the conditional moment without its term e^{-nkt} (v0 - E v)^n"""
    p = NP(KT)
    for k, a in terms(cond_cmoment_v(n)):
        if not (k[ET] == -n and k[KI] == 0 and k[VE] == n and k[EV] == 0 and k[SI] == 0 and k[LM] == 0 and k[MV] == 0):
            expect(p, k, a)
    return divide(n, p)


@of(K + 'cmoment_v', args=dict(n=nat), ret=poly(KU), prop='C13', public=True, memo=K + 'cmoment_v', grid={'n': range(0, 4)})
def ucmoment_v(n):
    p = NP(KU)
    if n == 0:
        emit(p, 1)
        return p
    if n == 1:
        return p
    return solve_polynomial(n)


@of(J + 'expand', args=dict(poly=poly(KU)), ret=poly(KX), prop='C13')
def expand(poly):
    """E[v] = theta + lambda mu / k"""
    p = NP(KX)
    for k, a in terms(poly):
        for i in range(0, k[EV] + 1):
            emit(p, binomial(k[EV], i) * a, drop(k, EV), {TH: k[EV] - i, KI: i, LM: i, MV: i})
    return p


@of(J + 'moment_v', args=dict(n=nat, simplify=one_of(False, True)), ret=poly_by('simplify', {False: KU, True: KX}), prop='C13',
    public=True, grid={'n': range(0, 4)})
def umoment_v(n, simplify):
    p = NP(KU)
    for i in range(0, n + 1):
        for k, a in terms(ucmoment_v(i)):
            emit(p, binomial(n, i) * a, k, {EV: n - i})
    if simplify:
        return expand(p)
    return p


# ------------------------------------------------ moments of v_t given v_0 and the jumps
LS, OS = 'l_{1:n}', 'o_{2:n}'
V0 = 'v_0'
K2 = (V0, KI, TH, SI, ET, LS, OS)


def low_end(p, co, k, l, o, e, c):
    """the integral starts at the latest jump (0 without jumps)"""
    if len(l) == 0:
        emit(p, co, c)
    elif len(l) == 1:
        emit(p, co, c, {LS: (l[0] + e,)})
    else:
        emit(p, co, c, {LS: l, OS: o[:-1] + (o[-1] + e,)})


@of(F + 'int_e_poly', args=dict(i=pos, poly=poly(K2)), ret=poly(K2), prop='C14', dom={ET: (0, 1, 2)}, grid={'i': range(1, 3)})
def e_poly(i, poly):
    """int e^{iks} poly(s) ds from the latest jump to t"""
    p = NP(K2)
    for k, a in terms(poly):
        e = k[ET] + i
        c = {V0: k[V0], KI: k[KI] + 1, TH: k[TH], SI: k[SI]}
        emit(p, a / e, c, {ET: e, LS: k[LS], OS: k[OS]})
        low_end(p, -a / e, k, k[LS], k[OS], e, c)
    return p


@of(F + 'int_e_IEZ_IE', args=dict(m=nat), ignore={'IE': table(F + 'moment_IE')}, ret=poly(K2), prop='C14', memo=F + 'moment_IE',
    grid={'m': range(0, 3)})
def e_IEZ_IE(m):
    p = NP(K2)
    for k, a in terms(moment_IE(m)):
        e = k[ET] + 1
        l, o = k[LS] + (1,), k[OS]
        if len(l) >= 2:
            o = o + (0,)
        c = {V0: k[V0], KI: k[KI] + 1, TH: k[TH], SI: k[SI]}
        emit(p, a / e, c, {ET: e, LS: l, OS: o})
        low_end(p, -a / e, k, l, o, e, c)
    return p


@of(F + 'coef_poly', args=dict(coef=rational, poly=poly(K2), tp=one_of(1, 2, 3, 4)), ret=poly(K2), prop='C14')
def coef_poly(coef, poly, tp):
    p = NP(K2)
    for k, a in terms(poly):
        if tp == 1:
            emit(p, coef * a, k, {V0: 1})
            emit(p, -coef * a, k, {TH: 1})
        elif tp == 2:
            emit(p, coef * a, k, {TH: 1})
        elif tp == 3:
            emit(p, coef * a, k)
        else:
            emit(p, coef * a, k, {SI: 1})
    return p


@of(F + 'recursive_IE', args=dict(m=nat), ignore={'IE': table(F + 'moment_IE')}, ret=poly(K2), prop='C14', memo=F + 'moment_IE',
    grid={'m': range(2, 5)})
def recursive_IE(m):
    c = Fraction(m * (m - 1), 2)
    p = NP(K2)
    if m >= 2:
        p.merge(coef_poly(c, e_poly(1, moment_IE(m - 2)), 1))
        p.merge(coef_poly(c, e_poly(2, moment_IE(m - 2)), 2))
        p.merge(coef_poly(c, e_IEZ_IE(m - 2), 3))
        p.merge(coef_poly(c, e_poly(1, moment_IE(m - 1)), 4))
    return p


@of(F + 'moment_IE', args=dict(m=nat), ret=poly(K2), prop='C14', public=True, grid={'m': range(0, 5)})
def moment_IE(m):
    p = NP(K2)
    if m == 0:
        emit(p, 1)
        return p
    if m == 1:
        return p
    return recursive_IE(m)


def ones(j):
    return tuple(1 for i in range(j))


def zeros(j):
    return tuple(0 for i in range(j))


@of(F + 'moment_v', args=dict(m=nat), ret=poly(K2), prop='C14', public=True, grid={'m': range(0, 4)})
def cond2_moment_v(m):
    """v_t = e^{-kt} (v0 - theta) + theta + e^{-kt} (sigma IE + IEZ)"""
    p = NP(K2)
    for j in range(0, m + 1):
        for j1 in range(0, j + 1):
            for j2 in range(0, j - j1 + 1):
                for j3 in range(0, j - j1 - j2 + 1):
                    j4 = j - j1 - j2 - j3
                    for k, a in terms(moment_IE(m - j)):
                        if len(k[LS]) == 0:
                            o = zeros(j4 - 1)
                        else:
                            o = k[OS] + zeros(j4)
                        emit(p, multinomial(m, [m - j, j1, j2, j3, j4]) * (-1) ** j2 * a, drop(k, LS, OS),
                             {V0: j1, TH: j2 + j3, SI: m - j, ET: j3 - m, LS: k[LS] + ones(j4), OS: o})
    return p


@of(F + 'poly2num', args=dict(poly=poly(K2), par=par), ret=real, prop='C16', public=True)
def cond2_poly2num(poly, par):
    s = 0
    for k, a in terms(poly):
        s += a * math.exp(k[ET] * par['k'] * par['h']) * par['v0'] ** k[V0] * par['k'] ** (-k[KI]) * par['theta'] ** k[TH] \
            * par['sigma'] ** k[SI] * fZ2(k[LS], k[OS], par['k'], par['jumptime'], par['jumpsize'])
    return s


@of(F + 'm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cond2_m(l, par):
    return cond2_poly2num(cond2_moment_v(l), par)


@of(G + 'cmoment_v', args=dict(m=nat), ret=poly(K2), prop='C14', public=True, grid={'m': range(0, 4)})
def cond2_cmoment_v(m):
    p = NP(K2)
    for k, a in terms(moment_IE(m)):
        emit(p, a, k, {SI: m, ET: -m})
    return p


@of(G + 'cm', args=dict(l=nat, par=par), ret=real, prop='C16', public=True, grid={'l': range(0, 4)})
def cond2_cm(l, par):
    return cond2_poly2num(cond2_cmoment_v(l), par)
