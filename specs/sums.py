"""Sums over jumps included in a derived moment, for a given number of summation indices and of jumps."""
import math
from engine.specapi import *


def fZ(l, o, p, q, k, s, J):
    """sum over j_1, .., j_n of prod_i e^{l_i k s_{j_i}} J_{j_i} s_{j_i}^{o_i} prod_{i>=2} e^{p_i k m_i} m_i^{q_i},
    m_i = max(s_{j_1}, .., s_{j_i})"""
    if len(l) == 0:
        return 1
    t = 0
    for a in range(0, len(J)):
        x = math.exp(l[0] * k * s[a]) * J[a] * s[a] ** o[0]
        if len(l) == 1:
            t += x
        else:
            for b in range(0, len(J)):
                m = s[a] if s[a] > s[b] else s[b]
                y = x * math.exp(l[1] * k * s[b]) * J[b] * s[b] ** o[1] * math.exp(p[0] * k * m) * m ** q[0]
                if len(l) == 2:
                    t += y
                else:
                    for c in range(0, len(J)):
                        n = m if m > s[c] else s[c]
                        t += y * math.exp(l[2] * k * s[c]) * J[c] * s[c] ** o[2] * math.exp(p[1] * k * n) * n ** q[1]
    return t


def fZ_each_index(l, o, p, q, k, s, J, index):
    """one summand"""
    x = math.exp(l[0] * k * s[index[0]]) * J[index[0]] * s[index[0]] ** o[0]
    m = s[index[0]]
    for i in range(1, len(l)):
        m = m if m > s[index[i]] else s[index[i]]
        x = x * math.exp(l[i] * k * s[index[i]]) * J[index[i]] * s[index[i]] ** o[i] * math.exp(p[i - 1] * k * m) * m ** q[i - 1]
    return x


def fZ2(l, o, k, s, J):
    """sum over j_1, .., j_n of prod_i e^{l_i k s_{j_i}} J_{j_i} prod_{i>=2} e^{o_i k m_i}, m_i = max(s_{j_1}, .., s_{j_i})"""
    if len(l) == 0:
        return 1
    t = 0
    for a in range(0, len(J)):
        x = math.exp(l[0] * k * s[a]) * J[a]
        if len(l) == 1:
            t += x
        else:
            for b in range(0, len(J)):
                m = s[a] if s[a] > s[b] else s[b]
                y = x * math.exp(l[1] * k * s[b]) * J[b] * math.exp(o[0] * k * m)
                if len(l) == 2:
                    t += y
                else:
                    for c in range(0, len(J)):
                        n = m if m > s[c] else s[c]
                        t += y * math.exp(l[2] * k * s[c]) * J[c] * math.exp(o[1] * k * n)
    return t
