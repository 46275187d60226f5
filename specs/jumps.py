"""Sums over jumps: uninterpreted here (see the analysis of the enumerators)."""
from engine.specapi import *

U = 'ajdmom.utils.'
L, O, P, Q = 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}'


@of(U + 'fZ', args=dict(l=seq(L), o=seq(O), p=seq(P), q=seq(Q), k=real, s=real, J=real), ret=real, prop='C16', extern=True)
def fZ(l, o, p, q, k, s, J):
    return 0

SR = 'ajdmom.mdl_srjd.cond2_mom.'
O2 = 'o_{2:n}'


@of(SR + 'fZ', args=dict(l=seq(L), o=seq(O2), k=real, s=real, J=real), ret=real, prop='C16', extern=True)
def fZ2(l, o, k, s, J):
    return 0
