"""Polynomial arithmetic (poly.py): the receiver and the argument are arbitrary polynomials over three variables."""
from engine.specapi import *
KF = ('a', 'b', 'c')
G = 'ajdmom.poly.Poly.'
o = poly(KF)


@of(G + '__add__', args=dict(self=o, other=o), ret=o, prop='C01', public=True)
def add(self, other):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, co, k)
    for k, co in terms(other):
        emit(p, co, k)
    return p


@of(G + 'merge', args=dict(self=o, other=o), ret=o, prop='C01', public=True, post='self')
def merge(self, other):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, co, k)
    for k, co in terms(other):
        emit(p, co, k)
    return p


@of(G + '__sub__', args=dict(self=o, other=o), ret=o, prop='C01', public=True)
def sub(self, other):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, co, k)
    for k, co in terms(other):
        emit(p, -co, k)
    return p


@of(G + '__mul__', args=dict(self=o, other=o), ret=o, prop='C01', public=True)
def mul(self, other):
    p = NP(KF)
    for k, co in terms(self):
        for l, cl in terms(other):
            emit(p, co * cl, k, l)
    return p


@of(G + '__rmul__', args=dict(self=o, c=rational), ret=o, prop='C01', public=True)
def rmul(self, c):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, c * co, k)
    return p


@of(G + '__pow__', args=dict(self=o, n=pos), ret=o, prop='C01', public=True)
def pow_(self, n):
    return self ** n


@of(G + 'add_keyval', args=dict(self=o, key=keyvar(KF), val=rational), ret=o, prop='C01', public=True, post='self')
def add_keyval(self, key, val):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, co, k)
    emit(p, val, {'a': key[0], 'b': key[1], 'c': key[2]})
    return p


@of(G + 'remove_zero', args=dict(self=o), ret=o, prop='C01', public=True, post='self', drops=True)
def remove_zero(self):
    p = NP(KF)
    for k, co in terms(self):
        emit(p, co, k)
    return p


def part(k, i):
    if i == 0:
        return k['a']
    if i == 1:
        return k['b']
    if i == 2:
        return k['c']
    return 0


MAPS = tuple(((i, 2), (j, -1)) for i in (-1, 0, 1, 2) for j in (-1, 0, 1, 2)) + \
    tuple(((-1, i), (0, j)) for i in (-1, 0, 1, 2) for j in (-1, 1, 2)) + (((0, 1), (0, 1)), ((2, 0), (-1, 1)), ((-1, -1), (1, 0)))


@of(G + 'mul_poly', args=dict(self=o, other=o, keyIndexes=one_of(*MAPS), keyfor=one_of(('x', 'y'))), ret=poly(('x', 'y')), prop='C01', public=True)
def mul_poly(self, other, keyIndexes, keyfor):
    p = NP(('x', 'y'))
    for k, co in terms(self):
        for l, cl in terms(other):
            emit(p, co * cl, {'x': part(k, keyIndexes[0][0]) + part(l, keyIndexes[1][0]), 'y': part(k, keyIndexes[0][1]) + part(l, keyIndexes[1][1])})
    return p

