"""Verification of a set of functions, given the specifications, over the call closure."""
import ast
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
import os
import sys
import time
from .framework import World, verify, Result
from . import specapi


def callees(w, fq):
    """project functions named in the body of fq (resolved through the imports), transitively through unspecified ones"""
    if not hasattr(w, '_callees'):
        w._callees = {}
    if fq in w._callees:
        return w._callees[fq]
    out = set()
    w._callees[fq] = out
    r = w.prog.func(fq)
    if r is None:
        return out
    m, nm, node = r
    for x in ast.walk(node):
        t = None
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            t = m.name + '.' + x.id
            if x.id not in m.funcs and x.id not in m.imports and x.id not in m.consts:
                continue
        elif isinstance(x, ast.Attribute):
            parts, y = [x.attr], x.value
            while isinstance(y, ast.Attribute):
                parts.append(y.attr)
                y = y.value
            if isinstance(y, ast.Name) and y.id in m.imports:
                t = '.'.join([m.imports[y.id]] + parts[::-1])
        if t is None:
            continue
        g = w.prog.resolve(t)
        if g[0] == 'func' and not g[1].name.startswith('specs.'):
            out.add(g[1].name + '.' + g[2])
        elif g[0] == 'class':
            for q in g[1].funcs:
                if q.startswith(g[2] + '.'):
                    out.add(g[1].name + '.' + q)
    return out


def canon_name(w, fq):
    r = w.prog.resolve(fq)
    return r[1].name + '.' + r[2] if r[0] == 'func' else fq


def closure(w, roots):
    """(specified functions, unspecified project functions) reachable in the code or in the specifications"""
    bycanon = {canon_name(w, k): k for k in w.reg}
    seen, todo, other = set(), list(roots), set()
    w.recursive('')
    while todo:
        x = todo.pop()
        if x in seen or x in other:
            continue
        if x in w.reg:
            seen.add(x)
            todo.extend(w._deps.get(x, ()))
        else:
            other.add(x)
        for c in callees(w, x):
            todo.append(bycanon.get(c, c))
    return seen, other


def callers_of(w, fqs, target, others):
    """specified functions of fqs that reach target in the code through unspecified functions or inlined ones"""
    out = set()
    tc = canon_name(w, target)
    for f in fqs:
        if f == target or w.reg[f].virtual:
            continue
        todo, seen = [canon_name(w, f)], set()
        while todo:
            x = todo.pop()
            for c in callees(w, x):
                if c == tc:
                    out.add(f)
                if c not in seen:
                    seen.add(c)
                    k = others.get(c)
                    if k is None or k not in w.opaque:
                        todo.append(c)
    return out


ORDER = ['proved', 'bounded', 'undecided', 'mismatch', 'missing']


_W = None


def _one(a):
    f, tier, seed = a
    sys.setrecursionlimit(20000)
    r = verify(_W, _W.reg[f], tier, seed)
    r.sums = []
    return f, r


# functions whose comparison is known to take long start first (affects scheduling only)
SLOW = ('recursive_', 'moment_ieii', 'moment_v', 'moment_iez', 'cmoment', 'moment_y')


def verify_all(w, fs, tier, seed):
    """verify each function on its own, in forked workers (the analysis of one does not depend on that of another)"""
    global _W
    fs = sorted(fs, key=lambda f: (not any(s in f for s in SLOW), f))
    if len(fs) < 3:
        return {f: verify(w, w.reg[f], tier, seed) for f in fs}
    _W = w
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1, len(fs)), mp_context=ctx) as pool:
        out = dict(pool.map(_one, [(f, tier, seed) for f in fs]))
    _W = None
    return out


_CALL = None


def _call(i):
    return _CALL[0](_CALL[1][i])


def parallel(w, f, jobs):
    """[f(j) for j in jobs], in forked workers"""
    global _CALL
    _CALL = (f, list(jobs))
    try:
        if os.environ.get('VERIF_SERIAL') or len(_CALL[1]) < 2:
            return [f(j) for j in _CALL[1]]
        with ProcessPoolExecutor(min(8, os.cpu_count() or 1, len(_CALL[1])), mp_context=multiprocessing.get_context('fork')) as pool:
            return list(pool.map(_call, range(len(_CALL[1]))))
    finally:
        _CALL = None


def check_functions(w, roots, tier, seed, report=None):
    """verify the closure of roots; returns results {fq: Result}, violations [(fq, Result)]"""
    began = time.time()
    fs, other = closure(w, roots)
    bycanon = {canon_name(w, k): k for k in w.reg}
    res = {}
    res.update(verify_all(w, sorted(fs), tier, seed))
    inlined = {}
    tried = set()
    for _ in range(12):
        bad = [f for f in sorted(fs) if res[f].status in ('mismatch', 'undecided', 'missing') and not w.reg[f].public
               and f in w.opaque and f not in tried]
        if not bad:
            break
        for f in bad:
            tried.add(f)
            if time.time() - began > 450:
                if res[f].status == 'mismatch':
                    res[f].status = 'undecided'
                    res[f].why.append('differs from its description; no time to see whether its callers make up for it')
                continue
            if res[f].status == 'missing':
                w.opaque.discard(f)
                inlined[f] = res[f]
                continue
            cl = callers_of(w, fs, f, bycanon)
            rootsonly = not cl
            if rootsonly:
                continue
            w.opaque.discard(f)
            w.apply_memo.clear()
            w.patience = 5 if res[f].status == 'mismatch' and time.time() - began < 240 else 1
            new = verify_all(w, sorted(cl), tier, seed)
            w.patience = 1
            worse = [c for c in cl if ORDER.index(new[c].status) > ORDER.index(res[c].status)
                     and new[c].status not in ('proved', 'bounded')]
            if res[f].status == 'undecided' and any(new[c].status != 'mismatch' for c in worse):
                w.opaque.add(f)         # keep the helper as trusted
                w.apply_memo.clear()
                continue
            inlined[f] = res[f]
            for c in cl:
                res[c] = new[c]
                tried.discard(c)
    viol = []
    for f in sorted(fs):
        r = res[f]
        if report is not None and f not in report:
            continue
        if r.status == 'mismatch' and (w.reg[f].public or f in w.opaque):
            viol.append((f, r))
        elif r.status == 'undecided':
            # a caller that became undecided because a mismatched helper was inlined: blame the helper
            for g, rg in inlined.items():
                if rg.status == 'mismatch' and f in callers_of(w, fs, g, bycanon):
                    viol.append((g, rg))
    # a violation in an inlined helper is reported at the helper
    uniq, out = set(), []
    for f, r in viol:
        k = f
        src = blame(w, f, inlined, fs, bycanon)
        if src:
            k, r = src
        if k not in uniq:
            uniq.add(k)
            out.append((k, r))
    for f in inlined:
        if all(f != k for k, _ in out):
            res[f].status = 'inlined'
    return res, out, other


def blame(w, f, inlined, fs, bycanon):
    for g, rg in sorted(inlined.items()):
        if rg.status == 'mismatch' and f in callers_of(w, fs, g, bycanon):
            return g, rg
    return None
