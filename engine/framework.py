"""Runs the interpreter on the code and on its specification and compares the two summaries."""
import ast
import importlib
import copy
import itertools
import os
import random
import sys
import re
import time
from fractions import Fraction
from .expr import E, Unsupported, ZERO, ONE, const, var, atom
from .values import *
from .values import c_ge, c_and, c_not, c_subst
from .facts import Facts
from .interp import Interp, State, Frame, Summary, LV, DV, kind_of, Rep
from .program import Program, Module
from . import specapi, geval, normal
from .prove import Prover, ground_pv

ROOT = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_specs():
    sys.path.insert(0, HERE)
    mods = {}
    d = os.path.join(HERE, 'specs')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            nm = 'specs.' + f[:-3]
            importlib.import_module(nm)
            p = os.path.join(d, f)
            mods[nm] = Module(nm, p, open(p, encoding='utf-8').read())
    return mods


def tup_e(x):
    return tuple(tup_e(y) for y in x) if isinstance(x, tuple) else const(x)


class World:
    def __init__(self, root=ROOT):
        self.prog = Program(root)
        self.smods = load_specs()
        self.prog.mods.update(self.smods)
        self.reg = dict(specapi.REG)
        self.byspec = dict(specapi.BYSPEC)
        self.allspecs = dict(self.reg)
        for k, s in self.byspec.items():
            self.allspecs[k] = s
        self.opaque = {f for f, x in self.allspecs.items() if not x.inline}
        self.spec_sums = {}
        self.code_sums = {}
        self.apply_memo = {}
        self.depth = 0
        self.ticks = 0
        self.nextlook = 0
        self.deadline = None
        self.generic = None
        self.patience = 1           # factor on the time limits, raised where a helper was found to differ
        self.notes = False          # collect structural observations: False | True | 'only'

    # ---------------------------------------------------------------- arguments
    def cases(self, sp):
        names = [a for a in sp.args if isinstance(sp.kinds[a], tuple) and sp.kinds[a][0] in ('enum', 't0seq', 'reals', 'parj', 'intlists')]
        out = []
        for combo in itertools.product(*[sp.kinds[a][1] for a in names]):
            out.append(dict(zip(names, combo)))
        return out

    def conc(self, v):
        if isinstance(v, (bool, str)) or v is None:
            return Const(v)
        if isinstance(v, tuple):
            return Tup([self.conc(x) for x in v])
        return Num(const(v))

    def make_arg(self, it, st, name, kind):
        if kind in ('nat', 'pos', 'int'):
            v = var(name)
            if kind != 'int':
                it.requires.append(c_ge(v - (0 if kind == 'nat' else 1)))
            return Num(v)
        if kind == 'rat':
            return Num(var(name), 'frac')
        if kind == 'real':
            return Num(var(name), 'float')
        if kind == 'par':
            return Par()
        if kind == 'str':
            return Const('\0str')
        if kind == 'false':
            return Const(False)
        if kind == 'true':
            return Const(True)
        if kind == 'none':
            return Const(None)
        if kind[0] == 'poly':
            o = it.opaque_poly(('param', name), kind[1])
            o.origin = 'param:' + name
            return it.new(st, o)
        if kind[0] == 'table':
            o = DictObj('param:' + name)
            o.memo = kind[1]
            return it.new(st, o)
        if kind[0] == 'intlist':
            vs = []
            for i in range(kind[1]):
                v = var('%s%d' % (name, i))
                it.requires.append(c_ge(v))
                vs.append(Num(v))
            o = ListObj(vs, 'param:' + name)
            return it.new(st, o)
        if kind[0] == 'reallist':
            return it.new(st, ListObj([Num(var('%s%d' % (name, i)), 'float') for i in range(kind[1])], 'param:' + name))
        if kind[0] == 'constlist':
            return it.new(st, ListObj([Num(const(i)) for i in kind[1]], 'param:' + name))
        if kind[0] == 'litpoly':
            o = PolyObj(tuple(kind[1]), [Em('add', (), (), tuple(tup_e(x) for x in k), const(c), 'frac') for k, c in kind[2]], 'literal:' + name)
            return it.new(st, o)
        if kind[0] == 'keyvar':
            items = []
            for nm in kind[1]:
                k = kind_of(nm)
                if k == 'int':
                    items.append(Num(var(name + '.' + nm)))
                elif k == 'pair':
                    items.append(Tup([Num(var('%s.%s.%d' % (name, nm, i))) for i in range(2)]))
                elif k == 'tri':
                    items.append(Tup([Num(var('%s.%s.%d' % (name, nm, i))) for i in range(3)]))
                else:
                    raise Unsupported('key parameter')
            return Tup(items, kind[1])
        if kind[0] == 't0':
            return T0V([('path', name, name)])
        if kind[0] == 'tri':
            return Tup([Num(var('%s.%d' % (name, i))) for i in range(3)])
        raise Unsupported('argument kind %r' % (kind,))

    def param_map(self, node, sp):
        """code parameter name -> spec argument name or ('fixed', kind)"""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        out, rest = {}, list(sp.args)
        ign = dict(sp.ignore) if sp.ignore else {}
        # exact names first
        if all(x in names for x in sp.args):
            for n in names:
                if n in sp.args:
                    out[n] = n
                elif n in ign:
                    out[n] = ('fixed', ign[n])
                elif names.index(n) >= len(names) - nd:
                    out[n] = ('default',)
                else:
                    return None
            return out
        for i, n in enumerate(names):
            if n in ign:
                out[n] = ('fixed', ign[n])
            elif rest:
                out[n] = rest.pop(0)
            elif i >= len(names) - nd:
                out[n] = ('default',)
            else:
                return None
        return out if not rest else None

    def run(self, sp, case, what):
        """summary of the code ('code') or of the specification ('spec')"""
        it = Interp(self.prog, self.allspecs, self.opaque)
        it.world = self
        st = State()
        sm = Summary(sp.fq)
        it.sum = sm
        if what == 'spec':
            m = self.smods[sp.specmod]
            node = m.funcs[sp.name]
            fq = sp.specmod + '.' + sp.name
            it.specmode = True
        else:
            r = self.prog.func(sp.fq)
            if r is None:
                raise Unsupported('function %s not found' % sp.fq)
            m, nm, node = r
            fq = m.name + '.' + nm
        it.memo_default = sp.memo or (sp.fq if sp.ret == 'poly' else None)
        vals = {}
        for a in sp.args:
            if a in case and sp.kinds[a][0] == 't0seq':
                vals[a] = Tup([Tup([Num(var('%s.%d.%d' % (a, i, j))) for j in range(3)]) for i in range(case[a])])
            elif a in case and sp.kinds[a][0] == 'intlists':
                vals[a] = self.make_arg(it, st, a, ('intlist', case[a]))
            elif a in case and sp.kinds[a][0] in ('reals', 'parj'):
                it.jlen = case[a]
                J = Reals([Num(var('par.jumpsize.%d' % i), 'float') for i in range(case[a])])
                vals[a] = J if sp.kinds[a][0] == 'reals' else Par({'jumpsize': J}, case[a])
            elif a in case:
                vals[a] = self.conc(case[a])
            else:
                vals[a] = self.make_arg(it, st, a, sp.kinds[a])
        fr = Frame(m, fq, True)
        fr.specmode = what == 'spec'
        if what == 'spec':
            st.env = dict(vals)
        else:
            pm = self.param_map(node, sp)
            if pm is None:
                raise Unsupported('signature of %s changed' % sp.fq)
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for n, t in pm.items():
                if isinstance(t, str):
                    st.env[n] = vals[t]
                elif t[0] == 'fixed':
                    st.env[n] = self.make_arg(it, st, n, t[1])
                else:
                    st.env[n] = it.default(dflt[n], Fn(fq, node, m), st)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None:
                    raise Unsupported('keyword-only parameter')
                st.env[x.arg] = it.default(d, Fn(fq, node, m), st)
        for c in sp.requires:
            t = ast.parse(c, mode='eval').body
            s2 = State()
            s2.env = dict(vals)
            s2.heap = st.heap
            cc = it.cond(t, s2, fr)
            if cc is not True:
                it.requires.append(cc)
        sm.param_ids = {v.id: n for n, v in st.env.items() if isinstance(v, Ref)}
        it.fstack.append(fr)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            raise Unsupported('generator function')
        it.block(node.body, st, fr)
        if st.alive:
            fr.returns.append((list(st.pc), Const(None), st.fork()))
        rets = []
        if sp.post and what == 'code':
            fr.returns = [(pc, vals[sp.post], s) for pc, v, s in fr.returns]
        for pc, v, s in fr.returns:
            for c, x in it.alts(s, v):
                p = tuple(pc) + ((c,) if c is not True else ())
                d = Facts(it.requires + list(pc)).decide(c) if c is not True else True
                if d is False:
                    continue
                rets.append((p, frozen(it, s, x, sp), s, x))
        sm.rets = rets
        sm.returns = [(p, v) for p, v, s, x in rets]
        sm.requires = list(it.requires)
        sm.it = it
        # tables written
        if what == 'code':
            last = [r[2] for r in rets]
            seen = {}
            for s in last:
                for oid, o in s.heap.items():
                    if o.kind == 'dict' and o.stores and not o.origin.startswith('param:global'):
                        for t in o.stores:
                            seen.setdefault((oid, id(t)), (oid, t))
            readids = {r[0] for r in sm.reads}
            sm.tables = [(oid, t) for oid, t in seen.values() if oid in readids]
            sm.lists = []
            for p, fv, s, x in rets:
                for oid, o in s.heap.items():
                    if o.kind == 'list' and oid in readids:
                        sm.lists.append((oid, o, s, tuple(p)))
        return sm

    def spec_summary(self, sp, case):
        k = (sp.fq, tuple(sorted(case.items(), key=repr)))
        if k not in self.spec_sums:
            self.spec_sums[k] = self.run(sp, case, 'spec')
        return self.spec_sums[k]

    def recursive(self, fq):
        """does the specification of fq apply itself (directly or through other specifications)?"""
        if not hasattr(self, '_deps'):
            self._deps = {}
            for k, sp in self.reg.items():
                self._deps[k] = self.spec_deps(sp)
        seen, todo = set(), list(self._deps.get(fq, ()))
        while todo:
            x = todo.pop()
            if x == fq:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(self._deps.get(x, ()))
        return False

    def spec_deps(self, sp):
        out, seen, todo = set(), set(), [(sp.specmod, sp.name)]
        while todo:
            mn, nm = todo.pop()
            if (mn, nm) in seen:
                continue
            seen.add((mn, nm))
            m = self.smods[mn]
            for x in ast.walk(m.funcs[nm]):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    t = self.spec_target(m, x.id)
                    if t is None:
                        continue
                    s2 = self.byspec.get(t[0] + '.' + t[1])
                    if s2 is not None:
                        out.add(s2.fq)
                    else:
                        todo.append(t)
        return out

    def spec_target(self, m, name):
        if name in m.funcs:
            return m.name, name
        imp = m.imports.get(name)
        if imp:
            a, _, b = imp.rpartition('.')
            if a in self.smods and b in self.smods[a].funcs:
                return a, b
        return None

    # ---------------------------------------------------------------- evaluation of specs
    def apply(self, fq, args, ev):
        sp = self.allspecs[fq]
        if sp.extern:
            return geval.hashed(sp.fq, args)
        k = (sp.fq, args)
        if self.generic is not None and self.depth == 0 and k not in self.apply_memo:
            return self.apply_generic(sp, k, ev)
        if k in self.apply_memo:
            r = self.apply_memo[k]
            if r is REC:
                raise geval.Undef('circular definition of %s%r' % (fq, args))
            if isinstance(r, geval.Undef):
                raise r
            return r
        self.apply_memo[k] = REC
        self.depth += 1
        try:
            if self.depth > 60:
                raise geval.Bad('depth')
            r = self.eval_spec(sp, args, ev)
        except geval.Undef as e:
            self.apply_memo[k] = e
            raise
        except BaseException:
            del self.apply_memo[k]
            raise
        finally:
            self.depth -= 1
        self.apply_memo[k] = r
        return r

    def apply_generic(self, sp, k, ev):
        """the value, or a generic one where it is too long to compute"""
        g = self.generic
        if k not in g['heavy']:
            keep, self.generic = g, None
            save = self.deadline, ev.budget
            limit(self, time.process_time() + g['each'])
            try:
                return self.apply(sp.fq, k[1], ev)
            except geval.Bad as x:
                if 'budget' not in str(x) and 'depth' not in str(x):
                    raise
            finally:
                self.deadline, ev.budget = save
                self.generic = keep
            g['heavy'].add(k)
        if time.process_time() > g['until']:
            raise geval.Bad('evaluation budget')
        kf = sp.kf
        if sp.ret != 'poly' or not isinstance(kf, tuple):
            raise geval.Bad('no generic value')
        g['used'].add(k)
        m = (k, g['salt'])
        if m not in g['values']:
            h = Gen('%s %s %s' % (sp.fq, geval.key_text(k[1]), g['salt']))
            g['values'][m] = h.poly(kf, sp.dom, 3)
        return g['values'][m]

    def env_of(self, sp, args):
        case, env = {}, {}
        for a, v in zip(sp.args, args):
            kd = sp.kinds[a]
            if isinstance(kd, tuple) and kd[0] == 'enum':
                if isinstance(v, tuple) and v and v[0] == 'const':
                    v = v[1]
                elif isinstance(v, Fraction) and v.denominator == 1:
                    v = int(v)
                if v not in kd[1]:
                    raise geval.Undef('%s=%r is outside the specified values' % (a, v))
                case[a] = v
            elif isinstance(kd, tuple) and kd[0] in ('reals', 'parj'):
                if kd[0] == 'parj':
                    v = v[1] if isinstance(v, tuple) and len(v) > 1 else None
                if v is None or v not in kd[1]:
                    raise geval.Undef('%s: the number of jumps' % a)
                case[a] = int(v)
            elif isinstance(kd, tuple) and kd[0] == 'intlist':
                if len(v) != kd[1]:
                    raise geval.Undef('list length')
                for i, x in enumerate(v):
                    if x < 0:
                        raise geval.Undef('negative list entry')
                    env['%s%d' % (a, i)] = Fraction(x)
            elif isinstance(kd, tuple) and kd[0] == 'keyvar':
                for nm, x in zip(kd[1], v):
                    env[a + '.' + nm] = x
            elif isinstance(kd, tuple) and kd[0] in ('par',) or kd == 'par':
                pass
            else:
                if kd in ('nat', 'pos', 'int') and isinstance(v, Fraction):
                    if v.denominator != 1 or (kd == 'nat' and v < 0) or (kd == 'pos' and v < 1):
                        raise geval.Undef('%s=%s is outside the domain of %s' % (a, v, sp.fq.split('.')[-1]))
                if isinstance(kd, tuple) and kd[0] == 'poly' and isinstance(v, geval.Poly) and v.kf != kd[1] and \
                        not callable(kd[1]):
                    raise geval.Undef('components %r passed to %s' % (v.kf, sp.fq.split('.')[-1]))
                env[a] = v
        return case, env

    def eval_spec(self, sp, args, ev):
        case, env = self.env_of(sp, args)
        s = self.spec_summary(sp, case)
        e = {'v': dict(PARENV), 'b': {}}
        e['v'].update(env)
        if not all(ev.cond(c, e) for c in s.requires):
            raise geval.Undef('%s%r is outside its domain' % (sp.fq.split('.')[-1], tuple(x for x in args if not isinstance(x, geval.Poly))))
        return ev.returns(s.returns, e)


REC = object()

PARENV = {'par.k': 0.7, 'par.h': 1.3, 'par.theta': 0.31, 'par.sigma_v': 0.23, 'par.rho': -0.42, 'par.mu': 0.17,
          'par.lmbd': 0.9, 'par.mu_j': 0.11, 'par.sigma_j': 0.37, 'par.v0': 0.47, 'par.k1': 0.6, 'par.k2': 0.21,
          'par.theta1': 0.33, 'par.theta2': 0.29, 'par.sigma_v1': 0.19, 'par.sigma_v2': 0.27, 'par.mu_v': 0.13,
          'par.rho_J': 0.39, 'par.rhoJ': 0.39, 'par.mu_s': 0.21, 'par.sigma_s': 0.43, 'par.lb': 0.15, 'par.ub': 0.93,
          'par.s': 0.15, 'par.t': 0.93, 'par.sigma': 0.23, 'par.v10': 0.44, 'par.v20': 0.36, 'pi': 3.14159265358979,
          'par.rho1': -0.42, 'par.rho2': -0.31, 'par.mu_y': 0.12, 'par.sigma_y': 0.41}


def jlen_of(sp, case):
    for a in case:
        if sp.kinds[a][0] in ('reals', 'parj'):
            return case[a]
    return None


class Gen:
    """sample points for the comparison of two summaries"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.jlen = None
        self.case = {}

    def poly(self, kf, dom, n=4, like=None):
        d = {}
        if like is not None:
            for i, (k, v) in enumerate(like.d.items()):
                d[k] = -v if i % 2 == 0 else v + 1
        for _ in range(n):
            L = self.r.choice([0, 1, 1, 2]) if any(kind_of(x) in ('seq0', 'seq1') for x in kf) else None
            k = []
            for nm in kf:
                kd = kind_of(nm)
                dm = dom.get(nm)
                if dm == 'even':
                    k.append(2 * self.r.randint(0, 2))
                elif isinstance(dm, tuple):
                    k.append(self.r.choice(dm))
                elif kd == 'int':
                    lo = -2 if nm.startswith('e^') else 0
                    k.append(self.r.randint(lo, 3 if nm.startswith('e^') else 2))
                elif kd == 'pair':
                    k.append((self.r.randint(-1, 2), self.r.randint(-1, 2)))
                elif kd == 'tri':
                    k.append((self.r.randint(1, 2), self.r.randint(0, 2), self.r.randint(0, 2)))
                elif kd == 't0':
                    k.append(geval.norm_t0([(self.r.randint(1, 2), self.r.randint(0, 2), self.r.randint(0, 2)) for _ in range(2)]))
                elif kd == 'seq0':
                    k.append(tuple(self.r.randint(0, 2) for _ in range(L)))
                elif kd == 'seq1':
                    k.append(tuple(self.r.randint(0, 2) for _ in range(max(L - 1, 0))))
                elif kd == 'seqj':
                    k.append(tuple(self.r.randint(0, 2) for _ in range(self.r.randint(0, 2) if self.jlen is None else self.jlen)))
                else:
                    raise geval.Bad('component')
            d[tuple(k)] = Fraction(self.r.choice([-3, -2, -1, 1, 2, 3, 5]), self.r.choice([1, 1, 2, 3]))
        return geval.Poly(kf, d)

    def points(self, sp, tier='quick', extra=None):
        """list of environments for the non-enumerated arguments"""
        ints = [a for a in sp.args if sp.kinds[a] in ('nat', 'pos', 'int')]
        lists = [(a, case[a]) for a in self.case if sp.kinds[a][0] == 'intlists']
        lists += [(a, sp.kinds[a][1]) for a in sp.args if isinstance(sp.kinds[a], tuple) and sp.kinds[a][0] == 'intlist']
        polys = [a for a in sp.args if isinstance(sp.kinds[a], tuple) and sp.kinds[a][0] == 'poly']
        axes, names = [], []
        g = sp.grid or {}
        for a in ints:
            names.append(a)
            if a in g:
                axes.append(list(g[a]))
            else:
                n = len(ints)
                hi = {1: 5, 2: 4, 3: 3}.get(n, 2)
                axes.append(list(range({'nat': 0, 'pos': 1, 'int': -2}[sp.kinds[a]], hi + 1)))
        for a, k in lists:
            for i in range(k):
                names.append('%s%d' % (a, i))
                axes.append(list(range(0, 3)))
        dep = {}                        # an order that the others determine
        for c in sp.requires:
            m = re.fullmatch(r'(\w+)==(\w+(?:\+\w+)*)', c)
            if m and m.group(1) in names and all(x in names for x in m.group(2).split('+')):
                dep[names.index(m.group(1))] = [names.index(x) for x in m.group(2).split('+')]
        for i in dep:
            axes[i] = [0]
        pts = list(itertools.product(*axes)) if axes else [()]
        nats = [i for i, n in enumerate(names) if (sp.kinds.get(n) in ('nat', 'pos') or n not in sp.kinds) and i not in dep]
        cap = (6 if len(nats) > 2 else 8) + (2 if tier != 'quick' else 0)
        if len(nats) > 1:
            pts = [p for p in pts if sum(p[i] for i in nats) <= cap]
        self.r.shuffle(pts)
        if len(nats) > 1:
            pts.sort(key=lambda p: sum(p[i] for i in nats))
        lim = 240 if tier == 'quick' else 1500
        if len(pts) > lim:
            pts = pts[:lim]
        near = []
        for nm, vs in (extra or {}).items():
            if nm in names:
                i = names.index(nm)
                for v in vs:
                    if axes[i] and v >= min(axes[i]):
                        oth = [[v] if j == i else sorted({max(min(axes[j]), o) for o in (0, 1, 2, v)} | set(extra.get(n, ())[:3]))
                               for j, n in enumerate(names)]
                        c = [q for q in itertools.product(*oth) if all(x >= min(axes[j]) for j, x in enumerate(q))]
                        self.r.shuffle(c)
                        near += c[:16]
        far, spikes = [], []
        if names:
            low = [min(ax) for ax in axes]
            if sp.grid:                 # beyond the grid, if time allows
                for v in (1, 2):
                    for i in range(len(names)):
                        q = list(low)
                        q[i] = max(axes[i]) + v
                        far.append(tuple(q))
            if len(names) > 2:
                for v in (3, 4, 5):
                    for i in range(len(names)):
                        if i in dep:
                            continue
                        q = list(low)
                        q[i] = v
                        spikes.append(tuple(q))
                        j = self.r.randrange(len(names))
                        if j != i:
                            q[j] += 1
                            spikes.append(tuple(q))
            for n in range(0 if sp.grid and len(names) == 1 else 60 if tier == 'quick' else 400):
                if len(names) < 4 or n % 3 == 0:
                    far.append(tuple(self.r.randint(min(ax), 8 if len(names) < 4 else 4) for ax in axes))
                else:
                    q = list(low)
                    for _ in range(self.r.randint(3, 7)):
                        q[self.r.randrange(len(names))] += 1
                    far.append(tuple(q))
        seen, order = set(), []
        for q in pts[:24] + near + (pts[24:] + spikes + far if sp.grid else spikes + pts[24:] + far):
            q = settle(q, dep)
            if q not in seen:
                seen.add(q)
                order.append(q)
        core = {settle(q, dep) for q in pts + near}     # what has to be decided; the rest is tried as time allows
        pts = order
        out, self.beyond = [], set()
        for pi, p in enumerate(pts):
            free = any(isinstance(k, tuple) and k[0] in ('tri', 't0seq', 'keyvar') for k in sp.kinds.values())
            for rep in range(60 if free else 1 if not polys or len(pts) > 20 else (3 if len(pts) > 4 else 8)):
                v = (pi + rep) % 6
                env = {n: Fraction(x) for n, x in zip(names, p)}
                for a in sp.args:
                    kd = sp.kinds[a]
                    if kd == 'rat':
                        env[a] = Fraction(self.r.choice([-3, 1, 2, 5]), self.r.choice([1, 2, 7]))
                    elif kd == 'real':
                        env[a] = self.r.uniform(0.2, 1.5)
                    elif isinstance(kd, tuple) and kd[0] == 'poly':
                        j = polys.index(a)
                        if v == 3 + j or v == 3 and len(polys) < 2:
                            env[a] = geval.Poly(kd[1], {})
                        elif v == 2 and j and sp.kinds[polys[0]] == kd:
                            env[a] = self.poly(kd[1], sp.dom, 2, env[polys[0]])
                        elif v == 5:
                            env[a] = self.poly(kd[1], sp.dom, 2)
                            env[a] = geval.Poly(kd[1], {k: c / 10 ** 20 for k, c in env[a].d.items()})
                        else:
                            env[a] = self.poly(kd[1], sp.dom)
                    elif isinstance(kd, tuple) and kd[0] == 'keyvar':
                        pl = self.poly(kd[1], sp.dom, 1)
                        k = next(iter(pl.d))
                        for nm, x in zip(kd[1], k):
                            if isinstance(x, tuple):
                                for i, y in enumerate(x):
                                    env['%s.%s.%d' % (a, nm, i)] = Fraction(y)
                            else:
                                env['%s.%s' % (a, nm)] = Fraction(x)
                    elif isinstance(kd, tuple) and kd[0] in ('tri', 't0seq'):
                        for i in range(4):
                            t = self.r.choice([(0, 0, 0), (1, 0, 1), (1, 1, 2), (2, 0, 1), (0, 1, 3), (1, 0, 2)])
                            for j in range(3):
                                if kd[0] == 'tri':
                                    env['%s.%d' % (a, j)] = Fraction(t[j])
                                else:
                                    env['%s.%d.%d' % (a, i, j)] = Fraction(t[j])
                    elif isinstance(kd, tuple) and kd[0] == 't0':
                        env[a] = geval.norm_t0([(self.r.randint(1, 3), self.r.randint(0, 2), self.r.randint(1, 2)) for _ in range(2)])
                if sp.grid and p not in core:
                    self.beyond.add(id(env))
                out.append(env)
        return out


def settle(q, dep):
    if not dep:
        return q
    q = list(q)
    for i, js in dep.items():
        q[i] = sum(q[j] for j in js)
    return tuple(q)


class Result:
    def __init__(self, fq):
        self.fq = fq
        self.status = 'proved'      # proved | bounded | mismatch | undecided | missing
        self.cases = 0
        self.proved = 0
        self.points = 0
        self.why = []
        self.witness = None
        self.stores = 0
        self.stores_proved = 0
        self.sums = []
        self.notes = []             # structural observations (see structure.py)
        self.time = 0.0

    def worse(self, s):
        order = ['proved', 'bounded', 'undecided', 'mismatch', 'missing']
        if order.index(s) > order.index(self.status):
            self.status = s


def verify(w, sp, tier='quick', seed=1, debug=False):
    """is the code of sp.fq equal to its specification?"""
    t0 = time.process_time()
    res = Result(sp.fq)
    if sp.virtual:
        return res
    if w.prog.func(sp.fq) is None:
        res.status = 'missing'
        return res
    for case in w.cases(sp):
        res.cases += 1
        try:
            ss = w.spec_summary(sp, case)
        except Unsupported as e:
            raise RuntimeError('specification %s: %s' % (sp.fq, e))
        try:
            cs = w.run(sp, case, 'code')
            if sp.partial and len(cs.returns) == 1:
                cs.returns = [((), cs.returns[0][1])]
            res.sums.append((case, cs))
            if w.notes:
                from . import structure
                res.notes += structure.notes(w, sp, case, cs, tier)
                if w.notes == 'only':
                    continue
        except Unsupported as e:
            res.worse('undecided')
            res.why.append('%s %s' % (case or '', e))
            continue
        except RecursionError:
            res.worse('undecided')
            res.why.append('recursion limit')
            continue
        # structural comparison
        if sp.ret == 'table':
            returned_table(w, sp, case, cs, ss, res, tier, seed)
            tables(w, sp, case, cs, res, tier, seed)
            if res.status == 'mismatch' and not debug:
                break
            continue
        if any(getattr(v, 'ordered', None) is not None for p, v in cs.returns):
            grid(w, sp, case, cs, ss, res, tier, seed)
            continue
        try:
            a = normal.canon_returns(tidy(cs, sp), cs.requires)
            b = normal.canon_returns(tidy(ss, sp), ss.requires)
        except Unsupported as e:
            a, b = None, 1
        if a is not None and a == b:
            res.proved += 1
        elif Prover(w).returns_equal(cs.returns, ss.returns, cs.requires, sp.fq):
            res.proved += 1
        else:
            grid(w, sp, case, cs, ss, res, tier, seed)
        tables(w, sp, case, cs, res, tier, seed)
        if res.status == 'mismatch' and not debug:
            break
    if getattr(sp, 'drops', False) and res.status in ('proved', 'bounded'):
        keeps_zero(w, sp, res)
    if res.status == 'undecided' and sp.ret != 'table' and not getattr(sp, 'pinned', False):
        unrolled(w, sp, res, tier, seed)
    res.time = time.process_time() - t0
    return res


def limit(w, t):
    w.deadline = t


def keeps_zero(w, sp, res):
    """which terms does the result list for an argument with a term of coefficient zero?"""
    for case, cs in res.sums:
        for pc, v in cs.returns:
            if not isinstance(v, PV):
                continue
            pname = list(sp.argkf)[0]
            kf = sp.argkf[pname]
            zks = [tuple(Fraction(x) for x in k) for k in itertools.product((0, 1, 3), repeat=len(kf))]
            ev = geval.Ev(w)
            e = {'v': dict(PARENV, **{pname: geval.Poly(kf, {**{k: Fraction(0) for k in zks}, tuple(Fraction(2) for _ in kf): Fraction(3)})}), 'b': {}}
            try:
                for em in v.ems:
                    if em.op == 'add':
                        for e2 in ev.bind(em.bs, em.pc, e):
                            if tuple(ev.comp(em.key, e2)) in zks:
                                res.status = 'mismatch'
                                res.witness = describe(w, sp, case, {}, 'a term with coefficient zero is kept', cs, line=em.line)
                                return
            except (geval.Bad, geval.Undef) as x:
                res.worse('undecided')
                res.why.append(str(x))


def unrolled(w, sp, res, tier, seed):
    """loops without a closed form: unroll them for small orders (the other arguments stay symbolic)"""
    ints = [a for a in sp.args if sp.kinds[a] in ('nat', 'pos')]
    if not ints or len(ints) > 3:
        return
    top = {1: 5, 2: 3, 3: 2}[len(ints)]
    axes = [range(0 if sp.kinds[a] == 'nat' else 1, top + 1) for a in ints]
    t0 = time.process_time()
    done = 0
    why = []
    for combo in sorted(itertools.product(*axes), key=lambda c: (sum(c), c)):
        if time.process_time() - t0 > 3 * SECONDS[tier]:
            break
        s2 = copy.copy(sp)
        s2.pinned = True
        s2.kinds = dict(sp.kinds)
        for a, v in zip(ints, combo):
            s2.kinds[a] = ('enum', (v,))
        s2.grid = None
        r = verify(w, s2, tier, seed)
        res.notes += r.notes
        if r.status == 'mismatch':
            res.status = 'mismatch'
            res.witness = r.witness
            res.points += r.points
            return
        if r.status in ('proved', 'bounded'):
            done += 1
            res.points += r.points + r.proved
        else:
            why.append('%s %s' % (combo, r.why[:1]))
            if len(why) > 1:
                break
    if done >= 3 and not why:
        res.status = 'bounded'
        res.unrolled = done
        res.why = []
    else:
        res.why += why[:2]


def frozen(it, s, x, sp):
    try:
        return it.freeze(s, x)
    except Unsupported:
        o = s.heap[x.id] if isinstance(x, Ref) else None
        if o is None or o.kind != 'poly' or not sp.fq.startswith('ajdmom.poly.'):
            raise
        # keep the updates in order: only their evaluation is meaningful
        groups = geval.ordered_groups(o.log, x.id, it)
        pv = PV(o.kf, list(o.log))
        pv.ordered = groups
        pv.oid = x.id
        pv.objs = {oid: ob.log[0].px for oid, ob in s.heap.items()
                   if ob.kind == 'poly' and oid != x.id and len(ob.log) == 1 and ob.log[0].px is not None}
        if o.origin.startswith('param:'):
            pv.base = ('param', o.origin[6:])
        return pv


def tidy(s, sp):
    return s.returns


def grid(w, sp, case, cs, ss, res, tier, seed):
    g = Gen(seed)
    g.jlen, g.case = jlen_of(sp, case), case
    n = 0
    und = None
    w.ticks = 0
    w.nextlook = 0
    t0 = time.process_time()
    secs, ticks = SECONDS[tier] * w.patience, BUDGET[tier] * w.patience
    limit(w, t0 + 1.5 * secs)
    left = []
    pts = g.points(sp, tier, boundaries(cs, sp))
    done = 0
    for env in pts:
        done += 1
        if n >= 2 and w.deadline is not None and time.process_time() > w.deadline:
            break
        if (w.ticks > ticks or time.process_time() - t0 > secs) and n >= 12 or time.process_time() - t0 > 4 * secs and n >= 3:
            break
        e = {'v': dict(PARENV), 'b': {}}
        e['v'].update(env)
        ev = geval.Ev(w)
        try:
            if not all(ev.cond(c, e) for c in ss.requires):
                continue
        except (geval.Bad, geval.Undef):
            continue
        try:
            exp = ev.returns(ss.returns, e)
        except geval.Bad as x:
            und = und if id(env) in g.beyond else 'expected value: %s' % x
            left.append(env)
            continue
        except geval.Undef as x:
            continue                    # outside the specified domain
        try:
            got = geval.Ev(w).returns(cs.returns, e)
        except geval.Bad as x:
            und = und if id(env) in g.beyond else str(x)
            left.append(env)
            continue
        except geval.Undef as x:
            res.worse('mismatch')
            res.witness = describe(w, sp, case, env, 'no value: %s' % x, cs)
            return
        n += 1
        if sp.ret == 't0':
            got, exp = as_t0(got), as_t0(exp)
        ok, why = geval.same(got, exp)
        if not ok:
            res.worse('mismatch')
            res.witness = describe(w, sp, case, env, why, cs, got, exp)
            return
    limit(w, None)
    left += pts[done - 1:] if done < len(pts) else []
    if left and sp.ret == 'poly':
        n += generic_points(w, sp, case, cs, ss, res, tier, left)
        if res.status == 'mismatch':
            return
    res.points += n
    if und is not None and n < 8 and 'budget' not in und or und is not None and 'unbound' in und:
        res.worse('undecided')
        res.why.append(und)
    elif n == 0:
        res.worse('undecided')
        res.why.append(und or 'no sample point')
    else:
        res.worse('bounded')


def generic_points(w, sp, case, cs, ss, res, tier, left):
    """the points whose evaluation takes too long, with generic polynomials for the results of long calls: agreement is
    agreement for all values of these; a difference counts if it does not depend on them, or if both sides make the same calls"""
    n = 0
    t = (10 if tier == 'quick' else 60) * w.patience
    g = {'heavy': set(), 'values': {}, 'each': t / 20, 'until': time.process_time() + t}
    small = sorted(left, key=lambda env: sum(abs(v) for v in env.values() if isinstance(v, Fraction)))
    for env in small[:40]:
        if time.process_time() > g['until']:
            break
        e = {'v': dict(PARENV), 'b': {}}
        e['v'].update(env)
        diffs, used = [], []
        try:
            for salt in (1, 2):
                w.generic = g
                g['salt'] = salt
                vals = []
                for rets, req in ((ss.returns, ss.requires), (cs.returns, ())):
                    g['used'] = set()
                    ev = geval.Ev(w)
                    limit(w, g['until'])
                    if not all(ev.cond(c, e) for c in req):
                        raise geval.Undef('outside the domain')
                    vals.append(ev.returns(rets, e))
                    used.append(g['used'])
                diffs.append(vals)
        except (geval.Bad, geval.Undef, Unsupported):
            continue
        finally:
            w.generic = None
            limit(w, None)
        n += 1
        (e1, c1), (e2, c2) = diffs
        if not all(isinstance(x, geval.Poly) for x in (e1, c1, e2, c2)) or geval.same(c1, e1)[0]:
            continue
        n -= 1
        ok, why = geval.same(c1, e1)
        if used[0] == used[1] and used[2] == used[3] or geval.same(geval.minus(e1, c1), geval.minus(e2, c2))[0]:
            res.worse('mismatch')
            res.witness = describe(w, sp, case, env, why, cs, c1, e1)
            return n
    return n


def as_t0(v):
    try:
        return geval.norm_t0([tuple(int(y) for y in x) for x in v])
    except (TypeError, ValueError):
        return v


SECONDS = {'quick': 6, 'thorough': 60}
BUDGET = {'quick': 400000, 'thorough': 6000000}


def boundaries(cs, sp):
    """values of the integer arguments at which a condition of the code changes"""
    from .expr import atoms_of, linear_in, subst
    out = {}
    names = {a for a in sp.args if sp.kinds[a] in ('nat', 'pos', 'int')}
    names |= {'%s%d' % (a, i) for a in sp.args if isinstance(sp.kinds[a], tuple) and sp.kinds[a][0] == 'intlist'
              for i in range(sp.kinds[a][1])}

    def cond(e):
        vs = [a for a in atoms_of(e) if a[0] == 'v' and a[1] in names]
        if len(set(vs)) > 3:
            return
        for a in vs:
            lq = linear_in(e, a)
            if not lq or not lq[0].is_const() or lq[0].is_zero():
                continue
            for o in (0, 1, 2):
                q = subst(lq[1], lambda b: const(o) if b[0] == 'v' else None)
                if q.is_const():
                    r = -q.const() / lq[0].const()
                    for x in (int(r) - 1, int(r), int(r) + 1):
                        if abs(x) <= 14:
                            out.setdefault(a[1], set()).add(x)

    seen = set()

    def walk(c):
        if isinstance(c, (str, int, bool)) or c is None or id(c) in seen:
            return
        if isinstance(c, tuple):
            if c and c[0] in ('ge', 'eq', 'ne', 'gt', 'gte') and len(c) == 2 and isinstance(c[1], E):
                cond(c[1])
            for x in c:
                walk(x)
        elif isinstance(c, E):
            seen.add(id(c))
            for m in c.t:
                for b, x in m:
                    walk(b)
                    walk(x)
        elif isinstance(c, list):
            for x in c:
                walk(x)
        elif isinstance(c, PV):
            seen.add(id(c))
            for e in c.ems:
                walk((e.pc, e.co, e.bs))
        elif isinstance(c, Num):
            walk(c.e)
        elif isinstance(c, Tup):
            walk(c.items)
        elif isinstance(c, Ch):
            for x, y in c.alts:
                walk(x)
                walk(y)
    for p, v in cs.returns:
        walk(tuple(p))
        walk(v)
    return {k: sorted(v) for k, v in out.items()}


def returned_table(w, sp, case, cs, ss, res, tier, seed):
    """the returned list holds the specified value at every index, and all the indices needed"""
    from .facts import Facts
    need = ss.returns[0][1].e
    for pc, v in cs.returns:
        if not isinstance(v, LV):
            res.worse('undecided')
            res.why.append('the returned value is not a list')
            return
        o = TableList(v)
        obligations_of_list(w, w.allspecs[sp.of], o, tuple(pc), None, res, sp, case, cs, tier, seed)
        if res.status == 'mismatch':
            return
        n = v.length if v.length is not None else const(len(v.items))
        if sp.exact and v.length is not None:
            d = n - 1 - need
            if d.is_zero() or Facts(list(cs.requires) + list(pc)).is_ge(d) and Facts(list(cs.requires) + list(pc)).is_ge(-d):
                res.proved += 1 if pc is cs.returns[0][0] else 0
                continue
        elif sp.exact:
            n = None
        elif v.length is None:      # a lower bound
            for b, p, x in v.segs:
                if len(b) == 1 and b[0][0] == 'rng' and not [c for c in p if c not in pc and c not in cs.requires and
                                                           Facts(list(cs.requires) + list(pc), b).decide(c) is not True]:
                    n = n + (b[0][3] - b[0][2] + 1)
                else:
                    n = None
                    break
        if not sp.exact and n is not None and Facts(list(cs.requires) + list(pc)).is_ge(n - 1 - need):
            res.proved += 1 if pc is cs.returns[0][0] else 0
            continue
        g = Gen(seed)
        g.jlen, g.case = jlen_of(sp, case), case
        k = 0
        for env in g.points(sp, tier):
            e = {'v': dict(PARENV), 'b': {}}
            e['v'].update(env)
            ev = geval.Ev(w)
            try:
                if not all(ev.cond(c, e) for c in list(cs.requires) + list(pc)):
                    continue
                cnt = len(v.items) + sum(1 for b, p, x in v.segs for _ in ev.bind(b, p, e))
                if cnt < ev.num(need, e) + 1 or sp.exact and cnt != ev.num(need, e) + 1:
                    res.worse('mismatch')
                    res.witness = describe(w, sp, case, env, '%d entries are returned' % cnt, cs)
                    return
                k += 1
            except (geval.Bad, geval.Undef) as x:
                res.worse('undecided')
                res.why.append('length of the returned list: %s' % x)
                return
        res.points += k
        res.worse('bounded' if k or n is not None else 'undecided')


class TableList:
    def __init__(self, v):
        self.items, self.segs = v.items, v.segs


def obligations_of_list(w, fsp, o, rp, freeze, res, sp, case, cs, tier, seed):
    obl = []
    extra = [const(case[a]) for a in fsp.args if a in case and sp.kinds[a][0] == 'reals']
    for i, x in enumerate(o.items):
        fv = freeze(x) if freeze else x
        for pc2, v2 in value_alts(fv, (), rp, cs):
            obl.append(((), rp + pc2, [const(i)] + extra, v2, None))
    L = const(len(o.items))
    for bs, pcs, v in o.segs:
        if len(bs) == 1 and bs[0][0] == 'rng' and isinstance(v, (PV, Ch)):
            idx = (var(bs[0][1]) - bs[0][2]) if len(bs[0]) < 5 else (bs[0][3] - var(bs[0][1]))
            for pc2, v2 in value_alts(v, bs, tuple(pcs) + rp, cs):
                obl.append((bs, tuple(pcs) + rp + pc2, [L + idx] + extra, v2, None))
        else:
            res.worse('undecided')
            res.why.append('entries of the list')
    check_obligations(w, sp, fsp, case, cs, obl, res, tier, seed)


def tables(w, sp, case, cs, res, tier, seed):
    """every value stored in a memo table equals the specified function at its key"""
    obl = []
    F = sp.memo or sp.fq
    fsp = w.allspecs.get(F)
    if fsp is None:
        return
    for oid, (bs, pcs, kv, v, line) in cs.tables:
        comps = list(kv.items) if isinstance(kv, Tup) else [kv]
        if len(comps) != len(fsp.args) or not all(isinstance(x, Num) for x in comps):
            continue
        for pc2, v2 in value_alts(v, bs, pcs, cs):
            if fsp.kf is not None and v2.kf is not None and tuple(v2.kf) != tuple(fsp.kf):
                # not a table of F
                if oid in cs.assumed:
                    res.worse('undecided')
                    res.why.append('a table of another meaning')
                continue
            obl.append((bs, tuple(pcs) + pc2, [x.e for x in comps], v2, line))
    for oid, o, s, rp in getattr(cs, 'lists', []):
        if len(fsp.args) == 1:
            obligations_of_list(w, fsp, o, rp, lambda x: cs.it.freeze(s, x), res, sp, case, cs, tier, seed)
    check_obligations(w, sp, fsp, case, cs, obl, res, tier, seed)


def value_alts(v, bs, pcs, cs):
    """[(extra conditions, poly value)] of a possibly guarded value"""
    if isinstance(v, PV):
        return [((), v)]
    out = []
    if isinstance(v, Ch):
        for c, x in v.alts:
            d = Facts(list(cs.requires) + list(pcs), bs).decide(c) if c is not True else True
            if d is False:
                continue
            for p, y in value_alts(x, bs, tuple(pcs) + ((c,) if d is not True else ()), cs):
                out.append((((c,) if d is not True else ()) + p, y))
    return out


def check_obligations(w, sp, fsp, case, cs, obl, res, tier, seed):
    F = fsp.fq
    if not obl:
        return
    seen = set()
    g = Gen(seed)
    g.jlen, g.case = jlen_of(sp, case), case
    pts = g.points(sp, tier)
    for bs, pcs, key, v, line in obl:
        limit(w, time.process_time() + SECONDS[tier])
        sig = (bs, pcs, tuple(key), v, line)
        if sig in seen:
            continue
        seen.add(sig)
        res.stores += 1
        if Prover(w).store_ok(F, key, v, bs, pcs, cs.requires):
            res.stores_proved += 1
            continue
        if not bs and not pcs and all(x.is_const() for x in key) and isinstance(v, PV) and ground_pv(v) and \
                all(not b[0] == 'pt' for e in v.ems for b in e.bs):
            # a closed term: evaluation decides
            try:
                ev = geval.Ev(w)
                ok, why = geval.same(ev.pv(v, {'v': {}, 'b': {}}), w.apply(F, tuple(x.const() for x in key), ev))
                if ok:
                    res.stores_proved += 1
                    continue
            except (geval.Bad, geval.Undef):
                pass
        res.worse('bounded')
        done = set()
        for env in pts:
            e = {'v': dict(PARENV), 'b': {}}
            e['v'].update(env)
            try:
                ev = geval.Ev(w)
                if not all(ev.cond(c, e) for c in cs.requires):
                    continue
                for e2 in ev.bind(bs, pcs, e):
                    k = tuple(ev.num(x, e2) for x in key)
                    if k in done:
                        continue
                    done.add(k)
                    if sum(abs(x) for x in k) > (4 if tier == 'quick' else 5) and len(done) > 60:
                        continue
                    exp = w.apply(F, k, ev)
                    try:
                        got = ev.pv(v, e2)
                    except geval.Undef as x:
                        res.worse('mismatch')
                        res.witness = describe(w, sp, case, env, 'table entry %s has no value: %s' % (key_s(k), x), cs, line=line)
                        return
                    ok, why = geval.same(got, exp)
                    res.points += 1
                    if not ok:
                        res.worse('mismatch')
                        res.witness = describe(w, sp, case, env, 'table entry %s: %s' % (key_s(k), why), cs, line=line)
                        return
            except geval.Bad as x:
                if ('budget' in str(x) or id(env) in g.beyond) and len(done) > 1:
                    break
                res.worse('undecided')
                res.why.append('table entry: %s' % x)
                break
            except geval.Undef as x:
                continue
            if not bs and not pcs:
                break


def key_s(k):
    return '(' + ','.join(str(x) for x in k) + ')'


def describe(w, sp, case, env, why, cs, got=None, exp=None, line=None):
    r = w.prog.func(sp.fq)
    m, nm, node = r
    pt = ', '.join('%s=%s' % (a, env.get(a, case.get(a))) for a in sp.args if not isinstance(env.get(a), geval.Poly))
    lines = []
    if got is not None and isinstance(got, geval.Poly) and isinstance(exp, geval.Poly):
        try:
            bad = [k for k in set(geval.denote(got).d) ^ set(geval.denote(exp).d)]
        except Exception:
            bad = []
    return {'file': w.prog.relpath(m), 'function': sp.fq, 'line': line or node.lineno, 'at': pt, 'why': why,
            'emissions': emission_lines(cs)}


def emission_lines(cs):
    out = []
    for p, v in cs.returns:
        if isinstance(v, PV):
            for e in v.ems:
                if isinstance(e.line, tuple) and e.line not in out:
                    out.append(e.line)
    return sorted(set('%s:%s' % x for x in out))[:12]
