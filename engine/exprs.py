"""Expression evaluation, calls and models of Poly and of the builtins (mixin of Interp)."""
import ast
import itertools
from fractions import Fraction
from .expr import (E, Absent, Unsupported, ZERO, ONE, const, lift, var, atom, power, fact, ifact, binom,
                   expo, subst, sub_vars, atoms_of, vars_of, linear_in, show)
from .values import *
from .values import c_ge, c_eq, c_ne, c_gt, c_and, c_or, c_not, c_subst
from .facts import Facts

POLYM = {'add_keyval', 'merge', 'remove_zero', 'set_keyfor', 'mul_poly', 'keys', 'items', 'values', 'copy',
         'get', 'is_exact_type', 'write_to_txt', 'write_to_csv', 'pop', 'clear', 'update', 'setdefault',
         '__add__', '__sub__', '__mul__', '__rmul__', '__pow__', '__contains__', '__getitem__', '__setitem__',
         '__len__', '__iter__'}
from .specapi import kf_at

BUILTINS = {'range', 'len', 'tuple', 'list', 'sum', 'enumerate', 'zip', 'reversed', 'sorted', 'print',
            'isinstance', 'int', 'abs', 'min', 'max', 'str', 'float', 'any', 'all', 'dict', 'set', 'map', 'bool',
            'repr', 'divmod', 'iter', 'next', 'round', 'type', 'pow', 'filter'}
EXC = {'ValueError', 'Exception', 'NotImplementedError', 'KeyError', 'TypeError', 'IndexError', 'RuntimeError',
       'NameError', 'AttributeError', 'ArithmeticError', 'ZeroDivisionError', 'AssertionError'}
SPECB = {'emit', 'terms', 'ren', 'drop', 'NP', 'choose_if', 'binomial', 'multinomial', 'facto', 'req'}


def numty(a, b):
    if 'float' in (a, b):
        return 'float'
    if 'frac' in (a, b):
        return 'frac'
    return 'int'


def multinomial_ratio(q, F):
    """a!/(b1! .. bk!) with b1 + .. + bk <= a, times an integer: an integer"""
    if len(q.t) != 1:
        return False
    (m, c), = q.t.items()
    up, down = [], []
    for b, x in m:
        if not (isinstance(b, tuple) and b[0] == 'fact' and x.is_const() and x.const().denominator == 1):
            return False
        (up if x.const() > 0 else down).extend([b[1]] * abs(int(x.const())))
    if c.denominator != 1 or len(up) != 1 or not all(F.is_ge(b) for b in down):
        return False
    r = up[0]
    for b in down:
        r = r - b
    return F.is_ge(r)


def t0_index(k):
    """the binder whose position the value is"""
    if isinstance(k, Num) and len(k.e.t) == 1:
        (m, c), = k.e.t.items()
        if c == 1 and len(m) == 1 and m[0][0][0] == 't0i' and m[0][1] == ONE:
            return m[0][0][1]
    return None


class ExprMixin:
    # ------------------------------------------------------------ names
    def load_name(self, nm, st, fr, node=None):
        if nm in st.env:
            v = st.env[nm]
            if isinstance(v, Poison):
                raise Unsupported(v.why + ' (line %s)' % getattr(node, 'lineno', '?'))
            return v
        cl = getattr(fr, 'closure', None)
        if cl is not None and nm in cl:
            return cl[nm]
        return self.load_global(nm, st, fr, node)

    def load_global(self, nm, st, fr, node=None):
        m = fr.mod
        if m is not None:
            if nm in m.funcs:
                return Fn(m.name + '.' + nm, m.funcs[nm], m)
            if nm in m.classes:
                return Fn('class:' + m.name + '.' + nm)
            if nm in m.consts:
                return self.module_const(m, nm, st, fr)
            if nm in m.imports:
                return self.global_fq(m.imports[nm], st, fr)
        if self.specmode and nm in SPECB:
            return Fn('spec:' + nm)
        if nm == 'NotImplemented':
            return Const('NotImplemented')
        if nm in BUILTINS or nm in EXC:
            return Fn('builtin:' + nm)
        raise Unsupported('unknown name %s (line %s)' % (nm, getattr(node, 'lineno', '?')))

    def module_const(self, m, nm, st, fr):
        if m.const_count.get(nm, 1) > 1:
            raise Unsupported('module variable %s assigned more than once' % nm)
        node = m.consts[nm]
        sub = type(fr)(m, m.name + '.<module>')
        save = st.env
        st.env = {}
        try:
            v = self.ev(node, st, sub)
        finally:
            st.env = save
        if isinstance(v, Ref):
            st.heap[v.id].origin = 'param:global ' + m.name + '.' + nm
        return v

    def global_fq(self, fq, st, fr):
        r = self.prog.resolve(fq)
        if r[0] == 'func':
            return Fn(r[1].name + '.' + r[2], r[1].funcs[r[2]], r[1])
        if r[0] == 'class':
            return Fn('class:' + r[1].name + '.' + r[2])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'const':
            return self.module_const(r[1], r[2], st, fr)
        if r[0] == 'missing':
            raise Unsupported('unresolved name %s' % fq)
        if fq in ('math', 'numpy', 'itertools', 'functools', 'fractions', 'collections', 'copy', 'operator', 'typing'):
            return ModV(fq)
        if fq == 'math.pi':
            return Num(var('pi'), 'float')
        return Fn('ext:' + fq)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            self.uns(e, 'expression %s' % type(e).__name__)
        return m(e, st, fr)

    def ex_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return Const(v)
        if isinstance(v, int):
            return Num(const(v), 'int')
        if isinstance(v, float):
            return Num(const(Fraction(str(v))), 'float')
        if v is Ellipsis:
            return Const(None)
        self.uns(e, 'constant')

    def ex_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def ex_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def ex_Attribute(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        return self.attr(v, e.attr, st, fr, e)

    def attr(self, v, a, st, fr, node):
        if isinstance(v, Ch):
            return self.choose([(c, self.attr(x, a, st, fr, node)) for c, x in self.alts(st, v)])
        if isinstance(v, ModV):
            return self.global_fq(v.name + '.' + a, st, fr)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'poly':
                if a == 'keyfor':
                    if o.kf is None:
                        self.uns(node, 'unknown keyfor')
                    return Tup([Const(x) for x in o.kf])
                if a == 'data':
                    return v
                if a in POLYM:
                    return Fn('polym:' + a, bound=v)
                # a method added to the class: inline its body
                pc = self.poly_class()
                if pc is not None:
                    m, c = pc
                    nm = c + '.' + a
                    if nm in m.funcs:
                        return Fn(m.name + '.' + nm, m.funcs[nm], m, bound=v)
                self.uns(node, 'poly attribute %s' % a)
            if o.kind == 'list':
                return Fn('listm:' + a, bound=v)
            return Fn('dictm:' + a, bound=v)
        if isinstance(v, Num):
            if a in ('numerator', 'denominator'):
                return Num(atom((a, v.e)), 'int')
        if isinstance(v, Tup):
            return Fn('tupm:' + a, bound=v)
        if isinstance(v, Const) and isinstance(v.v, str):
            return Fn('strm:' + a, bound=v)
        if isinstance(v, Par):
            return Fn('parm:' + a, bound=v)
        if isinstance(v, Fn) and v.fq.startswith('class:') and a in POLYM:
            return Fn('polyu:' + a)
        self.uns(node, 'attribute %s' % a)

    def poly_class(self):
        r = self.prog.resolve('ajdmom.poly.Poly')
        return (r[1], r[2]) if r[0] == 'class' else None

    def is_poly_class(self, fq):
        pc = self.poly_class()
        return fq.startswith('class:') and pc is not None and fq == 'class:' + pc[0].name + '.' + pc[1]

    def ex_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, st, fr) if e.slice.upper else None
            step = self.ev(e.slice.step, st, fr) if e.slice.step else None
            return self.slice(v, lo, hi, step, st, e)
        k = self.ev(e.slice, st, fr)
        return self.getitem(v, k, st, e)

    def slice(self, v, lo, hi, step, st, node):
        if self.has_ch(v) and isinstance(v, Ch):
            return self.choose([(c, self.slice(x, lo, hi, step, st, node)) for c, x in self.alts(st, v)])
        items = None
        mk = None
        if isinstance(v, Tup):
            items, mk = list(v.items), lambda x: Tup(x)
        elif isinstance(v, Ref) and st.heap[v.id].kind == 'list':
            o = st.heap[v.id]
            if not o.segs:
                items, mk = list(o.items), lambda x: self.new(st, ListObj(x))
        elif isinstance(v, Const) and isinstance(v.v, str):
            items, mk = list(v.v), lambda x: Const(''.join(x))
        if items is None:
            self.uns(node, 'slice of %s' % type(v).__name__)
        a = None if lo is None else self.conc_int(lo, node)
        b = None if hi is None else self.conc_int(hi, node)
        s = None if step is None else self.conc_int(step, node)
        reps = [i for i, x in enumerate(items) if isinstance(x, Rep_())]
        if reps:
            n = len(items)
            ia = 0 if a is None else (a if a >= 0 else n + a)
            ib = n if b is None else (b if b >= 0 else n + b)
            # only slices whose bounds fall before (or count from the end after) the repeated part
            if s not in (None, 1) or (a is not None and a >= 0 and a > reps[0]) or \
                    (b is not None and b >= 0 and b > reps[0]) or (a is not None and a < 0 and n + a <= reps[-1]) or \
                    (b is not None and b < 0 and n + b <= reps[-1]):
                self.uns(node, 'slice through a part of symbolic length')
            return mk(items[ia:ib])
        return mk(items[slice(a, b, s)])

    def getitem(self, v, k, st, node):
        if isinstance(v, Ch):
            return self.choose([(c, self.getitem(x, k, st, node)) for c, x in self.alts(st, v)])
        if isinstance(k, Ch):
            F = self.facts(st)
            return self.choose([(c, self.getitem(v, x, st, node)) for c, x in self.alts(st, k)
                                if F.decide(c) is not False])
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Tup):
            if isinstance(k, Const) and isinstance(k.v, str):
                if v.kf is None or k.v not in v.kf:
                    self.uns(node, 'key component %r' % (k.v,))
                return v.items[v.kf.index(k.v)]
            return self.seq_item(v.items, k, st, node)
        if isinstance(v, NamedKey):
            return v.d[k.v]
        if isinstance(v, Opq):
            i = self.conc_int(k, node)
            if i < 0:
                self.uns(node, 'negative index of an opaque sequence')
            return Num(atom(v.path + (const(i),)))
        if isinstance(v, Par):
            if isinstance(k, Const) and isinstance(k.v, str):
                if k.v in v.special:
                    return v.special[k.v]
                return Num(var('par.' + k.v), 'float')
            self.uns(node, 'parameter key')
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'list':
                return self.list_item(o, v, k, st, node)
            if o.kind == 'poly':
                return self.poly_item(o, v, k, st, node)
            return self.table_read(o, v, k, st, node)
        if isinstance(v, T0V):
            b = t0_index(k)
            if b is not None and self.t0idx.get(b) == v:
                return Tup([Num(atom(('t0e', b, const(i)))) for i in range(3)])
            self.uns(node, 'indexing a denominator tuple')
        self.uns(node, 'subscript of %s' % type(v).__name__)

    def seq_item(self, items, k, st, node):
        k = self.num(k)
        reps = [i for i, x in enumerate(items) if isinstance(x, Rep_())]
        if k.e.is_int():
            i = int(k.e.const())
            n = len(items)
            if reps:
                if 0 <= i < reps[0]:
                    return items[i]
                if i < 0 and n + i > reps[-1]:
                    return items[n + i]
                self.uns(node, 'index into a part of symbolic length')
            if -n <= i < n:
                return items[i]
            self.uns(node, 'index %d out of range' % i)
        if items and not reps and all(x == items[0] for x in items[1:]):
            return items[0]
        # symbolic index into a short concrete sequence: a choice
        if not reps and 0 < len(items) <= 10:
            F = self.facts(st)
            alts = []
            for i, x in enumerate(items):
                c = c_eq(k.e - const(i))
                d = F.decide(c)
                if d is False:
                    continue
                alts.append((c, x))
            if alts and (F.is_ge(k.e) and F.is_ge(const(len(items) - 1) - k.e)):
                return self.choose(alts)
        self.uns(node, 'symbolic index')

    def list_item(self, o, ref, k, st, node):
        if o.t0 is not None:
            b = t0_index(k)
            if b is not None and self.t0idx.get(b) == o.t0:
                return Tup([Num(atom(('t0e', b, const(i)))) for i in range(3)])
            self.uns(node, 'item of a denominator list')
        if not o.segs and not o.memo and not (self.in_loop(o) and self.grows(node, ref, st)):
            return self.seq_item(o.items, k, st, node)
        F = self.memo_fn(o, None, node)
        kn = self.num(k)
        if o.memo:
            if kn.e.is_int() and kn.e.const() < 0:
                self.uns(node, 'negative index of a table')
            return self.apply_memo(F, [kn], st, node, ref)
        L = self.list_len(o, ref, st)
        e = kn.e
        if e.is_int():
            if e.const() < 0:
                e = L + e
            elif int(e.const()) < len(o.items):
                return o.items[int(e.const())]
        return self.apply_memo(F, [Num(e)], st, node, ref)

    def grows(self, node, ref, st):
        return ref.id in getattr(self, 'growing', {})

    def list_len(self, o, ref, st):
        g = getattr(self, 'growing', {}).get(ref.id)
        if g is not None and self.in_loop(o):
            return g + const(len(o.items) - getattr(o, 'n_at_loop', len(o.items)))
        if o.length is not None:
            return o.length
        if not o.segs:
            return const(len(o.items))
        if o.t0 is not None:
            return atom(('t0len', o.t0))
        if not o.items and g is None:
            return atom(('llen', const(ref.id), const(len(o.segs))))
        raise Unsupported('list of unknown length')

    def memo_fn(self, o, arity, node):
        if o.memo:
            return o.memo
        F = self.memo_default
        if F is None:
            self.uns(node, 'read of a table without a known meaning')
        fsp = self.specs.get(F) if hasattr(self.specs, 'get') else None
        if fsp is not None and fsp.kf is not None:
            for _, _, _, v, _ in getattr(o, 'stores', ()):
                for x in ([y for _, y in v.alts] if isinstance(v, Ch) else [v]):
                    if not isinstance(x, PV) or x.kf is not None and tuple(x.kf) != tuple(fsp.kf):
                        self.uns(node, 'read of a table of another meaning')
        return F

    def apply_memo(self, F, comps, st, node, ref):
        if self.sum is not None:
            self.sum.reads.append((ref.id, tuple(c.e for c in comps), tuple(st.pc), tuple(self.binders), node.lineno))
            self.sum.assumed.add(ref.id)
        v = self.apply_spec(F, comps, st, node)
        for _, x in self.alts(st, v):
            if isinstance(x, Ref):
                self.memo_objs.add(x.id)
        return v

    def cached(self, o, ref, k, st):
        """if k not in d: d[k] = f(k)   then d[k] is f(k), whichever round stored it"""
        if o.memo or len(o.stores) != 1 or o.conc:
            return None
        from .interp import LV
        bs, pcs, kv, v, _ = o.stores[0]
        if bs or not pcs or not isinstance(v, (PV, LV, Num, Tup)):
            return None
        key = self.comp(k if isinstance(k, Tup) else Tup([k]))
        if self.comp(kv if isinstance(kv, Tup) else Tup([kv])) != key:
            return None
        if tuple(pcs[:-1]) != tuple(st.pc[:len(pcs) - 1]):
            return None
        last = pcs[-1]
        if last not in (('not', ('in', ref.id, key)), ('not', ('in', ref.id, key[0] if len(key) == 1 else key)),
                        ('not', ('in', ref.id, self.comp(k)))):
            return None
        names = {b[1] for b in self.binders[getattr(o, 'birth', 0):]}
        stop = [a for c in key if isinstance(c, E) for a in atoms_of(c) if c == atom(a)]

        def walk(x, d=0):
            if d > 60:
                return True
            if isinstance(x, str):
                return x in names
            if isinstance(x, E):
                return any(walk(a, d + 1) or walk(n, d + 1) for m in x.t for a, n in m)
            if isinstance(x, tuple):
                return x not in stop and any(walk(y, d + 1) for y in x)
            if isinstance(x, list):
                return any(walk(y, d + 1) for y in x)
            if isinstance(x, (int, Fraction, bool)) or x is None:
                return False
            if isinstance(x, PV):
                return any(walk((e.bs, e.pc, e.key, e.co, e.px), d + 1) for e in x.ems)
            if isinstance(x, LV):
                return walk(list(x.items), d + 1) or walk(list(x.segs), d + 1) or walk(x.length, d + 1)
            if isinstance(x, Num):
                return walk(x.e, d + 1)
            if isinstance(x, Tup):
                return any(walk(y, d + 1) for y in x.items)
            return True
        if walk(v):
            return None
        return self.thaw(st, v)

    def table_read(self, o, ref, k, st, node):
        v = self.cached(o, ref, k, st)
        if v is not None:
            if isinstance(v, Ref):
                self.memo_objs.add(v.id)
            return v
        ck = self.conc_key(k)
        if ck is not None and not o.memo:
            if ck in o.conc:
                v = o.conc[ck][1]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if self.sum is not None:
                    self.sum.reads.append((ref.id, ck, tuple(st.pc), tuple(self.binders), node.lineno))
                return v
            if not o.sym:
                x = Absent('read of an absent table entry (line %s)' % node.lineno)
                x.line, x.sure = node.lineno, not self.binders and not st.pc
                raise x
        items = list(k.items) if isinstance(k, Tup) else [k]
        if not all(isinstance(x, Num) for x in items):
            self.uns(node, 'table key')
        self.event('read', ref.id, k, node, st)
        plain = not o.memo and not o.sym and o.conc
        if plain and self.memo_default is not None:
            # known to be one of the keys present: a lookup, whatever is stored later
            inn = self.member(k, ref, st, node)
            plain = inn is not False and (inn is True or self.facts(st).decide(inn) is True)
        if plain:
            # a constant lookup table indexed symbolically
            F = self.facts(st)
            alts = []
            for ck2, (kv, v) in o.conc.items():
                if len(ck2) != len(items):
                    continue
                c = c_and(*[c_eq(items[i].e - ck2[i]) for i in range(len(items))])
                if F.decide(c) is not False:
                    alts.append((c, v))
            return self.choose(alts)
        F = self.memo_fn(o, len(items), node)
        if len(items) == 1 and items[0].e.is_int() and items[0].e.const() < 0 and self.specs[F].retraw != 'int':
            if o.tlen is None:
                self.uns(node, 'negative index of a table')
            items = [Num(o.tlen + items[0].e)]
        return self.apply_memo(F, items + list(o.extra), st, node, ref)

    def poly_item(self, o, ref, k, st, node):
        key = self.comp(k if not isinstance(k, Num) else Tup([k]))
        px = self.id_px(o)
        for oid, kk, co, kpx in reversed(st.keyco):
            if kk == key and (oid == ref.id or (px is not None and kpx == px)):
                return co
        # literal single-valued polys
        log = o.log
        hits = [e for e in log if e.key == key]
        if len(hits) == 1 and not hits[0].bs and not hits[0].pc and hits[0].op in ('add', 'set') and \
                all(e is hits[0] or (not e.bs and self.distinct(e, hits[0])) for e in log):
            return Num(hits[0].co, hits[0].ty)
        return Num(atom(('old', ref.id, key)), 'frac')

    def id_px(self, o):
        log = [e for e in o.log if e.op != 'dropzero']
        if len(log) == 1 and log[0].px is not None:
            return log[0].px
        return None

    def poly_set(self, st, o, ov, kv, v, node):
        for c, vv in self.alts(st, v):
            if isinstance(vv, Num):
                for ckk, kk in self.alts(st, kv):
                    key = self.comp(kk if not isinstance(kk, Num) else Tup([kk]))
                    a = ('old', ov.id, key)
                    if a in atoms_of(vv.e):
                        lq = linear_in(vv.e, a)
                        if lq and lq[0] == ONE:
                            s = list(st.pc)
                            st.pc += [x for x in (c, ckk) if x is not True]
                            self.emit(st, o, 'add', kk, Num(lq[1], vv.ty), node)
                            st.pc = s
                            continue
                        self.uns(node, 'item update')
                    s = list(st.pc)
                    st.pc += [x for x in (c, ckk) if x is not True]
                    if self.inkey(st, ov.id, key) is False:
                        self.emit(st, o, 'add', kk, vv, node)
                    else:
                        self.emit(st, o, 'set', kk, vv, node)
                    st.pc = s
            else:
                self.uns(node, 'poly value of type %s' % type(vv).__name__)

    def inkey(self, st, oid, key):
        for c in st.pc:
            if isinstance(c, tuple) and c[0] == 'in' and c[1] == oid and c[2] == key:
                return True
            if isinstance(c, tuple) and c[0] == 'not' and c[1][0] == 'in' and c[1][1] == oid and c[1][2] == key:
                return False
        return None

    def set_keyfor(self, st, ov, v, node):
        o = st.heap[ov.id]
        names = self.unpack(v, st, node)
        out = []
        for x in names:
            if not (isinstance(x, Const) and isinstance(x.v, str)):
                self.uns(node, 'keyfor that is not a constant tuple of names')
            out.append(x.v)
        if o.origin[:6] == 'param:' and self.sum is not None:
            self.sum.params_mut.append((o.origin, node.lineno))
        o.kf = tuple(out)
        if self.sum is not None:
            for em in o.log:
                if em.co is not None and isinstance(em.key, tuple) and not (em.key and em.key[0] == 'id') and \
                        not any(isinstance(x, tuple) and x and x[0] == 'rep' for x in em.key) and len(em.key) != len(out):
                    self.sum.arity.append((self.where(node), o.kf, 'a key of %d components for %d names' % (len(em.key), len(out)), tuple(st.pc), tuple(self.binders)))
                    break

    # ------------------------------------------------------------ concrete helpers
    def conc_key(self, kv):
        items = list(kv.items) if isinstance(kv, Tup) else [kv]
        out = []
        for x in items:
            if isinstance(x, Num) and x.e.is_const():
                out.append(x.e.const())
            elif isinstance(x, Const):
                out.append(x.v)
            elif isinstance(x, Tup):
                c = self.conc_key(x)
                if c is None:
                    return None
                out.append(c)
            else:
                return None
        return tuple(out)

    def conc_int(self, v, node):
        v = self.num(v)
        if not v.e.is_int():
            self.uns(node, 'symbolic index')
        return int(v.e.const())

    # ------------------------------------------------------------ operators
    def ex_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            c = self.cond(e, st, fr)
            return Const(c) if c in (True, False) else Cond(c)
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.USub):
            return self.neg(v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        self.uns(e, 'unary operator')

    def neg(self, v, st):
        return self.lift(st, lambda x: Num(-self.num(x).e, self.num(x).ty), v)

    def ex_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(a, Ch) or isinstance(b, Ch):
            F = self.facts(st)
            out = []
            for ca, x in self.alts(st, a):
                for cb, y in self.alts(st, b):
                    c = c_and(ca, cb)
                    if c is False or F.decide(c) is False:
                        continue
                    if c is True:
                        out.append((c, self.binop(op, x, y, st, node)))
                        continue
                    n = len(st.pc)
                    st.pc.append(c)
                    out.append((c, self.binop(op, x, y, st, node)))
                    del st.pc[n:]
            return self.choose(out)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if self.poly(st, a) or self.poly(st, b):
            return self.poly_binop(op, a, b, st, node)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and isinstance(b, Num) and isinstance(op, ast.Mult):
            return self.repeat(a, b, node, st)
        if isinstance(b, Tup) and isinstance(a, Num) and isinstance(op, ast.Mult):
            return self.repeat(b, a, node, st)
        if isinstance(a, T0V) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return self.t0_concat(a, b, node)
        if isinstance(b, T0V) and isinstance(a, Tup) and isinstance(op, ast.Add):
            return self.t0_concat(b, a, node)
        if isinstance(a, Opq) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup([a] + list(b.items)) if b.items else a
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, ast.Add):
            oa, ob = st.heap[a.id], st.heap[b.id]
            if oa.kind == 'list' and ob.kind == 'list':
                o = ListObj(oa.items + ob.items) if not oa.segs else ListObj(oa.items)
                if oa.segs:
                    o.segs = oa.segs + [((), (), x) for x in ob.items] + ob.segs
                else:
                    o.segs = list(ob.segs)
                if o.segs and oa.length is not None and ob.length is not None:
                    o.length = oa.length + ob.length
                return self.new(st, o)
        if isinstance(a, Ref) and isinstance(b, Num) and isinstance(op, ast.Mult):
            o = st.heap[a.id]
            if o.kind == 'list' and not o.segs:
                t = self.repeat(Tup(o.items), b, node, st, True)
                return self.new(st, ListObj(t.items))
        if isinstance(b, Ref) and isinstance(a, Num) and isinstance(op, ast.Mult):
            return self.binop(op, b, a, st, node)
        if isinstance(a, Const) and isinstance(a.v, str) or isinstance(b, Const) and isinstance(b.v, str):
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str) and \
                    isinstance(op, ast.Add):
                return Const(a.v + b.v)
            if isinstance(op, (ast.Add, ast.Mod)):
                return Const('\0str')
        x, y = self.num(a, node), self.num(b, node)
        ty = numty(x.ty, y.ty)
        if isinstance(op, ast.Add):
            return Num(x.e + y.e, ty)
        if isinstance(op, ast.Sub):
            return Num(x.e - y.e, ty)
        if isinstance(op, ast.Mult):
            return Num(x.e * y.e, ty)
        if isinstance(op, ast.Div):
            if y.e.is_zero():
                self.uns(node, 'division by zero')
            if ty == 'int':
                ty = 'float'
                if self.sum is not None:
                    self.sum.warn.append((self.where(node), 'int / int gives a float'))
            return Num(x.e / y.e, ty)
        if isinstance(op, ast.Pow):
            if ty == 'frac' and y.ty != 'int':
                ty = 'float'
            if ty == 'int' and y.e.is_const() and y.e.const() < 0:
                ty = 'float'
                if self.sum is not None:
                    self.sum.warn.append((self.where(node), 'int to a negative power gives a float'))
            elif ty == 'int' and y.ty != 'int':
                ty = 'float'
            elif ty == 'int' and self.sum is not None and not y.e.is_const() and not self.facts(st).is_ge(y.e):
                self.sum.powneg.append((self.where(node), y.e, tuple(st.pc), tuple(self.binders)))
            return Num(power(x.e, y.e), ty)
        if isinstance(op, ast.FloorDiv):
            if y.e.is_const() and y.e.const() > 0:
                F = self.facts(st)
                q = x.e / y.e
                # exact division known from an even-ness fact
                md = ('mod', x.e, y.e)
                if any(c == ('eq', atom(md)) for c in st.pc):
                    return Num(q, ty)
                if all(c.denominator == 1 for c in q.t.values()) and (x.ty, y.ty) == ('int', 'int'):
                    return Num(q, ty)
                if x.e.is_const():
                    import math
                    return Num(const(math.floor(q.const())), ty)
                return Num(atom(('floor', q)), ty)
            if len(y.e.t) == 1 and (x.ty, y.ty) == ('int', 'int'):
                q = x.e / y.e
                return Num(q if multinomial_ratio(q, self.facts(st)) else atom(('floor', q)), ty)
            self.uns(node, 'floor division')
        if isinstance(op, ast.Mod):
            if x.e.is_const() and y.e.is_const():
                return Num(const(x.e.const() % y.e.const()), ty)
            if y.e == const(2) and x.ty == 'int':
                e2 = E({m: c % 2 for m, c in x.e.t.items() if c.denominator != 1 or c % 2})
                if all(c.denominator == 1 for c in x.e.t.values()):
                    x = Num(e2)
                    if x.e.is_const():
                        return Num(const(x.e.const() % 2))
            return Num(atom(('mod', x.e, y.e)), ty)
        if isinstance(op, ast.BitAnd) and y.e == ONE and ty == 'int':
            return self.binop(ast.Mod(), x, Num(const(2)), st, node)
        if isinstance(op, ast.RShift) and y.e == ONE and ty == 'int':
            return self.binop(ast.FloorDiv(), x, Num(const(2)), st, node)
        self.uns(node, 'operator %s' % type(op).__name__)

    def where(self, node):
        m = self.fstack[-1].mod if self.fstack else None
        return (m.name if m else '?', getattr(node, 'lineno', None))

    def repeat(self, t, n, node, st, lst=False):
        if n.e.is_int():
            return Tup(t.items * max(0, int(n.e.const())))
        if len(t.items) == 1:
            r = Tup([Rep_()(t.items[0], n.e)])
            if self.facts(st).is_ge(n.e):
                return r
            if not lst:
                return self.choose([(c_ge(n.e), r), (c_not(c_ge(n.e)), Tup([]))])
        self.uns(node, 'repetition of a sequence')

    def t0_concat(self, t0, tup, node):
        fs = list(t0.fs)
        for x in tup.items:
            if isinstance(x, Tup) and len(x.items) == 3:
                fs.append(('tri',) + tuple(self.num(y).e for y in x.items))
            else:
                self.uns(node, 'denominator factor')
        return T0V(fs)

    # ------------------------------------------------------------ poly operators
    def kf_check(self, st, a, b, node, what):
        if a.kf is None or b.kf is None:
            self.uns(node, 'unknown keyfor')
        if a.kf != b.kf:
            if self.sum is not None:
                self.sum.raises.append((tuple(st.pc), 'NotImplementedError', self.where(node)[1], tuple(self.binders)))
                self.sum.kfbad.append((self.where(node), what, a.kf, b.kf, tuple(st.pc), tuple(self.binders)))
            st.alive = False
            return False
        return True

    def poly_binop(self, op, a, b, st, node):
        pa, pb = self.poly(st, a), self.poly(st, b)
        if pa and pb:
            oa, ob = st.heap[a.id], st.heap[b.id]
            if not self.kf_check(st, oa, ob, node, type(op).__name__):
                return self.new(st, PolyObj(oa.kf))
            if isinstance(op, (ast.Add, ast.Sub)):
                o = PolyObj(oa.kf)
                # pc of the operands is already part of their logs
                self.splice(st, o, self.as_adds(st, oa), None, None, node)
                self.splice(st, o, self.as_adds(st, ob), -ONE if isinstance(op, ast.Sub) else None, None, node)
                return self.new(st, o)
            if isinstance(op, ast.Mult):
                return self.poly_mul(oa, ob, st, node)
            self.uns(node, 'operator on polys')
        if isinstance(op, ast.Mult) and pb:
            n = self.num(a, node)
            ob = st.heap[b.id]
            o = PolyObj(ob.kf)
            self.splice(st, o, self.as_adds(st, ob), n.e, n.ty, node)
            if n.ty == 'float' and self.sum is not None:
                self.sum.floats.append((self.where(node), 'scaling by a float', tuple(st.pc), tuple(self.binders)))
            return self.new(st, o)
        if isinstance(op, ast.Pow) and pa:
            n = self.num(b, node)
            oa = st.heap[a.id]
            if n.e.is_int():
                k = int(n.e.const())
                if k <= 0:
                    if self.sum is not None:
                        self.sum.raises.append((tuple(st.pc), 'NotImplementedError', node.lineno, tuple(self.binders)))
                    st.alive = False
                    return a
                r = self.new(st, PolyObj(oa.kf, self.as_adds(st, oa)))
                for _ in range(k - 1):
                    r = self.poly_mul(st.heap[r.id], oa, st, node)
                return r
            F = self.facts(st)
            bad = c_not(c_ge(n.e - 1))
            if F.decide(bad) is not False and self.sum is not None:
                self.sum.raises.append((tuple(st.pc) + (bad,), 'NotImplementedError', self.where(node)[1], tuple(self.binders)))
            pv = PV(oa.kf, self.as_adds(st, oa))
            return self.new(st, self.opaque_poly(('polypow', pv, pv, n.e - 1), oa.kf))
        if isinstance(op, (ast.Mult, ast.Add, ast.Sub)) and pa:
            # Poly * number is rejected at run time
            if self.sum is not None:
                self.sum.raises.append((tuple(st.pc), 'NotImplementedError', self.where(node)[1], tuple(self.binders)))
            st.alive = False
            return a
        self.uns(node, 'operator on a poly')

    def poly_mul(self, oa, ob, st, node):
        o = PolyObj(oa.kf)
        pva, pvb = PV(oa.kf, self.as_adds(st, oa)), PV(ob.kf, self.as_adds(st, ob))
        if self.carrying(pva) or self.carrying(pvb):
            o = self.opaque_poly(('mul', pva, pvb), oa.kf)
        else:
            self.product(st, o, pva.ems, pvb.ems, lambda x, y: self.key_add(x, y, st, node))
        o.prov = ('mul', pva, pvb)
        return self.new(st, o)

    def carrying(self, pv):
        return any(isinstance(e.px, tuple) and e.px and e.px[0] == 'carry' for e in pv.ems)

    def key_add(self, x, y, st, node):
        if isinstance(x, Opq) or isinstance(y, Opq):
            self.uns(node, 'product of polys with encoded keys')
        if len(x) != len(y):
            self.uns(node, 'product of keys of different length')
        return tuple(self.comp(self.binop(ast.Add(), self.uncomp(a), self.uncomp(b), st, node)) for a, b in zip(x, y))

    def product(self, st, dst, ea, eb, keyf):
        line = None
        for x0 in ea:
            for x in self.inst_ems(x0):
                for y0 in eb:
                    for y in self.inst_ems(y0):
                        x1, y1 = self.rename_em(x), self.rename_em(y)
                        k = keyf(x1.key, y1.key)
                        if k is None:
                            continue
                        pc = list(st.pc)
                        for c in list(x1.pc) + list(y1.pc):
                            if c not in pc:
                                pc.append(c)
                        ty = numty(x1.ty, y1.ty)
                        dst.log.append(Em('add', x1.bs + y1.bs, pc, k, x1.co * y1.co, ty, x1.line or y1.line))

    # ------------------------------------------------------------ conditions
    def ex_Compare(self, e, st, fr):
        c = self.cond(e, st, fr)
        return Const(c) if c is True or c is False else Cond(c)

    def ex_BoolOp(self, e, st, fr):
        # value semantics only for booleans
        c = self.cond(e, st, fr)
        return Const(c) if c is True or c is False else Cond(c)

    def truth(self, v, st, node):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Cond):
            return v.c
        if isinstance(v, Num):
            return c_ne(v.e)
        if isinstance(v, Tup):
            if any(isinstance(x, Rep_()) for x in v.items):
                self.uns(node, 'truth of a sequence')
            return bool(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'list':
                if not o.segs:
                    return bool(o.items)
                if o.items:
                    return True
            if o.kind == 'dict' and not o.sym:
                return bool(o.conc)
            if o.kind == 'poly':
                if not o.log:
                    return False
                return c_ne(atom(('polylen', PV(o.kf, self.as_adds(st, o)))))
            self.uns(node, 'truth of a container')
        if isinstance(v, Ch):
            return c_or(*[c_and(c, self.truth(x, st, node)) for c, x in self.alts(st, v)])
        if isinstance(v, Fn):
            return True
        self.uns(node, 'truth value')

    def cond(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            n = len(st.pc)
            isand = isinstance(e.op, ast.And)
            cs = []
            F = self.facts(st)
            try:
                for x in e.values:
                    c = self.cond(x, st, fr)
                    c = self.facts(st).simplify(c)
                    if isand and c is False:
                        return False
                    if not isand and c is True:
                        return True
                    cs.append(c)
                    if isand and c is not True:
                        st.pc.append(c)
                    if not isand and c is not False:
                        st.pc.append(c_not(c))
            finally:
                del st.pc[n:]
            return c_and(*cs) if isand else c_or(*cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return c_not(self.cond(e.operand, st, fr))
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, st, fr)
            out = []
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, st, fr)
                out.append(self.compare(op, left, right, st, e))
                left = right
            return c_and(*out)
        return self.truth(self.ev(e, st, fr), st, e)

    def compare(self, op, a, b, st, node):
        if isinstance(a, Ch) or isinstance(b, Ch):
            return c_or(*[c_and(ca, cb, self.compare(op, x, y, st, node))
                          for ca, x in self.alts(st, a) for cb, y in self.alts(st, b)])
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, Const) and b.v is None or isinstance(a, Const) and a.v is None:
                r = isinstance(a, Const) and a.v is None and isinstance(b, Const) and b.v is None
                return r if isinstance(op, ast.Is) else not r
            if isinstance(a, Const) and isinstance(b, Const):
                return (a.v is b.v) if isinstance(op, ast.Is) else (a.v is not b.v)
            self.uns(node, 'identity comparison')
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.member(a, b, st, node)
            return c if isinstance(op, ast.In) else c_not(c)
        if isinstance(a, Const) and not isinstance(a.v, bool) or isinstance(b, Const) and not isinstance(b.v, bool):
            if isinstance(a, Const) and isinstance(b, Const):
                if isinstance(op, ast.Eq):
                    return a.v == b.v
                if isinstance(op, ast.NotEq):
                    return a.v != b.v
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                return isinstance(op, ast.NotEq)
            self.uns(node, 'comparison')
        if isinstance(a, Tup) and isinstance(b, Tup) or (isinstance(a, Ref) and isinstance(b, Ref)
                                                         and st.heap[a.id].kind == 'list' == st.heap[b.id].kind):
            x = list(a.items) if isinstance(a, Tup) else self.unpack(a, st, node)
            y = list(b.items) if isinstance(b, Tup) else self.unpack(b, st, node)
            if any(isinstance(z, Rep_()) for z in x + y):
                self.uns(node, 'comparison of sequences of symbolic length')
            if len(x) != len(y):
                c = False
            else:
                c = c_and(*[self.compare(ast.Eq(), p, q, st, node) for p, q in zip(x, y)])
            if isinstance(op, ast.Eq):
                return c
            if isinstance(op, ast.NotEq):
                return c_not(c)
            self.uns(node, 'ordering of sequences')
        if isinstance(a, (Tup, Ref)) != isinstance(b, (Tup, Ref)) and isinstance(op, (ast.Eq, ast.NotEq)):
            return isinstance(op, ast.NotEq)
        x, y = self.num(a, node), self.num(b, node)
        d = x.e - y.e
        integral = x.ty == 'int' and y.ty == 'int'
        if isinstance(op, ast.Eq):
            return c_eq(d)
        if isinstance(op, ast.NotEq):
            return c_ne(d)
        if integral:
            if isinstance(op, ast.GtE):
                return c_ge(d)
            if isinstance(op, ast.Gt):
                return c_ge(d - 1)
            if isinstance(op, ast.LtE):
                return c_ge(-d)
            if isinstance(op, ast.Lt):
                return c_ge(-d - 1)
        else:
            if isinstance(op, ast.Gt):
                return c_gt(d)
            if isinstance(op, ast.Lt):
                return c_gt(-d)
            if isinstance(op, ast.GtE):
                return c_not(c_gt(-d))
            if isinstance(op, ast.LtE):
                return c_not(c_gt(d))
        self.uns(node, 'comparison operator')

    def member(self, a, b, st, node):
        if isinstance(b, Ref):
            o = st.heap[b.id]
            if o.kind == 'poly':
                key = self.comp(a)
                if not o.log:
                    return False
                if any(kk == key and oid == b.id for oid, kk, co, _ in st.keyco):
                    return True
                return ('in', b.id, key)
            if o.kind == 'dict' and not o.sym and not o.memo:
                k = self.conc_key(a)
                if b.id in self.filling:
                    return ('in', b.id, self.comp(a))
                if any(isinstance(v, Poison) for _, v in o.conc.values()):
                    raise Unsupported('membership in a table filled on one path only')
                if k is not None:
                    return k in o.conc
                items = list(a.items) if isinstance(a, Tup) else [a]
                if all(isinstance(x, Num) for x in items) and all(not e[0] for e in o.stores):
                    cs = []
                    for ck2 in o.conc:
                        ks = ck2 if isinstance(ck2, tuple) else (ck2,)
                        if len(ks) == len(items) and all(isinstance(x, (int, Fraction)) for x in ks):
                            cs.append(c_and(*[c_eq(x.e - const(y)) for x, y in zip(items, ks)]))
                    return c_or(*cs) if cs else False
            if o.kind == 'dict':
                return ('in', b.id, self.comp(a))
        if isinstance(b, Rng) and isinstance(a, Num):
            if b.step == ONE:
                return c_and(c_ge(a.e - b.lo), c_ge(b.hi - 1 - a.e))
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Const):
            return a.v in b.v
        if isinstance(b, View) and b.kind in ('keys',):
            return self.member(a, b.src, st, node)
        items = self.concrete_iter(b, st)
        if items is None:
            self.uns(node, 'membership test')
        return c_or(*[self.compare(ast.Eq(), a, x, st, node) for x in items])

    def ex_IfExp(self, e, st, fr):
        c = self.facts(st).simplify(self.cond(e.test, st, fr))
        if c is True:
            return self.ev(e.body, st, fr)
        if c is False:
            return self.ev(e.orelse, st, fr)
        n = len(st.pc)
        st.pc.append(c)
        a = self.ev(e.body, st, fr)
        del st.pc[n:]
        st.pc.append(c_not(c))
        b = self.ev(e.orelse, st, fr)
        del st.pc[n:]
        if type(a) is type(b) and a == b:
            return a
        return self.choose2(c, a, b)

    # ------------------------------------------------------------ displays
    def seq_elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if isinstance(v, Tup):
                    out.extend(v.items)
                else:
                    out.extend(self.unpack(v, st, x))
            else:
                out.append(self.ev(x, st, fr))
        return out

    def ex_Tuple(self, e, st, fr):
        return Tup(self.seq_elts(e.elts, st, fr))

    def ex_List(self, e, st, fr):
        return self.new(st, ListObj(self.seq_elts(e.elts, st, fr)))

    def ex_Set(self, e, st, fr):
        return self.mkset(self.new(st, ListObj(self.seq_elts(e.elts, st, fr))), st)

    def mkset(self, ref, st, distinct=False):
        o = st.heap[ref.id]

        def plain(x):
            return isinstance(x, Const) or isinstance(x, Num) and x.e.is_const() or isinstance(x, Tup) and all(plain(y) for y in x.items)

        def key(x):
            return repr(x.v) if isinstance(x, Const) else str(x.e.const()) if isinstance(x, Num) else tuple(key(y) for y in x.items)
        if not o.segs and all(plain(x) for x in o.items):
            d = {key(x): x for x in o.items}
            o.items = [d[k] for k in sorted(d, key=str)]
        elif not distinct and (o.segs or len(o.items) > 1):
            o.isset = True
        return ref

    def ex_Dict(self, e, st, fr):
        o = DictObj()
        r = self.new(st, o)
        self.event('new', r.id, None, e, st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, fr)
                if isinstance(src, Ref) and st.heap[src.id].kind == 'dict' and not st.heap[src.id].sym:
                    self.event('copy', r.id, src.id, e, st)
                    o = st.heap[r.id]
                    o.conc.update(st.heap[src.id].conc)
                    continue
                self.uns(e, 'dict unpacking')
            kv = self.ev(k, st, fr)
            vv = self.ev(v, st, fr)
            o = st.heap[r.id]           # an inlined call replaces the heap
            ck = self.conc_key(kv)
            self.event('put', r.id, kv, e, st)
            if ck is not None:
                o.conc[ck] = (kv, vv)
                o.stores.append(((), tuple(st.pc), kv, self.freeze(st, vv), e.lineno))
            else:
                # symbolic key in a display: usable as a poly initialiser
                o.stores.append(((), tuple(st.pc), kv, self.freeze(st, vv), e.lineno))
                o.sym = True
        return r

    def ex_Lambda(self, e, st, fr):
        return Fn(fr.fq + '.<lambda>', e, fr.mod, closure=dict(st.env))

    def ex_JoinedStr(self, e, st, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                try:
                    x = self.ev(v.value, st, fr)
                except Unsupported:
                    return Const('\0str')
                if isinstance(x, Const) and isinstance(x.v, str) and '\0' not in x.v:
                    out += x.v
                elif isinstance(x, Num) and x.e.is_int():
                    out += str(int(x.e.const()))
                else:
                    out += '\0'
        return Const(out)

    def ex_Starred(self, e, st, fr):
        self.uns(e, 'starred expression')

    # ------------------------------------------------------------ comprehensions
    def comp_parts(self, gens, elt, st, fr):
        """[(binders, pcs, value)] ; binders empty for concrete elements"""
        out = []
        env0 = dict(st.env)

        def rec(i, bs, pcs):
            if i == len(gens):
                out.append((list(bs), list(pcs), elt(st)))
                if len(out) > 400:
                    raise Unsupported('comprehension too long')
                return
            g = gens[i]
            it = self.ev(g.iter, st, fr)
            for c0, itv in self.alts(st, it) if isinstance(it, Ch) else [(True, it)]:
                items = self.concrete_iter(itv, st)
                if items is not None:
                    plist = [([], [], (lambda x: lambda s2: x)(x)) for x in items]
                else:
                    plist = self.iter_parts(itv, st, g.iter)
                for nb, npc, mk in plist:
                    n, nbn = len(st.pc), len(self.binders)
                    self.binders.extend(nb)
                    npc = ([c0] if c0 is not True else []) + list(npc)
                    st.pc.extend(npc)
                    try:
                        self.assign(g.target, mk(st), st, fr, g.iter)
                        cs = []
                        dead = False
                        for t in g.ifs:
                            c = self.facts(st).simplify(self.cond(t, st, fr))
                            if c is False:
                                dead = True
                                break
                            if c is not True:
                                cs.append(c)
                                st.pc.append(c)
                        if not dead:
                            rec(i + 1, bs + list(nb), pcs + npc + cs)
                    finally:
                        del st.pc[n:]
                        del self.binders[nbn:]
        rec(0, [], [])
        st.env = env0
        return out

    def comp_value(self, e, st, fr, kind):
        parts = self.comp_parts(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr)
        if all(not b and not p for b, p, v in parts):
            vs = [v for b, p, v in parts]
            return self.new(st, ListObj(vs)) if kind == 'list' else SymSeqC(vs)
        if kind == 'list':
            o = ListObj()
            i = 0
            while i < len(parts) and not parts[i][0] and not parts[i][1]:
                o.items.append(parts[i][2])
                i += 1
            o.segs = [(tuple(b), tuple(p), self.freeze(st, v)) for b, p, v in parts[i:]]
            F = self.facts(st)
            if len(o.segs) == 1 and len(o.segs[0][0]) == 1 and not o.segs[0][1] and o.segs[0][0][0][0] == 'rng':
                b = o.segs[0][0][0]
                if F.is_ge(b[3] - b[2] + 1):
                    o.length = const(len(o.items)) + b[3] - b[2] + 1
            return self.new(st, o)
        return SymSeq(parts, 'gen')

    def ex_ListComp(self, e, st, fr):
        return self.comp_value(e, st, fr, 'list')

    def ex_SetComp(self, e, st, fr):
        return self.mkset(self.comp_value(e, st, fr, 'list'), st)

    def ex_GeneratorExp(self, e, st, fr):
        return self.comp_value(e, st, fr, 'gen')

    def ex_DictComp(self, e, st, fr):
        parts = self.comp_parts(e.generators, lambda s: Tup([self.ev(e.key, s, fr), self.ev(e.value, s, fr)]), st, fr)
        o = DictObj()
        r = self.new(st, o)
        self.event('new', r.id, None, e, st)
        for b, p, t in parts:
            kv, v = t.items
            ck = self.conc_key(kv)
            self.event('put', r.id, kv, e, st, b, p)
            if not b and not p and ck is not None:
                o.conc[ck] = (kv, v)
                o.stores.append(((), tuple(st.pc), kv, self.freeze(st, v), e.lineno))
            else:
                o.stores.append((tuple(b), tuple(st.pc) + tuple(p), kv, self.freeze(st, v), e.lineno))
                o.sym = True
        return r

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, st, fr):
        fn = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                args.extend(self.unpack(v, st, a))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                self.uns(e, '** arguments')
            kw[k.arg] = self.ev(k.value, st, fr)
        return self.call(fn, args, kw, st, fr, e)

    def call(self, fn, args, kw, st, fr, node):
        if isinstance(fn, Ch):
            out = []
            for c, x in self.alts(st, fn):
                if isinstance(x, Fn) and x.fq.split(':')[0] in ('listm', 'dictm') and \
                        x.fq.split(':')[1] not in ('copy', 'get', 'keys', 'items', 'values', 'index', 'count'):
                    self.uns(node, 'a change of one of several tables or lists')
                n = len(st.pc)
                if c is not True:
                    st.pc.append(c)
                out.append((c, self.call(x, args, kw, st, fr, node)))
                del st.pc[n:]
            return self.choose(out)
        if isinstance(fn, Tup) and not args:
            pass
        if not isinstance(fn, Fn):
            self.uns(node, 'call of %s' % type(fn).__name__)
        fq = fn.fq
        if self.is_poly_class(fq):
            return self.poly_ctor(args, kw, st, node)
        if fq.startswith('polym:'):
            return self.poly_method(fq[6:], fn.bound, args, kw, st, fr, node)
        if fq.startswith('polyu:'):
            return self.poly_method(fq[6:], args[0], args[1:], kw, st, fr, node)
        if fq.startswith('listm:'):
            return self.list_method(fq[6:], fn.bound, args, kw, st, node)
        if fq.startswith('dictm:'):
            return self.dict_method(fq[6:], fn.bound, args, kw, st, node)
        if fq.startswith('tupm:'):
            if fq[5:] == 'index' or fq[5:] == 'count':
                items = [x for x in fn.bound.items]
                k = [i for i, x in enumerate(items) if x == args[0]]
                if all(isinstance(x, Const) for x in items) and isinstance(args[0], Const):
                    if fq[5:] == 'count':
                        return Num(const(len(k)))
                    if k:
                        return Num(const(k[0]))
            self.uns(node, 'tuple method')
        if fq.startswith('strm:'):
            return self.str_method(fq[5:], fn.bound, args, st, node)
        if fq.startswith('parm:'):
            if fq[5:] == 'copy':
                return fn.bound
            if fq[5:] == 'get':
                return self.getitem(fn.bound, args[0], st, node)
            self.uns(node, 'parameter dictionary method')
        if fq.startswith('builtin:'):
            return self.builtin(fq[8:], args, kw, st, fr, node)
        if fq.startswith('spec:'):
            return self.spec_builtin(fq[5:], args, kw, st, fr, node)
        if fq.startswith('ext:'):
            return self.ext_call(fq[4:], args, kw, st, fr, node)
        if fq.startswith('class:'):
            self.uns(node, 'construction of %s' % fq)
        if fn.bound is not None:
            return self.inline(fn, [fn.bound] + args, kw, st, fr, node)
        if self.sum is not None:
            self.sum.calls.add(fq)
        sp = self.specs.get(fq)
        if sp is not None and (fq in self.opaque or self.on_stack(fq)):
            r = self.try_apply(fq, sp, fn, args, kw, st, node)
            if r is not None:
                return r
        if self.on_stack(fq):
            self.uns(node, 'recursive call of %s' % fq)
        return self.inline(fn, args, kw, st, fr, node)

    def on_stack(self, fq):
        return any(f.fq == fq for f in self.fstack)

    def bind_args(self, fn, args, kw, st, node):
        a = fn.node.args
        if a.kwarg:
            self.uns(node, 'variable arguments')
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.uns(node, 'too many arguments')
        env = dict(zip(names, args))
        if a.vararg:
            env[a.vararg.arg] = Tup(list(args[len(names):]))
        for k, v in kw.items():
            env[k] = v
        ds = a.defaults
        for nm, d in zip(names[len(names) - len(ds):], ds):
            if nm not in env:
                env[nm] = self.default(d, fn, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    self.uns(node, 'missing argument')
                env[x.arg] = self.default(d, fn, st)
        for nm in names:
            if nm not in env:
                self.uns(node, 'missing argument %s' % nm)
        return env

    def default(self, d, fn, st):
        if isinstance(d, ast.Constant) or (isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant)) \
                or isinstance(d, ast.Tuple):
            from .interp import Frame
            return self.ev(d, st, Frame(fn.mod, fn.fq))
        raise Unsupported('mutable or computed default argument')

    def try_apply(self, fq, sp, fn, args, kw, st, node):
        """opaque application; None when the call does not fit the spec's signature"""
        if fn.node is not None:
            if self.specmode and fq not in self.world.reg:
                env = self.bind_args(fn, args, kw, st, node)
                return self.apply_spec(sp.fq, [env[n] for n in sp.args], st, node)
            env = self.bind_args(fn, args, kw, st, node)
            pm = self.world.param_map(fn.node, sp)
            if pm is None:
                return None
            got = {}
            for n, val in sp.variants.items():
                if n in env and isinstance(env[n], Const) and env[n].v == val:
                    if self.sum is not None:
                        self.sum.whole.append((sp.fq, tuple(env[x] for x in pm if isinstance(pm[x], str))))
                    o = DictObj()
                    o.memo = sp.fq
                    return self.new(st, o)
            dflt = self.spec_defaults(fn)
            for n, t in pm.items():
                if isinstance(t, str):
                    got[t] = env[n]
                elif t[0] == 'default':
                    if not (n in dflt and type(dflt[n]) is type(env[n]) and dflt[n] == env[n]):
                        return None
                elif t[1] in ('false', 'true', 'none'):
                    want = {'false': False, 'true': True, 'none': None}[t[1]]
                    if not (isinstance(env[n], Const) and env[n].v is want):
                        return None
            comps = [got[n] for n in sp.args]
            tabs = {n: v.id for n, v in env.items() if n not in got and isinstance(v, Ref) and st.heap[v.id].kind == 'dict'}
            if tabs and self.sum is not None:
                self.sum.events.append(('call', tabs, (fq, sp, tuple(comps)), getattr(node, 'lineno', None), tuple(st.pc), tuple(self.binders)))
            for n, c in zip(sp.args, comps):
                if isinstance(sp.kinds[n], tuple) and sp.kinds[n][0] == 'enum':
                    vals = sp.kinds[n][1]
                    for _, x in self.alts(st, c):
                        ok = (isinstance(x, Const) and x.v in vals) or \
                            (isinstance(x, Num) and x.e.is_int() and int(x.e.const()) in vals)
                        if not ok:
                            return None
        else:
            comps = list(args)
        return self.apply_spec(fq, comps, st, node)

    def spec_defaults(self, fn):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if isinstance(d, ast.Constant):
                v = d.value
                out[nm] = Const(v) if isinstance(v, (bool, str)) or v is None else Num(const(v))
        return out

    def apply_spec(self, fq, comps, st, node):
        sp = self.specs[fq]
        fq = sp.fq
        out = []
        lists = [self.alts(st, c) if self.has_ch(c) else [(True, c)] for c in comps]
        F = self.facts(st)
        for combo in itertools.product(*lists):
            c = c_and(*[x[0] for x in combo])
            if c is False or F.decide(c) is False:
                continue
            out.append((c, self.apply1(fq, sp, [x[1] for x in combo], st, node)))
        return self.choose(out)

    def apply1(self, fq, sp, comps, st, node):
        fz = []
        kfs = {}
        for nm, c in zip(sp.args, comps):
            kd = sp.kinds.get(nm)
            if isinstance(kd, tuple) and kd[0] == 'reals':
                if isinstance(c, Tup):
                    fz.append(const(len(c.items)))
                elif isinstance(c, Num) and c.e.is_const():
                    fz.append(c.e)
                elif isinstance(c, Ref) and st.heap[c.id].kind == 'list' and not st.heap[c.id].segs:
                    fz.append(const(len(st.heap[c.id].items)))
                else:
                    self.uns(node, 'argument %s of %s' % (nm, fq))
            elif isinstance(c, Num):
                if c.ty == 'float' and kd in ('rat', 'int', 'nat', 'pos') and sp.ret in ('poly', 'table', 't0') and self.sum is not None:
                    self.sum.floats.append((self.where(node), 'a float is passed as %s of %s' % (nm, fq.split('.')[-1]), tuple(st.pc),
                                            tuple(self.binders)))
                fz.append(c.e)
            elif isinstance(c, Const):
                fz.append(('const', c.v))
            elif self.poly(st, c):
                o = st.heap[c.id]
                pv = PV(o.kf, self.as_adds(st, o))
                kfs[nm] = o.kf
                if isinstance(sp.argkf.get(nm), tuple) and o.kf != sp.argkf[nm] and self.sum is not None:
                    self.sum.kfbad.append((self.where(node), 'argument %s of %s' % (nm, fq.split('.')[-1]), o.kf, sp.argkf[nm],
                                           tuple(st.pc), tuple(self.binders)))
                fz.append(pv)
            elif isinstance(c, Ref) and st.heap[c.id].kind == 'dict' and st.heap[c.id].memo:
                fz.append(('table', st.heap[c.id].memo))
            elif isinstance(c, Ref) and st.heap[c.id].kind == 'dict':
                fz.append(('table', self.memo_fn(st.heap[c.id], None, node)))
            elif isinstance(c, Ref) and st.heap[c.id].kind == 'list':
                o = st.heap[c.id]
                if o.segs:
                    if o.memo:
                        fz.append(('table', o.memo))
                    else:
                        self.uns(node, 'list argument of symbolic length')
                else:
                    fz.append(self.comp(Tup(o.items)))
            elif isinstance(c, Tup):
                fz.append(self.comp(c))
            elif isinstance(c, (T0V, Opq)):
                fz.append(c)
            elif isinstance(c, Par):
                fz.append(('par',) if c.jlen is None else ('par', const(c.jlen)))
            else:
                self.uns(node, 'argument of %s' % fq)
        px = ('app', fq, tuple(fz))
        kind = sp.ret
        if kind == 'num':
            return Num(atom(px), sp.retty)
        if kind == 't0':
            seqs = [n for n in sp.args if isinstance(sp.kinds[n], tuple) and sp.kinds[n][0] == 't0seq']
            if seqs:
                v = T0V([])
                for n, c in zip(sp.args, comps):
                    if n in seqs and isinstance(c, T0V):
                        v = T0V(v.fs + c.fs)
                    elif n in seqs:
                        v = self.t0_concat(v, c, node)
                    else:
                        v = self.t0_concat(v, Tup([c]), node)
                return v
            return T0V([px])
        if kind == 'poly':
            kf = kf_at(sp, fz)
            if isinstance(kf, str):          # same keyfor as an argument
                kf = kfs.get(kf)
            elif callable(kf):
                kf = kf(kfs)
            if kf is None:
                self.uns(node, 'keyfor of %s' % fq)
            return self.new(st, self.opaque_poly(px, kf))
        if kind == 'table':
            o = DictObj()
            o.memo = sp.of
            fsp = self.specs[sp.of]
            o.extra = [Num(fz[sp.args.index(a)]) for a in fsp.args if a in sp.args and isinstance(fsp.kinds[a], tuple) and
                       fsp.kinds[a][0] == 'reals']
            if sp.exact:
                o.tlen = self.num(comps[sp.args.index(sp.exact)]).e + 1
            return self.new(st, o)
        self.uns(node, 'result of %s' % fq)

    def inline(self, fn, args, kw, st, fr, node):
        from .interp import Frame
        if fn.node is None:
            self.uns(node, 'call of %s' % fn.fq)
        if len(self.fstack) > 14:
            self.uns(node, 'call depth')
        if isinstance(fn.node, ast.Lambda):
            env = self.bind_args(fn, args, kw, st, node)
            save = st.env
            st.env = dict(fn.closure or {})
            st.env.update(env)
            sub = Frame(fn.mod, fn.fq)
            try:
                return self.ev(fn.node.body, st, sub)
            finally:
                st.env = save
        for d in fn.node.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', '?')
            if nm not in ('staticmethod', 'lru_cache', 'cache', 'of'):
                self.uns(node, 'decorated function')
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            return self.inline_gen(fn, args, kw, st, fr, node)
        env = self.bind_args(fn, args, kw, st, node)
        sub = Frame(fn.mod, fn.fq)
        sub.closure = fn.closure
        self.fstack.append(sub)
        save, base = st.env, list(st.pc)
        run = st.fork()
        run.env = env
        try:
            self.block(fn.node.body, run, sub)
            if run.alive:
                sub.returns.append((list(run.pc), Const(None), run))
        finally:
            self.fstack.pop()
        return self.merge_returns(sub.returns, st, save, base)

    def merge_returns(self, rets, st, save, base):
        if not rets:
            st.alive = False
            return Const(None)
        if len(rets) == 1:
            pc, v, s2 = rets[0]
            st.heap, st.pc, st.keyco = s2.heap, list(pc), s2.keyco
            st.env = save
            return v
        conds = []
        for pc, v, s2 in rets:
            conds.append(c_and(*[c for c in pc if c not in base]))
        acc = rets[-1][2]
        val = [(conds[-1], rets[-1][1])]
        for (pc, v, s2), c in list(zip(rets, conds))[-2::-1]:
            t = st.fork()
            s2 = s2.fork()
            s2.env = {}
            acc2 = acc.fork()
            acc2.env = {}
            self.join(t, s2, acc2, c)
            acc = t
            val.insert(0, (c, v))
        st.heap, st.keyco = acc.heap, acc.keyco
        st.pc = list(base)
        st.env = save
        if all(isinstance(v, Const) and v.v is None for c, v in val):
            return Const(None)
        # conditions of boolean results
        if all(isinstance(v, (Const, Cond)) and (isinstance(v, Cond) or isinstance(v.v, bool)) for c, v in val):
            return self.mkcond(c_or(*[c_and(c, v.c if isinstance(v, Cond) else v.v) for c, v in val]))
        return self.choose(val)

    def mkcond(self, c):
        return Const(c) if c is True or c is False else Cond(c)

    def inline_gen(self, fn, args, kw, st, fr, node):
        """a generator function: collect its yields as a list"""
        from .interp import Frame
        env = self.bind_args(fn, args, kw, st, node)
        sub = Frame(fn.mod, fn.fq)
        out = self.new(st, ListObj())
        sub.yield_to = out
        self.fstack.append(sub)
        save, base = st.env, list(st.pc)
        run = st.fork()
        run.env = env
        try:
            self.block(fn.node.body, run, sub)
            if sub.returns:
                self.uns(node, 'return in a generator')
        finally:
            self.fstack.pop()
        st.heap, st.keyco = run.heap, run.keyco
        st.env = save
        return out

    def ex_Yield(self, e, st, fr):
        ref = getattr(fr, 'yield_to', None)
        if ref is None:
            self.uns(e, 'yield')
        v = self.ev(e.value, st, fr) if e.value else Const(None)
        self.list_append(ref, v, st, e)
        return Const(None)

    def list_append(self, ref, v, st, node):
        o = st.heap[ref.id]
        if o.segs:
            o.segs.append(((), (), self.freeze(st, v)))
            if o.length is not None:
                o.length = o.length + 1
        else:
            o.items.append(v)

    # ------------------------------------------------------------ Poly model
    def poly_ctor(self, args, kw, st, node):
        o = PolyObj(())
        if kw:
            self.uns(node, 'Poly keyword')
        if args:
            a = args[0]
            if isinstance(a, Ch):
                return self.choose([(c, self.poly_ctor([x], kw, st, node)) for c, x in self.alts(st, a)])
            if self.poly(st, a):
                self.splice(st, o, self.as_adds(st, st.heap[a.id]), None, None, node)
            elif isinstance(a, Ref) and st.heap[a.id].kind == 'dict':
                src = st.heap[a.id]
                if src.memo:
                    self.uns(node, 'Poly of a table')
                line = self.where(node)
                for bs, pcs, kv, v, ln in src.stores:
                    if not isinstance(v, Num):
                        self.uns(node, 'Poly coefficient')
                    key = self.comp(kv if isinstance(kv, (Tup, Opq)) else Tup([kv]))
                    em = Em('set' if (bs or len(src.stores) > 1 and src.sym) else 'add', bs, pcs, key, v.e, v.ty, line)
                    o.log.append(em)
                if not src.sym:
                    ks = [e.key for e in o.log]
                    if len(set(ks)) != len(ks):
                        self.uns(node, 'duplicate key in a literal')
            elif isinstance(a, Const) and a.v is None:
                pass
            else:
                self.uns(node, 'Poly argument')
        return self.new(st, o)

    def mutate(self, o, node, ref=None):
        if ref is not None and ref.id in self.memo_objs:
            self.uns(node, 'an entry read from a table is changed in place')
        if o.origin[:6] == 'param:' and self.sum is not None:
            self.sum.params_mut.append((o.origin, self.where(node)[1]))

    def poly_method(self, nm, ref, args, kw, st, fr, node):
        if isinstance(ref, Ch):
            out = []
            for c, x in self.alts(st, ref):
                n = len(st.pc)
                st.pc.append(c)
                out.append((c, self.poly_method(nm, x, args, kw, st, fr, node)))
                del st.pc[n:]
            return self.choose(out)
        o = st.heap[ref.id]
        if kw:
            order = {'add_keyval': ['key', 'val'], 'merge': ['other'], 'set_keyfor': ['names'],
                     'mul_poly': ['other', 'keyIndexes', 'keyfor'], 'write_to_txt': ['filename'],
                     'write_to_csv': ['filename']}.get(nm)
            if not order:
                self.uns(node, 'keyword argument')
            args = list(args)
            for k in order[len(args):]:
                args.append(kw[k])
        if nm == 'add_keyval':
            self.mutate(o, node, ref)
            self.emit(st, o, 'add', args[0], args[1], node)
            return Const(None)
        if nm == 'merge':
            self.mutate(o, node, ref)
            for c, x in self.alts(st, args[0]):
                if not self.poly(st, x):
                    self.uns(node, 'merge argument')
                s = st.heap[x.id]
                n = len(st.pc)
                if c is not True:
                    st.pc.append(c)
                if self.kf_check(st, o, s, node, 'merge'):
                    if x == ref:
                        self.uns(node, 'merge with itself')
                    self.splice(st, o, self.as_adds(st, s), None, None, node)
                del st.pc[n:]
            return Const(None)
        if nm == 'remove_zero':
            return Const(None)
        if nm == 'set_keyfor':
            self.set_keyfor(st, ref, args[0], node)
            return Const(None)
        if nm in ('keys', 'items', 'values', '__iter__'):
            return View('keys' if nm == '__iter__' else nm, ref)
        if nm == 'copy':
            n = PolyObj(o.kf, list(o.log))
            return self.new(st, n)
        if nm in ('get', '__getitem__'):
            return self.poly_item(o, ref, args[0], st, node)
        if nm == '__setitem__':
            self.setitem(ref, args[0], args[1], st, node)
            return Const(None)
        if nm == '__contains__':
            return self.mkcond(self.member(args[0], ref, st, node))
        if nm == 'is_exact_type':
            ok = self.poly(st, args[0]) and st.heap[args[0].id].kf == o.kf
            return Const(bool(ok))
        if nm == '__add__':
            return self.poly_binop(ast.Add(), ref, args[0], st, node)
        if nm == '__sub__':
            return self.poly_binop(ast.Sub(), ref, args[0], st, node)
        if nm == '__mul__':
            return self.poly_binop(ast.Mult(), ref, args[0], st, node)
        if nm == '__rmul__':
            return self.poly_binop(ast.Mult(), args[0], ref, st, node)
        if nm == '__pow__':
            return self.poly_binop(ast.Pow(), ref, args[0], st, node)
        if nm == 'mul_poly':
            return self.mul_poly(o, ref, args, st, node)
        if nm in ('write_to_txt', 'write_to_csv'):
            return Const(None)
        if nm == 'update' and len(args) == 1 and self.poly(st, args[0]) and not o.log:
            self.mutate(o, node, ref)
            self.splice(st, o, self.as_adds(st, st.heap[args[0].id]), None, None, node)
            return Const(None)
        self.uns(node, 'poly method %s' % nm)

    def mul_poly(self, o, ref, args, st, node):
        other, kidx, kfv = args
        if isinstance(other, Ch):
            out = []
            for c, x in self.alts(st, other):
                n = len(st.pc)
                st.pc.append(c)
                out.append((c, self.mul_poly(o, ref, [x, kidx, kfv], st, node)))
                del st.pc[n:]
            return self.choose(out)
        if not self.poly(st, other):
            self.uns(node, 'mul_poly argument')
        oo = st.heap[other.id]
        i1, i2 = self.unpack(kidx, st, node)
        i1 = [self.conc_int(x, node) for x in self.unpack(i1, st, node)]
        i2 = [self.conc_int(x, node) for x in self.unpack(i2, st, node)]
        if len(i1) > len(i2):
            self.uns(node, 'index lists of different length')
        r = PolyObj(())
        rr = self.new(st, r)
        self.set_keyfor(st, rr, kfv, node)

        def keyf(x, y):
            if isinstance(x, Opq) or isinstance(y, Opq):
                self.uns(node, 'encoded keys')
            out = []
            for a, b in zip(i1, i2):
                p = x[a] if 0 <= a < len(x) else ZERO
                q = y[b] if 0 <= b < len(y) else ZERO
                if 0 <= a < len(x) and not (0 <= b < len(y)) and not isinstance(p, E):
                    raise Unsupported('non-numeric component added to 0')
                out.append(self.comp(self.binop(ast.Add(), self.uncomp(p), self.uncomp(q), st, node)))
            return tuple(out)
        if self.sum is not None:
            self.sum.mulpoly.append((self.where(node), o.kf, oo.kf, tuple(i1), tuple(i2), r.kf, tuple(st.pc), tuple(self.binders)))
        self.product(st, r, self.as_adds(st, o), self.as_adds(st, oo), keyf)
        return rr

    # ------------------------------------------------------------ lists, dicts, strings
    def list_method(self, nm, ref, args, kw, st, node):
        o = st.heap[ref.id]
        if nm in ('append', 'extend', 'insert', 'pop', 'reverse', 'sort', 'clear', 'remove'):
            self.mutate(o, node, ref)
        if nm == 'append':
            self.list_append(ref, args[0], st, node)
            return Const(None)
        if nm == 'copy':
            return self.new(st, o.clone())
        if nm == 'extend':
            it = args[0]
            items = self.concrete_iter(it, st)
            if items is not None:
                for x in items:
                    self.list_append(ref, x, st, node)
                return Const(None)
            self.uns(node, 'extend')
        if o.segs:
            self.uns(node, 'list method on a list of symbolic length')
        if nm == 'insert':
            i = self.conc_int(args[0], node)
            if self.rep_before(o.items, i):
                self.uns(node, 'insert')
            o.items.insert(i, args[1])
            return Const(None)
        if nm == 'pop':
            if any(isinstance(x, Rep_()) for x in o.items):
                self.uns(node, 'pop')
            i = self.conc_int(args[0], node) if args else -1
            if not o.items:
                self.uns(node, 'pop from empty list')
            return o.items.pop(i)
        if nm == 'reverse':
            o.items.reverse()
            return Const(None)
        if nm == 'index':
            for i, x in enumerate(o.items):
                if isinstance(x, Const) and x == args[0]:
                    return Num(const(i))
                if not (isinstance(x, Num) and x.e.is_const() and isinstance(args[0], Num) and args[0].e.is_const()):
                    break
                if x.e == args[0].e:
                    return Num(const(i))
        if nm == 'sort' and not args and not kw and all(isinstance(x, Num) and x.e.is_const() for x in o.items):
            o.items.sort(key=lambda x: x.e.const())
            return Const(None)
        if nm == 'count':
            if all(isinstance(x, Const) for x in o.items):
                return Num(const(sum(x == args[0] for x in o.items)))
        self.uns(node, 'list method %s' % nm)

    def rep_before(self, items, i):
        return any(isinstance(x, Rep_()) for x in items[:i] if i >= 0)

    def dict_method(self, nm, ref, args, kw, st, node):
        o = st.heap[ref.id]
        if nm in ('items', 'keys', 'values'):
            return View('d' + nm, ref)
        if nm == 'get':
            k = self.conc_key(args[0])
            if k is not None and not o.sym and not o.memo:
                return o.conc[k][1] if k in o.conc else (args[1] if len(args) > 1 else Const(None))
            if o.memo or o.sym:
                n = len(self.sum.events) if self.sum is not None else 0
                v = self.table_read(o, ref, args[0], st, node)
                if self.sum is not None:
                    del self.sum.events[n:]         # it need not be there
                return v
        if nm == 'pop':
            n = len(self.sum.events) if self.sum is not None else 0
            v = self.table_read(o, ref, args[0], st, node)
            if self.sum is not None and len(args) > 1:
                del self.sum.events[n:]
            self.event('del' if len(args) == 1 else 'discard', ref.id, args[0], node, st)
            k = self.conc_key(args[0])
            if k is not None and not o.sym:
                o.conc.pop(k, None)
            o.sym = True if k is None else o.sym
            return v
        if nm == 'clear':
            self.uns(node, 'clear of a table')
        if nm == 'copy':
            return self.copied(ref, node, st)
        if nm == 'update' and args and isinstance(args[0], Ref) and st.heap[args[0].id].kind == 'dict':
            s = st.heap[args[0].id]
            if not s.sym and not s.memo:
                for k, (kv, v) in s.conc.items():
                    self.setitem(ref, kv, v, st, node)
                return Const(None)
        if nm == 'setdefault':
            self.uns(node, 'setdefault')
        self.uns(node, 'dict method %s' % nm)

    def copied(self, ref, node, st):
        r = self.new(st, st.heap[ref.id].clone())
        self.event('new', r.id, None, node, st)
        self.event('copy', r.id, ref.id, node, st)
        return r

    def str_method(self, nm, v, args, st, node):
        if '\0' in v.v:
            if nm in ('join', 'format', 'lower', 'upper', 'strip', 'replace'):
                return Const('\0str')
            self.uns(node, 'string method on an unknown string')
        if nm in ('startswith', 'endswith') and isinstance(args[0], Const):
            return Const(getattr(v.v, nm)(args[0].v))
        if nm in ('lower', 'upper', 'strip') and not args:
            return Const(getattr(v.v, nm)())
        if nm == 'split' and all(isinstance(a, Const) for a in args):
            return self.new(st, ListObj([Const(x) for x in v.v.split(*[a.v for a in args])]))
        if nm == 'join':
            items = self.concrete_iter(args[0], st)
            if items is not None and all(isinstance(x, Const) and isinstance(x.v, str) and '\0' not in x.v for x in items):
                return Const(v.v.join(x.v for x in items))
            return Const('\0str')
        if nm == 'format':
            return Const('\0str')
        self.uns(node, 'string method')

    # ------------------------------------------------------------ builtins
    def seq_len(self, v, st, node):
        if isinstance(v, Ch):
            return self.choose([(c, self.seq_len(x, st, node)) for c, x in self.alts(st, v)])
        if isinstance(v, Tup):
            n = ZERO
            for x in v.items:
                n = n + (x.count if isinstance(x, Rep_()) else ONE)
            return Num(n)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'list' and o.isset:
                self.uns(node, 'number of elements of a set')
            if o.kind == 'list':
                if not o.segs and not any(isinstance(x, Rep_()) for x in o.items) and not self.grows(node, v, st):
                    return Num(const(len(o.items)))
                if not o.segs and not self.grows(node, v, st):
                    return self.seq_len(Tup(o.items), st, node)
                return Num(self.list_len(o, v, st))
            if o.kind == 'dict' and o.tlen is not None:
                return Num(o.tlen)
            if o.kind == 'dict' and not o.sym and not o.memo:
                return Num(const(len(o.conc)))
            if o.kind == 'poly':
                return Num(atom(('polylen', PV(o.kf, self.as_adds(st, o)))))
        if isinstance(v, Const) and isinstance(v.v, str) and '\0' not in v.v:
            return Num(const(len(v.v)))
        if isinstance(v, Opq):
            return Num(atom(('seqlen',) + v.path))
        if isinstance(v, Rng) and v.step == ONE:
            return Num(v.hi - v.lo)
        if isinstance(v, T0V):
            return Num(atom(('t0len', v)))
        if isinstance(v, View) and v.kind in ('keys', 'values', 'items'):
            return self.seq_len(v.src, st, node)
        self.uns(node, 'len of %s' % type(v).__name__)

    def to_seq(self, v, st, node, kind):
        """tuple(v) / list(v)"""
        mk = (lambda x: Tup(x)) if kind == 'tuple' else (lambda x: self.new(st, ListObj(x)))
        if isinstance(v, Ch):
            return self.choose([(c, self.to_seq(x, st, node, kind)) for c, x in self.alts(st, v)])
        if isinstance(v, Tup):
            if kind == 'tuple':
                return v
            return mk(v.items)
        if isinstance(v, (T0V, Opq)) :
            if kind == 'tuple':
                return v
            if isinstance(v, T0V) and len(v.fs) == 1 and v.fs[0][0] == 'path':
                o = ListObj()
                o.t0 = v
                b = self.fresh('t')
                o.segs = [((('t0', b, v.fs[0]),), (), Tup([Num(atom(('t0e', b, const(i)))) for i in range(3)]))]
                return self.new(st, o)
            self.uns(node, 'list of an opaque sequence')
        if isinstance(v, Ref) and st.heap[v.id].kind == 'list':
            o = st.heap[v.id]
            if o.t0 is not None and kind == 'tuple':
                return o.t0
            if not o.segs:
                return mk(o.items)
            if kind == 'list':
                return self.new(st, o.clone())
            return v
        if isinstance(v, Ref) and st.heap[v.id].kind in ('poly', 'dict') or isinstance(v, View):
            items = self.concrete_iter(v, st)
            if items is not None:
                return mk(items)
            parts = self.iter_parts(v, st, node)
            o = ListObj()
            for b, p, f in parts:
                o.segs.append((tuple(b), tuple(p), self.freeze(st, f(st))))
            return self.new(st, o)
        if isinstance(v, SymSeq):
            # a generator with a constant element over a range: repetition
            if len(v.parts) == 1:
                b, p, x = v.parts[0]
                if len(b) == 1 and b[0][0] == 'rng' and not p and isinstance(x, Num) and b[0][1] not in vars_of(x.e):
                    cnt = b[0][3] - b[0][2] + 1
                    if self.facts(st).is_ge(cnt):
                        return mk([Rep_()(x, cnt)])
                    if kind == 'tuple':
                        return self.choose([(c_ge(cnt), mk([Rep_()(x, cnt)])), (c_not(c_ge(cnt)), mk([]))])
            if kind == 'list':
                o = ListObj()
                o.segs = [(tuple(b), tuple(p), self.freeze(st, x)) for b, p, x in v.parts]
                return self.new(st, o)
            self.uns(node, 'tuple of symbolic length')
        items = self.concrete_iter(v, st)
        if items is not None:
            return mk(items)
        if isinstance(v, Rng) and kind == 'list':
            b, x = self.rng_binder(v, node)
            o = ListObj()
            o.segs = [((b,), (), x)]
            if self.facts(st).is_ge(b[3] - b[2] + 1):
                o.length = b[3] - b[2] + 1
            return self.new(st, o)
        self.uns(node, '%s() of %s' % (kind, type(v).__name__))

    def seq_parts(self, v, st, node):
        if isinstance(v, SymSeqC):
            return [([], [], x) for x in v.items]
        if isinstance(v, SymSeq):
            return v.parts
        items = self.concrete_iter(v, st)
        if items is not None:
            return [([], [], x) for x in items]
        if isinstance(v, Tup):
            out = []
            for x in v.items:
                if isinstance(x, Rep_()):
                    nm = self.fresh('r')
                    out.append(([('rng', nm, ONE, x.count)], [], x.v))
                else:
                    out.append(([], [], x))
            return out
        return [(b, p, f(st)) for b, p, f in self.iter_parts(v, st, node)]

    def builtin(self, nm, args, kw, st, fr, node):
        if nm in EXC:
            return Const(None)
        if nm == 'print':
            return Const(None)
        if nm == 'range':
            def mk(*a):
                a = [self.num(x) for x in a]
                if len(a) == 1:
                    return Rng(ZERO, a[0].e, ONE)
                return Rng(a[0].e, a[1].e, a[2].e if len(a) > 2 else ONE)
            return self.lift(st, mk, *args)
        if nm == 'len':
            return self.seq_len(args[0], st, node)
        if nm in ('tuple', 'list', 'set'):
            if not args:
                return Tup([]) if nm == 'tuple' else self.new(st, ListObj())
            r = self.to_seq(args[0], st, node, 'tuple' if nm == 'tuple' else 'list')
            if nm == 'set' and isinstance(r, Ref):
                a = args[0]
                whole = isinstance(a, View) and a.kind in ('keys', 'items') or isinstance(a, Ref) and st.heap[a.id].kind in ('poly', 'dict')
                if r is a or isinstance(a, Ref) and a.id == r.id:
                    r = self.new(st, st.heap[r.id].clone())
                r = self.mkset(r, st, whole)
            return r
        if nm == 'dict':
            if not args and not kw:
                return self.new(st, DictObj())
            if len(args) == 1 and isinstance(args[0], Ref) and st.heap[args[0].id].kind in ('dict', 'poly'):
                if st.heap[args[0].id].kind == 'dict':
                    return self.copied(args[0], node, st)
        if nm == 'sum':
            tot = args[1] if len(args) > 1 else kw.get('start', Num(ZERO))
            for b, p, v in self.seq_parts(args[0], st, node):
                if not b and not p:
                    tot = self.binop(ast.Add(), tot, v, st, node)
                    continue
                n = self.lift(st, lambda x: x, v)
                for c, x in self.alts(st, n):
                    x = self.num(x)
                    t = self.num(tot)
                    from .values import sumx
                    tot = Num(t.e + sumx(b, list(p) + [c], x.e), numty(t.ty, x.ty))
            return tot
        if nm == 'enumerate':
            s = args[1] if len(args) > 1 else kw.get('start', Num(ZERO))
            return View('enumerate', (args[0], self.num(s).e))
        if nm == 'zip':
            return View('zip', list(args))
        if nm == 'reversed':
            return View('reversed', args[0])
        if nm == 'sorted':
            items = self.concrete_iter(args[0], st)
            if items is not None and all(isinstance(x, Num) and x.e.is_const() for x in items) and not kw:
                return self.new(st, ListObj(sorted(items, key=lambda x: x.e.const())))
            return args[0] if isinstance(args[0], (View,)) or self.poly(st, args[0]) else self.to_seq(args[0], st, node, 'list')
        if nm == 'isinstance':
            t = args[1]
            if isinstance(t, Fn) and self.is_poly_class(t.fq):
                return self.mkcond(c_or(*[c for c, x in self.alts(st, args[0]) if self.poly(st, x)]))
            if isinstance(t, Fn) and t.fq == 'builtin:int':
                return Const(isinstance(args[0], Num) and args[0].ty == 'int')
            if isinstance(t, Fn) and t.fq in ('builtin:str', 'builtin:float', 'builtin:list', 'builtin:dict', 'builtin:tuple'):
                k = t.fq[8:]
                a = args[0]
                r = {'str': isinstance(a, Const) and isinstance(a.v, str),
                     'float': isinstance(a, Num) and a.ty == 'float', 'tuple': isinstance(a, Tup),
                     'list': isinstance(a, Ref) and st.heap[a.id].kind == 'list',
                     'dict': isinstance(a, Ref) and st.heap[a.id].kind == 'dict'}[k]
                return Const(r)
            self.uns(node, 'isinstance')
        if nm == 'int':
            v = args[0]
            return self.lift(st, lambda x: self.to_int(x, st, node), v)
        if nm == 'float':
            return self.lift(st, lambda x: Num(self.num(x).e, 'float'), args[0])
        if nm == 'bool':
            return self.mkcond(self.truth(args[0], st, node))
        if nm == 'abs':
            x = self.num(args[0])
            F = self.facts(st)
            if F.is_ge(x.e):
                return x
            if F.is_ge(-x.e):
                return Num(-x.e, x.ty)
            c = c_ge(x.e) if x.ty == 'int' else ('gte', x.e)
            return self.choose([(c, x), (c_not(c), Num(-x.e, x.ty))])
        if nm in ('min', 'max'):
            xs = list(args) if len(args) > 1 else self.unpack(args[0], st, node)
            xs = [self.num(x) for x in xs]
            r = xs[0]
            F = self.facts(st)
            for x in xs[1:]:
                d = r.e - x.e if nm == 'max' else x.e - r.e
                t = F.decide(c_ge(d)) if numty(r.ty, x.ty) == 'int' else None
                if t is True:
                    continue
                if t is False:
                    r = x
                    continue
                r = Num(atom((nm, r.e, x.e)), numty(r.ty, x.ty))
            return r
        if nm in ('any', 'all'):
            cs = []
            for b, p, v in self.seq_parts(args[0], st, node):
                if b or p:
                    self.uns(node, 'any/all over a symbolic sequence')
                cs.append(self.truth(v, st, node))
            return self.mkcond(c_or(*cs) if nm == 'any' else c_and(*cs))
        if nm == 'str' or nm == 'repr':
            v = args[0]
            if isinstance(v, Const) and isinstance(v.v, str):
                return v
            if isinstance(v, Num) and v.e.is_int():
                return Const(str(int(v.e.const())))
            return Const('\0str')
        if nm == 'pow':
            return self.binop(ast.Pow(), args[0], args[1], st, node)
        if nm == 'map':
            fnv = args[0]
            its = [self.concrete_iter(a, st) for a in args[1:]]
            if all(x is not None for x in its):
                return self.new(st, ListObj([self.call(fnv, list(t), {}, st, fr, node) for t in zip(*its)]))
        if nm == 'divmod':
            return Tup([self.binop(ast.FloorDiv(), args[0], args[1], st, node),
                        self.binop(ast.Mod(), args[0], args[1], st, node)])
        self.uns(node, 'builtin %s' % nm)

    def to_int(self, x, st, node):
        n = self.num(x)
        if n.ty == 'int':
            return n
        if n.e.is_const():
            return Num(const(int(n.e.const())))
        if all(c.denominator == 1 for c in n.e.t.values()):
            return Num(n.e)
        # int(x/2) with x known even
        for c in st.pc:
            if c[0] == 'eq' and c[1].is_mono():
                (m, co), = c[1].t.items()
                if len(m) == 1 and m[0][0][0] == 'mod' and n.e == m[0][0][1] / m[0][0][2]:
                    return Num(n.e)
        return Num(atom(('trunc', n.e)))

    def ext_call(self, fq, args, kw, st, fr, node):
        if fq in ('fractions.Fraction',):
            def fr2(*a):
                a = [self.num(x) for x in a]
                if len(a) == 1:
                    if a[0].ty == 'float' and self.sum is not None and not a[0].e.is_const():
                        self.sum.warn.append((self.where(node), 'Fraction of a float', tuple(st.pc), tuple(self.binders)))
                    return Num(a[0].e, 'frac')
                if a[1].e.is_zero():
                    self.uns(node, 'zero denominator')
                for x in a:
                    if x.ty == 'float' and self.sum is not None:
                        self.sum.warn.append((self.where(node), 'Fraction of a float', tuple(st.pc), tuple(self.binders)))
                return Num(a[0].e / a[1].e, 'frac')
            if kw:
                args = list(args) + [kw[k] for k in ('numerator', 'denominator')[len(args):] if k in kw]
            if args and isinstance(args[0], Const) and isinstance(args[0].v, str):
                return Num(const(Fraction(args[0].v)), 'frac')
            return self.lift(st, fr2, *args)
        if fq == 'math.comb':
            return self.lift(st, lambda n, k: Num(self.binom(self.num(n).e, self.num(k).e, st)), *args)
        if fq == 'math.factorial':
            return self.lift(st, lambda n: Num(fact(self.num(n).e)), *args)
        if fq == 'math.perm':
            return self.lift(st, lambda n, k: Num(fact(self.num(n).e) * ifact(self.num(n).e - self.num(k).e)), *args)
        if fq in ('math.exp', 'numpy.exp'):
            return self.lift(st, lambda x: Num(expo(self.num(x).e), 'float'), *args)
        if fq in ('math.sqrt', 'numpy.sqrt'):
            return self.lift(st, lambda x: Num(power(self.num(x).e, const(Fraction(1, 2))), 'float'), *args)
        if fq in ('math.pow',):
            r = self.binop(ast.Pow(), args[0], args[1], st, node)
            return Num(r.e, 'float')
        if fq == 'math.prod':
            t = kw.get('start', Num(ONE))
            for b, p, v in self.seq_parts(args[0], st, node):
                if not b and not p:
                    t = self.binop(ast.Mult(), t, v, st, node)
                    continue
                from .values import prodx
                x = self.num(v)
                t = Num(t.e * prodx(b, p, x.e, self.facts(st)), numty(t.ty, x.ty))
            return t
        if fq == 'itertools.product':
            if kw:
                r = self.conc_int(kw['repeat'], node)
                return View('product', list(args) * r)
            return View('product', list(args))
        if fq in ('copy.copy', 'copy.deepcopy'):
            if self.poly(st, args[0]):
                o = st.heap[args[0].id]
                return self.new(st, PolyObj(o.kf, list(o.log)))
            if isinstance(args[0], Ref):
                return self.new(st, st.heap[args[0].id].clone())
            return args[0]
        if fq == 'functools.reduce':
            items = self.concrete_iter(args[1], st)
            if items is not None:
                acc = args[2] if len(args) > 2 else items.pop(0)
                for x in items:
                    acc = self.call(args[0], [acc, x], {}, st, fr, node)
                return acc
        self.uns(node, 'call of %s' % fq)

    def binom(self, n, k, st):
        F = self.facts(st)
        return binom(n, k)

    # ------------------------------------------------------------ spec language
    def spec_builtin(self, nm, args, kw, st, fr, node):
        if nm == 'NP':
            kf = [x.v for x in self.unpack(args[0], st, node)]
            return self.new(st, PolyObj(tuple(kf)))
        if nm == 'terms':
            return View('items', args[0])
        if nm in ('binomial',):
            return Num(binom(self.num(args[0]).e, self.num(args[1]).e))
        if nm == 'multinomial':
            n = self.num(args[0]).e
            r = fact(n)
            for x in self.unpack(args[1], st, node):
                r = r * ifact(self.num(x).e)
            return Num(r)
        if nm == 'facto':
            return Num(fact(self.num(args[0]).e))
        if nm == 'drop':
            k = args[0]
            names = [a.v for a in args[1:]]
            d = dict(zip(k.kf, k.items)) if isinstance(k, Tup) else dict(k.d)
            for x in names:
                d.pop(x)
            return NamedKey(d)
        if nm == 'ren':
            k = args[0]
            d = dict(zip(k.kf, k.items)) if isinstance(k, Tup) else dict(k.d)
            mp = {kk[0]: v.v for kk, (kv, v) in st.heap[args[1].id].conc.items()}
            out = {}
            for x, v in d.items():
                y = mp.get(x, x)
                if y is None:
                    continue
                out[y] = v if y not in out else self.binop(ast.Add(), out[y], v, st, node)
            return NamedKey(out)
        if nm == 'emit':
            o = st.heap[args[0].id]
            from .interp import kind_of
            vals = {}
            for p in args[2:]:
                if isinstance(p, Tup):
                    if p.kf is None:
                        self.uns(node, 'emit: key without names')
                    d = dict(zip(p.kf, p.items))
                elif isinstance(p, NamedKey):
                    d = p.d
                elif isinstance(p, Ref) and st.heap[p.id].kind == 'dict':
                    d = {}
                    for kk, (kv, v) in st.heap[p.id].conc.items():
                        d[kk[0]] = v
                else:
                    self.uns(node, 'emit argument')
                for x, v in d.items():
                    if x not in o.kf:
                        self.uns(node, 'emit: component %r not in the target keyfor' % x)
                    if x in vals:
                        a = vals[x]
                        if isinstance(a, Tup) and isinstance(v, Tup) and kind_of(x) == 'pair':
                            vals[x] = Tup([self.binop(ast.Add(), p1, q1, st, node) for p1, q1 in zip(a.items, v.items)])
                        elif isinstance(a, T0V) and isinstance(v, T0V):
                            vals[x] = T0V(a.fs + v.fs)
                        elif isinstance(a, T0V) and isinstance(v, Tup):
                            vals[x] = self.t0_concat(a, Tup([v]), node)
                        else:
                            vals[x] = self.binop(ast.Add(), a, v, st, node)
                    else:
                        if kind_of(x) == 't0' and isinstance(v, Tup):
                            v = self.t0_concat(T0V([]), Tup([v]), node)
                        vals[x] = v
            key = []
            for x in o.kf:
                if x in vals:
                    key.append(vals[x])
                    continue
                k = kind_of(x)
                key.append({'int': Num(ZERO), 'pair': Tup([Num(ZERO)] * 2), 'tri': Tup([Num(ZERO)] * 3),
                            't0': T0V([])}.get(k, Tup([])))
            self.emit(st, o, 'add', Tup(key, o.kf), args[1], node)
            return Const(None)
        self.uns(node, 'spec builtin %s' % nm)


class SymSeqC(V):
    """a generator of concretely known elements"""

    def __init__(self, items):
        self.items = items


_rep = None


def Rep_():
    global _rep
    if _rep is None:
        from .interp import Rep
        _rep = Rep
    return _rep
