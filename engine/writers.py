"""What the writers put into a file: the text as a template over symbolic exponents and coefficients.

A small abstract interpreter: containers and the text around are concrete, every integer, exponent and coefficient of the
polynomial is a symbol (its decimal text unknown but for: an optional sign, then digits), and a condition on symbols splits
the path.  Nothing of the analysed code is imported or executed."""
import ast
import itertools
from fractions import Fraction
from .expr import Unsupported
from .literal import Report


class Raised(Exception):
    def __init__(self, name, line):
        self.name, self.line = name, line


class Stop(Exception):
    """return / break / continue"""

    def __init__(self, what, v=None):
        self.what, self.v = what, v


class Sym:
    """a number known by name; op: what it was computed from"""

    def __init__(self, name, kind='int', op=None):
        self.name, self.kind, self.op = name, kind, op

    def __repr__(self):
        return self.name


class Tpl:
    """text: literal pieces and symbols"""

    def __init__(self, parts):
        self.parts = tuple(parts)


def text(*xs):
    out = []
    for x in xs:
        for p in (x.parts if isinstance(x, Tpl) else (x,)):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Tpl(out)


def is_text(x):
    return isinstance(x, (str, Tpl))


def parts(x):
    return x.parts if isinstance(x, Tpl) else (x,) if x != '' else ()


class PolyV:
    def __init__(self, kf=(), d=None):
        self.kf, self.d = kf, dict(d or {})


class FileV:
    def __init__(self, name):
        self.name = name


class CsvW:
    def __init__(self, f, o):
        self.f, self.o = f, o


class Func:
    def __init__(self, mod, name, node, env=None, me=None):
        self.mod, self.name, self.node, self.env, self.me = mod, name, node, env, me


class Bound:
    """a method of a built-in value"""

    def __init__(self, v, nm):
        self.v, self.nm = v, nm


class Mod:
    def __init__(self, fq):
        self.fq = fq


class Type:
    def __init__(self, nm):
        self.nm = nm


SAMPLES = [Fraction(x) for x in range(-12, 13)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(10 ** 6), Fraction(-10 ** 6), Fraction(7, 3)]
BUILTINS = ('str', 'repr', 'len', 'range', 'enumerate', 'zip', 'sorted', 'list', 'tuple', 'map', 'print', 'open', 'int', 'isinstance',
            'reversed', 'sum', 'format', 'dict', 'set', 'bool', 'min', 'max', 'abs', 'float', 'any', 'all', 'iter', 'next', 'filter', 'Fraction',
            'hasattr', 'getattr', 'type', 'frozenset')
ERRORS = ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'AssertionError')


class Run:
    """one path, along the given decisions"""

    def __init__(self, prog, plan, stubs):
        self.prog, self.plan, self.stubs = prog, list(plan), stubs
        self.taken = []
        self.known = {}
        self.files = {}
        self.order = []
        self.steps = 0
        self.depth = 0
        self.limits = []            # (symbol, test on a value)

    # ------------------------------------------------------------ decisions
    def decide(self, key, test=None, sym=None):
        """truth of an unknown condition"""
        if key in self.known:
            return self.known[key]
        if test is not None:
            dom = [v for v in self.domain(sym) if all(t(v) for s, t in self.limits if s is sym)]
            yes = any(test(v) for v in dom)
            no = any(not test(v) for v in dom)
            if yes != no:
                return yes
        i = len(self.taken)
        v = self.plan[i] if i < len(self.plan) else True
        self.taken.append(v)
        self.known[key] = v
        if test is not None:
            self.limits.append((sym, test if v else lambda x: not test(x)))
        return v

    def domain(self, s):
        return [x for x in SAMPLES if (s.kind == 'frac' or x.denominator == 1) and (s.kind != 'den' or x >= 1)]

    def truth(self, v):
        if isinstance(v, Sym):
            return self.decide(('nz', v), lambda x: x != 0, v)
        if isinstance(v, Tpl):
            return True
        if isinstance(v, PolyV):
            return bool(v.d)
        if isinstance(v, (Func, FileV, Bound, Mod, Type, CsvW)):
            return True
        return bool(v)

    def uns(self, why, node=None):
        raise Unsupported('%s%s' % (why, ' (line %s)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        if isinstance(f, Func):
            fq = f.mod.name + '.' + f.name
            if fq in self.stubs:
                return self.stubs[fq](args)
            self.depth += 1
            if self.depth > 40:
                self.uns('call depth', node)
            a = f.node.args
            env = dict(f.env or {})
            ps = [x.arg for x in a.posonlyargs + a.args]
            args = ([f.me] if f.me is not None else []) + list(args)
            if a.kwarg or (len(args) > len(ps) and not a.vararg):
                self.uns('arguments', node)
            got = dict(zip(ps, args))
            if a.vararg:
                got[a.vararg.arg] = tuple(args[len(ps):])
            got.update(kw)
            for nm, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                if nm not in got:
                    got[nm] = self.ev(d, {}, f.mod)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in got and d is not None:
                    got[x.arg] = self.ev(d, {}, f.mod)
            env.update(got)
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env, f.mod)
                self.depth -= 1
                return r
            for x in f.node.decorator_list:
                if not (isinstance(x, ast.Name) and x.id in ('staticmethod', 'classmethod', 'property')):
                    self.uns('decorator', node)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                out = []
                env['yield '] = out
                try:
                    self.block(f.node.body, env, f.mod)
                except Stop as x:
                    if x.what != 'return':
                        raise
                self.depth -= 1
                return out
            try:
                self.block(f.node.body, env, f.mod)
            except Stop as x:
                if x.what != 'return':
                    raise
                self.depth -= 1
                return x.v
            self.depth -= 1
            return None
        if isinstance(f, Type):
            return self.builtin(f.nm, args, kw, node)
        if isinstance(f, Bound):
            return self.method(f.v, f.nm, args, kw, node)
        self.uns('call', node)

    def to_str(self, v, rep=False, node=None):
        if isinstance(v, Tpl):
            if rep:
                self.uns('repr of text', node)
            return v
        if isinstance(v, str):
            return repr(v) if rep else v
        if isinstance(v, Sym):
            if rep and v.kind == 'frac':
                return Tpl([Sym('repr(%s)' % v.name, 'odd', ('repr', v))])
            return Tpl([v])
        if isinstance(v, (tuple, list)):
            o, c = ('(', ')') if isinstance(v, tuple) else ('[', ']')
            xs = [o]
            for i, x in enumerate(v):
                xs += ([', '] if i else []) + [self.to_str(x, True, node)]
            if isinstance(v, tuple) and len(v) == 1:
                xs.append(',')
            return text(*(xs + [c]))
        if v is None or isinstance(v, (bool, int, Fraction)):
            return repr(v) if rep else str(v)
        self.uns('str of %s' % type(v).__name__, node)

    def iter(self, v, node=None):
        if isinstance(v, PolyV):
            return list(v.d)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (tuple, list, range, str)):
            return list(v)
        if isinstance(v, set):
            return list(v)
        self.uns('iteration over %s' % type(v).__name__, node)

    def builtin(self, nm, args, kw, node):
        if nm == 'print':
            return None
        if nm in ('str', 'repr'):
            return self.to_str(args[0], nm == 'repr', node) if args else ''
        if nm == 'format':
            return self.fmt(args[0], args[1] if len(args) > 1 else '', node)
        if nm == 'len':
            v = args[0]
            if isinstance(v, PolyV):
                return len(v.d)
            if isinstance(v, (str, tuple, list, dict, range, set)):
                return len(v)
            self.uns('len', node)
        if nm == 'range':
            if all(isinstance(x, int) for x in args):
                return range(*args)
            self.uns('range', node)
        if nm == 'enumerate':
            st = args[1] if len(args) > 1 else kw.get('start', 0)
            return [(i + st, x) for i, x in enumerate(self.iter(args[0], node))]
        if nm == 'zip':
            return list(zip(*[self.iter(x, node) for x in args]))
        if nm == 'list' or nm == 'iter':
            return self.iter(args[0], node) if args else []
        if nm == 'tuple':
            return tuple(self.iter(args[0], node)) if args else ()
        if nm == 'reversed':
            return self.iter(args[0], node)[::-1]
        if nm in ('set', 'frozenset'):
            try:
                return set(self.iter(args[0], node)) if args else set()
            except TypeError:
                self.uns('set', node)
        if nm == 'dict':
            if not args:
                return dict(kw)
            v = args[0]
            return dict(v.d if isinstance(v, PolyV) else v if isinstance(v, dict) else self.iter(v, node))
        if nm == 'map':
            return [self.call(args[0], [x], {}, node) if len(args) == 2 else self.call(args[0], list(x), {}, node)
                    for x in (self.iter(args[1], node) if len(args) == 2 else zip(*[self.iter(y, node) for y in args[1:]]))]
        if nm == 'filter':
            return [x for x in self.iter(args[1], node) if self.truth(x if args[0] is None else self.call(args[0], [x], {}, node))]
        if nm == 'sorted':
            xs = self.iter(args[0], node)
            if kw.get('key') is not None:
                ks = [self.call(kw['key'], [x], {}, node) for x in xs]
            else:
                ks = xs
            if len(xs) > 1 and any(self.has_sym(k) for k in ks):
                return xs               # some order of the same elements
            return [x for k, x in sorted(zip(ks, xs), key=lambda t: t[0], reverse=self.truth(kw.get('reverse', False)))]
        if nm == 'sum':
            r = args[1] if len(args) > 1 else kw.get('start', 0)
            for x in self.iter(args[0], node):
                r = self.binop(ast.Add(), r, x, node)
            return r
        if nm == 'int':
            v = args[0]
            if isinstance(v, Sym) and v.kind in ('int', 'den'):
                return v
            if isinstance(v, (int, Fraction)):
                return int(v)
            if isinstance(v, Sym):
                return Sym('int(%s)' % v.name, 'odd', ('int', v))
            self.uns('int', node)
        if nm == 'float':
            return Sym('float(%s)' % (args[0],), 'odd', ('float', args[0]))
        if nm == 'Fraction':
            if len(args) == 1 and isinstance(args[0], (Sym, int, Fraction)) and not (isinstance(args[0], Sym) and args[0].kind == 'odd'):
                return args[0]
            self.uns('Fraction', node)
        if nm == 'abs' and isinstance(args[0], Sym):
            return Sym('abs(%s)' % args[0].name, 'odd', ('abs', args[0]))
        if nm == 'bool':
            return self.truth(args[0])
        if nm in ('any', 'all'):
            for x in self.iter(args[0], node):
                if self.truth(x) == (nm == 'any'):
                    return nm == 'any'
            return nm == 'all'
        if nm in ('min', 'max') and not kw:
            xs = self.iter(args[0], node) if len(args) == 1 else args
            if all(isinstance(x, (int, Fraction)) for x in xs) and xs:
                return min(xs) if nm == 'min' else max(xs)
            self.uns(nm, node)
        if nm == 'isinstance':
            return self.isinst(args[0], args[1], node)
        if nm == 'next':
            v = args[0]
            if isinstance(v, list):
                if v:
                    return v.pop(0)
                if len(args) > 1:
                    return args[1]
                raise Raised('StopIteration', node.lineno)
            self.uns('next', node)
        if nm in ('hasattr', 'getattr'):
            self.uns(nm, node)
        if nm == 'open':
            return self.open(args, kw, node)
        if nm == 'Poly' or nm == 'UserDict':
            d = args[0] if args else {}
            if isinstance(d, PolyV):
                return PolyV((), d.d)
            return PolyV((), {k: v for k, v in d.items()} if isinstance(d, dict) else dict(self.iter(d, node)))
        if nm == 'csv.writer':
            return CsvW(args[0], kw)
        if nm == 'Path':
            self.uns('Path', node)
        self.uns('call of %s' % nm, node)

    def isinst(self, v, t, node):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if not isinstance(x, Type):
                self.uns('isinstance', node)
            n = x.nm
            if n == 'str' and is_text(v) or n == 'tuple' and isinstance(v, tuple) or n == 'list' and isinstance(v, list) \
                    or n == 'dict' and isinstance(v, dict) or n == 'Poly' and isinstance(v, PolyV):
                return True
            if n == 'int' and (isinstance(v, int) or isinstance(v, Sym) and v.kind in ('int', 'den')):
                return True
            if n == 'Fraction' and (isinstance(v, Fraction) or isinstance(v, Sym) and v.kind == 'frac'):
                return True
            if n not in ('str', 'tuple', 'list', 'dict', 'Poly', 'int', 'Fraction', 'float', 'bool'):
                self.uns('isinstance', node)
        return False

    def has_sym(self, v):
        if isinstance(v, (Sym, Tpl)):
            return True
        if isinstance(v, (tuple, list)):
            return any(self.has_sym(x) for x in v)
        return False

    def open(self, args, kw, node):
        name = args[0]
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str) or not is_text(name):
            self.uns('open', node)
        if isinstance(name, Tpl):
            name = ''.join(p if isinstance(p, str) else '<%s>' % p.name for p in name.parts)
        if 'b' in mode:
            self.uns('binary file', node)
        if mode[0] in 'wx' or mode[0] == 'a' and name not in self.files:
            if mode[0] == 'x':
                raise Raised('FileExistsError', node.lineno)
            if mode[0] == 'a':
                self.files[name] = ['earlier content\n']
            else:
                self.files[name] = []
            if name not in self.order:
                self.order.append(name)
        elif mode[0] != 'a':
            self.uns('open for reading', node)
        return FileV(name)

    # ------------------------------------------------------------ methods
    def method(self, v, nm, args, kw, node):
        if isinstance(v, FileV):
            if nm == 'write':
                if not is_text(args[0]):
                    raise Raised('TypeError', node.lineno)
                self.files[v.name].append(args[0])
                return Sym('written', 'odd')
            if nm == 'writelines':
                for x in self.iter(args[0], node):
                    self.files[v.name].append(x)
                return None
            if nm in ('close', 'flush'):
                return None
            self.uns('file.%s' % nm, node)
        if isinstance(v, CsvW):
            rows = [args[0]] if nm == 'writerow' else self.iter(args[0], node) if nm == 'writerows' else self.uns('csv.%s' % nm, node)
            o = v.o
            if set(o) - {'lineterminator', 'delimiter', 'quoting'} or 'quoting' in o:
                self.uns('csv options', node)
            d, t = o.get('delimiter', ','), o.get('lineterminator', '\r\n')
            for r in rows:
                cells = []
                for x in self.iter(r, node):
                    s = '' if x is None else self.to_str(x, False, node)
                    lit = ''.join(p for p in parts(s) if isinstance(p, str))
                    if any(c in lit for c in (d, '"', '\n', '\r')):
                        s = text('"', *[p.replace('"', '""') if isinstance(p, str) else p for p in parts(s)], '"')
                    cells.append(s)
                line = []
                for i, c in enumerate(cells):
                    line += ([d] if i else []) + [c]
                self.files[v.f.name].append(text(*(line + [t])))
            return None
        if isinstance(v, PolyV):
            if nm in ('items', 'keys', 'values'):
                return {'items': lambda: list(v.d.items()), 'keys': lambda: list(v.d), 'values': lambda: list(v.d.values())}[nm]()
            if nm == 'get':
                return v.d.get(args[0], args[1] if len(args) > 1 else None)
            if nm == 'copy':
                return PolyV(v.kf, v.d)
            if nm == 'pop':
                if args[0] in v.d:
                    return v.d.pop(args[0])
                if len(args) > 1:
                    return args[1]
                raise Raised('KeyError', node.lineno)
            if nm == 'update':
                v.d.update(args[0].d if isinstance(args[0], PolyV) else args[0])
                return None
            if nm == 'setdefault':
                return v.d.setdefault(*args)
            if nm == 'clear':
                v.d.clear()
                return None
            self.uns('poly.%s' % nm, node)
        if isinstance(v, str) and not self.has_sym(args) and not self.has_sym(tuple(kw.values())) and nm != 'join' and nm != 'format':
            try:
                return getattr(v, nm)(*args, **kw)
            except (AttributeError, TypeError, ValueError, IndexError):
                self.uns('str.%s' % nm, node)
        if is_text(v):
            if nm == 'join':
                out = []
                for i, x in enumerate(self.iter(args[0], node)):
                    if not is_text(x):
                        raise Raised('TypeError', node.lineno)
                    out += ([v] if i else []) + [x]
                return text(*out)
            if nm == 'format' and isinstance(v, str):
                return self.str_format(v, args, kw, node)
            ps = parts(v)
            if nm == 'endswith' and isinstance(args[0], str) and isinstance(ps[-1], str) and len(ps[-1]) >= len(args[0]):
                return ps[-1].endswith(args[0])
            if nm == 'startswith' and isinstance(args[0], str) and isinstance(ps[0], str) and len(ps[0]) >= len(args[0]):
                return ps[0].startswith(args[0])
            if nm == 'replace' and all(isinstance(x, str) for x in args) and len(args) == 2 and not any(c in '0123456789-' for c in args[0]):
                if len(args[0]) == 1:
                    return text(*[p.replace(*args) if isinstance(p, str) else p for p in ps])
            if nm in ('strip', 'rstrip', 'lstrip') and (not args or isinstance(args[0], str) and not any(c in '0123456789-' for c in args[0])):
                q = list(ps)
                if nm != 'rstrip' and isinstance(q[0], str):
                    q[0] = q[0].lstrip(*args)
                if nm != 'lstrip' and isinstance(q[-1], str):
                    q[-1] = q[-1].rstrip(*args)
                return text(*q)
            if nm == 'split' and args and isinstance(args[0], str) and len(args) == 1 and not any(c in '0123456789-' for c in args[0]):
                out = [[]]
                for p in ps:
                    if isinstance(p, Sym):
                        out[-1].append(p)
                        continue
                    q = p.split(args[0])
                    out[-1].append(q[0])
                    out += [[x] for x in q[1:]]
                return [text(*x) for x in out]
            if nm == 'encode':
                self.uns('encode', node)
            self.uns('text.%s' % nm, node)
        if isinstance(v, list):
            if nm in ('append', 'extend', 'insert', 'pop', 'copy', 'reverse', 'clear'):
                if nm == 'extend':
                    v.extend(self.iter(args[0], node))
                    return None
                try:
                    return getattr(v, nm)(*args)
                except IndexError:
                    raise Raised('IndexError', node.lineno)
            if nm == 'sort':
                v[:] = self.builtin('sorted', [v], kw, node)
                return None
        if isinstance(v, (list, tuple)) and nm in ('index', 'count'):
            hit = [i for i, x in enumerate(v) if self.eq(x, args[0], node)]
            if nm == 'count':
                return len(hit)
            if not hit:
                raise Raised('ValueError', node.lineno)
            return hit[0]
        if isinstance(v, dict):
            if nm in ('items', 'keys', 'values'):
                return list(getattr(v, nm)())
            if nm in ('get', 'setdefault', 'pop', 'update', 'copy', 'clear'):
                try:
                    return getattr(v, nm)(*args)
                except KeyError:
                    raise Raised('KeyError', node.lineno)
        if isinstance(v, set) and nm in ('add', 'discard', 'update'):
            return getattr(v, nm)(*args)
        self.uns('%s.%s' % (type(v).__name__, nm), node)

    def str_format(self, v, args, kw, node):
        import string
        out, n = [], 0
        for lit, name, spec, conv in string.Formatter().parse(v):
            out.append(lit)
            if name is None:
                continue
            if name == '':
                x = args[n]
                n += 1
            elif name.isdigit():
                x = args[int(name)]
            elif name.isidentifier() and name in kw:
                x = kw[name]
            else:
                self.uns('format', node)
            out.append(self.fmt(self.to_str(x, conv == 'r', node) if conv else x, spec or '', node))
        return text(*out)

    def fmt(self, x, spec, node):
        if spec == '':
            return self.to_str(x, False, node)
        if self.has_sym(x):
            if isinstance(x, Sym):
                if spec in ('d', 's') and x.kind in ('int', 'den'):
                    return Tpl([x])
                return Tpl([Sym('format(%s)' % x.name, 'odd', ('format', x))])
            self.uns('format', node)
        try:
            return format(x, spec)
        except (ValueError, TypeError):
            self.uns('format', node)

    # ------------------------------------------------------------ expressions
    def eq(self, a, b, node):
        if a is b:
            return True
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            return len(a) == len(b) and all(self.eq(x, y, node) for x, y in zip(a, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not isinstance(a, Sym):
                a, b = b, a
            if isinstance(b, Sym):
                return self.decide(('eq', frozenset((a, b))))
            if isinstance(b, (int, Fraction)):
                return self.decide(('eq', a, b), lambda x: x == b, a)
            return False
        if isinstance(a, Tpl) or isinstance(b, Tpl):
            pa, pb = ''.join(p for p in parts(a) if isinstance(p, str)) if is_text(a) else '', b
            if not is_text(a) or not is_text(b):
                return False
            return self.decide(('texteq', parts(a), parts(b)))
        try:
            return bool(a == b)
        except TypeError:
            self.uns('==', node)

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, node)
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b if (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)) else self.eq(a, b, node)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, Sym) or isinstance(b, Sym):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            t = type(op)
            if not isinstance(a, Sym):
                a, b, t = b, a, flip[t]
            if isinstance(b, Sym):
                k = {ast.Lt: ('lt', a, b, False), ast.GtE: ('lt', a, b, True), ast.Gt: ('lt', b, a, False), ast.LtE: ('lt', b, a, True)}[t]
                return self.decide(k[:3]) != k[3]
            f = {ast.Lt: lambda x: x < b, ast.Gt: lambda x: x > b, ast.LtE: lambda x: x <= b, ast.GtE: lambda x: x >= b}[t]
            return self.decide(('cmp', t.__name__, a, b), f, a)
        if self.has_sym(a) or self.has_sym(b):
            self.uns('comparison', node)
        try:
            return {ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError:
            raise Raised('TypeError', node.lineno)

    def contains(self, c, x, node):
        if is_text(c) and is_text(x):
            if isinstance(x, Tpl):
                self.uns('in', node)
            if any(isinstance(p, str) and x in p for p in parts(c)):
                return True
            if isinstance(c, str):
                return False
            if any(ch not in '0123456789-' for ch in x) and (len(x) == 1):
                return bool('/' == x and any(isinstance(p, Sym) and p.kind == 'frac' for p in parts(c))) and self.decide(('in', x, parts(c)))
            return self.decide(('in', x, parts(c)))
        if isinstance(c, PolyV):
            c = list(c.d)
        if isinstance(c, (dict, set)):
            c = list(c)
        if isinstance(c, (list, tuple, range)):
            if isinstance(x, tuple) and self.has_sym(x):
                return any(x is y or x == y for y in c)         # terms have distinct exponents
            return any(self.eq(y, x, node) for y in c)
        self.uns('in', node)

    def binop(self, op, a, b, node):
        t = type(op)
        if t is ast.Add and is_text(a) and is_text(b):
            return text(a, b)
        if t is ast.Add and isinstance(a, tuple) and isinstance(b, tuple) or t is ast.Add and isinstance(a, list) and isinstance(b, list):
            return a + b
        if t is ast.Mult and isinstance(a, (tuple, list, str)) and isinstance(b, int):
            return a * b
        if t is ast.Mult and isinstance(a, Tpl) and isinstance(b, int):
            return text(*([a] * b))
        if t is ast.Mod and isinstance(a, str):
            return self.percent(a, b, node)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            try:
                if t is ast.Div:
                    return Fraction(a) / b
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[t]()
            except (KeyError, ZeroDivisionError):
                self.uns('arithmetic', node)
        if isinstance(a, Sym) and isinstance(b, (Sym, int, Fraction)) or isinstance(b, Sym) and isinstance(a, (int, Fraction)):
            if b == 0 and t in (ast.Add, ast.Sub) and isinstance(a, Sym) or b == 1 and t in (ast.Mult, ast.Div):
                return a
            if a == 0 and t is ast.Add or a == 1 and t is ast.Mult:
                return b
            return Sym('%s %s %s' % (a, t.__name__, b), 'odd', (t.__name__, a, b))
        if isinstance(a, set) and isinstance(b, set):
            return {ast.BitOr: a | b, ast.BitAnd: a & b, ast.Sub: a - b}[t]
        if is_text(a) != is_text(b) or isinstance(a, tuple) != isinstance(b, tuple) or isinstance(a, list) != isinstance(b, list):
            raise Raised('TypeError', node.lineno)
        self.uns('operator', node)

    def percent(self, a, b, node):
        import re
        xs = list(b) if isinstance(b, tuple) else [b]
        out, i = [], 0
        for m in re.finditer(r'%([sdr%])', a):
            out.append(a[i:m.start()])
            i = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            x = xs.pop(0)
            out.append(self.to_str(x, m.group(1) == 'r', node))
        out.append(a[i:])
        if '%' in a[i:] or xs:
            self.uns('%', node)
        return text(*out)

    def name(self, n, env, mod, node):
        if n in env:
            return env[n]
        if n in mod.funcs and '.' not in n:
            return Func(mod, n, mod.funcs[n])
        if n in mod.classes:
            return Type(n)
        if n in mod.consts and mod.const_count.get(n, 0) == 1:
            return self.ev(mod.consts[n], {}, mod)
        if n in mod.imports:
            r = self.prog.resolve(mod.imports[n])
            if r[0] == 'func':
                return Func(r[1], r[2], r[1].funcs[r[2]])
            if r[0] == 'class':
                return Type(r[2])
            if r[0] == 'const':
                return self.ev(r[1].consts[r[2]], {}, r[1])
            fq = mod.imports[n]
            if fq in ('fractions.Fraction', 'collections.UserDict'):
                return Type(fq.split('.')[1])
            if fq == 'csv.writer':
                return Type(fq)
            return Mod(fq)
        if n in BUILTINS or n in ERRORS:
            return Type(n)
        self.uns('name %s' % n, node)

    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > 200000:
            self.uns('too long')
        t = type(e).__name__
        f = getattr(self, 'x_' + t, None)
        if f is None:
            self.uns('expression %s' % t, e)
        return f(e, env, mod)

    def x_Constant(self, e, env, mod):
        if isinstance(e.value, float):
            return Sym(repr(e.value), 'odd', ('float',))
        return e.value

    def x_Name(self, e, env, mod):
        return self.name(e.id, env, mod, e)

    def seq(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iter(self.ev(x.value, env, mod), x)
            else:
                out.append(self.ev(x, env, mod))
        return out

    def x_Tuple(self, e, env, mod):
        return tuple(self.seq(e.elts, env, mod))

    def x_List(self, e, env, mod):
        return self.seq(e.elts, env, mod)

    def x_Set(self, e, env, mod):
        return set(self.seq(e.elts, env, mod))

    def x_Dict(self, e, env, mod):
        return {self.ev(k, env, mod): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)}

    def x_JoinedStr(self, e, env, mod):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, env, mod)
                if p.conversion in (ord('s'), ord('r')):
                    v = self.to_str(v, p.conversion == ord('r'), p)
                spec = self.ev(p.format_spec, env, mod) if p.format_spec is not None else ''
                out.append(self.fmt(v, spec, e))
        return text(*out)

    def x_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod), e)

    def x_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return Sym('-%s' % v.name, 'odd', ('neg', v)) if isinstance(v, Sym) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        self.uns('operator', e)

    def x_BoolOp(self, e, env, mod):
        for x in e.values[:-1]:
            v = self.ev(x, env, mod)
            if self.truth(v) == isinstance(e.op, ast.Or):
                return v
        return self.ev(e.values[-1], env, mod)

    def x_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def x_Compare(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env, mod)
            if not self.compare(op, a, b, e):
                return False
            a = b
        return True

    def x_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        env[e.target.id] = v
        return v

    def x_Lambda(self, e, env, mod):
        return Func(mod, '<lambda>', e, env)

    def comp(self, e, env, mod):
        out = []
        env = dict(env)

        def go(i):
            if i == len(e.generators):
                out.append((self.ev(e.key, env, mod), self.ev(e.value, env, mod)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env, mod))
                return
            g = e.generators[i]
            for x in self.iter(self.ev(g.iter, env, mod), e):
                self.assign(g.target, x, env, mod)
                if all(self.truth(self.ev(c, env, mod)) for c in g.ifs):
                    go(i + 1)
        go(0)
        return out

    def x_ListComp(self, e, env, mod):
        return self.comp(e, env, mod)

    x_GeneratorExp = x_ListComp

    def x_SetComp(self, e, env, mod):
        return set(self.comp(e, env, mod))

    def x_DictComp(self, e, env, mod):
        return dict(self.comp(e, env, mod))

    def x_Attribute(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        a = e.attr
        if isinstance(v, PolyV):
            if a == 'keyfor':
                return v.kf
            if a == 'data':
                return v.d
            m = self.prog.mods.get('ajdmom.poly')
            if m and 'Poly.' + a in m.funcs:
                n = m.funcs['Poly.' + a]
                deco = [x.id for x in n.decorator_list if isinstance(x, ast.Name)]
                f = Func(m, 'Poly.' + a, n, None, None if 'staticmethod' in deco else v)
                return self.call(f, [], {}, e) if 'property' in deco else f
            return Bound(v, a)
        if isinstance(v, Sym):
            if a in ('numerator', 'denominator'):
                if v.kind == 'frac':
                    return v.op[a]
                if v.kind in ('int', 'den'):
                    return v if a == 'numerator' else 1
            self.uns('attribute %s' % a, e)
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool) and a in ('numerator', 'denominator'):
            return getattr(v, a)
        if isinstance(v, Mod):
            fq = v.fq + '.' + a
            r = self.prog.resolve(fq)
            if r[0] == 'func':
                return Func(r[1], r[2], r[1].funcs[r[2]])
            if r[0] == 'class':
                return Type(r[2])
            if fq == 'csv.writer' or fq == 'fractions.Fraction':
                return Type(fq if fq == 'csv.writer' else 'Fraction')
            if fq == 'os.linesep':
                return '\n'
            self.uns('module attribute %s' % fq, e)
        if isinstance(v, Type) and v.nm == 'Poly':
            m = self.prog.mods.get('ajdmom.poly')
            if m and 'Poly.' + a in m.funcs:
                return Func(m, 'Poly.' + a, m.funcs['Poly.' + a])
        if isinstance(v, Type):
            if v.nm == 'str' and a in ('join', 'format', 'replace', 'endswith'):
                return Func(mod, '<str>', ast.parse('lambda s, *a: s.%s(*a)' % a, mode='eval').body)
            self.uns('attribute', e)
        return Bound(v, a)

    def x_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = self.seq(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not isinstance(d, dict):
                    self.uns('**', e)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw, e)

    def x_Subscript(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        i = self.idx(e.slice, env, mod)
        if isinstance(v, PolyV):
            if i in v.d:
                return v.d[i]
            raise Raised('KeyError', e.lineno)
        if isinstance(v, dict):
            if i in v:
                return v[i]
            raise Raised('KeyError', e.lineno)
        if isinstance(v, (tuple, list, str, range)) and isinstance(i, (int, slice)):
            try:
                return v[i]
            except IndexError:
                raise Raised('IndexError', e.lineno)
        if isinstance(v, Tpl) and isinstance(i, slice) and i.step is None:
            q = list(v.parts)
            lo, hi = i.start or 0, i.stop
            if lo >= 0 and isinstance(q[0], str) and len(q[0]) >= lo:
                q[0] = q[0][lo:]
            elif lo:
                self.uns('slice', e)
            if hi is not None:
                if hi < 0 and isinstance(q[-1], str) and len(q[-1]) >= -hi:
                    q[-1] = q[-1][:hi]
                else:
                    self.uns('slice', e)
            return text(*q)
        self.uns('subscript', e)

    def idx(self, s, env, mod):
        if isinstance(s, ast.Slice):
            xs = [None if x is None else self.ev(x, env, mod) for x in (s.lower, s.upper, s.step)]
            if any(x is not None and not isinstance(x, int) for x in xs):
                self.uns('slice', s)
            return slice(*xs)
        return self.ev(s, env, mod)

    def x_Yield(self, e, env, mod):
        env['yield '].append(self.ev(e.value, env, mod) if e.value is not None else None)

    def x_Starred(self, e, env, mod):
        self.uns('starred', e)

    # ------------------------------------------------------------ statements
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iter(v, t)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - i - 1
                xs = xs[:i] + [xs[i:len(xs) - n]] + xs[len(xs) - n:]
            if len(xs) != len(t.elts):
                raise Raised('ValueError', t.lineno)
            for x, y in zip(t.elts, xs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.idx(t.slice, env, mod)
            if isinstance(o, PolyV):
                o.d[i] = v
            elif isinstance(o, (dict, list)):
                try:
                    o[i] = v
                except IndexError:
                    raise Raised('IndexError', t.lineno)
            else:
                self.uns('assignment', t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, PolyV) and t.attr == 'keyfor':
                o.kf = v
            elif isinstance(o, PolyV) and t.attr == 'data':
                o.d = v
            else:
                self.uns('assignment', t)
        else:
            self.uns('assignment', t)

    def block(self, body, env, mod):
        for s in body:
            self.steps += 1
            t = type(s).__name__
            f = getattr(self, 's_' + t, None)
            if f is None:
                self.uns('statement %s' % t, s)
            f(s, env, mod)

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Import(self, s, env, mod):
        for a in s.names:
            env[a.asname or a.name] = Mod(a.name)

    def s_ImportFrom(self, s, env, mod):
        self.uns('import', s)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        old = self.ev(ast.copy_location(ast.fix_missing_locations(ast.parse(ast.unparse(s.target), mode='eval')).body, s), env, mod)
        v = self.ev(s.value, env, mod)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old += self.iter(v, s)
            return
        self.assign(s.target, self.binop(s.op, old, v, s), env, mod)

    def s_If(self, s, env, mod):
        self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)

    def s_For(self, s, env, mod):
        for x in self.iter(self.ev(s.iter, env, mod), s):
            self.assign(s.target, x, env, mod)
            try:
                self.block(s.body, env, mod)
            except Stop as y:
                if y.what == 'break':
                    return
                if y.what != 'continue':
                    raise
        self.block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 500:
                self.uns('loop', s)
            try:
                self.block(s.body, env, mod)
            except Stop as y:
                if y.what == 'break':
                    return
                if y.what != 'continue':
                    raise
        self.block(s.orelse, env, mod)

    def s_Break(self, s, env, mod):
        raise Stop('break')

    def s_Continue(self, s, env, mod):
        raise Stop('continue')

    def s_Return(self, s, env, mod):
        raise Stop('return', None if s.value is None else self.ev(s.value, env, mod))

    def s_With(self, s, env, mod):
        for i in s.items:
            v = self.ev(i.context_expr, env, mod)
            if not isinstance(v, FileV):
                self.uns('with', s)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, mod)
        self.block(s.body, env, mod)

    def s_Raise(self, s, env, mod):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise Raised(e.id if isinstance(e, ast.Name) else 'Exception', s.lineno)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise Raised('AssertionError', s.lineno)

    def s_FunctionDef(self, s, env, mod):
        env[s.name] = Func(mod, '<local>.' + s.name, s, env)

    def s_Try(self, s, env, mod):
        try:
            self.block(s.body, env, mod)
        except Raised as x:
            for h in s.handlers:
                ns = [] if h.type is None else [y.id for y in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(y, ast.Name)]
                if h.type is None or x.name in ns or 'Exception' in ns:
                    self.block(h.body, env, mod)
                    break
            else:
                self.block(s.finalbody, env, mod)
                raise
        except Stop:
            self.block(s.finalbody, env, mod)
            raise
        else:
            self.block(s.orelse, env, mod)
        self.block(s.finalbody, env, mod)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                i = self.idx(t.slice, env, mod)
                o = o.d if isinstance(o, PolyV) else o
                try:
                    del o[i]
                except (KeyError, IndexError):
                    raise Raised('KeyError', t.lineno)
            else:
                self.uns('del', s)

    def s_Global(self, s, env, mod):
        self.uns('global', s)


def paths(prog, fq, args, stubs=None, limit=400):
    """every path of fq at these arguments: (files in order, or Raised)"""
    r = prog.func(fq)
    m, nm, node = r
    plan = []
    out = []
    while True:
        run = Run(prog, plan, stubs or {})
        try:
            res = run.call(Func(m, nm, node), args() if callable(args) else args, {}, node)
            out.append((run, None, res))
        except Raised as x:
            out.append((run, x, None))
        except RecursionError:
            raise Unsupported('recursion')
        if len(out) > limit:
            raise Unsupported('too many paths')
        t = list(run.taken)
        while t and not t[-1]:
            t.pop()
        if not t:
            return out
        t[-1] = False
        plan = t


# ---------------------------------------------------------------- what the files must hold
def coef(i):
    n, d = Sym('num%d' % i), Sym('den%d' % i, 'den')
    return Sym('coef%d' % i, 'frac', {'numerator': n, 'denominator': d})


def shaped(sh, tag):
    return tuple(shaped(x, '%s.%d' % (tag, i)) for i, x in enumerate(sh)) if isinstance(sh, tuple) else Sym(tag)


def poly(kf, shapes, ints=()):
    """a polynomial with one term per shape, all numbers symbolic; the coefficients in ints are integers"""
    p = PolyV(tuple(kf))
    for i, sh in enumerate(shapes):
        k = tuple(shaped(x, 'k%d.%d' % (i, j)) for j, x in enumerate(sh))
        p.d[k] = Sym('coef%d' % i) if i in ints else coef(i)
    return p


def lines(chunks):
    """the file, as lines of characters and symbols; (lines, the last one ends with a newline)"""
    out, cur = [], []
    for p in parts(text(*chunks)):
        if isinstance(p, Sym):
            cur.append(p)
            continue
        for ch in p:
            if ch == '\n':
                out.append(cur)
                cur = []
            else:
                cur.append(ch)
    if cur:
        out.append(cur)
    return [[c for c in ln if c != '\r'] for ln in out], not cur


def cells(line):
    """csv columns, quotes undone; a column is a list of characters and symbols"""
    out, cur, q, start = [], [], False, True
    i = 0
    while i < len(line):
        c = line[i]
        if q:
            if c == '"':
                if i + 1 < len(line) and line[i + 1] == '"':
                    cur.append('"')
                    i += 1
                else:
                    q = False
            else:
                cur.append(c)
        elif c == '"' and start:
            q = True
        elif c == ',':
            out.append(cur)
            cur, start = [], True
            i += 1
            continue
        else:
            cur.append(c)
        start = False
        i += 1
    out.append(cur)
    if q:
        return None
    return [flat(x) for x in out]


def flat(x):
    out = []
    for c in x:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    if not out:
        return ('',)
    return tuple(out)


def odd(xs):
    return [x for x in xs if isinstance(x, Sym) and x.kind == 'odd']


SEQ = {'l_{1:n}': 'l', 'o_{1:n}': 'o', 'o_{2:n}': 'o', 'p_{2:n}': 'p', 'q_{2:n}': 'q'}


def strip(c):
    return tuple(x for x in (y.strip() if isinstance(y, str) else y for y in c) if x != '') or ('',)


def check_csv(run, p, files):
    """None or what is wrong with the csv file of p"""
    if len(files) != 1:
        return 'writes %d files' % len(files)
    st = Run(run.prog, [], {})
    ls, ended = lines(run.files[files[0]])
    if not ended:
        return 'the last line has no end'
    if not ls:
        return 'has no header'
    rows = [cells(x) for x in ls]
    if any(r is None for r in rows):
        return 'a quoted column is not closed'
    seqs = any(isinstance(n, str) and n == 'l_{1:n}' for n in p.kf)
    want = []
    for i, nm in enumerate(p.kf):
        if seqs and nm in SEQ:
            want.append((SEQ[nm], len(next(iter(p.d))[i]) if p.d else None))
        else:
            want.append((nm, None))
    head = rows[0]
    n = len(head)
    for r in rows[1:]:
        if len(r) != n:
            return 'the header has %d columns, a line below it has %d' % (n, len(r))
    if any(isinstance(x, Sym) for c in head for x in c):
        return 'the header depends on the terms'
    names = [c[0].strip() for c in head]
    j = 0
    for nm, ln in want:
        if ln is None and nm in SEQ.values() and seqs:
            while j < n and names[j][:1] == nm and names[j] not in p.kf:
                j += 1
            continue
        if ln is None:
            if j >= n or names[j] != nm:
                return 'the header has %r where %r belongs' % (names[j] if j < n else None, nm)
            j += 1
            continue
        got = names[j:j + ln]
        if len(got) != ln or any(not g.startswith(nm) for g in got) or len(set(got)) != ln:
            return 'the header names %r for the %d components of %s' % (got, ln, nm)
        nums = [int(''.join(ch for ch in g if ch.isdigit())) for g in got if any(ch.isdigit() for ch in g)]
        if nums != sorted(nums):
            return 'the header numbers the components of %s as %r' % (nm, got)
        j += ln
    if len(names) - j not in (1, 2):
        return 'the header has %d columns for the coefficient' % (len(names) - j)
    if len(rows) - 1 != len(p.d):
        return 'has %d lines for %d terms' % (len(rows) - 1, len(p.d))
    need = []
    for k, v in p.d.items():
        c = []
        for i, x in enumerate(k):
            if seqs and p.kf[i] in SEQ:
                c += [(y,) for y in x]
            else:
                t = st.to_str(x)
                c.append(flat([ch for q in parts(t) for ch in (q if isinstance(q, str) else [q])]))
        nu, de = (v.op['numerator'], v.op['denominator']) if v.kind == 'frac' else (v, None)
        need.append((c, nu, de, v))
    left = [[strip(c) for c in r] for r in rows[1:]]
    for c, nu, de, v in need:
        nc = [strip(x) for x in c]
        one = [nc + [(nu,), (de,) if de is not None else ('1',)]]
        if len(names) - j == 1:
            one = [nc + [(v,)]]
        for r in left:
            if r in one:
                left.remove(r)
                break
        else:
            same = [r for r in left if r[:len(nc)] == nc]
            if same:
                if odd([x for y in same[0][len(nc):] for x in y]):
                    return 'writes %s for a coefficient' % (odd([x for y in same[0][len(nc):] for x in y])[0].name)
                return 'writes the coefficient of a term wrongly'
            return 'has no line with the exponents of some term'
    return None


def check_txt(run, p, name, drop=()):
    """None or what is wrong with the text file of the terms p, given the names in its first line"""
    ls, ended = lines(run.files[name])
    if not ended:
        return 'the last line has no end', set()
    if not ls:
        return 'has no header', set()
    head = flat(ls[0])
    if any(isinstance(x, Sym) for x in head):
        return 'the header depends on the terms', set()
    at = 0
    kf = p.kf
    for nm in kf:
        i = head[0].find(repr(nm), at)
        if i < 0:
            return 'the header does not name %r in its place' % (nm,), set()
        at = i + 1
    if head[0].count("'") > 2 * len(kf) + sum(x.count("'") for x in kf):
        return 'the header names more than the variables', set()
    st = Run(run.prog, [], {})
    seen = set()
    need = []
    for k, v in p.d.items():
        t = st.to_str(k)
        need.append((k, flat([ch for q in parts(t) for ch in (q if isinstance(q, str) else [q])]), v))
    if len(ls) - 1 != len(need):
        return 'has %d lines for %d terms' % (len(ls) - 1, len(need)), seen
    for ln in ls[1:]:
        f = flat(ln)
        for k, t, v in need:
            if k in seen:
                continue
            if not starts(f, t):
                continue
            rest = [x for x in f if isinstance(x, Sym)][len([x for x in t if isinstance(x, Sym)]):]
            ok = [[v]] + ([[v.op['numerator'], v.op['denominator']]] if v.kind == 'frac' else [])
            if rest not in ok:
                return 'writes %s for the coefficient of a term' % (', '.join(x.name for x in rest) or 'nothing'), seen
            lits = [f[i + 1] for i, x in enumerate(f[:-1]) if x is rest[0] and len(rest) == 2]
            if len(rest) == 2 and (not lits or not isinstance(lits[0], str) or not lits[0].strip(' ')):
                return 'runs numerator and denominator together', seen
            if v.kind != 'frac' and not any(isinstance(x, str) for x in f):
                return 'writes the coefficient of a term wrongly', seen
            seen.add(k)
            break
        else:
            return 'has a line that is not a term of the polynomial, or is there twice', seen
    return None, seen


def starts(f, t):
    if len(f) < len(t):
        return False
    for i, x in enumerate(t):
        y = f[i]
        if isinstance(x, Sym):
            if x is not y:
                return False
        elif i == len(t) - 1:
            if not isinstance(y, str) or not y.startswith(x):
                return False
        elif x != y:
            return False
    return True


A = 'ajdmom.'
LOPQ = ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)']
LO = ['e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{2:n}']
T2 = ['(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu', 'v1']


def lopq(n):
    m = max(n - 1, 0)
    return (0,) * 6 + ((0,) * n, (0,) * n, (0,) * m, (0,) * m) + (0,) * 3


def csv_inputs(w, tier):
    from .guards import documented
    out = []
    for n in range(4):
        out.append((['x', 'y', 'z'], [(0, 0, 0)] * n, ()))
    out.append((['x'], [(0,), (0,)], (1,)))
    out.append((['a,b', 'c'], [(0, 0)] * 2, ()))
    out.append((T2, [(((0, 0, 0),), (0, 0), 0, 0, 0), (((0, 0, 0), (0, 0, 0)), (0, 0), 0, 0, 0)], ()))
    out.append((T2, [], ()))
    for n in range(4 if tier == 'quick' else 6):
        out.append((LOPQ, [lopq(n)] * 2, (0,) if n == 2 else ()))
        out.append((LO, [(0,) * 5 + ((0,) * n, (0,) * max(n - 1, 0))] * 2, ()))
    out.append((LOPQ, [], ()))
    out.append((LO, [], ()))
    if tier != 'quick':
        for kf in documented(w):
            if not set(kf) & (set(SEQ) | {T2[0], T2[1]}) and not any('(n' in x for x in kf):
                out.append((list(kf), [(0,) * len(kf)] * 3, ()))
    return out


def files(w, pid, tier, seed):
    """text and csv files hold every term once, with the exact coefficient, under a header of as many columns"""
    rep = Report()
    und = []
    prog = w.prog
    ins = csv_inputs(w, tier)
    for fq, suffix, judge in ((A + 'poly.Poly.write_to_txt', '.txt', None), (A + 'poly.Poly.write_to_csv', '.csv', check_csv)):
        if prog.func(fq) is None:
            rep.lost.append('public function %s not found' % fq)
            continue
        done = set()
        for kf, shapes, ints in ins:
            for given in ('dir/out', 'out' + suffix):
                if given.startswith('out') and len(shapes) != 1 and kf != ['x']:
                    continue
                at = '%d terms over %s' % (len(shapes), tuple(kf))
                p = poly(kf, shapes, ints)
                keep = dict(p.d)
                rep.count('polynomials_written')
                try:
                    ps = paths(prog, fq, lambda: [PolyV(tuple(kf), keep), given])
                except Unsupported as x:
                    und.append('%s: %s' % (fq, x))
                    continue
                for run, exc, res in ps:
                    rep.count('paths')
                    name = given if given.endswith(suffix) else given + suffix
                    p.d, p.kf = dict(keep), tuple(kf)
                    if exc is not None:
                        why, ln = 'raises %s instead of writing the polynomial' % exc.name, exc.line
                    elif run.order != [name]:
                        why, ln = 'writes %s, not %s' % (run.order, name), None
                    else:
                        why, ln = (check_csv(run, p, run.order) if suffix == '.csv' else check_txt(run, p, name)[0]), None
                        why = why and 'the file ' + why if why and not why.startswith(('writes', 'the')) else why
                    if why and why not in done:
                        done.add(why)
                        if len(done) == 1:
                            rep.bad(w, fq, 'file', why, at, ln)
    # terms with sums of different lengths: refused as documented, or written whole
    fq = A + 'poly.Poly.write_to_csv'
    if prog.func(fq) is not None:
        p = poly(LOPQ, [lopq(1), lopq(2)], ())
        try:
            for run, exc, res in paths(prog, fq, [p, 'out']):
                rep.count('paths')
                if exc is None:
                    bad = None
                    for nm in run.order:
                        ls, e = lines(run.files[nm])
                        rows = [cells(x) for x in ls]
                        if any(r is None or len(r) != len(rows[0]) for r in rows):
                            bad = 'writes lines of different numbers of columns'
                    if bad and not rep.viol:
                        rep.bad(w, fq, 'file', bad, 'terms with sums of different lengths')
        except Unsupported as x:
            und.append('%s: %s' % (fq, x))
    # the split writer
    fq = A + 'mdl_svvj.cond2_cmom.write_to_subpolys'
    if prog.func(fq) is None:
        rep.lost.append('public function %s not found' % fq)
    else:
        for ns in ((0, 1, 1, 2), (1, 2), (0,), (2, 0, 2, 3), (3, 1)):
            p = poly(LOPQ, [lopq(n) for n in ns], ())
            rep.count('polynomials_split')
            try:
                ps = paths(prog, fq, [p, 3], {A + 'mdl_svvj.cond2_cmom.simplify': lambda a: PolyV(p.kf, p.d)})
            except Unsupported as x:
                und.append('%s: %s' % (fq, x))
                continue
            for run, exc, res in ps:
                why = 'raises %s instead of writing the polynomial' % exc.name if exc is not None else split(run, p)
                if why:
                    rep.bad(w, fq, 'file', why, 'lengths of the sums %s' % (ns,), exc.line if exc is not None else None)
                    break
            else:
                continue
            break
    rep.cover['undecided'] = len(und)
    rep.cover['undecided_list'] = sorted(set(und))[:10]
    return rep.out()


def split(run, p):
    seen = []
    for nm in run.order:
        ls, ended = lines(run.files[nm])
        if not ls:
            return 'a file has no header'
        head = flat(ls[0])[0]
        short = isinstance(head, str) and repr('l_{1:n}') not in head
        kf = tuple(x for x in p.kf if not (short and x in SEQ))
        sub = PolyV(kf)
        back = {}
        for k, v in p.d.items():
            n = tuple(x for x, y in zip(k, p.kf) if not (short and y in SEQ))
            syms = [x for x in flat_syms(n)]
            if syms and any(syms[0] in ln for ln in ls[1:]):
                sub.d[n] = v
                back[n] = k
                if short and any(len(k[p.kf.index(s)]) for s in SEQ if s in p.kf):
                    return 'leaves out the exponents of a sum'
        why, got = check_txt(run, sub, nm)
        if why:
            return 'a file ' + why
        seen += [back[k] for k in got]
    if len(seen) != len(set(seen)):
        return 'a term is written twice'
    if len(seen) != len(p.d):
        return 'a term is not written'
    return None


def flat_syms(k):
    for x in k:
        if isinstance(x, tuple):
            yield from flat_syms(x)
        else:
            yield x
