"""Declaration of specifications.  Spec bodies are never executed: their syntax trees are
analysed with the same abstract interpreter as the code under test."""

REG = {}        # target fq -> Spec
BYSPEC = {}     # spec fq -> Spec

nat = 'nat'         # integer >= 0
pos = 'pos'         # integer >= 1
integer = 'int'
rational = 'rat'
real = 'real'
par = 'par'
key = 'key'
strs = 'str'


def poly(kf):
    return ('poly', tuple(kf) if not callable(kf) else kf)


def table(fq):
    return ('table', fq)


def one_of(*vals):
    return ('enum', vals)


def intlist(n):
    return ('intlist', n)


def intlists(*lens):
    """a list of naturals of one of the lengths"""
    return ('intlists', lens)


def keyvar(kf):
    return ('keyvar', tuple(kf))


def seq(name):
    return ('seq', name)


def tri():
    return ('tri',)


def t0seq(*lens):
    return ('t0seq', lens)


def reals(*lens):
    """a list of reals of one of the lengths"""
    return ('reals', lens)


def parj(*lens):
    """a parameter set with a list of jump sizes of one of the lengths"""
    return ('parj', lens)


def t0():
    return ('t0',)


def same(arg):
    return ('same', arg)


def poly_by(arg, table):
    """components depending on an enumerated argument"""
    return ('poly', ('by', arg, {k: tuple(v) for k, v in table.items()}))


class Spec:
    def __init__(self, fq, **k):
        self.fq = fq
        self.kinds = k.pop('args')
        self.args = list(self.kinds)
        ret = k.pop('ret')
        self.retraw = ret
        self.retty = 'int'
        self.kf = None
        self.of = None
        if isinstance(ret, tuple) and ret[0] == 'poly':
            self.ret, self.kf = 'poly', ret[1]
        elif isinstance(ret, tuple) and ret[0] == 'same':
            self.ret, self.kf = 'poly', ret[1]
        elif isinstance(ret, tuple) and ret[0] == 'table':
            self.ret, self.of = 'table', ret[1]
        elif isinstance(ret, tuple) and ret[0] == 't0':
            self.ret = 't0'
        elif ret in ('int', 'rat', 'real', 'nat'):
            self.ret = 'num'
            self.retty = {'int': 'int', 'nat': 'int', 'rat': 'frac', 'real': 'float'}[ret]
        else:
            self.ret = ret
        self.prop = k.pop('prop')
        self.public = k.pop('public', False)
        self.ignore = k.pop('ignore', ())
        self.requires = k.pop('requires', ())
        self.memo = k.pop('memo', None)
        self.grid = k.pop('grid', None)
        self.title = k.pop('title', '')
        self.also = k.pop('also', ())
        self.variants = k.pop('variants', {})
        self.virtual = k.pop('virtual', False)      # a mathematical function without code of its own
        self.extern = k.pop('extern', False)        # code whose value is decided by another analysis: an uninterpreted function here
        self.virtual = self.virtual or self.extern
        self.exact = k.pop('exact', None)           # argument whose value + 1 is the number of entries of the table
        self.dom = k.pop('dom', {})
        self.post = k.pop('post', None)             # the value is the final state of this argument
        self.partial = k.pop('partial', False)      # where the code raises, nothing is claimed
        self.drops = k.pop('drops', False)          # the result lists no term with coefficient zero
        self.inline = k.pop('inline', False)        # analysed inside its callers as well
        self.name = None
        self.specmod = None
        if k:
            raise TypeError('unknown spec option %s' % list(k))
        self.by = None
        if isinstance(self.kf, tuple) and self.kf and self.kf[0] == 'by':
            self.by, self.kf = self.kf, None
        self.argkf = {a: kd[1] for a, kd in self.kinds.items() if isinstance(kd, tuple) and kd[0] == 'poly'}


def of(fq, **k):
    def deco(f):
        s = Spec(fq, **k)
        s.name = f.__name__
        s.specmod = f.__module__
        REG[fq] = s
        BYSPEC[f.__module__ + '.' + f.__name__] = s
        return f
    return deco


def _marker(*a, **k):
    raise RuntimeError('spec bodies are not executed')


emit = terms = ren = drop = NP = binomial = multinomial = facto = _marker


def kf_at(sp, args):
    """components of the result of sp at the given (frozen) arguments"""
    if sp.by is not None:
        v = args[sp.args.index(sp.by[1])]
        if isinstance(v, tuple) and v and v[0] == 'const':
            v = v[1]
        elif hasattr(v, 'is_const') and v.is_const():
            v = v.const()
        elif hasattr(v, 'e') and v.e.is_const():
            v = v.e.const()
        try:
            return sp.by[2].get(v)
        except TypeError:
            return None
    return sp.kf
