"""Symbolic interpreter (verification-condition generator) for the Python 2
subset used by pyslet.

The program text is never rewritten: the interpreter walks the AST that
Jython's own parser produced from the file in /repo, in the module environment
that Jython produced by importing it (see dump.py).  A proof unit (lemma or
function contract, written in /verif/contracts) is executed on symbolic inputs;
every feasible path is enumerated (path conditions are decided by z3) and every
`ensures` met on a path is an obligation  pc |= post  that z3 must discharge.
Paths are enumerated by re-execution, so program state may be mutated in place.
"""
import z3, time, os, sys, math

sys.setrecursionlimit(20000)
z3.set_param('smt.random_seed', 1)
z3.set_param('smt.arith.solver', 2)     # far better than 6 on div/mod by constants


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class PathLimit(Exception):
    pass


class PyExc(Exception):
    """A Python 2 exception raised by the interpreted program."""

    def __init__(self, obj):
        Exception.__init__(self, 'PyExc')
        self.obj = obj


# ---------------------------------------------------------------- AST nodes

class N(object):
    __slots__ = ('t', 'line', 'f', 'file')

    def __init__(self, t, line, f):
        self.t = t
        self.line = line
        self.f = f

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '<%s@%s>' % (self.t, self.line)


def dec_ast(j, file, index):
    if isinstance(j, list):
        n = N(j[0], j[1], None)
        n.file = file
        n.f = {k: dec_ast(v, file, index) for k, v in j[2].items()}
        if n.t == 'FunctionDef':
            index.setdefault((file, n.line, n.f['name']), n)
        elif n.t == 'Lambda':
            index.setdefault((file, n.line, '<lambda>'), []).append(n)
        elif n.t == 'GeneratorExp':
            pass
        return n
    if isinstance(j, dict):
        if 'l' in j:
            return [dec_ast(x, file, index) for x in j['l']]
        if 's' in j:
            return j['s']
        if 'u' in j:
            return S('u', tuple(j['u']))
        if 'b' in j:
            return S('s', tuple(j['b']))
        if 'i' in j:
            return int(j['i'])
        if 'f' in j:
            return float(j['f'])
        raise Unsupported('literal %r' % j)
    return j


# ---------------------------------------------------------------- values

class S(object):
    """A string of known length: a tuple of code points, each a Python int or
    a z3 Int term.  kind 's' is a byte string, 'u' a unicode string."""
    __slots__ = ('k', 'c')

    def __init__(self, k, c):
        self.k = k
        self.c = c

    def conc(self):
        return all(type(x) is int for x in self.c)

    def text(self):
        return ''.join(chr(x) for x in self.c)

    def __repr__(self):
        return self.k + repr(self.text()) if self.conc() else '<S%s %d>' % (self.k, len(self.c))


def cs(s, k='s'):
    return S(k, tuple(ord(x) for x in s))


class L(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class D(object):
    """dict with concrete keys, in insertion order: key -> (keyvalue, value)"""
    __slots__ = ('d', 'sym')

    def __init__(self):
        self.d = {}


class SetV(object):
    __slots__ = ('d', 'frozen')

    def __init__(self, frozen=False):
        self.d = {}
        self.frozen = frozen


class O(object):
    __slots__ = ('cls', 'a', 'items', 'uid')

    def __init__(self, cls):
        self.cls = cls
        self.a = {}
        self.items = None

    def __repr__(self):
        return '<O %s>' % self.cls.name


class C(object):
    def __init__(self, name, mod, old):
        self.name = name
        self.mod = mod
        self.old = old
        self.mro = [self]
        self.d = {}
        self.lazy = {}

    def __repr__(self):
        return '<C %s.%s>' % (self.mod, self.name)


class XC(object):
    """A class of the runtime (object, int, ValueError, ...)."""

    def __init__(self, name):
        self.name = name
        self.mro = [self]

    def __repr__(self):
        return '<XC %s>' % self.name


class F(object):
    __slots__ = ('node', 'name', 'mod', 'defaults', 'clo', 'key', 'owner')

    def __init__(self, node, name, mod, defaults, clo, key):
        self.node = node
        self.name = name
        self.mod = mod
        self.defaults = defaults
        self.clo = clo
        self.key = key
        self.owner = None

    def __repr__(self):
        return '<F %s.%s>' % (self.mod, self.name)


class BM(object):
    __slots__ = ('f', 's')

    def __init__(self, f, s):
        self.f = f
        self.s = s


class UM(object):
    """unbound method"""
    __slots__ = ('f', 'cls')

    def __init__(self, f, cls):
        self.f = f
        self.cls = cls


class Static(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Prop(object):
    def __init__(self, get, set):
        self.get = get
        self.set = set


class Mod(object):
    def __init__(self, name):
        self.name = name
        self.d = {}


class XMod(object):
    def __init__(self, name):
        self.name = name


class B(object):
    """A builtin function; fn(interp, args, kw)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<B %s>' % self.name


class Opaque(object):
    def __init__(self, what):
        self.what = what


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Gen(object):
    def __init__(self, it):
        self.it = it
        self.done = False


class HashVal(object):
    def __init__(self, v):
        self.v = v


class FP(object):
    """A symbolic binary64 float."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class BigF(object):
    """A float obtained from a symbolic int by exact operations: i / 2**k.
    (Exact while |i| <= 2**53, which is checked.)"""
    __slots__ = ('i', 'k')

    def __init__(self, i, k=0):
        self.i = i
        self.k = k


class QuoF(object):
    """The float p/q, rounded, for symbolic integers, q > 0; with off not None,
    the float fl(p/q) + off, rounded."""
    __slots__ = ('p', 'q', 'off')

    def __init__(self, p, q, off=None):
        self.p = p
        self.q = q
        self.off = off


F64 = z3.Float64()
RNE = z3.RNE()

NONE = None


def isint(v):
    return type(v) is int or isinstance(v, z3.ArithRef)


def isbool(v):
    return type(v) is bool or isinstance(v, z3.BoolRef)


def isnum(v):
    return isint(v) or isbool(v)


def toint(v):
    if type(v) is bool:
        return int(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def isfloat(v):
    return type(v) is float or isinstance(v, (FP, BigF, QuoF))


def z3b(v):
    return z3.BoolVal(v) if type(v) is bool else v


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if type(x) is bool:
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def simp(e):
    """Normalise a z3 term to a Python constant when it is one."""
    if isinstance(e, z3.ExprRef):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_int_value(e):
            return e.as_long()
    return e


def hardsimp(e):
    if isinstance(e, z3.ExprRef):
        return simp(z3.simplify(e))
    return e


BUILTIN_MRO = {
    'object': [], 'int': ['object'], 'bool': ['int', 'object'], 'long': ['object'],
    'float': ['object'], 'str': ['basestring', 'object'], 'unicode': ['basestring', 'object'],
    'basestring': ['object'], 'list': ['object'], 'dict': ['object'], 'tuple': ['object'],
    'set': ['object'], 'frozenset': ['object'], 'NoneType': ['object'], 'function': ['object'],
    'type': ['object'], 'instance': ['object'], 'classobj': ['object'], 'instancemethod': ['object'],
    'generator': ['object'],
    'BaseException': ['object'], 'Exception': ['BaseException', 'object'],
}


def _exc(name, *bases):
    m = []
    for b in bases:
        if b not in m:
            m.append(b)
        for x in BUILTIN_MRO[b]:
            if x not in m:
                m.append(x)
    BUILTIN_MRO[name] = m


_exc('StandardError', 'Exception')
_exc('StopIteration', 'Exception')
_exc('GeneratorExit', 'BaseException')
_exc('KeyboardInterrupt', 'BaseException')
_exc('SystemExit', 'BaseException')
for _n in 'ArithmeticError LookupError ValueError TypeError NameError AttributeError AssertionError EnvironmentError RuntimeError ImportError EOFError MemoryError SyntaxError Warning'.split():
    _exc(_n, 'StandardError')
_exc('decimal.InvalidOperation', 'ArithmeticError')
_exc('ZeroDivisionError', 'ArithmeticError')
_exc('OverflowError', 'ArithmeticError')
_exc('FloatingPointError', 'ArithmeticError')
_exc('KeyError', 'LookupError')
_exc('IndexError', 'LookupError')
_exc('UnicodeError', 'ValueError')
_exc('UnicodeEncodeError', 'UnicodeError')
_exc('UnicodeDecodeError', 'UnicodeError')
_exc('UnboundLocalError', 'NameError')
_exc('IOError', 'EnvironmentError')
_exc('OSError', 'EnvironmentError')
_exc('NotImplementedError', 'RuntimeError')
_exc('DeprecationWarning', 'Warning')
_exc('UserWarning', 'Warning')


class Snapshot(object):
    """The dumped module environment; decodes values lazily.  Immutable parts
    (classes, functions) are shared; mutable ones are decoded per path."""

    def __init__(self, data):
        self.heap = data['heap']
        self.root = data['root']
        self.astindex = {}
        self.files = []
        for f, a in data['asts'].items():
            dec_ast(a, f, self.astindex)
            self.files.append(f)
        self.perm = {}
        self.xc = {}
        self.modbyname = {}
        for i, h in enumerate(self.heap):
            if h and h['t'] == 'mod':
                self.modbyname[h['name']] = i
        self.missing_files = set()

    def xclass(self, name):
        if name not in self.xc:
            c = XC(name)
            self.xc[name] = c
            c.mro = [c] + [self.xclass(n) for n in BUILTIN_MRO.get(name, ['object']) if n != name]
        return self.xc[name]

    def dec(self, j, temp):
        """temp: the per-path memo for mutable values"""
        if j is None or type(j) is bool:
            return j
        t = j['t']
        if t == 'i':
            return int(j['v'])
        if t == 'f':
            return float(j['v'])
        if t == 's' or t == 'u':
            return S(t, tuple(j['v']))
        if t == 'tuple':
            return tuple(self.dec(x, temp) for x in j['v'])
        if t == 'opaque':
            return Opaque(j)
        if t == 'ref':
            i = j['v']
            if i in self.perm:
                return self.perm[i]
            if i in temp:
                return temp[i]
            return self.dec_heap(i, temp)
        raise Unsupported('dump value %r' % (j,))

    def dec_heap(self, i, temp):
        h = self.heap[i]
        t = h['t']
        if t == 'tuple':
            v = tuple(self.dec(x, temp) for x in h['v'])
            temp[i] = v
            return v
        if t == 'list':
            v = L([])
            temp[i] = v
            v.v.extend(self.dec(x, temp) for x in h['v'])
            return v
        if t == 'dict':
            v = D()
            temp[i] = v
            for a, b in h['v']:
                a = self.dec(a, temp)
                k = keyof(a)
                v.d[k] = (a, self.dec(b, temp))
            return v
        if t == 'set':
            v = SetV()
            temp[i] = v
            for a in h['v']:
                a = self.dec(a, temp)
                v.d[keyof(a)] = a
            return v
        if t == 'mod':
            m = Mod(h['name'])
            self.perm[i] = m
            m.d = h['d']
            return m
        if t == 'xmod':
            m = XMod(h['name'])
            self.perm[i] = m
            return m
        if t == 'fn':
            key = (h['file'], h['line'], h['name'])
            node = self.astindex.get(key)
            if isinstance(node, list):
                if len(node) == 1:
                    node = node[0]
                else:
                    node = ('ambiguous', node)
            if node is None and h['file'] not in self.files:
                self.missing_files.add(h['file'])
            f = F(node, h['name'], h['mod'], [], None, key)
            self.perm[i] = f
            f.defaults = h['defaults']
            f.clo = h['clo']
            return f
        if t == 'method':
            f = self.dec(h['f'], temp)
            s = self.dec(h['self'], temp)
            if s is None:
                v = UM(f, self.dec(h['cls'], temp))
            else:
                v = BM(f, s)
            temp[i] = v
            return v
        if t == 'static':
            v = Static(self.dec(h['f'], temp))
            self.perm[i] = v
            return v
        if t == 'classm':
            v = ClassM(self.dec(h['f'], temp))
            self.perm[i] = v
            return v
        if t == 'prop':
            v = Prop(self.dec(h['get'], temp), self.dec(h['set'], temp))
            self.perm[i] = v
            return v
        if t == 'cls':
            c = C(h['name'], h['mod'], h['old'])
            c.idx = i
            self.perm[i] = c
            c.lazy = h['d']
            c.mro = [self.dec(x, temp) for x in h['mro']]
            c.bases = tuple(self.dec(x, temp) for x in h['bases'])
            return c
        if t == 'xcls':
            c = self.xclass(h['name'])
            self.perm[i] = c
            return c
        if t == 'bfn':
            v = ('bfn', h['name'])
            return Opaque({'v': 'bfn', 'n': h['name']})
        if t == 'obj':
            c = self.dec(h['cls'], temp)
            if 'str' in h:
                return S('u', tuple(h['str']))
            o = O(c)
            temp[i] = o
            for a, b in h['d'].items():
                o.a[a] = self.dec(b, temp)
            if 'items' in h:
                names = [x.name for x in c.mro]
                if 'dict' in names:
                    d = D()
                    for a, b in h['items']:
                        a = self.dec(a, temp)
                        d.d[keyof(a)] = (a, self.dec(b, temp))
                    o.items = d
                else:
                    o.items = L([self.dec(a, temp) for a in h['items']])
            return o
        if t == 'opaque':
            return Opaque(h)
        raise Unsupported('heap %r' % t)


class SymbolicKey(Exception):
    pass


def keyof(v):
    """Hashable Python key with Python 2 equality semantics."""
    v = hardsimp(v) if isinstance(v, z3.ExprRef) else v
    if isinstance(v, S):
        if not v.conc():
            c = tuple(hardsimp(x) for x in v.c)
            if not all(type(x) is int for x in c):
                raise SymbolicKey()
            return ('s', c)
        return ('s', v.c)
    if v is None:
        return ('none',)
    if type(v) in (int, bool):
        return ('n', int(v))
    if type(v) is float:
        return ('n', int(v)) if v == v and abs(v) < 1e300 and int(v) == v else ('n', v)
    if isinstance(v, tuple):
        return ('t',) + tuple(keyof(x) for x in v)
    if isinstance(v, (C, XC, F)):
        return ('id', id(v))
    if isinstance(v, (BM,)):
        return ('bm', id(v.f), id(v.s))
    if isinstance(v, (O, L, D)):
        return ('id', id(v))
    if isinstance(v, SetV) and v.frozen:
        return ('fs', frozenset(v.d.keys()))
    raise SymbolicKey()
