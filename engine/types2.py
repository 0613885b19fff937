"""Symbolic inputs for proof units, and their concrete values in a model.

A type is a tuple built by xpy.py (so that Jython can build the same concrete
inputs when a counterexample is replayed):
  ('Int', lo, hi)  ('Bool',)  ('Float', finite)  ('Const', v)  ('OneOf', (v..))
  ('Str', kind, min, max, ranges)  ('Opt', T)  ('Union', (T..))
  ('Tuple', (T..))  ('List', T, min, max)  ('Seq', T)
"""
from sym import *
import seqs


def tt(v):
    """decoded snapshot value -> plain Python type description"""
    if isinstance(v, tuple):
        return tuple(tt(x) for x in v)
    if isinstance(v, L):
        return tuple(tt(x) for x in v.v)
    return v


def tag(T):
    return T[0].text() if isinstance(T[0], S) else T[0]


def mk(I, T, name):
    k = tag(T)
    if k == 'Int':
        v = I.fresh(name)
        lo, hi = T[1], T[2]
        if lo is not None:
            I.assume(v >= lo)
        if hi is not None:
            I.assume(v <= hi)
        return v
    if k == 'Bool':
        return I.fresh(name, 'Bool')
    if k == 'Float':
        v = I.fresh(name, 'Float')
        if T[1]:
            I.assume(z3.Not(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e))))
        return v
    if k == 'Const':
        return T[1]
    if k == 'OneOf':
        return T[1][I.choice(len(T[1]))]
    if k == 'Union':
        i = I.choice(len(T[1]))
        return mk(I, T[1][i], name)
    if k == 'Opt':
        if I.choice(2) == 0:
            return None
        return mk(I, T[1], name)
    if k == 'Str':
        kind = T[1].text() if isinstance(T[1], S) else T[1]
        lo, hi, ranges = T[2], T[3], T[4]
        n = lo + I.choice(hi - lo + 1)
        cl = []
        for i in range(n):
            c = I.fresh('%s_%d' % (name, i))
            I.assume(Or(*[And(c >= a, c <= b) for a, b in ranges]))
            cl.append(c)
        return S(kind, tuple(cl))
    if k == 'Tuple':
        return tuple(mk(I, t, '%s_%d' % (name, i)) for i, t in enumerate(T[1]))
    if k == 'List':
        n = T[2] + I.choice(T[3] - T[2] + 1)
        return L([mk(I, T[1], '%s_%d' % (name, i)) for i in range(n)])
    if k == 'Make':
        args = tuple(mk(I, t, '%s_%d' % (name, i)) for i, t in enumerate(T[2]))
        try:
            v = I.call(T[1], args)
        except PyExc as e:
            if getattr(e, 'made', None) is None:
                e.made = (T, args)
            raise
        I.made.append((v, args))
        return v
    if k == 'Seq':
        return seqs.mkseq(I, T[1], name)
    raise Unsupported('input type %s' % k)


def hastype(I, T, v, retok=None):
    """v is one of the values mk(T) can produce (checked on the proving side of a contract)"""
    k = tag(T)
    if k == 'Int':
        if not isint(v) or isbool(v):
            return False
        c = []
        if T[1] is not None:
            c.append(v >= T[1])
        if T[2] is not None:
            c.append(v <= T[2])
        return And(*c)
    if k == 'Bool':
        return isbool(v)
    if k == 'Const':
        return v is T[1]
    if k == 'Tuple':
        if not isinstance(v, tuple) or len(v) != len(T[1]):
            return False
        return And(*[hastype(I, t, x, retok) for t, x in zip(T[1], v)])
    if k == 'Opt':
        return v is None or hastype(I, T[1], v, retok)
    if k == 'Make' and retok is not None:
        return I.truth(I.call(retok, (v,)))
    raise Unsupported('no check that a result is of type %s' % k)


def mval(m, e):
    return hardsimp(m.eval(e, model_completion=True))


def fpval(m, e):
    x = z3.simplify(m.eval(e, model_completion=True))
    if z3.is_fp_value(x) or isinstance(x, z3.FPNumRef):
        if x.isNaN():
            return 'nan'
        if x.isInf():
            return '-inf' if x.isNegative() else 'inf'
        bv = z3.simplify(z3.fpToIEEEBV(x)).as_long()
        import struct
        return struct.unpack('>d', bv.to_bytes(8, 'big'))[0].hex()
    return None


class Unbuilt(object):
    """an input whose construction raised: only the arguments exist"""
    def __init__(self, args):
        self.args = args


def concrete(v, m, I=None):
    """JSON form of an input value in model m."""
    if isinstance(v, Unbuilt):
        return {'m': [concrete(x, m, I) for x in v.args]}
    if I is not None and isinstance(v, (O, L, D)):
        for w, args in I.made:
            if w is v:
                return {'m': [concrete(x, m, I) for x in args]}
    if v is None or type(v) is bool:
        return v
    if type(v) is int:
        return {'i': str(v)}
    if isinstance(v, z3.BoolRef):
        return bool(mval(m, v))
    if isinstance(v, z3.ArithRef):
        return {'i': str(mval(m, v))}
    if isinstance(v, FP):
        return {'f': fpval(m, v.e)}
    if type(v) is float:
        return {'f': v.hex()}
    if isinstance(v, S):
        return {v.k: [x if type(x) is int else mval(m, x) for x in v.c]}
    if isinstance(v, tuple):
        return {'t': [concrete(x, m, I) for x in v]}
    if isinstance(v, L):
        return {'l': [concrete(x, m, I) for x in v.v]}
    if hasattr(v, 'sym_concrete'):
        return v.sym_concrete(m)
    if isinstance(v, C):
        return {'c': [v.mod, v.name]}
    return {'x': repr(v)}
