"""Specification vocabulary of the contract modules.

The same contract text is used three ways: the verifier (engine/) interprets it
symbolically, and under Jython it is executed natively, on concrete inputs, to
replay counterexamples against the real code (engine/replay.py).  The native
meaning is below; the symbolic one is in engine/builtins2.py (XPY)."""

import os

LEMMAS = []
# the quick tier may restrict the inputs of expensive units (each one says so)
QUICK = os.environ.get('VERIF_TIER', 'quick') != 'thorough'
del os


class Skip(Exception):
    pass


class Failed(Exception):
    pass


# ---- input types ------------------------------------------------------------
def Int(lo=None, hi=None):
    return ('Int', lo, hi)


def Bool():
    return ('Bool',)


def Float(finite=True):
    return ('Float', finite)


def Const(v):
    return ('Const', v)


def OneOf(*vs):
    return ('OneOf', tuple(vs))


def Union(*ts):
    return ('Union', tuple(ts))


def Opt(t):
    return ('Opt', t)


def Tuple(*ts):
    return ('Tuple', tuple(ts))


def List(t, lo, hi):
    return ('List', t, lo, hi)


def Make(f, *ts):
    """An input built by calling f (which may use requires) on typed arguments."""
    return ('Make', f, tuple(ts))


def Seq(t):
    return ('Seq', t)


ASCII = ((0, 127),)
LATIN1 = ((0, 255),)
PRINT = ((32, 126),)
UNI = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BMP = ((0, 0xD7FF), (0xE000, 0xFFFF))


def Str(lo, hi, ranges=ASCII):
    return ('Str', 's', lo, hi, tuple(ranges))


def Uni(lo, hi, ranges=UNI):
    return ('Str', 'u', lo, hi, tuple(ranges))


def chars(s):
    """ranges for exactly the characters of s"""
    return tuple(sorted((ord(c), ord(c)) for c in set(s)))


# ---- units ------------------------------------------------------------------
def lemma(**types):
    """A proof unit: the body must hold for every value of its typed inputs."""
    opts = {}
    for k in list(types.keys()):
        if k.startswith('_'):
            opts[k[1:]] = types.pop(k)

    def deco(f):
        names = f.func_code.co_varnames[:f.func_code.co_argcount]
        LEMMAS.append({'kind': 'lemma', 'name': f.__name__, 'fn': f, 'args': tuple(names),
                       'types': tuple(types[n] for n in names), 'opts': opts})
        return f
    return deco


def contract(target, **types):
    """A function contract.  The body calls `call(args...)` exactly once.  It is
    proved against the real body of `target`; callers listed with
    _use=[...] are checked against it instead of the body."""
    opts = {}
    for k in list(types.keys()):
        if k.startswith('_'):
            opts[k[1:]] = types.pop(k)
    fn = getattr(target, 'im_func', target)

    def deco(f):
        names = f.func_code.co_varnames[:f.func_code.co_argcount]
        LEMMAS.append({'kind': 'contract', 'name': f.__name__, 'fn': f, 'args': tuple(names),
                       'types': tuple(types.get(n) for n in names), 'opts': opts, 'target': fn})
        TARGETS[f.__name__] = fn
        return f
    return deco


TARGETS = {}
CURRENT = [None]


def call(*args):
    return TARGETS[CURRENT[0]](*args)


# ---- statements -------------------------------------------------------------
LOG = []
CHOOSER = [None]


def requires(c):
    if not c:
        raise Skip()


def ensures(c, label):
    LOG.append((label, bool(c)))
    if not c:
        raise Failed(label)


def skip():
    raise Skip()


def implies(a, b):
    return (not a) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def conj(*a):
    for x in a:
        if not x:
            return False
    return True


def disj(*a):
    for x in a:
        if x:
            return True
    return False


def neg(a):
    return not a


def ite(c, a, b):
    if c:
        return a
    return b


def split(c):
    return bool(c)


def choose(t, name='ch'):
    return CHOOSER[0](t)


def raises(exc, f, *args):
    """f(*args) raises exc (or a tuple of exception classes)"""
    try:
        f(*args)
    except exc:
        return True
    return False


def same(a, b):
    """Equal values of the same type class (a number is not a string)."""
    return a == b
