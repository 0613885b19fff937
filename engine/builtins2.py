"""Python 2 builtins and operator semantics over symbolic values."""
from sym import *
import sym

TABLE = {}
XPY = {}


def bfn(name):
    def deco(f):
        TABLE[name] = B(name, f)
        return f
    return deco


def xpy(name):
    def deco(f):
        XPY[name] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers

def conc_int(I, v, what='index'):
    """A concrete Python int for v; forks over small ranges if symbolic."""
    v = hardsimp(toint(v)) if isnum(v) else v
    if type(v) is int:
        return v
    if isinstance(v, z3.ArithRef):
        # enumerate feasible values (complete: stops only when pc => v in seen)
        for _ in range(I.cfg.get('conc_limit', 80)):
            n = len(I.dec)
            if n < len(I.prefix):
                x = I.prefix[n][1]
                I.dec.append(I.prefix[n])
            else:
                r = I.check()
                if r == z3.unsat:
                    raise PathEnd()
                if r != z3.sat:
                    raise Unsupported('cannot concretise %s' % what)
                x = I.solver.model().eval(v, model_completion=True).as_long()
                I.dec.append(('p', x))
            if I.branch(v == x):
                return x
        raise Unsupported('symbolic %s with many values' % what)
    if v is None or isinstance(v, (S, tuple, L)):
        raise I.exc('TypeError', 'int expected')
    if hasattr(v, 'lookup'):
        pass
    if isinstance(v, O):
        m = I.lookup_special(v, '__index__')
        if m is not None:
            return conc_int(I, I.call(m, []))
        raise I.exc('TypeError', 'int expected')
    raise Unsupported('concrete int from %r' % (v,))


def str_eq(a, b):
    if len(a.c) != len(b.c):
        return False
    out = []
    for x, y in zip(a.c, b.c):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            if a.k != b.k and x > 127:
                return False
        else:
            out.append(x == y)
    return And(*out)


def in_ranges(c, ranges):
    """c in a set of inclusive code point ranges"""
    if type(c) is int:
        return any(a <= c <= b for a, b in ranges)
    return Or(*[(c == a) if a == b else And(c >= a, c <= b) for a, b in ranges])


def fp(I, v):
    """binary64 term of a number"""
    if isinstance(v, FP):
        return v.e
    if type(v) is float:
        return z3.FPVal(v, F64)
    if type(v) in (int, bool):
        return z3.FPVal(float(v), F64)
    if isinstance(v, BigF):
        e = int_to_fp(I, v.i)
        # scaling by a power of two is exact (|i| <= 2**53, k is small)
        return z3.fpMul(RNE, e, z3.FPVal(2.0 ** -v.k, F64)) if v.k else e
    if isinstance(v, QuoF):
        e = z3.fpDiv(RNE, int_to_fp(I, v.p), int_to_fp(I, v.q))
        return e if v.off is None else z3.fpAdd(RNE, e, int_to_fp(I, v.off))
    if isinstance(v, z3.ArithRef):
        return int_to_fp(I, v)
    raise Unsupported('float of %r' % (v,))


def int_to_fp(I, i):
    # the value is exactly representable when |i| <= 2**53; otherwise it is rounded (RNE)
    return z3.fpToFP(RNE, z3.ToReal(i), F64)


def conc(v):
    """Fully concrete Python value for a scalar, or raises SymbolicKey."""
    if isinstance(v, S):
        if v.conc():
            return v.text()
        raise SymbolicKey()
    if v is None or type(v) in (int, bool, float):
        return v
    if isinstance(v, z3.ExprRef):
        w = hardsimp(v)
        if type(w) in (int, bool):
            return w
    raise SymbolicKey()


# ------------------------------------------------------------------ equality

def eq(I, a, b):
    """Python 2 a==b as bool or z3 Bool."""
    if a is b and not isinstance(a, (O, FP)) and type(a) is not float:
        return True
    if isnum(a) and isnum(b):
        if isbool(a) and isbool(b) and (isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef)):
            return z3b(a) == z3b(b)
        r = toint(a) == toint(b)
        return r
    if isinstance(a, S) and isinstance(b, S):
        return str_eq(a, b)
    if isinstance(a, O) or isinstance(b, O):
        return obj_eq(I, a, b)
    if (isfloat(a) or isfloat(b)) and (isnum(a) or isfloat(a)) and (isnum(b) or isfloat(b)):
        return num_cmp(I, 'Eq', a, b)
    if a is None or b is None:
        if hasattr(a, 'sym_isnone'):
            return a.sym_isnone(I)
        if hasattr(b, 'sym_isnone'):
            return b.sym_isnone(I)
        return a is b
    if hasattr(a, 'sym_eq'):
        return a.sym_eq(I, b)
    if hasattr(b, 'sym_eq'):
        return b.sym_eq(I, a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[eq(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, L) and isinstance(b, L):
        if len(a.v) != len(b.v):
            return False
        return And(*[eq(I, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, D) and isinstance(b, D):
        if len(a.d) != len(b.d):
            return False
        out = []
        for k, (kv, v) in a.d.items():
            ok, w = dict_get(I, b, kv)
            if not ok:
                return False
            out.append(eq(I, v, w))
        return And(*out)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if len(a.d) != len(b.d):
            return False
        for kv in a.d.values():
            if not set_has(I, b, kv):
                return False
        return True
    if isinstance(a, HashVal) and isinstance(b, HashVal):
        return hash_eq(I, a.v, b.v)
    if isinstance(a, (C, XC)) and isinstance(b, (C, XC)):
        return a is b
    if isinstance(a, (F, BM, UM, Opaque)) or isinstance(b, (F, BM, UM, Opaque)):
        if isinstance(a, BM) and isinstance(b, BM):
            return a.f is b.f and a.s is b.s
        if isinstance(a, UM) and isinstance(b, UM):
            return a.f is b.f
        return a is b
    return False


def hash_eq(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[hash_eq(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, HashVal) and isinstance(b, HashVal):
        return hash_eq(I, a.v, b.v)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return eq(I, a, b)


def is_custom(I, o):
    for n in ('__eq__', '__cmp__'):
        f, v, c = I.cls_get(o.cls, n)
        if f and v is not None and isinstance(c, C):
            return True
    return False


NOTIMPL = Opaque({'v': 'NotImplemented'})


def obj_eq(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, O):
            m = I.lookup_special(x, '__eq__')
            if m is not None:
                r = I.call(m, [y])
                if r is not NOTIMPL:
                    return I.truth(r)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, O):
            m = I.lookup_special(x, '__cmp__')
            if m is not None:
                r = I.call(m, [y])
                if r is not NOTIMPL:
                    return toint(r) == 0
    if isinstance(a, O) and a.items is not None:
        return eq(I, a.items, b.items if isinstance(b, O) and b.items is not None else b)
    return a is b


def type_rank(I, v):
    if v is None:
        return ''
    if isnum(v) or isfloat(v):
        return ' '      # numbers sort before other types (after None)
    return I.classof(v).name


def cmp_(I, a, b):
    """Python 2 cmp(a,b): an int or a z3 Int in {-1,0,1}"""
    if isnum(a) and isnum(b):
        a = toint(a)
        b = toint(b)
        if type(a) is int and type(b) is int:
            return (a > b) - (a < b)
        return z3.If(a < b, z3.IntVal(-1), z3.If(a == b, z3.IntVal(0), z3.IntVal(1)))
    if isinstance(a, O) or isinstance(b, O):
        return obj_cmp(I, a, b)
    if (isfloat(a) or isfloat(b)) and (isnum(a) or isfloat(a)) and (isnum(b) or isfloat(b)):
        lt = num_cmp(I, 'Lt', a, b)
        e = num_cmp(I, 'Eq', a, b)
        if type(lt) is bool and type(e) is bool:
            return -1 if lt else (0 if e else 1)
        return z3.If(z3b(lt), z3.IntVal(-1), z3.If(z3b(e), z3.IntVal(0), z3.IntVal(1)))
    if isinstance(a, S) and isinstance(b, S):
        return seq_cmp(I, u16(I, a.c), u16(I, b.c))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_cmp(I, a, b)
    if isinstance(a, L) and isinstance(b, L):
        return seq_cmp(I, a.v, b.v)
    if isinstance(a, D) and isinstance(b, D):
        if len(a.d) != len(b.d):
            return -1 if len(a.d) < len(b.d) else 1
        if not a.d:
            return 0
        # Jython: keys in sorted order, each with its value
        out = []
        for x in (a, b):
            vals = dict((id(kv), v) for kv, v in x.d.values())
            out.append([z for kv in sort(I, [kv for kv, v in x.d.values()]) for z in (kv, vals[id(kv)])])
        return seq_cmp(I, out[0], out[1])
    ra, rb = type_rank(I, a), type_rank(I, b)
    if ra == rb:
        if a is b:
            return 0
        raise Unsupported('cmp of %r and %r' % (a, b))
    return -1 if ra < rb else 1


def u16(I, c):
    """keys in the order of UTF-16 code units (the order of Jython strings)"""
    r = []
    for x in c:
        if type(x) is int:
            r.append(x if x < 0xE000 else (x + 0x200000 if x < 0x10000 else x))
            continue
        lo, hi = bounds(I, x)
        if hi is not None and hi < 0xE000:
            r.append(x)
        else:
            r.append(z3.If(And(x >= 0xE000, x < 0x10000), x + 0x200000, x))
    return tuple(r)


def seq_cmp(I, a, b):
    res = (len(a) > len(b)) - (len(a) < len(b))
    for x, y in reversed(list(zip(a, b))):
        e = eq(I, x, y)
        e = hardsimp(e)
        if e is True:
            continue
        c = cmp_(I, x, y)
        if e is False:
            res = c
            continue
        from interp import toz
        res = z3.If(e, toz(res), toz(c))
    return res


RICH = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__')}


def obj_cmp(I, a, b):
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if isinstance(x, O):
            m = I.lookup_special(x, '__cmp__')
            if m is not None:
                r = I.call(m, [y])
                if r is NOTIMPL:
                    continue
                r = toint(r)
                return r if s == 1 else -r
    if isinstance(a, O) and isinstance(b, O):
        m = I.lookup_special(a, '__eq__')
        if m is not None:
            if I.test(I.call(m, [b])):
                return 0
            m = I.lookup_special(a, '__lt__')
            if m is not None:
                return -1 if I.test(I.call(m, [b])) else 1
    if a is b:
        return 0
    if a is None:
        return -1
    if b is None:
        return 1
    raise Unsupported('default ordering of objects')


def dyadic(v):
    """(n, k) with v = n / 2**k, exactly, or None"""
    if isinstance(v, BigF):
        return v.i, v.k
    if isnum(v):
        return toint(v), 0
    if type(v) is float and v == v and abs(v) < 2.0 ** 53:
        n, d = v.as_integer_ratio()
        return n, d.bit_length() - 1
    return None


def small53(*vs):
    """all of these are integers that are exact as floats"""
    lim = 2 ** 53
    c = [And(v >= -lim, v <= lim) if isinstance(v, z3.ArithRef) else -lim <= v <= lim for v in vs]
    if any(x is False for x in c):
        return False
    c = [x for x in c if x is not True]
    return And(*c) if c else True


def num_cmp(I, op, a, b):
    if type(a) in (int, bool, float) and type(b) in (int, bool, float):
        return {'Eq': a == b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, (BigF, z3.ArithRef)) or isinstance(b, (BigF, z3.ArithRef)):
        # a constant of 2**54 or more is beyond any value of 2**53 or less
        for v, o in ((a, b), (b, a)):
            if type(v) in (int, float) and abs(v) >= 2 ** 54 and dyadic(o) is not None and I.branch(small53(dyadic(o)[0])):
                c = (v, 0) if v is a else (0, v)
                return {'Eq': False, 'Lt': c[0] < c[1], 'LtE': c[0] <= c[1], 'Gt': c[0] > c[1], 'GtE': c[0] >= c[1]}[op]
        # dyadic values: exact while the numerators are at most 2**53
        x, y = dyadic(a), dyadic(b)
        if x is not None and y is not None:
            k = max(x[1], y[1])
            xi, yi = x[0] * 2 ** (k - x[1]), y[0] * 2 ** (k - y[1])
            if k <= 100 and I.branch(small53(x[0], y[0])):
                return {'Eq': xi == yi, 'Lt': xi < yi, 'LtE': xi <= yi, 'Gt': xi > yi, 'GtE': xi >= yi}[op]
    if isinstance(a, QuoF) or isinstance(b, QuoF):
        if isinstance(b, QuoF) and not isinstance(a, QuoF):
            return num_cmp(I, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq'}[op], b, a)
        c = dyadic(b)
        if c is not None and c[1] == 0:
            # |p/q| <= 2**20, q <= 2**20, |off|, |c| <= 2**30: if p/q + off = c then both
            # roundings are exact; otherwise they differ by 1/q or more, and the errors of
            # rounding are less than 2**-21
            c, off = c[0], 0 if a.off is None else a.off
            lim = And(a.q <= 2 ** 20, a.p <= a.q * 2 ** 20, -a.p <= a.q * 2 ** 20, off <= 2 ** 30, off >= -2 ** 30, c <= 2 ** 30, c >= -2 ** 30)
            if I.branch(z3b(lim)):
                l, r = a.p, (c - off) * a.q
                return {'Eq': l == r, 'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r}[op]
    x, y = fp(I, a), fp(I, b)
    return {'Eq': z3.fpEQ, 'Lt': z3.fpLT, 'LtE': z3.fpLEQ, 'Gt': z3.fpGT, 'GtE': z3.fpGEQ}[op](x, y)


def compare(I, op, a, b):
    if op == 'Eq':
        return eq(I, a, b)
    if op == 'NotEq':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, O):
                m = I.lookup_special(x, '__ne__')
                if m is not None:
                    r = I.call(m, [y])
                    if r is not NOTIMPL:
                        return r
        if isinstance(a, O) and not isinstance(a, PyExc):
            m = I.lookup_special(a, '__eq__')
            if m is not None and I.lookup_special(a, '__cmp__') is None and not isinstance(b, O):
                # Python 2: without __ne__ the default is identity
                return a is not b
            if m is not None and I.lookup_special(a, '__cmp__') is None:
                return a is not b
        return Not(eq(I, a, b))
    if op == 'Is':
        return is_(I, a, b)
    if op == 'IsNot':
        return Not(is_(I, a, b))
    if op == 'In':
        return contains(I, b, a)
    if op == 'NotIn':
        return Not(I.truth(contains(I, b, a)))
    if isnum(a) and isnum(b):
        a = toint(a)
        b = toint(b)
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
    if (isfloat(a) or isfloat(b)) and (isnum(a) or isfloat(a)) and (isnum(b) or isfloat(b)):
        return num_cmp(I, op, a, b)
    if isinstance(a, O) or isinstance(b, O):
        f, g = RICH[op]
        for x, y, n in ((a, b, f), (b, a, g)):
            if isinstance(x, O):
                m = I.lookup_special(x, n)
                if m is not None:
                    r = I.call(m, [y])
                    if r is not NOTIMPL:
                        return r
    if isinstance(a, SetV) and isinstance(b, SetV):
        sub = all(set_has(I, b, v) for v in a.d.values())
        sup = all(set_has(I, a, v) for v in b.d.values())
        return {'LtE': sub, 'GtE': sup, 'Lt': sub and not sup, 'Gt': sup and not sub}[op]
    c = cmp_(I, a, b)
    return {'Lt': lambda: c < 0, 'LtE': lambda: c <= 0, 'Gt': lambda: c > 0, 'GtE': lambda: c >= 0}[op]()


def is_(I, a, b):
    if a is None or b is None:
        if hasattr(a, 'sym_isnone'):
            return a.sym_isnone(I)
        if hasattr(b, 'sym_isnone'):
            return b.sym_isnone(I)
        return a is b
    if isbool(a) and isbool(b):
        return eq(I, a, b)
    if isint(a) and isint(b):
        # small-int identity is an implementation detail; treated as equality
        return eq(I, a, b)
    if isinstance(a, S) and isinstance(b, S):
        if a is b:
            return True
        raise Unsupported('identity of strings')
    if hasattr(a, 'sym_is'):
        return a.sym_is(I, b)
    return a is b


def contains(I, c, x):
    if isinstance(c, S):
        if not isinstance(x, S):
            raise I.exc('TypeError', 'in <string> requires string')
        if len(x.c) == 1:
            ch = x.c[0]
            if type(ch) is int and c.conc():
                return ch in c.c
            if type(ch) is not int and c.conc():
                return in_ranges(ch, to_ranges(c.c))
            return Or(*[ch == y for y in c.c])
        n = len(x.c)
        out = []
        for i in range(len(c.c) - n + 1):
            out.append(str_eq(S(c.k, c.c[i:i + n]), S(c.k, x.c)))
        return Or(*out)
    if isinstance(c, (tuple, L)):
        out = []
        for y in (c if isinstance(c, tuple) else c.v):
            e = hardsimp(eq(I, y, x) if y is not x else True)
            if e is True:
                return True
            if e is False:
                continue
            out.append(e)
        return Or(*out)
    if isinstance(c, D):
        ok, v = dict_get(I, c, x)
        return ok
    if isinstance(c, SetV):
        return set_has(I, c, x)
    if isinstance(c, O):
        m = I.lookup_special(c, '__contains__')
        if m is not None:
            return I.truth(I.call(m, [x]))
        if c.items is not None:
            return contains(I, c.items, x)
        for y in I.iterate(c):
            if I.branch(eq(I, y, x)):
                return True
        return False
    if isinstance(c, Gen):
        for y in I.iterate(c):
            if I.branch(eq(I, y, x)):
                return True
        return False
    if hasattr(c, 'sym_contains'):
        return c.sym_contains(I, x)
    if c is None or isnum(c):
        raise I.exc('TypeError', 'not iterable')
    raise Unsupported('in %r' % (c,))


def to_ranges(codes):
    out = []
    for c in sorted(set(codes)):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


# ------------------------------------------------------------------ dicts/sets

def find_key(I, d, k):
    """Key under which k is stored in d (concrete or by symbolic case split)."""
    try:
        ck = keyof(k)
        custom = isinstance(k, O) and is_custom(I, k)
        if not custom:
            if ck in d:
                return ck
            if not any(x[0] == 'sym' for x in d):
                return None
            cands = [x for x in d if x[0] == 'sym']
        else:
            cands = list(d)
    except SymbolicKey:
        if isinstance(k, (L, D)):
            raise I.exc('TypeError', 'unhashable')
        cands = list(d)
    if isinstance(k, O):
        check_hashable(I, k)
    for x in cands:
        e = d[x]
        kv = e[0] if isinstance(e, tuple) else e
        if x[0] == 's' and isinstance(k, S) and len(k.c) != len(x[1]):
            continue
        if I.branch(eq(I, kv, k)):
            return x
    return None


def check_hashable(I, k):
    f, v, c = I.cls_get(k.cls, '__hash__')
    if f and isinstance(c, C):
        if v is None:
            raise I.exc('TypeError', 'unhashable')


def newkey(I, d, k):
    try:
        if isinstance(k, O) and is_custom(I, k):
            raise SymbolicKey()
        return keyof(k)
    except SymbolicKey:
        if isinstance(k, (L, D)):
            raise I.exc('TypeError', 'unhashable')
        I.nfresh += 1
        return ('sym', I.nfresh)


def hashable(I, k):
    if isinstance(k, (L, D)) or (isinstance(k, SetV) and not k.frozen):
        raise I.exc('TypeError', 'unhashable')
    if isinstance(k, tuple):
        for x in k:
            hashable(I, x)


def dict_get(I, d, k):
    hashable(I, k)
    x = find_key(I, d.d, k)
    if x is None:
        return False, None
    return True, d.d[x][1]


def dict_set(I, d, k, v):
    hashable(I, k)
    x = find_key(I, d.d, k)
    if x is None:
        d.d[newkey(I, d.d, k)] = (k, v)
    else:
        d.d[x] = (d.d[x][0], v)


def dict_del(I, d, k):
    x = find_key(I, d.d, k)
    if x is None:
        raise I.exc('KeyError', k)
    del d.d[x]


def set_has(I, s, k):
    hashable(I, k)
    return find_key(I, s.d, k) is not None


def set_add(I, s, k):
    hashable(I, k)
    if find_key(I, s.d, k) is None:
        s.d[newkey(I, s.d, k)] = k


def set_discard(I, s, k):
    x = find_key(I, s.d, k)
    if x is None:
        return False
    del s.d[x]
    return True


# ------------------------------------------------------------------ arithmetic

def fdiv(I, a, b):
    """floor division / modulus of ints -> (q, r); raises ZeroDivisionError"""
    a = toint(a)
    b = toint(b)
    if I.branch(b == 0):
        raise I.exc('ZeroDivisionError', 'integer division or modulo by zero')
    if type(a) is int and type(b) is int:
        return a // b, a % b
    from interp import toz
    if type(b) is int:
        if b > 0:
            return lindiv(I, toz(a), b)
        return (-toz(a)) / (-b), -((-toz(a)) % (-b))
    if I.branch(b > 0):
        return toz(a) / b, toz(a) % b
    return (-toz(a)) / (-b), -((-toz(a)) % (-b))


def lin(e, co, out, const):
    """Accumulate the linear form of co*e into out: id -> [atom, coef]."""
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM:
        const[0] += co * e.as_long()
    elif k == z3.Z3_OP_ADD:
        for x in e.children():
            lin(x, co, out, const)
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        lin(ch[0], co, out, const)
        for x in ch[1:]:
            lin(x, -co, out, const)
    elif k == z3.Z3_OP_UMINUS:
        lin(e.arg(0), -co, out, const)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        lin(e.arg(1), co * e.arg(0).as_long(), out, const)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        lin(e.arg(0), co * e.arg(1).as_long(), out, const)
    else:
        o = out.get(e.get_id())
        if o is None:
            out[e.get_id()] = [e, co]
        else:
            o[1] += co


def atom_bounds(I, e):
    i = e.get_id()
    b = I.bnd.get(i)
    if b is not None:
        return b[0], b[1]
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        x, y = bounds(I, e.arg(1)), bounds(I, e.arg(2))
        if None in x or None in y:
            return None, None
        return min(x[0], y[0]), max(x[1], y[1])
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        return 0, e.arg(1).as_long() - 1
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        x = bounds(I, e.arg(0))
        n = e.arg(1).as_long()
        return (None if x[0] is None else x[0] // n), (None if x[1] is None else x[1] // n)
    return None, None


def bounds(I, e):
    """An interval containing the value of e (from the bounds of its atoms)."""
    if type(e) is int:
        return e, e
    out, const = {}, [0]
    lin(e, 1, out, const)
    return lbounds(I, [(a, c) for a, c in out.values()], const[0])


def lbounds(I, terms, k):
    lo = hi = k
    for a, c in terms:
        if c == 0:
            continue
        x, y = atom_bounds(I, a)
        if c < 0:
            x, y = y, x
        lo = None if (lo is None or x is None) else lo + c * x
        hi = None if (hi is None or y is None) else hi + c * y
    return lo, hi


def build(terms, k):
    xs = [a if c == 1 else c * a for a, c in terms if c]
    if not xs:
        return k
    if k:
        xs.append(z3.IntVal(k))
    return xs[0] if len(xs) == 1 else z3.Sum(*xs)


def lindiv(I, a, b):
    """a // b and a % b (b > 0 constant), taking out the multiples of b."""
    key = (a.get_id(), b)
    hit = I.divcache.get(key)
    if hit is not None and hit[1] == I.nbnd:
        return hit[2]
    r = lindiv2(I, a, b)
    I.divcache[key] = (a, I.nbnd, r)
    return r


def lindiv2(I, a, b):
    out, const = {}, [0]
    lin(a, 1, out, const)
    terms = [(x, c) for x, c in out.values() if c]
    R = [(x, c % b) for x, c in terms]
    A = [(x, c // b) for x, c in terms]
    r0, a0 = const[0] % b, const[0] // b
    # prefer the small negative residue when it is closer to zero and keeps the range small
    R2, A2 = [], []
    for x, c in R:
        q = [d for y, d in A if y is x][0]
        if 2 * c > b:
            R2.append((x, c - b))
            A2.append((x, q + 1))
        else:
            R2.append((x, c))
            A2.append((x, q))
    best = None
    for Rx, Ax in ((R, A), (R2, A2)):
        lo, hi = lbounds(I, Rx, r0)
        if lo is not None and hi is not None:
            n = hi // b - lo // b
            if best is None or n < best[0]:
                best = (n, Rx, Ax, lo, hi)
    if best is not None and best[0] <= 3:
        n, Rx, Ax, lo, hi = best
        r = build(Rx, r0)
        z = lo // b
        if n == 0:
            return build(Ax, a0 + z), build(Rx, r0 - z * b)
        if I.cfg.get('split_div', False):
            while z < hi // b and not I.branch(r < (z + 1) * b):
                z += 1
            return build(Ax, a0 + z), build(Rx, r0 - z * b)
        q = z3.IntVal(hi // b)
        for k in range(hi // b - 1, z - 1, -1):
            q = z3.If(r < (k + 1) * b, z3.IntVal(k), q)
        from interp import toz
        return toz(build(Ax, a0)) + q, r - b * q
    r = build(R, r0)
    if type(r) is int:
        return build(A, a0 + r // b), r % b
    from interp import toz
    return toz(build(A, a0)) + r / b, r % b


def str_val(I, v):
    return v


def binop(I, op, a, b):
    if isnum(a) and isnum(b):
        a = toint(a)
        b = toint(b)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op in ('Div', 'FloorDiv'):
            return fdiv(I, a, b)[0]
        if op == 'Mod':
            return fdiv(I, a, b)[1]
        if op == 'Pow':
            if type(a) is int and type(b) is int:
                return a ** b
            if type(b) is int and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = r * a
                return r
            raise Unsupported('pow')
        return bitop(I, op, a, b)
    if (isfloat(a) or isfloat(b)) and (isnum(a) or isfloat(a)) and (isnum(b) or isfloat(b)):
        return float_op(I, op, a, b)
    if isinstance(a, S) and op == 'Mod':
        return format_(I, a, b)
    if op == 'Add':
        if isinstance(a, S) and isinstance(b, S):
            return S('u' if 'u' in (a.k, b.k) else 's', a.c + b.c)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, L) and isinstance(b, L):
            return L(a.v + b.v)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isnum(y) and isinstance(x, (S, tuple, L)):
                n = conc_int(I, y, 'repeat count')
                if isinstance(x, S):
                    return S(x.k, x.c * n)
                if isinstance(x, tuple):
                    return x * n
                return L(x.v * n)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_op(I, op, a, b)
    if hasattr(a, 'sym_binop'):
        return a.sym_binop(I, op, a, b)
    if hasattr(b, 'sym_binop'):
        return b.sym_binop(I, op, a, b)
    names = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'floordiv', 'Mod': 'mod',
             'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'Pow': 'pow'}
    n = names[op]
    if isinstance(a, O):
        m = I.lookup_special(a, '__%s__' % n)
        if m is not None:
            return I.call(m, [b])
    if isinstance(b, O):
        m = I.lookup_special(b, '__r%s__' % n)
        if m is not None:
            return I.call(m, [a])
    for x in (a, b):
        if not (x is None or isnum(x) or isfloat(x) or isinstance(x, (S, tuple, L, D, O, SetV, C, XC, F))):
            raise Unsupported('%s of %r and %r' % (op, a, b))
    raise I.exc('TypeError', 'unsupported operand type(s) for %s' % op)


def set_op(I, op, a, b):
    r = SetV()
    if op == 'BitOr':
        for x in list(a.d.values()) + list(b.d.values()):
            set_add(I, r, x)
    elif op == 'BitAnd':
        for x in a.d.values():
            if set_has(I, b, x):
                set_add(I, r, x)
    elif op == 'Sub':
        for x in a.d.values():
            if not set_has(I, b, x):
                set_add(I, r, x)
    else:
        raise Unsupported('set op')
    return r


def bitop(I, op, a, b):
    if type(a) is int and type(b) is int:
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        if op == 'BitXor':
            return a ^ b
        if op == 'LShift':
            return a << b
        if op == 'RShift':
            return a >> b
    if op == 'LShift' and type(b) is int:
        return a * (1 << b)
    if op == 'RShift' and type(b) is int:
        return a / (1 << b)
    if op == 'BitAnd':
        return bitand(a, b)
    if op == 'BitOr':
        return a + b - bitand(a, b)
    if op == 'BitXor':
        return a + b - 2 * bitand(a, b)
    raise Unsupported('bit operation')


def bitand(a, b):
    if type(a) is int:
        a, b = b, a
    if type(b) is not int:
        # disjointness by construction is not tracked
        raise Unsupported('& of two symbolic ints')
    if b < 0:
        # a & b = a - (a & ~b)
        return a - bitand(a, -b - 1)
    r = 0
    i = 0
    while (b >> i):
        if not (b >> i) & 1:
            i += 1
            continue
        j = i
        while (b >> j) & 1:
            j += 1
        r = r + ((a / (1 << i)) % (1 << (j - i))) * (1 << i)
        i = j
    return r


def float_op(I, op, a, b):
    if not any(isinstance(x, (FP, BigF, QuoF, z3.ExprRef)) for x in (a, b)):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return float(a) / b
            if op == 'FloorDiv':
                return float(a) // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
        except ZeroDivisionError:
            raise I.exc('ZeroDivisionError', 'float division by zero')
    if isinstance(a, (BigF, z3.ArithRef)) or isinstance(b, (BigF, z3.ArithRef)):
        x, y = dyadic(a), dyadic(b)
        if x is not None and y is not None:
            if op in ('Add', 'Sub', 'Mult'):
                k = max(x[1], y[1])
                xi, yi = x[0] * 2 ** (k - x[1]), y[0] * 2 ** (k - y[1])
                if op == 'Mult':
                    k = x[1] + y[1]
                    r = x[0] * y[0]
                else:
                    r = xi + yi if op == 'Add' else xi - yi
                if k <= 100 and I.branch(small53(x[0], y[0], r)):
                    return BigF(r, k)
            elif op == 'Div':
                if type(y[0]) is int and y[0] and abs(y[0]) & (abs(y[0]) - 1) == 0:
                    k = x[1] + abs(y[0]).bit_length() - 1 - y[1]
                    if 0 <= k <= 100 and I.branch(small53(x[0])):
                        return BigF(x[0] if y[0] > 0 else -x[0], k)
                if x[1] == 0 and y[1] == 0:
                    if I.branch(z3b(y[0] == 0)):
                        raise I.exc('ZeroDivisionError', 'float division by zero')
                    if I.branch(small53(x[0], y[0])):
                        pos = I.branch(z3b(y[0] > 0))
                        return QuoF(x[0] if pos else -x[0], y[0] if pos else -y[0])
    for q, o, sg in ((a, b, 1), (b, a, 1)):
        if isinstance(q, QuoF) and q.off is None and op in ('Add', 'Sub') and not (op == 'Sub' and q is b):
            d = dyadic(o)
            if d is not None and d[1] == 0 and I.branch(small53(d[0])):
                return QuoF(q.p, q.q, d[0] if op == 'Add' else -d[0])
    x, y = fp(I, a), fp(I, b)
    if op == 'Add':
        return FP(z3.fpAdd(RNE, x, y))
    if op == 'Sub':
        return FP(z3.fpSub(RNE, x, y))
    if op == 'Mult':
        return FP(z3.fpMul(RNE, x, y))
    if op == 'Div':
        if I.branch(z3.fpIsZero(y)):
            raise I.exc('ZeroDivisionError', 'float division by zero')
        return FP(z3.fpDiv(RNE, x, y))
    raise Unsupported('float %s' % op)


# ------------------------------------------------------------------ int <-> text

def digits(I, n, d, base=10):
    """d digit terms (most significant first) of 0 <= n < base**d, introduced
    as fresh constants with n == sum (a definitional extension)."""
    n = hardsimp(n)
    if type(n) is int:
        out = []
        for _ in range(d):
            out.append(n % base)
            n //= base
        return out[::-1]
    cache = I.__dict__.setdefault('_digits', {})
    k = (n.get_id(), d, base)
    if k in cache:
        return cache[k][1]
    ds = [I.fresh('dg') for _ in range(d)]
    s = 0
    for x in ds:
        s = s * base + x
    for x in ds:
        I.assume(And(x >= 0, x < base))
    I.assume(n == s)
    cache[k] = (n, ds)
    return ds


def digit_char(x, base, upper):
    if type(x) is int:
        return ord('0123456789ABCDEF'[x] if upper else '0123456789abcdef'[x])
    if base <= 10:
        return x + 48
    return z3.If(x < 10, x + 48, x + (55 if upper else 87))


def int_text(I, n, base=10, upper=False, least=1, width=0, plus=False):
    """code points of the decimal/hex text of n with at least the given number
    of digits, or zero padded with its sign to a width, as (neg, [codes])"""
    n = hardsimp(toint(n))
    if type(n) is int:
        s = {10: '%d', 16: '%X' if upper else '%x', 8: '%o'}[base] % abs(n)
        return n < 0, [ord(c) for c in s.rjust(max(least, width - (n < 0 or plus)), '0')]
    neg = I.branch(n < 0)
    least = max(least, width - (neg or plus))
    m = -n if neg else n
    d = max(least, 1)
    while not I.branch(m < base ** d):
        d += 1
        if d > 40:
            raise Unsupported('number of digits unbounded')
    ds = digits(I, m, d, base)
    return neg, [digit_char(x, base, upper) for x in ds]


def int_str(I, n, k='s'):
    neg, c = int_text(I, n)
    return S(k, tuple(([45] if neg else []) + c))


def format_(I, f, args):
    if not f.conc():
        raise Unsupported('symbolic format string')
    fmt = f.text()
    isdict = isinstance(args, D) or (isinstance(args, O) and isinstance(args.items, D))
    al = list(args) if isinstance(args, tuple) else [args]
    pos = [0]
    kind = f.k

    def nxt():
        if pos[0] >= len(al):
            raise I.exc('TypeError', 'not enough arguments for format string')
        pos[0] += 1
        return al[pos[0] - 1]
    out = []
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != '%':
            out.append(ord(ch))
            i += 1
            continue
        i += 1
        key = None
        if i < len(fmt) and fmt[i] == '(':
            j = fmt.index(')', i)
            key = fmt[i + 1:j]
            i = j + 1
        flags = ''
        while i < len(fmt) and fmt[i] in '#0- +':
            flags += fmt[i]
            i += 1
        width = ''
        prec = None
        if i < len(fmt) and fmt[i] == '*':
            width = conc_int(I, nxt(), 'width')
            i += 1
        else:
            while i < len(fmt) and fmt[i].isdigit():
                width += fmt[i]
                i += 1
            width = int(width) if width else 0
        if i < len(fmt) and fmt[i] == '.':
            i += 1
            if i < len(fmt) and fmt[i] == '*':
                prec = conc_int(I, nxt(), 'precision')
                i += 1
            else:
                p = ''
                while i < len(fmt) and fmt[i].isdigit():
                    p += fmt[i]
                    i += 1
                prec = int(p) if p else 0
        while i < len(fmt) and fmt[i] in 'hlL':
            i += 1
        t = fmt[i]
        i += 1
        if t == '%':
            out.append(37)
            continue
        v = getitem(I, args, cs(key)) if key is not None else nxt()
        if t in 'di' and (isnum(v) or isfloat(v)) or t in 'xXo' and isnum(v) or t == 'u' and isnum(v):
            if isfloat(v):
                v = to_int(I, v)
            neg, c = int_text(I, v, {'x': 16, 'X': 16, 'o': 8}.get(t, 10), t == 'X', prec or 1, width if '0' in flags and '-' not in flags else 0, '+' in flags or ' ' in flags)
            sign = [45] if neg else ([43] if '+' in flags else ([32] if ' ' in flags else []))
            if '0' in flags and '-' not in flags:
                c = [48] * (width - len(sign) - len(c)) + c
            c = sign + c
        elif t in 'diuxXo':
            raise I.exc('TypeError', '%%%s format: a number is required' % t)
        elif t == 's':
            if isinstance(v, S):
                s = v
            else:
                s = to_str(I, v, kind)
            if s.k == 'u':
                kind = 'u'
            c = list(s.c)
            if prec is not None:
                c = c[:prec]
        elif t == 'r':
            c = list(repr_(I, v).c)
        elif t == 'c':
            if isinstance(v, S):
                c = list(v.c)
            else:
                c = [toint(v)]
        elif t in 'feEgG':
            if isinstance(v, z3.ExprRef) or isinstance(v, (FP, BigF, QuoF)):
                if I.raising is None or I.raising != I.depth:
                    raise Unsupported('formatting a symbolic float')
                # in the text of an exception
                v = 0.0
            if not (isnum(v) or type(v) is float):
                raise I.exc('TypeError', 'float argument required')
            spec = '%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + t
            c = [ord(x) for x in spec % v]
        else:
            raise Unsupported('format %%%s' % t)
        if len(c) < width:
            if '-' in flags:
                c = c + [32] * (width - len(c))
            else:
                c = [32] * (width - len(c)) + c
        out.extend(c)
    if not isdict and isinstance(args, tuple) and pos[0] < len(al):
        raise I.exc('TypeError', 'not all arguments converted during string formatting')
    if not isdict and not isinstance(args, tuple) and pos[0] == 0:
        raise I.exc('TypeError', 'not all arguments converted during string formatting')
    return S(kind, tuple(out))


def to_str(I, v, kind='s'):
    if isinstance(v, S):
        return v
    if isbool(v):
        if I.branch(v):
            return cs('True', kind)
        return cs('False', kind)
    if isint(v):
        return int_str(I, v, kind)
    if v is None:
        return cs('None', kind)
    if isinstance(v, O):
        names = ['__unicode__', '__str__'] if kind == 'u' else ['__str__']
        for n in names:
            m = I.lookup_special(v, n)
            if m is not None:
                return I.call(m, [])
        m = I.lookup_special(v, '__repr__')
        if m is not None:
            return I.call(m, [])
        if isinstance(v.cls.mro[-1], XC) and 'args' in v.a:
            a = v.a['args']
            return to_str(I, a[0], kind) if len(a) == 1 else (repr_(I, tuple(a)) if a else cs('', kind))
        return unknown_text(I, kind)
    if type(v) is float:
        return cs(float_str(v), kind)
    return repr_(I, v)


def float_str(v):
    r = '%.12g' % v
    if 'e' not in r and '.' not in r and 'n' not in r:
        r += '.0'
    return r


def repr_(I, v):
    try:
        if isinstance(v, S) and v.conc():
            return cs(('u' if v.k == 'u' else '') + ascii(v.text()))
        if isint(v):
            return int_str(I, v)
        if v is None or isbool(v):
            return to_str(I, v)
        if type(v) is float:
            return cs(repr(v))
    except PathEnd:
        raise
    if isinstance(v, O):
        m = I.lookup_special(v, '__repr__')
        if m is not None:
            return I.call(m, [])
    if isinstance(v, (tuple, L)):
        xs = list(v) if isinstance(v, tuple) else list(I.iterate(v))
        c = []
        for i, x in enumerate(xs):
            c += ([44, 32] if i else []) + list(repr_(I, x).c)
        if isinstance(v, tuple):
            return S('s', tuple([40] + c + ([44] if len(xs) == 1 else []) + [41]))
        return S('s', tuple([91] + c + [93]))
    return unknown_text(I)


def unknown_text(I, kind='s'):
    """text nothing is known about but its characters' range (messages, for the most part)"""
    v = S(kind, tuple(I.fresh('text') for _ in range(8)))
    for c in v.c:
        I.assume(z3.And(c >= 32, c <= 126))
    return v


WS = [(9, 13), (32, 32)]


def parse_int(I, s, base=10):
    """int(text, base) for text of known length"""
    cs_ = list(s.c)
    ws = WS if s.k == 's' else WS + [(28, 31), (133, 133), (160, 160)]
    while cs_ and I.branch(in_ranges(cs_[0], ws)):
        cs_.pop(0)
    while cs_ and I.branch(in_ranges(cs_[-1], ws)):
        cs_.pop()
    neg = False
    if cs_ and I.branch(in_ranges(cs_[0], [(43, 43), (45, 45)])):
        neg = I.branch(cs_[0] == 45)
        cs_.pop(0)
    if base == 16 and len(cs_) >= 2 and I.branch(And(cs_[0] == 48, in_ranges(cs_[1], [(88, 88), (120, 120)]))):
        cs_ = cs_[2:]
    if not cs_:
        raise I.exc('ValueError', 'invalid literal for int()')
    rs = [(48, 57)] if base == 10 else ([(48, 57), (65, 70), (97, 102)] if base == 16 else [(48, 47 + base)])
    ok = And(*[in_ranges(c, rs) for c in cs_])
    if not I.branch(ok):
        # a trailing 'L' or non-ASCII digit is not modelled separately: it is rejected
        # only when the characters are ASCII
        if s.k == 'u' and not I.branch(And(*[c < 128 for c in cs_])):
            raise Unsupported('int() of non-ASCII text')
        if I.branch(in_ranges(cs_[-1], [(76, 76), (108, 108)])):
            raise Unsupported('int() of text ending in L')
        raise I.exc('ValueError', 'invalid literal for int()')
    v = 0
    for c in cs_:
        if base == 16:
            if type(c) is int:
                d = int(chr(c), 16)
            else:
                d = z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
        else:
            d = c - 48
        v = v * base + d
    return -v if neg else v


def to_int(I, v, base=None):
    if isnum(v):
        return toint(v)
    if isinstance(v, S):
        return parse_int(I, v, base or 10)
    if type(v) is float:
        try:
            return int(v)
        except (OverflowError, ValueError) as e:
            raise I.exc(type(e).__name__, str(e))
    if isinstance(v, BigF):
        return dy_trunc(v)
    if isinstance(v, QuoF):
        v = FP(fp(I, v))
    if isinstance(v, FP):
        return fp_to_int(I, v, 'RTZ')
    if isinstance(v, O):
        for n in ('__int__', '__trunc__'):
            m = I.lookup_special(v, n)
            if m is not None:
                return I.call(m, [])
        raise I.exc('TypeError', 'int() argument')
    if v is None or isinstance(v, (tuple, L, D)):
        raise I.exc('TypeError', 'int() argument')
    raise Unsupported('int of %r' % (v,))


def dy_trunc(v):
    """truncation towards zero"""
    return v.i if v.k == 0 else z3.If(v.i >= 0, v.i / 2 ** v.k, -((-v.i) / 2 ** v.k))


def fp_to_int(I, v, mode):
    if I.branch(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e))):
        raise I.exc('OverflowError' if I.branch(z3.fpIsInf(v.e)) else 'ValueError', 'cannot convert float to integer')
    r = z3.fpToReal(v.e)
    fl = z3.ToInt(r)
    if mode == 'floor':
        return fl
    return z3.If(r >= 0, fl, -z3.ToInt(-r))


# ------------------------------------------------------------------ items

def norm_slice(I, sl, n):
    def one(x, default):
        if x is None:
            return default
        x = conc_int(I, x, 'slice bound')
        return x
    step = one(sl.step, 1)
    return slice(one(sl.start, None), one(sl.stop, None), step if step != 1 else None)


def sym_index(I, seq, k):
    """seq[k] for a known-length sequence and a symbolic index"""
    n = len(seq)
    k = hardsimp(toint(k))
    if type(k) is int:
        if k < -n or k >= n:
            raise I.exc('IndexError', 'index out of range')
        return seq[k]
    if not I.branch(And(k >= -n, k < n)):
        raise I.exc('IndexError', 'index out of range')
    if n and all(isint(x) for x in seq) and n <= 64:
        r = toz(seq[0])
        from interp import toz as tz
        for i in range(1, n):
            r = z3.If(Or(k == i, k == i - n), tz(seq[i]), r)
        return r
    for i in range(n):
        if i == n - 1 or I.branch(Or(k == i, k == i - n)):
            return seq[i]
    raise PathEnd()


def toz(v):
    from interp import toz as t
    return t(v)


def getitem(I, o, k):
    if isinstance(o, (S, tuple, L)):
        seq = o.c if isinstance(o, S) else (o if isinstance(o, tuple) else o.v)
        if isinstance(k, slice):
            if any(hasattr(x, 'sym_isnone') for x in (k.start, k.stop)):
                raise Unsupported('slice bound')
            r = seq[norm_slice(I, k, len(seq))]
            return S(o.k, r) if isinstance(o, S) else (r if isinstance(o, tuple) else L(list(r)))
        if not isnum(k):
            raise I.exc('TypeError', 'indices must be integers')
        r = sym_index(I, seq, k)
        return S(o.k, (r,)) if isinstance(o, S) else r
    if isinstance(o, D):
        ok, v = dict_get(I, o, k)
        if not ok:
            raise I.exc('KeyError', k)
        return v
    if isinstance(o, O):
        m = I.lookup_special(o, '__getitem__')
        if m is not None:
            return I.call(m, [k])
        if o.items is not None:
            return getitem(I, o.items, k)
        raise I.exc('TypeError', 'not subscriptable')
    if hasattr(o, 'sym_getitem'):
        return o.sym_getitem(I, k)
    if o is None or isnum(o) or isinstance(o, (F, BM, C)):
        raise I.exc('TypeError', 'not subscriptable')
    raise Unsupported('getitem of %r' % (o,))


def setitem(I, o, k, v):
    if isinstance(o, L):
        if isinstance(k, slice):
            o.v[norm_slice(I, k, len(o.v))] = list(I.iterate(v))
            return
        i = conc_int(I, k, 'list index')
        if i < -len(o.v) or i >= len(o.v):
            raise I.exc('IndexError', 'list assignment index out of range')
        o.v[i] = v
        return
    if isinstance(o, D):
        dict_set(I, o, k, v)
        return
    if isinstance(o, O):
        m = I.lookup_special(o, '__setitem__')
        if m is not None:
            I.call(m, [k, v])
            return
        if o.items is not None:
            setitem(I, o.items, k, v)
            return
        raise I.exc('TypeError', 'does not support item assignment')
    if hasattr(o, 'sym_setitem'):
        return o.sym_setitem(I, k, v)
    if o is None or isnum(o) or isinstance(o, (S, tuple)):
        raise I.exc('TypeError', 'does not support item assignment')
    raise Unsupported('setitem of %r' % (o,))


def delitem(I, o, k):
    if isinstance(o, L):
        if isinstance(k, slice):
            del o.v[norm_slice(I, k, len(o.v))]
            return
        i = conc_int(I, k, 'list index')
        if i < -len(o.v) or i >= len(o.v):
            raise I.exc('IndexError', 'list index out of range')
        del o.v[i]
    elif isinstance(o, D):
        dict_del(I, o, k)
    elif isinstance(o, O):
        m = I.lookup_special(o, '__delitem__')
        if m is not None:
            I.call(m, [k])
        elif o.items is not None:
            delitem(I, o.items, k)
        else:
            raise I.exc('TypeError', 'does not support item deletion')
    elif hasattr(o, 'sym_delitem'):
        o.sym_delitem(I, k)
    else:
        raise Unsupported('delitem of %r' % (o,))


# ------------------------------------------------------------------ methods

def method(I, o, name):
    if isinstance(o, S):
        t = STR
    elif isinstance(o, L):
        t = LIST
    elif isinstance(o, D):
        t = DICT
    elif isinstance(o, SetV):
        t = SET
    elif isinstance(o, tuple):
        t = TUPLE
    elif isinstance(o, Gen):
        t = GEN
    elif hasattr(o, 'sym_method'):
        return o.sym_method(I, name)
    else:
        return None
    f = t.get(name)
    if f is None:
        if o.__class__ is S and name in ('format', 'translate', 'splitlines', 'center', 'expandtabs'):
            raise Unsupported('str.%s' % name)
        return None
    return B(name, lambda I, a, kw, o=o, f=f: f(I, o, a, kw))


STR, LIST, DICT, SET, TUPLE, GEN = {}, {}, {}, {}, {}, {}


def m(t, name):
    def deco(f):
        t[name] = f
        return f
    return deco


def as_S(I, v):
    if not isinstance(v, S):
        if hasattr(v, 'sym_isnone'):
            raise Unsupported('string expected')
        raise I.exc('TypeError', 'string expected')
    return v


def find(I, s, sub, start=None, end=None, rev=False):
    lo, hi, _ = slice(None if start is None else conc_int(I, start), None if end is None else conc_int(I, end)).indices(len(s.c))
    n = len(sub.c)
    r = range(lo, hi - n + 1)
    for i in (reversed(r) if rev else r):
        if I.branch(str_eq(S(s.k, s.c[i:i + n]), S(s.k, sub.c))):
            return i
    return -1


@m(STR, 'find')
def s_find(I, s, a, kw):
    return find(I, s, as_S(I, a[0]), *a[1:])


@m(STR, 'rfind')
def s_rfind(I, s, a, kw):
    return find(I, s, as_S(I, a[0]), *(list(a[1:]) + [None] * (3 - len(a))), rev=True)


@m(STR, 'index')
def s_index(I, s, a, kw):
    r = find(I, s, as_S(I, a[0]), *a[1:])
    if r < 0:
        raise I.exc('ValueError', 'substring not found')
    return r


@m(STR, 'count')
def s_count(I, s, a, kw):
    sub = as_S(I, a[0])
    i = n = 0
    while True:
        i = find(I, s, sub, i)
        if i < 0:
            return n
        n += 1
        i += max(1, len(sub.c))


@m(STR, 'startswith')
def s_startswith(I, s, a, kw):
    p = a[0]
    if isinstance(p, tuple):
        return Or(*[s_startswith(I, s, [x], kw) for x in p])
    p = as_S(I, p)
    off = conc_int(I, a[1]) if len(a) > 1 else 0
    c = s.c[off:]
    if len(p.c) > len(c):
        return False
    return str_eq(S(s.k, c[:len(p.c)]), S(s.k, p.c))


@m(STR, 'endswith')
def s_endswith(I, s, a, kw):
    p = a[0]
    if isinstance(p, tuple):
        return Or(*[s_endswith(I, s, [x], kw) for x in p])
    p = as_S(I, p)
    if len(p.c) > len(s.c):
        return False
    return str_eq(S(s.k, s.c[len(s.c) - len(p.c):]), S(s.k, p.c))


def split(I, s, sep, maxn, rev=False):
    if sep is None:
        out = []
        cur = []
        cs_ = list(s.c)
        i = 0
        while i < len(cs_):
            if I.branch(in_ranges(cs_[i], WS)):
                if cur:
                    out.append(S(s.k, tuple(cur)))
                    cur = []
                i += 1
                continue
            if not cur and maxn >= 0 and len(out) >= maxn:
                rest = cs_[i:]
                while rest and I.branch(in_ranges(rest[-1], WS)):
                    rest.pop()
                out.append(S(s.k, tuple(rest)))
                return L(out)
            cur.append(cs_[i])
            i += 1
        if cur:
            out.append(S(s.k, tuple(cur)))
        return L(out)
    n = len(sep.c)
    if n == 0:
        raise I.exc('ValueError', 'empty separator')
    out = []
    k = 'u' if 'u' in (s.k, sep.k) else 's'
    if rev:
        end = len(s.c)
        i = end - n
        while i >= 0 and (maxn < 0 or len(out) < maxn):
            if I.branch(str_eq(S(k, s.c[i:i + n]), S(k, sep.c))):
                out.insert(0, S(k, s.c[i + n:end]))
                end = i
                i -= n
            else:
                i -= 1
        out.insert(0, S(k, s.c[:end]))
        return L(out)
    st = i = 0
    while i + n <= len(s.c) and (maxn < 0 or len(out) < maxn):
        if I.branch(str_eq(S(k, s.c[i:i + n]), S(k, sep.c))):
            out.append(S(k, s.c[st:i]))
            i += n
            st = i
        else:
            i += 1
    out.append(S(k, s.c[st:]))
    return L(out)


@m(STR, 'split')
def s_split(I, s, a, kw):
    return split(I, s, a[0] if a else None, conc_int(I, a[1]) if len(a) > 1 else -1)


@m(STR, 'rsplit')
def s_rsplit(I, s, a, kw):
    return split(I, s, a[0] if a else None, conc_int(I, a[1]) if len(a) > 1 else -1, True)


@m(STR, 'partition')
def s_partition(I, s, a, kw):
    i = find(I, s, as_S(I, a[0]))
    if i < 0:
        return (s, S(s.k, ()), S(s.k, ()))
    return (S(s.k, s.c[:i]), a[0], S(s.k, s.c[i + len(a[0].c):]))


@m(STR, 'join')
def s_join(I, s, a, kw):
    return join(I, s, a[0])


def join(I, s, it):
    if hasattr(it, 'sym_join'):
        return it.sym_join(I, s)
    out = []
    k = s.k
    first = True
    for x in I.iterate(it):
        x = as_S(I, x)
        if x.k == 'u':
            k = 'u'
        if not first:
            out.extend(s.c)
        first = False
        out.extend(x.c)
    return S(k, tuple(out))


def strip(I, s, chars, left, right):
    rs = to_ranges(chars.c) if chars is not None else (WS if s.k == 's' else WS + [(28, 31), (133, 133), (160, 160)])
    c = list(s.c)
    while left and c and I.branch(in_ranges(c[0], rs)):
        c.pop(0)
    while right and c and I.branch(in_ranges(c[-1], rs)):
        c.pop()
    return S(s.k, tuple(c))


STR['strip'] = lambda I, s, a, kw: strip(I, s, a[0] if a else None, True, True)
STR['lstrip'] = lambda I, s, a, kw: strip(I, s, a[0] if a else None, True, False)
STR['rstrip'] = lambda I, s, a, kw: strip(I, s, a[0] if a else None, False, True)


def ascii_only(I, s):
    if s.k == 's':
        return
    sy = [c for c in s.c if type(c) is not int]
    if sy and I.branch(Or(*[c >= 128 for c in sy])):
        raise Unsupported('case mapping of non-ASCII text')


def lower_c(c):
    if type(c) is int:
        return c + 32 if 65 <= c <= 90 else (c if c < 128 else ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c)
    return z3.If(And(c >= 65, c <= 90), c + 32, c)


def upper_c(c):
    if type(c) is int:
        return c - 32 if 97 <= c <= 122 else (c if c < 128 else ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c)
    return z3.If(And(c >= 97, c <= 122), c - 32, c)


@m(STR, 'lower')
def s_lower(I, s, a, kw):
    ascii_only(I, s)
    return S(s.k, tuple(lower_c(c) for c in s.c))


@m(STR, 'upper')
def s_upper(I, s, a, kw):
    ascii_only(I, s)
    return S(s.k, tuple(upper_c(c) for c in s.c))


def cls_test(ranges):
    def f(I, s, a, kw):
        if not s.c:
            return False
        ascii_only(I, s)
        return And(*[in_ranges(c, ranges) for c in s.c])
    return f


STR['isdigit'] = cls_test([(48, 57)])
STR['isalpha'] = cls_test([(65, 90), (97, 122)])
STR['isalnum'] = cls_test([(48, 57), (65, 90), (97, 122)])
STR['isspace'] = cls_test(WS)


@m(STR, 'replace')
def s_replace(I, s, a, kw):
    x, y = as_S(I, a[0]), as_S(I, a[1])
    parts = split(I, s, x, conc_int(I, a[2]) if len(a) > 2 else -1).v
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(y.c)
        out.extend(p.c)
    return S('u' if 'u' in (s.k, y.k) else s.k, tuple(out))


@m(STR, 'encode')
def s_encode(I, s, a, kw):
    enc = a[0].text().lower().replace('_', '-') if a else 'ascii'
    out = []
    if enc in ('utf-8', 'utf8'):
        for c in s.c:
            out.extend(utf8_enc(I, c))
        return S('s', tuple(out))
    lim = {'ascii': 128, 'us-ascii': 128, 'iso-8859-1': 256, 'latin-1': 256, 'latin1': 256}.get(enc)
    if lim is None:
        raise Unsupported('encode %s' % enc)
    if not I.branch(And(*[c < lim for c in s.c])):
        raise I.exc('UnicodeEncodeError', 'encode')
    return S('s', s.c)


def utf8_enc(I, c):
    if I.branch(c < 128):
        return [c]
    if I.branch(c < 0x800):
        return [0xC0 + idiv(c, 64), 0x80 + imod(c, 64)]
    if I.branch(c < 0x10000):
        return [0xE0 + idiv(c, 4096), 0x80 + imod(idiv(c, 64), 64), 0x80 + imod(c, 64)]
    return [0xF0 + idiv(c, 262144), 0x80 + imod(idiv(c, 4096), 64), 0x80 + imod(idiv(c, 64), 64), 0x80 + imod(c, 64)]


def idiv(c, n):
    return c // n if type(c) is int else c / n


def imod(c, n):
    return c % n


@m(STR, 'decode')
def s_decode(I, s, a, kw):
    enc = a[0].text().lower().replace('_', '-') if a else 'ascii'
    if enc in ('utf-8', 'utf8'):
        return utf8_dec(I, s)
    lim = {'ascii': 128, 'us-ascii': 128, 'iso-8859-1': 256, 'latin-1': 256, 'latin1': 256}.get(enc)
    if lim is None:
        raise Unsupported('decode %s' % enc)
    if not I.branch(And(*[c < lim for c in s.c])):
        raise I.exc('UnicodeDecodeError', 'decode')
    return S('u', s.c)


def utf8_dec(I, s):
    out = []
    i = 0
    c = s.c
    n = len(c)

    def cont(j):
        return j < n and I.branch(And(c[j] >= 0x80, c[j] < 0xC0))
    while i < n:
        b = c[i]
        if I.branch(b < 0x80):
            out.append(b)
            i += 1
        elif I.branch(And(b >= 0xC2, b < 0xE0)) and cont(i + 1):
            out.append((b - 0xC0) * 64 + (c[i + 1] - 0x80))
            i += 2
        elif I.branch(And(b >= 0xE0, b < 0xF0)) and cont(i + 1) and cont(i + 2):
            v = (b - 0xE0) * 4096 + (c[i + 1] - 0x80) * 64 + (c[i + 2] - 0x80)
            if not I.branch(And(v >= 0x800, Or(v < 0xD800, v > 0xDFFF))):
                raise I.exc('UnicodeDecodeError', 'decode')
            out.append(v)
            i += 3
        elif I.branch(And(b >= 0xF0, b < 0xF5)) and cont(i + 1) and cont(i + 2) and cont(i + 3):
            v = (b - 0xF0) * 262144 + (c[i + 1] - 0x80) * 4096 + (c[i + 2] - 0x80) * 64 + (c[i + 3] - 0x80)
            if not I.branch(And(v >= 0x10000, v < 0x110000)):
                raise I.exc('UnicodeDecodeError', 'decode')
            out.append(v)
            i += 4
        else:
            raise I.exc('UnicodeDecodeError', 'decode')
    return S('u', tuple(out))


STR['__len__'] = lambda I, s, a, kw: len(s.c)
STR['zfill'] = lambda I, s, a, kw: S(s.k, (48,) * (conc_int(I, a[0]) - len(s.c)) + s.c)
STR['rjust'] = lambda I, s, a, kw: S(s.k, ((a[1].c if len(a) > 1 else (32,)) * (conc_int(I, a[0]) - len(s.c))) + s.c)
STR['ljust'] = lambda I, s, a, kw: S(s.k, s.c + ((a[1].c if len(a) > 1 else (32,)) * (conc_int(I, a[0]) - len(s.c))))

LIST['append'] = lambda I, l, a, kw: l.v.append(a[0])
LIST['extend'] = lambda I, l, a, kw: l.v.extend(I.iterate(a[0]))
LIST['reverse'] = lambda I, l, a, kw: l.v.reverse()
LIST['count'] = lambda I, l, a, kw: sum(1 for x in l.v if I.branch(eq(I, x, a[0])))


@m(LIST, 'insert')
def l_insert(I, l, a, kw):
    l.v.insert(conc_int(I, a[0]), a[1])


@m(LIST, 'pop')
def l_pop(I, l, a, kw):
    i = conc_int(I, a[0]) if a else -1
    if i < -len(l.v) or i >= len(l.v):
        raise I.exc('IndexError', 'pop index out of range')
    return l.v.pop(i)


@m(LIST, 'remove')
def l_remove(I, l, a, kw):
    for i, x in enumerate(l.v):
        if I.branch(eq(I, x, a[0])):
            del l.v[i]
            return None
    raise I.exc('ValueError', 'list.remove(x): x not in list')


@m(LIST, 'index')
def l_index(I, l, a, kw):
    for i, x in enumerate(l.v):
        if I.branch(eq(I, x, a[0])):
            return i
    raise I.exc('ValueError', 'not in list')


@m(LIST, 'sort')
def l_sort(I, l, a, kw):
    l.v[:] = sort(I, l.v, a[0] if a else kw.get('cmp'), kw.get('key'), kw.get('reverse'))


def sort(I, xs, cmpf=None, key=None, reverse=None):
    """stable insertion sort (any correct stable sort gives this result)"""
    items = [(I.call(key, [x]) if key is not None else x, x) for x in xs]
    rev = reverse is not None and I.test(reverse)
    out = []
    for k, x in items:
        j = len(out)
        while j > 0:
            pk = out[j - 1][0]
            if cmpf is not None:
                lt = toint(I.call(cmpf, [pk, k]) if rev else I.call(cmpf, [k, pk])) < 0
            else:
                lt = I.truth(compare(I, 'Lt', pk, k) if rev else compare(I, 'Lt', k, pk))
            if I.branch(lt):
                j -= 1
            else:
                break
        out.insert(j, (k, x))
    return [x for k, x in out]


LIST['__iter__'] = lambda I, l, a, kw: Gen(I.iter_list(l))
TUPLE['__iter__'] = lambda I, l, a, kw: Gen(iter(list(l)))
TUPLE['index'] = lambda I, l, a, kw: l_index(I, L(list(l)), a, kw)
TUPLE['count'] = lambda I, l, a, kw: LIST['count'](I, L(list(l)), a, kw)
GEN['__iter__'] = lambda I, g, a, kw: g


@m(GEN, 'next')
def g_next(I, g, a, kw):
    for x in g.it:
        return x
    raise I.exc('StopIteration')


GEN['close'] = lambda I, g, a, kw: g.it.close() if hasattr(g.it, 'close') else None


@m(DICT, 'get')
def d_get(I, d, a, kw):
    ok, v = dict_get(I, d, a[0])
    return v if ok else (a[1] if len(a) > 1 else None)


@m(DICT, 'setdefault')
def d_setdefault(I, d, a, kw):
    ok, v = dict_get(I, d, a[0])
    if ok:
        return v
    v = a[1] if len(a) > 1 else None
    dict_set(I, d, a[0], v)
    return v


@m(DICT, 'pop')
def d_pop(I, d, a, kw):
    x = find_key(I, d.d, a[0])
    if x is None:
        if len(a) > 1:
            return a[1]
        raise I.exc('KeyError', a[0])
    return d.d.pop(x)[1]


DICT['keys'] = lambda I, d, a, kw: L([k for k, v in d.d.values()])
DICT['values'] = lambda I, d, a, kw: L([v for k, v in d.d.values()])
DICT['items'] = lambda I, d, a, kw: L([(k, v) for k, v in d.d.values()])
DICT['iterkeys'] = lambda I, d, a, kw: Gen(iter([k for k, v in d.d.values()]))
DICT['itervalues'] = lambda I, d, a, kw: Gen(iter([v for k, v in d.d.values()]))
DICT['iteritems'] = lambda I, d, a, kw: Gen(iter([(k, v) for k, v in d.d.values()]))
DICT['has_key'] = lambda I, d, a, kw: dict_get(I, d, a[0])[0]
DICT['__contains__'] = DICT['has_key']
DICT['clear'] = lambda I, d, a, kw: d.d.clear()
DICT['__getitem__'] = lambda I, d, a, kw: getitem(I, d, a[0])


@m(DICT, 'copy')
def d_copy(I, d, a, kw):
    r = D()
    r.d.update(d.d)
    return r


@m(DICT, 'update')
def d_update(I, d, a, kw):
    if a:
        src = a[0].items if isinstance(a[0], O) and a[0].items is not None else a[0]
        if isinstance(src, D):
            for k, v in list(src.d.values()):
                dict_set(I, d, k, v)
        else:
            for kv in I.iterate(src):
                k, v = list(I.iterate(kv))
                dict_set(I, d, k, v)
    for k, v in kw.items():
        dict_set(I, d, cs(k), v)


SET['add'] = lambda I, s, a, kw: set_add(I, s, a[0])
SET['discard'] = lambda I, s, a, kw: (set_discard(I, s, a[0]), None)[1]
SET['clear'] = lambda I, s, a, kw: s.d.clear()


@m(SET, 'remove')
def set_remove(I, s, a, kw):
    if not set_discard(I, s, a[0]):
        raise I.exc('KeyError', a[0])


@m(SET, 'copy')
def set_copy(I, s, a, kw):
    r = SetV()
    r.d.update(s.d)
    return r


@m(SET, 'update')
def set_update(I, s, a, kw):
    for x in a:
        for y in I.iterate(x):
            set_add(I, s, y)


@m(SET, 'pop')
def set_pop(I, s, a, kw):
    if not s.d:
        raise I.exc('KeyError')
    ks = list(s.d)
    i = I.choice(len(ks))
    return s.d.pop(ks[i])


SET['__contains__'] = lambda I, s, a, kw: set_has(I, s, a[0])


# ------------------------------------------------------------------ builtins

def length(I, v):
    if isinstance(v, S):
        return len(v.c)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, L):
        return len(v.v)
    if isinstance(v, (D, SetV)):
        return len(v.d)
    if isinstance(v, O):
        m_ = I.lookup_special(v, '__len__')
        if m_ is not None:
            return I.call(m_, [])
        if v.items is not None:
            return length(I, v.items)
    if hasattr(v, 'sym_len'):
        return v.sym_len(I)
    if isinstance(v, Opaque):
        raise Unsupported('len of opaque')
    raise I.exc('TypeError', 'object has no len()')


@bfn('len')
def b_len(I, a, kw):
    return length(I, a[0])


@bfn('isinstance')
def b_isinstance(I, a, kw):
    return I.isinstance_(a[0], a[1])


@bfn('issubclass')
def b_issubclass(I, a, kw):
    if isinstance(a[1], tuple):
        return any(x in a[0].mro for x in a[1])
    return a[1] in a[0].mro


@bfn('hasattr')
def b_hasattr(I, a, kw):
    try:
        if I._getattr(a[0], a[1].text()) is not PathEnd:
            return True
        I.known_name(a[0], a[1].text())
    except PyExc:
        pass
    return False


@bfn('getattr')
def b_getattr(I, a, kw):
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1].text(), a[2])
        except PyExc as e:
            if I.snap.xclass('AttributeError') in e.obj.cls.mro:
                return a[2]
            raise
    return I.getattr(a[0], a[1].text())


@bfn('setattr')
def b_setattr(I, a, kw):
    I.setattr(a[0], a[1].text(), a[2])


@bfn('ord')
def b_ord(I, a, kw):
    s = a[0]
    if not isinstance(s, S) or len(s.c) != 1:
        raise I.exc('TypeError', 'ord() expected a character')
    return s.c[0]


@bfn('chr')
def b_chr(I, a, kw):
    n = toint(a[0])
    if not I.branch(And(n >= 0, n < 256)):
        raise I.exc('ValueError', 'chr() arg not in range(256)')
    return S('s', (n,))


@bfn('unichr')
def b_unichr(I, a, kw):
    n = toint(a[0])
    if not I.branch(And(n >= 0, n < 0x110000)):
        raise I.exc('ValueError', 'unichr() arg not in range(0x110000)')
    # lone surrogates are characters: /opt/vp/runner/compat.py, which the tests and the replays install
    return S('u', (n,))


@bfn('cmp')
def b_cmp(I, a, kw):
    return cmp_(I, a[0], a[1])


@bfn('abs')
def b_abs(I, a, kw):
    v = a[0]
    if type(v) in (int, float, bool):
        return abs(v)
    if isnum(v):
        v = toint(v)
        return z3.If(v < 0, -v, v)
    if isinstance(v, BigF):
        return BigF(z3.If(v.i < 0, -v.i, v.i), v.k)
    if isinstance(v, (FP, QuoF)):
        return FP(z3.fpAbs(fp(I, v)))
    raise Unsupported('abs')


@bfn('hash')
def b_hash(I, a, kw):
    v = a[0]
    if len(a) > 1:
        raise I.exc('TypeError', 'hash() takes exactly one argument')
    return hash_(I, v)


def hash_(I, v):
    if isinstance(v, O):
        f, h, c = I.cls_get(v.cls, '__hash__')
        if f and isinstance(c, C):
            if h is None:
                raise I.exc('TypeError', 'unhashable type')
            return I.call(I.bind(h, v, v.cls), [])
        return HashVal(v)
    hashable(I, v)
    if isinstance(v, tuple):
        return HashVal(tuple(hash_(I, x) for x in v))
    if isinstance(v, HashVal):
        return v
    return HashVal(v)


def minmax(sign):
    def f(I, a, kw):
        xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        key = kw.get('key')
        if not xs:
            raise I.exc('ValueError', 'empty sequence')
        best = xs[0]
        for x in xs[1:]:
            if isnum(x) and isnum(best) and key is None:
                x, best = toint(x), toint(best)
                if type(x) is int and type(best) is int:
                    best = min(x, best) if sign < 0 else max(x, best)
                else:
                    best = z3.If(x < best if sign < 0 else x > best, toz(x), toz(best))
                continue
            kx, kb = (I.call(key, [x]), I.call(key, [best])) if key else (x, best)
            if I.test(compare(I, 'Lt' if sign < 0 else 'Gt', kx, kb)):
                best = x
        return best
    return f


TABLE['min'] = B('min', minmax(-1))
TABLE['max'] = B('max', minmax(1))


def b_range(I, a, kw):
    v = [conc_int(I, x, 'range bound') for x in a]
    return L(list(range(*v)))


TABLE['range'] = B('range', b_range)
TABLE['xrange'] = B('xrange', b_range)


@bfn('map')
def b_map(I, a, kw):
    if len(a) == 2 and hasattr(a[1], 'sym_mapf'):
        return a[1].sym_mapf(I, a[0])
    seqs = [list(I.iterate(x)) for x in a[1:]]
    n = max(len(x) for x in seqs)
    out = []
    for i in range(n):
        args = [x[i] if i < len(x) else None for x in seqs]
        out.append(I.call(a[0], args) if a[0] is not None else (tuple(args) if len(args) > 1 else args[0]))
    return L(out)


@bfn('filter')
def b_filter(I, a, kw):
    out = []
    for x in I.iterate(a[1]):
        if I.test(I.call(a[0], [x]) if a[0] is not None else x):
            out.append(x)
    if isinstance(a[1], tuple):
        return tuple(out)
    return L(out)


@bfn('zip')
def b_zip(I, a, kw):
    return L([tuple(t) for t in zip(*[list(I.iterate(x)) for x in a])])


@bfn('enumerate')
def b_enumerate(I, a, kw):
    if hasattr(a[0], 'sym_enumerate'):
        return a[0].sym_enumerate(I)
    st = conc_int(I, a[1]) if len(a) > 1 else 0

    def g():
        i = st
        for x in I.iterate(a[0]):
            yield (i, x)
            i += 1
    return Gen(g())


@bfn('reversed')
def b_reversed(I, a, kw):
    return Gen(iter(list(I.iterate(a[0]))[::-1]))


@bfn('sorted')
def b_sorted(I, a, kw):
    return L(sort(I, list(I.iterate(a[0])), a[1] if len(a) > 1 else kw.get('cmp'), kw.get('key'), kw.get('reverse')))


@bfn('sum')
def b_sum(I, a, kw):
    r = a[1] if len(a) > 1 else 0
    for x in I.iterate(a[0]):
        r = binop(I, 'Add', r, x)
    return r


@bfn('any')
def b_any(I, a, kw):
    for x in I.iterate(a[0]):
        if I.test(x):
            return True
    return False


@bfn('all')
def b_all(I, a, kw):
    for x in I.iterate(a[0]):
        if not I.test(x):
            return False
    return True


@bfn('iter')
def b_iter(I, a, kw):
    if isinstance(a[0], Gen):
        return a[0]
    if hasattr(a[0], 'sym_for'):
        return a[0]
    if isinstance(a[0], O):
        m_ = I.lookup_special(a[0], '__iter__')
        if m_ is not None:
            return I.call(m_, [])
    return Gen(iter(I.iterate(a[0])))


@bfn('next')
def b_next(I, a, kw):
    return I.call(I.getattr(a[0], 'next'), [])


@bfn('callable')
def b_callable(I, a, kw):
    v = a[0]
    return isinstance(v, (F, BM, UM, B, C, XC)) or (isinstance(v, O) and I.lookup_special(v, '__call__') is not None)


@bfn('repr')
def b_repr(I, a, kw):
    return repr_(I, a[0])


@bfn('divmod')
def b_divmod(I, a, kw):
    return fdiv(I, a[0], a[1])


@bfn('pow')
def b_pow(I, a, kw):
    return binop(I, 'Pow', a[0], a[1])


@bfn('id')
def b_id(I, a, kw):
    raise Unsupported('id()')


@bfn('dir')
def b_dir(I, a, kw):
    import pynames
    if len(a) != 1 or not isinstance(a[0], C):
        raise Unsupported('dir')
    names = set()
    for c in a[0].mro:
        if isinstance(c, C):
            names.update(I.own_names(c))
            names.update(['__dict__', '__module__', '__weakref__', '__doc__'])
        elif c.name == 'object':
            names.update(pynames.OBJECT)
        else:
            raise Unsupported('dir of a built-in class')
    return L([cs(n) for n in sorted(names)])


@bfn('apply')
def b_apply(I, a, kw):
    k = dict(kw)
    if len(a) > 2:
        for x, v in a[2].d.values():
            k[x.text()] = v
    return I.call(a[0], list(I.iterate(a[1])) if len(a) > 1 else [], k)


@bfn('hex')
def b_hex(I, a, kw):
    if type(a[0]) is not int:
        raise Unsupported('hex')
    return cs(hex(a[0]) + ('' if -2147483648 <= a[0] <= 2147483647 else 'L'))


@bfn('oct')
def b_oct(I, a, kw):
    if type(a[0]) is not int or abs(a[0]) > 2147483647:
        raise Unsupported('oct')
    return cs(('-' if a[0] < 0 else '') + '0' + ('%o' % abs(a[0]) if a[0] else ''))


@bfn('round')
def b_round(I, a, kw):
    import math
    if type(a[0]) is float:
        x = a[0]
        n = a[1] if len(a) > 1 else 0
        if n == 0:
            return math.copysign(float(math.floor(abs(x) + 0.5)), x)
    raise Unsupported('round')


@bfn('reduce')
def b_reduce(I, a, kw):
    it = list(I.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        r = it.pop(0)
    for x in it:
        r = I.call(a[0], [r, x])
    return r


TABLE['locals'] = B('locals', None)
TABLE['globals'] = B('globals', None)
TABLE['NotImplemented'] = NOTIMPL


def construct(I, c, a, kw):
    n = c.name
    if n == 'int' or n == 'long':
        if not a:
            return 0
        return to_int(I, a[0], conc_int(I, a[1]) if len(a) > 1 else None)
    if n == 'bool':
        return I.truth(a[0]) if a else False
    if n == 'float':
        if not a:
            return 0.0
        v = a[0]
        if type(v) in (int, bool):
            return float(v)
        if isfloat(v):
            return v
        if isint(v) or isbool(v):
            return BigF(toint(v))
        if isinstance(v, S) and v.conc():
            try:
                return float(v.text())
            except ValueError:
                raise I.exc('ValueError', 'could not convert string to float')
        if isinstance(v, O):
            m_ = I.lookup_special(v, '__float__')
            if m_ is not None:
                return I.call(m_, [])
            raise I.exc('TypeError', 'float() argument')
        if v is None:
            raise I.exc('TypeError', 'float() argument')
        raise Unsupported('float(%r)' % (v,))
    if n == 'str':
        if not a:
            return cs('')
        v = a[0]
        if isinstance(v, S):
            if v.k == 'u':
                if not I.branch(And(*[x < 128 for x in v.c])):
                    raise I.exc('UnicodeEncodeError', 'ascii')
                return S('s', v.c)
            return v
        r = to_str(I, v, 's')
        if isinstance(r, S) and r.k == 'u':
            if not I.branch(And(*[x < 128 for x in r.c])):
                raise I.exc('UnicodeEncodeError', 'ascii')
            return S('s', r.c)
        return r
    if n == 'unicode':
        if not a:
            return cs('', 'u')
        v = a[0]
        if isinstance(v, S):
            if len(a) > 1:
                return s_decode(I, v, a[1:], kw)
            if v.k == 's':
                if not I.branch(And(*[x < 128 for x in v.c])):
                    raise I.exc('UnicodeDecodeError', 'ascii')
                return S('u', v.c)
            return v
        r = to_str(I, v, 'u')
        return S('u', r.c) if isinstance(r, S) else r
    if n == 'list':
        if not a:
            return L([])
        if hasattr(a[0], 'sym_list'):
            return a[0].sym_list(I)
        if isinstance(a[0], Gen) and hasattr(a[0].it, 'sym_list'):
            return a[0].it.sym_list(I)
        return L(list(I.iterate(a[0])))
    if n == 'tuple':
        if not a:
            return ()
        return tuple(I.iterate(a[0]))
    if n == 'dict':
        d = D()
        d_update(I, d, a, kw)
        return d
    if n in ('set', 'frozenset'):
        s = SetV(n == 'frozenset')
        if a:
            for x in I.iterate(a[0]):
                set_add(I, s, x)
        return s
    if n == 'object':
        return O(c)
    if n == 'type':
        return I.classof(a[0])
    if n == 'property':
        return Prop(a[0], a[1] if len(a) > 1 else None)
    if n == 'staticmethod':
        return Static(a[0])
    if n == 'classmethod':
        return ClassM(a[0])
    if 'BaseException' in [x.name for x in c.mro]:
        o = O(c)
        o.a['args'] = tuple(a)
        if len(a) == 1:
            o.a['message'] = a[0]
        return o
    if n in ('xrange', 'reversed', 'enumerate', 'super'):
        if n in TABLE:
            return TABLE[n].fn(I, a, kw)
    if n == 'Decimal':
        raise Unsupported('Decimal')
    if n == 'UUID':
        raise Unsupported('UUID')
    if n == 'StringIO':
        return string_io(I, a)
    raise Unsupported('construct %s' % n)


for _n in ('int', 'long', 'float', 'str', 'unicode', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type',
           'basestring', 'bool', 'property', 'staticmethod', 'classmethod'):
    BUILTIN_MRO.setdefault(_n, ['object'])


def xclass_attr(I, c, name):
    """Attributes of builtin classes seen through a class's MRO or directly."""
    if name == '__init__':
        if 'BaseException' in [x.name for x in c.mro]:
            def init(I, a, kw):
                a[0].a['args'] = tuple(a[1:])
                if len(a) == 2:
                    a[0].a['message'] = a[1]
            return B('__init__', init)
        if c.name in ('list', 'dict'):
            def init(I, a, kw):
                o = a[0]
                if len(a) > 1:
                    if c.name == 'dict':
                        d_update(I, o.items, a[1:], kw)
                    else:
                        o.items.v.extend(I.iterate(a[1]))
            return B('__init__', init)
        return B('__init__', lambda I, a, kw: None)
    if name == '__str__' and 'BaseException' in [x.name for x in c.mro]:
        return B('__str__', lambda I, a, kw: (repr_(I, a[0].a['args']) if a[0].a.get('args') else cs('')) if len(a[0].a.get('args', ())) != 1 else to_str(I, a[0].a['args'][0]))
    if name == '__new__' and c.name == 'object':
        return None
    if c.name in ('str', 'unicode', 'basestring'):
        f = STR.get(name)
        if f is not None:
            return B(name, lambda I, a, kw: f(I, a[0], a[1:], kw))
    if c.name in ('dict', 'list'):
        f = (DICT if c.name == 'dict' else LIST).get(name)
        if f is not None:
            return B(name, lambda I, a, kw: f(I, a[0].items if isinstance(a[0], O) else a[0], a[1:], kw))
        if name == '__getitem__':
            return B(name, lambda I, a, kw: getitem(I, a[0].items if isinstance(a[0], O) else a[0], a[1]))
        if name == '__setitem__':
            return B(name, lambda I, a, kw: setitem(I, a[0].items if isinstance(a[0], O) else a[0], a[1], a[2]))
        if name == '__delitem__':
            return B(name, lambda I, a, kw: delitem(I, a[0].items if isinstance(a[0], O) else a[0], a[1]))
        if name == '__contains__':
            return B(name, lambda I, a, kw: contains(I, a[0].items if isinstance(a[0], O) else a[0], a[1]))
        if name == '__len__':
            return B(name, lambda I, a, kw: length(I, a[0].items if isinstance(a[0], O) else a[0]))
        if name == '__iter__':
            return B(name, lambda I, a, kw: Gen(iter(I.iterate(a[0].items if isinstance(a[0], O) else a[0]))))
    if c.name == 'dict' and name == 'fromkeys':
        def fromkeys(I, a, kw):
            d = D()
            for k in I.iterate(a[0]):
                dict_set(I, d, k, a[1] if len(a) > 1 else None)
            return d
        return B(name, fromkeys)
    return None


def xmod_attr(I, mod, name):
    f = XMODS.get((mod, name))
    if f is not None:
        return f
    if mod == 'types':
        t = {'IntType': 'int', 'LongType': 'long', 'FloatType': 'float', 'StringType': 'str', 'UnicodeType': 'unicode',
             'TupleType': 'tuple', 'ListType': 'list', 'DictType': 'dict', 'BooleanType': 'bool', 'NoneType': 'NoneType',
             'ClassType': 'classobj', 'TypeType': 'type', 'FunctionType': 'function', 'InstanceType': 'instance'}.get(name)
        if t:
            return I.snap.xclass(t)
        if name == 'StringTypes':
            return (I.snap.xclass('str'), I.snap.xclass('unicode'))
    if mod == 'string':
        import string as st
        if name in ('digits', 'hexdigits', 'octdigits', 'whitespace', 'punctuation', 'printable'):
            return cs(getattr(st, name))
        if name in ('letters', 'ascii_letters'):
            return cs(st.ascii_letters)
        if name in ('lowercase', 'ascii_lowercase'):
            return cs(st.ascii_lowercase)
        if name in ('uppercase', 'ascii_uppercase'):
            return cs(st.ascii_uppercase)
        if name in ('join', 'joinfields'):
            return B('join', lambda I, a, kw: join(I, a[1] if len(a) > 1 else cs(' '), a[0]))
        if name in STR:
            fn = STR[name]
            return B(name, lambda I, a, kw: fn(I, a[0], a[1:], kw))
        if name == 'atoi':
            return B(name, lambda I, a, kw: to_int(I, a[0]))
    if mod == 'math':
        return B('math.' + name, lambda I, a, kw: math_fn(I, name, a))
    if mod == 'StringIO' and name == 'StringIO':
        return B('StringIO', lambda I, a, kw: string_io(I, a))
    if mod == 'time' and name == 'gmtime':
        def gmtime(I, a, kw):
            import time
            if not a or type(a[0]) not in (int, float):
                raise Unsupported('time.gmtime of the clock or of a symbolic time')
            return tuple(time.gmtime(a[0]))
        return B('time.gmtime', gmtime)
    if mod == 'logging':
        return B('log', lambda I, a, kw: None)
    if mod == 'warnings':
        return B('warn', lambda I, a, kw: None)
    if mod == '__builtin__' and name in TABLE:
        return TABLE[name]
    if mod == 'sys' and name == 'maxint':
        return 2147483647
    if mod == 'sys' and name == 'maxunicode':
        return 1114111
    if mod == 'itertools':
        fn = ITER.get(name)
        if fn is not None:
            return B(name, fn)
    if mod == 'copy' and name == 'copy':
        return B('copy', lambda I, a, kw: shallow(I, a[0]))
    if mod == 'copy' and name == 'deepcopy':
        return B('deepcopy', lambda I, a, kw: deep(I, a[0], {}))
    if (mod, name) in (('decimal', 'Decimal'), ('uuid', 'UUID'), ('datetime', 'datetime'), ('decimal', 'InvalidOperation')):
        return I.snap.xclass(mod + '.' + name)
    if mod == 'threading' and name in ('Lock', 'RLock', 'Condition', 'Event', 'Semaphore'):
        return B(name, lambda I, a, kw: Opaque({'v': 'threading.' + name}))
    if mod == 'socket' and name in ('SHUT_RD', 'SHUT_WR', 'SHUT_RDWR'):
        return {'SHUT_RD': 0, 'SHUT_WR': 1, 'SHUT_RDWR': 2}[name]
    if mod == 'time' and name == 'time':
        return B(name, lambda I, a, kw: I.fresh('now'))
    raise Unsupported('%s.%s' % (mod, name))


def deep(I, v, memo):
    if isinstance(v, (L, D, SetV, O)):
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, SetV):
            return set_copy(I, v, [], {})
        if isinstance(v, L):
            r = L([])
            memo[id(v)] = (v, r)
            r.v.extend(deep(I, x, memo) for x in v.v)
            return r
        if isinstance(v, O):
            if I.lookup_special(v, '__deepcopy__') is not None or I.lookup_special(v, '__getstate__') is not None or I.lookup_special(v, '__reduce__') is not None:
                raise Unsupported('deepcopy of %r' % (v,))
            if v.items is not None:
                raise Unsupported('deepcopy of %r' % (v,))
            r = O(v.cls)
            memo[id(v)] = (v, r)
            r.a = dict((k, deep(I, x, memo)) for k, x in v.a.items())
            return r
        if getattr(v, 'sym', None):
            raise Unsupported('deepcopy of a symbolic dict')
        r = D()
        memo[id(v)] = (v, r)
        for k, (kv, x) in v.d.items():
            r.d[k] = (kv, deep(I, x, memo))
        return r
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) for x in v)
    return v


def shallow(I, v):
    if isinstance(v, L):
        return L(list(v.v))
    if isinstance(v, D):
        return d_copy(I, v, [], {})
    if isinstance(v, SetV):
        return set_copy(I, v, [], {})
    if isinstance(v, O):
        o = O(v.cls)
        o.a = dict(v.a)
        return o
    return v


def _chain(I, a, kw):
    def g():
        for x in a:
            for y in I.iterate(x):
                yield y
    return Gen(g())


def _islice(I, a, kw):
    xs = [conc_int(I, x) for x in a[1:]]
    import itertools
    return Gen(itertools.islice(I.iterate(a[0]), *xs))


ITER = {'chain': _chain, 'islice': _islice,
        'imap': lambda I, a, kw: b_map(I, a, kw), 'izip': lambda I, a, kw: b_zip(I, a, kw)}

XMODS = {}


def string_io(I, a):
    """StringIO.StringIO: read, write and getvalue"""
    st = [a[0] if a else cs(''), 0]
    if not isinstance(st[0], S):
        raise Unsupported('StringIO of something else')

    def read(I, b, kw):
        n = conc_int(I, b[0]) if b else -1
        s, p = st
        e = len(s.c) if n < 0 else min(len(s.c), p + n)
        st[1] = e
        return S(s.k, s.c[p:e])

    def write(I, b, kw):
        s, p = st
        if not isinstance(b[0], S):
            raise Unsupported('writing something else to StringIO')
        k = 'u' if 'u' in (s.k, b[0].k) and (s.c or b[0].k == 'u') else b[0].k
        st[0] = S(k, s.c[:p] + b[0].c + s.c[p + len(b[0].c):])
        st[1] = p + len(b[0].c)

    def seek(I, b, kw):
        n = conc_int(I, b[0])
        m = conc_int(I, b[1]) if len(b) > 1 else 0
        st[1] = max(0, n + (0 if m == 0 else st[1] if m == 1 else len(st[0].c)))
        if st[1] > len(st[0].c):
            raise Unsupported('seeking past the end of a StringIO')

    o = O(XC('StringIO'))
    o.a = {'tell': B('tell', lambda I, b, kw: st[1]), 'seek': B('seek', seek), 'read': B('read', read), 'write': B('write', write), 'getvalue': B('getvalue', lambda I, b, kw: st[0]), 'close': B('close', lambda I, b, kw: None)}
    return o


def math_fn(I, name, a):
    import math
    if all(type(x) in (int, float, bool) for x in a):
        try:
            r = getattr(math, name)(*a)
        except (ValueError, OverflowError) as e:
            raise I.exc(type(e).__name__, str(e))
        if name in ('floor', 'ceil', 'trunc'):
            return float(r) if name != 'trunc' else r
        if name == 'modf':
            return tuple(r)
        return r
    if name in ('floor', 'ceil'):
        if isint(a[0]):
            return BigF(a[0])
        if isinstance(a[0], BigF):
            n = 2 ** a[0].k
            return a[0] if n == 1 else BigF(a[0].i / n if name == 'floor' else -((-a[0].i) / n))
        if isinstance(a[0], FP):
            return FP(z3.fpRoundToIntegral(z3.RTN() if name == 'floor' else z3.RTP(), a[0].e))
    if name == 'fabs' and isinstance(a[0], FP):
        return FP(z3.fpAbs(a[0].e))
    if name == 'isnan' and isinstance(a[0], FP):
        return z3.fpIsNaN(a[0].e)
    if name == 'isinf' and isinstance(a[0], FP):
        return z3.fpIsInf(a[0].e)
    if name in ('isnan', 'isinf') and (isinstance(a[0], BigF) or isint(a[0])):
        return False
    if name == 'modf' and isinstance(a[0], BigF):
        n = 2 ** a[0].k
        i = toint(a[0].i)
        w = z3.If(i >= 0, i / n, -((-i) / n))
        return (BigF(i - w * n, a[0].k), BigF(w))
    if name == 'modf' and isint(a[0]):
        return (0.0, BigF(a[0]))
    raise Unsupported('math.%s' % name)


def opaque_fn(I, f):
    n = f.what.get('n')
    if f.what.get('v') == 'bfn':
        if n in TABLE:
            return TABLE[n]
        import math
        if hasattr(math, n or ''):
            return B(n, lambda I, a, kw: math_fn(I, n, a))
    return None


def external_fn(I, f):
    """Functions of Python's own library that the snapshot shows as functions."""
    file, line, name = f.key
    base = file.rsplit('/', 1)[-1]
    if base.startswith('string') and name in ('join', 'joinfields'):
        return lambda I, a, kw: join(I, a[1] if len(a) > 1 else kw.get('sep', cs(' ')), a[0])
    if base.startswith('string') and name in STR:
        fn = STR[name]
        return lambda I, a, kw: fn(I, a[0], a[1:], kw)
    if base.startswith('string') and name == 'splitfields':
        return lambda I, a, kw: s_split(I, a[0], a[1:], kw)
    if base in ('copy.py', 'copy$py.class') and name in ('copy', 'deepcopy') and '/Lib/' in file:
        return lambda I, a, kw: shallow(I, a[0]) if name == 'copy' else deep(I, a[0], {})
    if '/logging/' in file or base.startswith('warnings'):
        return lambda I, a, kw: None
    if base.startswith('functools') or base.startswith('threading'):
        raise Unsupported('library function %s' % name)
    return None


# ------------------------------------------------------------------ specification vocabulary

@xpy('requires')
def x_requires(I, a, kw):
    if I.in_ret:
        I.assume(hardsimp(I.truth(a[0])))
    elif I.use_mode:
        I.unit.prove(I, hardsimp(I.truth(a[0])), 'precondition of ' + I.use_mode['c']['name'])
    else:
        I.unit.requires(I, a[0])


@xpy('ensures')
def x_ensures(I, a, kw):
    if I.use_mode:
        I.assume(hardsimp(I.truth(a[0])))
    else:
        I.unit.ensures(I, a[0], a[1].text() if len(a) > 1 else kw['label'].text())


@xpy('call')
def x_call(I, a, kw):
    import types2
    if I.use_mode:
        c = I.use_mode['c']
        ret = c['opts'].get('ret')
        saved, I.use_mode = I.use_mode, None
        try:
            I.in_ret = True
            v = types2.mk(I, types2.tt(ret), 'ret_' + c['name']) if ret is not None else None
        finally:
            I.in_ret = False
            I.use_mode = saved
        I.use_mode['res'] = v
        return v
    v = I.call(I.unit.desc['target'], a)
    opts = I.unit.desc['opts']
    if 'ret' in opts:
        ok = types2.hastype(I, types2.tt(opts['ret']), v, opts.get('retok'))
        I.unit.ensures(I, ok, 'result is of the declared kind')
    return v


@xpy('raises')
def x_raises(I, a, kw):
    try:
        I.call(a[1], a[2:])
    except PyExc as e:
        if I.match_exc(e.obj, a[0]):
            return True
        raise
    return False


@xpy('implies')
def x_implies(I, a, kw):
    return Implies(I.truth(a[0]), I.truth(a[1]))


@xpy('iff')
def x_iff(I, a, kw):
    x, y = I.truth(a[0]), I.truth(a[1])
    if type(x) is bool and type(y) is bool:
        return x == y
    return z3b(x) == z3b(y)


@xpy('conj')
def x_conj(I, a, kw):
    return And(*[I.truth(x) for x in a])


@xpy('disj')
def x_disj(I, a, kw):
    return Or(*[I.truth(x) for x in a])


@xpy('neg')
def x_neg(I, a, kw):
    return Not(I.truth(a[0]))


@xpy('ite')
def x_ite(I, a, kw):
    c = hardsimp(I.truth(a[0]))
    if c is True:
        return a[1]
    if c is False:
        return a[2]
    if isint(a[1]) and isint(a[2]):
        return z3.If(c, toz(a[1]), toz(a[2]))
    if isbool(a[1]) and isbool(a[2]):
        return z3.If(c, z3b(a[1]), z3b(a[2]))
    return a[1] if I.branch(c) else a[2]


@xpy('skip')
def x_skip(I, a, kw):
    raise PathEnd()


@xpy('split')
def x_split(I, a, kw):
    """Case split on a condition (proof guidance only)."""
    return I.branch(I.truth(a[0]))


@xpy('choose')
def x_choose(I, a, kw):
    """A fresh arbitrary value of the given type (universally quantified)."""
    import types2
    v = types2.mk(I, a[0], kw['name'].text() if 'name' in kw else 'ch')
    I.inputs.append(('~%d' % len(I.inputs), a[0], v))
    return v


# base64: encoding is computed from the definition; decoding text that was encoded here gives back
# what was encoded (the module is lossless), other text is decoded only if it is known.
B64_MEMO = []


def b64_char(x):
    if type(x) is int:
        return ord('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'[x])
    return z3.If(x < 26, x + 65, z3.If(x < 52, x + 71, z3.If(x < 62, x - 4, z3.If(x == 62, z3.IntVal(43), z3.IntVal(47)))))


def b64_encode(I, a, kw):
    s = a[0]
    if not isinstance(s, S):
        raise Unsupported('b64encode')
    if s.k == 'u':
        ascii_only(I, S('u', s.c))
    out = []
    for i in range(0, len(s.c), 3):
        g = list(s.c[i:i + 3])
        n = len(g)
        g = g + [0] * (3 - n)
        q = [idiv(g[0], 4), imod(g[0], 4) * 16 + idiv(g[1], 16), imod(g[1], 16) * 4 + idiv(g[2], 64), imod(g[2], 64)]
        out.extend([b64_char(hardsimp(x)) for x in q[:n + 1]] + [61] * (3 - n))
    r = S('s', tuple(out))
    if not r.conc():
        B64_MEMO.append((r.c, s.c))
    return r


def same_chars(a, b):
    return len(a) == len(b) and all(x is y or (type(x) is int and type(y) is int and x == y) or
                                    (type(x) is not int and type(y) is not int and x.eq(y)) for x, y in zip(a, b))


def b64_decode(I, a, kw):
    s = a[0]
    if s.conc():
        import binascii
        try:
            return S('s', tuple(binascii.a2b_base64(s.text().encode('latin-1'))))
        except binascii.Error as e:
            raise I.exc('TypeError', str(e))
    for out, src in reversed(B64_MEMO):
        if same_chars(out, s.c):
            return S('s', src)
    raise Unsupported('base64 decoding of unknown text')


XMODS[('base64', 'b64encode')] = B('b64encode', b64_encode)
XMODS[('base64', 'b64decode')] = B('b64decode', b64_decode)


def rand_int(I, a, kw):
    lo, hi = a
    if I.branch(num_cmp(I, 'Gt', lo, hi)):
        raise I.exc('ValueError', 'empty range for randrange()')
    v = I.fresh('rand')
    I.assume(And(z3b(v >= lo), z3b(v <= hi)))
    return v


def rand_choice(I, a, kw):
    xs = list(I.iterate(a[0]))
    if not xs:
        raise I.exc('IndexError', 'list index out of range')
    for x in xs[:-1]:
        b = I.fresh('pick')
        if I.branch(b > 0):
            return x
    return xs[-1]


XMODS[('random', 'randint')] = B('randint', rand_int)
XMODS[('random', 'choice')] = B('choice', rand_choice)


def rand_shuffle(I, a, kw):
    xs, out = list(a[0].v), []
    while len(xs) > 1:
        for i in range(len(xs)):
            if i == len(xs) - 1 or I.branch(I.fresh('pick') > 0):
                out.append(xs.pop(i))
                break
    a[0].v[:] = out + xs


XMODS[('random', 'shuffle')] = B('shuffle', rand_shuffle)
