"""OData expressions evaluate as the protocol says: numeric promotion, exact integers, nulls."""
from xpy import *
from speclib import *
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
from pyslet.iso8601 import TimePoint, Date, Time

MODULES = ['pyslet.odata2.core', 'pyslet.odata2.csdl', 'pyslet.xsdatatypes20041028', 'pyslet.unicode5', 'pyslet.iso8601']
T = edm.SimpleType
Op = core.Operator
EE = core.EvaluationError
TYPES = ['Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32', 'Int64', 'String', 'SByte']
CODE = dict([(n, getattr(T, n)) for n in TYPES])
CODE['null'] = None
RANGE = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767), 'Int32': (-2147483648, 2147483647), 'Int64': (-9223372036854775808, 9223372036854775807)}
WIDTH = ['Byte', 'Int16', 'Int32', 'Int64', 'Decimal', 'Single', 'Double']
L64 = Int(-9223372036854775808, 9223372036854775807)
LETTER = ((ord('a'), ord('z')), (ord('A'), ord('Z')), (32, 32))


def lit(t, v):
    """the literal v of type t; None is null"""
    x = edm.EDMValue.NewSimpleValue(CODE[t])
    if t != 'null':
        x.value = v
    return core.LiteralExpression(x)


def expr(cls, op, *es):
    e = cls(op)
    for x in es:
        e.AddOperand(x)
    return e


def binary(op, a, b):
    return expr(core.BinaryExpression, op, a, b)


def method(m, *es):
    e = core.CallExpression(m)
    for x in es:
        e.AddOperand(x)
    return e


def fails(e):
    return raises(EE, e.Evaluate, None)


def wider(s, t):
    return WIDTH[max(WIDTH.index(s), WIDTH.index(t))]


def fits(t, n):
    return conj(RANGE[t][0] <= n, n <= RANGE[t][1])


def is_(r, t, v):
    return conj(r.typeCode == CODE[t], type(r) is type(edm.EDMValue.NewSimpleValue(CODE[t])), r.value is None if v is None else r.value == v)


# ---- promotion --------------------------------------------------------------------------
@lemma(s=OneOf(*(TYPES + ['null'])), t=OneOf(*(TYPES + ['null'])))
def promotion(s, t):
    """two types promote to the wider numeric type; other mixtures are errors"""
    if s == t or t == 'null':
        ensures(core.PromoteTypes(CODE[s], CODE[t]) == CODE[s], 'the same type, or null')
    elif s == 'null':
        ensures(core.PromoteTypes(CODE[s], CODE[t]) == CODE[t], 'null and a type')
    elif s in WIDTH and t in WIDTH:
        ensures(core.PromoteTypes(CODE[s], CODE[t]) == CODE[wider(s, t)], 'the wider type')
    else:
        ensures(raises(EE, core.PromoteTypes, CODE[s], CODE[t]), 'incompatible')


# ---- arithmetic -------------------------------------------------------------------------
@lemma(op=OneOf('add', 'sub', 'mul'), s=OneOf('Byte', 'Int16', 'Int32', 'Int64'), t=OneOf('Int32', 'Int64'), x=L64, y=L64, swap=Bool())
def integers(op, s, t, x, y, swap):
    """add, sub and mul of integers are exact; what does not fit is refused"""
    requires(conj(fits(s, x), fits(t, y)))
    w = wider(s, t)
    a = lit(s, x)
    b = lit(t, y)
    if swap:
        a, b, x, y = b, a, y, x
    n = x + y if op == 'add' else (x - y if op == 'sub' else x * y)
    e = binary(getattr(Op, op), a, b)
    if fits(w, n):
        ensures(is_(e.Evaluate(None), w, n), 'the value')
    else:
        ensures(raises(ValueError, e.Evaluate, None), 'overflow')
    ensures(conj(a.value.value == x, b.value.value == y, a.value.typeCode == CODE[t if swap else s]), 'the operands are not changed')


@lemma(d=OneOf(1, 2, 3, 7, 10, 1000, 2147483647, -1, -2, -3, -10, -2147483648), n=L64, s=OneOf('Int32', 'Int64'))
def division(d, n, s):
    """div truncates towards zero and mod is its remainder, exactly"""
    requires(fits(s, n))
    t = wider(s, 'Int32')
    a = lit(s, n)
    b = lit('Int32', d)
    q = (n if n >= 0 else -n) // (d if d >= 0 else -d)
    if (n < 0) != (d < 0):
        q = -q
    if fits(t, q):
        ensures(is_(binary(Op.div, a, b).Evaluate(None), t, q), 'div')
    else:
        ensures(raises(ValueError, binary(Op.div, a, b).Evaluate, None), 'overflow')
    r = binary(Op.mod, a, b).Evaluate(None)
    ensures(is_(r, t, n - d * q), 'mod')
    ensures(disj(r.value == 0, (r.value < 0) == (n < 0)), 'the sign of the dividend')


@lemma(n=OneOf(0, 1, -100, 9223372036854775807) if QUICK else OneOf(0, 1, -1, 100, -100, 9223372036854775807, -9223372036854775807), d=Int(-1000, 1000))
def divisors(n, d):
    """... for every small divisor; division by zero is an evaluation error"""
    a = lit('Int64', n)
    b = lit('Int16', d)
    if d == 0:
        ensures(conj(fails(binary(Op.div, a, b)), fails(binary(Op.mod, a, b))), 'division by zero')
    else:
        q = binary(Op.div, a, b).Evaluate(None).value
        r = binary(Op.mod, a, b).Evaluate(None).value
        ensures(n == d * q + r, 'quotient and remainder')
        ensures(conj(r < abs(d), -r < abs(d), disj(r == 0, (r < 0) == (n < 0))), 'the remainder')


NUMOPS = ['add', 'sub', 'mul', 'div', 'mod']


@lemma(op=OneOf(*NUMOPS), s=OneOf(*WIDTH), t=OneOf(*(WIDTH + ['null'])), swap=Bool())
def null_numbers(op, s, t, swap):
    """a null operand makes arithmetic null, of the promoted type"""
    a = lit(s, None)
    b = lit(t, None if t in ('null', 'Decimal') or s == 'Decimal' else 1)
    if swap:
        a, b = b, a
    e = binary(getattr(Op, op), a, b)
    w = s if t == 'null' else wider(s, t)
    if w in ('Byte', 'Int16'):
        ensures(fails(e), 'not an arithmetic type')
    else:
        ensures(is_(e.Evaluate(None), w, None), 'null')
    ensures(is_(binary(getattr(Op, op), lit('null', None), lit('null', None)).Evaluate(None), 'Int32', None), 'null and null')


OTHERS = ['Binary', 'Boolean', 'DateTime', 'DateTimeOffset', 'Time', 'Guid', 'String', 'SByte']
SAMPLE = {'Binary': 'ab', 'Boolean': True, 'Guid': None, 'String': u"x", 'SByte': 1, 'DateTime': None, 'DateTimeOffset': None, 'Time': None}


@lemma(op=OneOf(*NUMOPS), s=OneOf(*OTHERS), t=OneOf('Int32', 'null', 'same'), swap=Bool())
def not_numbers(op, s, t, swap):
    """arithmetic on anything else is an evaluation error"""
    a = lit(s, SAMPLE[s])
    b = lit(s if t == 'same' else t, 1 if t == 'Int32' else None)
    if swap:
        a, b = b, a
    ensures(fails(binary(getattr(Op, op), a, b)), 'refused')


@lemma(t=OneOf(*(TYPES + ['null'])), x=L64, null=Bool())
def negate(t, x, null):
    """negation"""
    if t in ('Byte', 'Int16', 'Int32', 'Int64'):
        requires(fits(t, x))
        w = wider(t, 'Int32')
        e = expr(core.UnaryExpression, Op.negate, lit(t, None if null else x))
        if null:
            ensures(is_(e.Evaluate(None), w, None), 'null')
        elif fits(w, -x):
            ensures(is_(e.Evaluate(None), w, -x), 'the value')
        else:
            ensures(raises(ValueError, e.Evaluate, None), 'overflow')
    else:
        e = expr(core.UnaryExpression, Op.negate, lit(t, None))
        if t in ('Decimal', 'Double', 'null'):
            ensures(is_(e.Evaluate(None), 'Int32' if t == 'null' else t, None), 'null')
        elif t == 'Single':
            ensures(is_(e.Evaluate(None), 'Double', None), 'a single becomes a double')
        else:
            ensures(fails(e), 'refused')
            if t in SAMPLE and SAMPLE[t] is not None:
                ensures(fails(expr(core.UnaryExpression, Op.negate, lit(t, SAMPLE[t]))), 'refused too')


# ---- comparison -------------------------------------------------------------------------
def rel(op, x, y):
    return {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y, 'eq': x == y, 'ne': disj(x < y, x > y)}[op]


RELS = ['lt', 'gt', 'le', 'ge', 'eq', 'ne']


@lemma(op=OneOf(*RELS), s=OneOf('Byte', 'Int16', 'Int32', 'Int64'), t=OneOf('Int32', 'Int64'), x=L64, y=L64, swap=Bool())
def compare_ints(op, s, t, x, y, swap):
    """comparison of integers"""
    requires(conj(fits(s, x), fits(t, y)))
    a = lit(s, x)
    b = lit(t, y)
    if swap:
        a, b, x, y = b, a, y, x
    ensures(is_(binary(getattr(Op, op), a, b).Evaluate(None), 'Boolean', rel(op, x, y)), op)


@lemma(op=OneOf(*RELS), x=Uni(0, 3, LETTER), y=Uni(0, 3, LETTER))
def compare_strings(op, x, y):
    """comparison of strings is by code point"""
    r = binary(getattr(Op, op), lit('String', x), lit('String', y)).Evaluate(None)
    ensures(is_(r, 'Boolean', rel(op, x, y)), op)


@lemma(op=OneOf(*RELS), s=OneOf('Int32', 'Int64', 'Single', 'Double', 'String', 'Binary', 'Guid', 'null'), n=L64, u=Uni(0, 1), typed=Bool(), swap=Bool())
def compare_nulls(op, s, n, u, typed, swap):
    """nothing is before or after null; only null is equal to null"""
    if s in RANGE:
        requires(fits(s, n))
    v = {'Single': 0.0, 'Double': 0.0, 'String': u, 'Binary': '', 'Guid': u"g", 'null': None}.get(s, n)
    requires(s != 'Binary' or op in ('eq', 'ne'))
    a = lit(s, v)
    b = lit(s if typed else 'null', None)
    if swap:
        a, b = b, a
    ensures(is_(binary(getattr(Op, op), a, b).Evaluate(None), 'Boolean', {'eq': v is None, 'ne': v is not None}.get(op, False)), 'a value and null')
    c = binary(getattr(Op, op), lit(s, None), lit('null', None)).Evaluate(None)
    ensures(is_(c, 'Boolean', op == 'eq'), 'null and null')


@lemma(op=OneOf(*RELS), s=OneOf('Boolean', 'DateTimeOffset', 'Time', 'SByte', 'Byte', 'Int16', 'Binary'), other=OneOf('same', 'String', 'Int32'))
def compare_others(op, s, other):
    """types that do not compare"""
    t = s if other == 'same' else other
    if s in ('Byte', 'Int16') and t == 'Int32':
        ensures(conj(not fails(binary(getattr(Op, op), lit(s, 1), lit(t, 1)))), 'numbers')
    elif s == 'Binary' and t == 'Binary' and op in ('eq', 'ne'):
        r = binary(getattr(Op, op), lit(s, 'ab'), lit(t, 'ab')).Evaluate(None)
        ensures(is_(r, 'Boolean', op == 'eq'), 'binary values')
    else:
        v = {'String': u"x", 'Int32': 1, 'Byte': 1, 'Int16': 1, 'Boolean': True, 'Binary': 'ab'}
        ensures(fails(binary(getattr(Op, op), lit(s, v.get(s)), lit(t, v.get(t)))), 'refused')


@lemma(op=OneOf(*RELS), a=Int(0, 59), b=Int(0, 59), c=Int(1, 28), d=Int(1, 28))
def compare_times(op, a, b, c, d):
    """comparison of DateTime values"""
    x = TimePoint(date=Date(century=20, year=1, month=2, day=c), time=Time(hour=3, minute=4, second=a))
    y = TimePoint(date=Date(century=20, year=1, month=2, day=d), time=Time(hour=3, minute=4, second=b))
    r = binary(getattr(Op, op), lit('DateTime', x), lit('DateTime', y)).Evaluate(None)
    ensures(is_(r, 'Boolean', rel(op, c * 60 + a, d * 60 + b)), op)


# ---- logic ------------------------------------------------------------------------------
B3 = OneOf(True, False, None)


@lemma(x=B3, y=B3, untyped=Bool())
def logic(x, y, untyped):
    """and, or, not: two values, where null is not true"""
    a = lit('null' if untyped and x is None else 'Boolean', x)
    b = lit('null' if untyped and y is None else 'Boolean', y)
    n = x is None or y is None
    ensures(is_(binary(Op.boolAnd, a, b).Evaluate(None), 'Boolean', False if n else conj(x, y)), 'and')
    ensures(is_(binary(Op.boolOr, a, b).Evaluate(None), 'Boolean', False if n else disj(x, y)), 'or')
    ensures(is_(expr(core.UnaryExpression, Op.boolNot, a).Evaluate(None), 'Boolean', None if x is None else not x), 'not')


@lemma(s=OneOf('Int32', 'String', 'Double', 'Binary'), x=B3, swap=Bool())
def not_logic(s, x, swap):
    """logic on other types is an evaluation error"""
    v = {'Int32': 1, 'String': u"x", 'Double': 1.0, 'Binary': 'a'}[s]
    a = lit(s, v)
    b = lit('Boolean', x)
    ensures(conj(fails(binary(Op.boolAnd, b, a) if swap else binary(Op.boolAnd, a, b)), fails(binary(Op.boolOr, b, a) if swap else binary(Op.boolOr, a, b))), 'and, or')
    ensures(fails(expr(core.UnaryExpression, Op.boolNot, a)), 'not')


# ---- isof, cast -------------------------------------------------------------------------
@lemma(s=OneOf('Byte', 'Int16', 'Int32', 'Int64', 'String', 'Boolean', 'SByte'), t=OneOf(*(TYPES + ['Nonsense'])), x=Int(0, 100), one=Bool())
def is_of(s, t, x, one):
    """isof tests whether a value promotes to the type; one operand tests the context"""
    v = {'String': u"x", 'Boolean': True}.get(s, x)
    a = lit(s, v)
    n = lit('String', u"Edm." + t)
    e = expr(core.BinaryExpression, Op.isof, n) if one else binary(Op.isof, a, n)
    c = a.value if one else None
    if t == 'Nonsense':
        ensures(raises(EE, e.Evaluate, c), 'an unknown type')
    else:
        w = s == t or (s in WIDTH and t in WIDTH and WIDTH.index(s) <= WIDTH.index(t))
        ensures(is_(e.Evaluate(c), 'Boolean', w), 'the answer')
        nul = binary(Op.isof, lit(s, None), n).Evaluate(None)
        ensures(is_(nul, 'Boolean', False), 'null is of no type')


@lemma(s=OneOf('Byte', 'Int16', 'Int32', 'Int64', 'String', 'Boolean'), t=OneOf('Byte', 'Int16', 'Int32', 'Int64', 'String', 'Boolean', 'Guid', 'Nonsense'), x=L64, one=Bool())
def cast(s, t, x, one):
    """cast widens a value and refuses to narrow it; null stays null"""
    if s in RANGE:
        requires(fits(s, x))
    v = {'String': u"x", 'Boolean': True}.get(s, x)
    a = lit(s, v)
    n = lit('String', u"Edm." + t)
    e = expr(core.BinaryExpression, Op.cast, n) if one else binary(Op.cast, a, n)
    c = a.value if one else None
    if s == t or (s in WIDTH and t in WIDTH and WIDTH.index(s) <= WIDTH.index(t)):
        ensures(is_(e.Evaluate(c), t, v), 'widened')
    else:
        ensures(raises(EE, e.Evaluate, c), 'refused')
    r = binary(Op.cast, lit(s, None), n).Evaluate(None)
    ensures(is_(r, 'null' if t == 'Nonsense' else t, None), 'null')


# ---- methods ----------------------------------------------------------------------------
def S(x):
    return lit('String', x)


M = core.Method
SS = Uni(0, 3, LETTER)


@lemma(x=SS, y=Uni(0, 2, LETTER))
def strings(x, y):
    """tests and searches"""
    n = len(y)
    at = [i for i in range(0, len(x) + 1) if i + n <= len(x) and x[i:i + n] == y]
    ensures(is_(method(M.endswith, S(x), S(y)).Evaluate(None), 'Boolean', n <= len(x) and x[len(x) - n:] == y), 'endswith')
    ensures(is_(method(M.startswith, S(x), S(y)).Evaluate(None), 'Boolean', n <= len(x) and x[:n] == y), 'startswith')
    ensures(is_(method(M.substringof, S(y), S(x)).Evaluate(None), 'Boolean', len(at) > 0), 'substringof')
    ensures(is_(method(M.indexof, S(x), S(y)).Evaluate(None), 'Int32', at[0] if at else -1), 'indexof')
    ensures(is_(method(M.concat, S(x), S(y)).Evaluate(None), 'String', x + y), 'concat')


@lemma(x=SS)
def one_string(x):
    """functions of one string"""
    ensures(is_(method(M.length, S(x)).Evaluate(None), 'Int32', len(x)), 'length')
    lo = u"".join([unichr(ite(conj(65 <= ord(c), ord(c) <= 90), ord(c) + 32, ord(c))) for c in x])
    up = u"".join([unichr(ite(conj(97 <= ord(c), ord(c) <= 122), ord(c) - 32, ord(c))) for c in x])
    ensures(is_(method(M.tolower, S(x)).Evaluate(None), 'String', lo), 'tolower')
    ensures(is_(method(M.toupper, S(x)).Evaluate(None), 'String', up), 'toupper')
    t = x
    while len(t) > 0 and t[0] == u" ":
        t = t[1:]
    while len(t) > 0 and t[-1] == u" ":
        t = t[:-1]
    ensures(is_(method(M.trim, S(x)).Evaluate(None), 'String', t), 'trim')


@lemma(x=SS, i=Int(0, 5), n=Int(0, 5))
def substrings(x, i, n):
    """substring counts from zero and stops at the end"""
    ensures(is_(method(M.substring, S(x), lit('Int32', i)).Evaluate(None), 'String', x[i:]), 'to the end')
    ensures(is_(method(M.substring, S(x), lit('Int32', i), lit('Int32', n)).Evaluate(None), 'String', x[i:i + n]), 'with a length')
    ensures(fails(method(M.substring, S(x), lit('Int64', i))), 'a position of another type')


@lemma(x=Uni(0, 3, ((97, 98),)), y=OneOf(u"a", u"ab", u"bb"), z=Uni(0, 1, ((97, 98),)))
def replaced(x, y, z):
    """replace replaces from the left, once"""
    out = u""
    i = 0
    while i < len(x):
        if x[i:i + len(y)] == y:
            out = out + z
            i = i + len(y)
        else:
            out = out + x[i]
            i = i + 1
    ensures(is_(method(M.replace, S(x), S(y), S(z)).Evaluate(None), 'String', out), 'replace')


STRM = {'endswith': ('String', 2), 'indexof': ('String', 2), 'replace': ('String', 3), 'startswith': ('String', 2), 'tolower': ('String', 1), 'toupper': ('String', 1), 'trim': ('String', 1), 'substringof': ('String', 2), 'concat': ('String', 2), 'length': ('String', 1),
        'year': ('DateTime', 1), 'month': ('DateTime', 1), 'day': ('DateTime', 1), 'hour': ('DateTime', 1), 'minute': ('DateTime', 1), 'second': ('DateTime', 1)}
RESULT = {'endswith': 'Boolean', 'indexof': 'Int32', 'replace': 'String', 'startswith': 'Boolean', 'tolower': 'String', 'toupper': 'String', 'trim': 'String', 'substringof': 'Boolean', 'concat': 'String'}


@lemma(m=OneOf(*sorted(STRM)), k=OneOf(0, 1, 2), n=OneOf(0, 1, 2, 3, 4), bad=OneOf('null', 'Int32', 'Boolean', 'ok'))
def arguments(m, k, n, bad):
    """the number and the types of the arguments are checked; null gives null"""
    t, arity = STRM[m]
    v = u"x" if t == 'String' else TimePoint(date=Date(century=20, year=1, month=2, day=3), time=Time(hour=3, minute=4, second=5))
    args = [lit(t, v) for i in range(0, n)]
    if k < n:
        args[k] = {'null': lit(t, None), 'Int32': lit('Int32', 1), 'Boolean': lit('Boolean', True), 'ok': lit(t, v)}[bad]
    e = method(getattr(M, m), *args)
    if n != arity:
        ensures(fails(e), 'the number of arguments')
    elif k < n and bad in ('Int32', 'Boolean'):
        ensures(fails(e), 'the type of an argument')
    else:
        ensures(is_(e.Evaluate(None), RESULT.get(m, 'Int32'), None) == (k < n and bad == 'null'), 'null')


@lemma(c=Int(1, 99), y=Int(0, 99), m=Int(1, 12), d=Int(1, 28), h=Int(0, 23), mi=Int(0, 59), s=Int(0, 59))
def date_parts(c, y, m, d, h, mi, s):
    """the parts of a DateTime"""
    v = lit('DateTime', TimePoint(date=Date(century=c, year=y, month=m, day=d), time=Time(hour=h, minute=mi, second=s)))
    for (name, n) in (('year', 100 * c + y), ('month', m), ('day', d), ('hour', h), ('minute', mi), ('second', s)):
        ensures(is_(method(getattr(M, name), v).Evaluate(None), 'Int32', n), name)


# ---- properties -------------------------------------------------------------------------
class FakeEntity(edm.Entity):
    """an entity with known values"""
    def __init__(self, values, collections):
        self.values = values
        self.collections = collections

    def __len__(self):
        return len(self.values)

    def IsEntityCollection(self, name):
        return name in self.collections

    def __getitem__(self, name):
        return self.values[name]


class FakeComplex(edm.TypeInstance):
    def __init__(self, values):
        self.values = values

    def __len__(self):
        return len(self.values)

    def __contains__(self, name):
        return name in self.values

    def __getitem__(self, name):
        return self.values[name]


@lemma(x=L64, kind=OneOf('entity', 'complex', 'member', 'nothing', 'collection', 'missing'))
def properties(x, kind):
    """a property name is looked up in the context; / changes the context"""
    v = lit('Int64', x).value
    p = core.PropertyExpression(u"p")
    if kind == 'entity':
        ensures(p.Evaluate(FakeEntity({u"p": v}, [])) is v, 'a property of the entity')
    elif kind == 'complex':
        ensures(p.Evaluate(FakeComplex({u"p": v})) is v, 'a property of a complex value')
    elif kind == 'member':
        e = FakeEntity({u"q": FakeComplex({u"p": v})}, [])
        ensures(binary(Op.member, core.PropertyExpression(u"q"), p).Evaluate(e) is v, 'a member')
    elif kind == 'nothing':
        r = p.Evaluate(FakeEntity({u"p": None}, []))
        ensures(is_(r, 'null', None), 'no related entity')
        ensures(fails(p), 'no context')
        ensures(raises(EE, p.Evaluate, lit('null', None).value), 'a null context')
    elif kind == 'collection':
        ensures(raises(EE, p.Evaluate, FakeEntity({u"p": v}, [u"p"])), 'a collection')
    else:
        ensures(raises(EE, p.Evaluate, FakeComplex({u"q": v})), 'an undefined property')
