"""QTI v2 values and expressions: the operators do what the specification says, NULL included."""
from xpy import *
from speclib import *
import pyslet.imsqtiv2p1
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.expressions as ex
from pyslet.qtiv2.variables import BaseType, Cardinality, Value, SingleValue, BooleanValue, IntegerValue, FloatValue, StringValue, IdentifierValue, PairValue, DirectedPairValue, PointValue, DurationValue, OrderedContainer, MultipleContainer, RecordContainer

MODULES = ['pyslet.qtiv2.expressions', 'pyslet.qtiv2.variables', 'pyslet.qtiv2.core', 'pyslet.xsdatatypes20041028', 'pyslet.xmlnames20091208', 'pyslet.xml20081126.structures', 'pyslet.html40_19991224', 'pyslet.unicode5', 'pyslet.rfc2396', 'pyslet.rfc2616_params', 'pyslet.rfc2616_core']
LO, HI = -2147483648, 2147483647
INT32 = Int(LO, HI)
LETTER = ((ord('a'), ord('z')), (ord('A'), ord('Z')))


class Val(object):
    """an expression with a known value"""
    def __init__(self, v):
        self.v = v

    def Evaluate(self, state):
        return self.v


class State(object):
    """a session with the template variable t"""
    def __init__(self, v):
        self.v = v

    def IsTemplate(self, name):
        if name == 't':
            return True
        if name == 'r':
            return False
        raise KeyError(name)

    def __getitem__(self, name):
        if name in ('t', 'r'):
            return self.v
        raise KeyError(name)


def n_ary(cls, *vs):
    e = cls(None)
    e.Expression = [Val(v) for v in vs]
    return e


def unary(cls, v):
    e = cls(None)
    e.Expression = Val(v)
    return e


def fails(e):
    """evaluation is a processing error"""
    return raises(core.ProcessingError, e.Evaluate, None)


def single_of(v, base):
    return conj(isinstance(v, SingleValue), v.Cardinality() == Cardinality.single, v.baseType == base)


# ---- boolean operators ------------------------------------------------------------------
BOOL3 = OneOf(None, True, False)


def bools(xs):
    return [BooleanValue(x) for x in xs]


@lemma(xs=List(BOOL3, 1, 4))
def and_or(xs):
    """and, or: three-valued"""
    a = n_ary(ex.And, *bools(xs)).Evaluate(None)
    o = n_ary(ex.Or, *bools(xs)).Evaluate(None)
    ensures(a.value == (False if False in xs else (None if None in xs else True)), 'and')
    ensures(o.value == (True if True in xs else (None if None in xs else False)), 'or')
    ensures(conj(single_of(a, BaseType.boolean), single_of(o, BaseType.boolean)), 'the type')


@lemma(x=BOOL3, other=OneOf('int', 'ordered', 'null'))
def not_(x, other):
    """not, and operands of the wrong kind"""
    n = unary(ex.Not, BooleanValue(x)).Evaluate(None)
    ensures(n.value == (None if x is None else not x), 'not')
    ensures(single_of(n, BaseType.boolean), 'the type')
    v = {'int': IntegerValue(1), 'ordered': OrderedContainer(BaseType.boolean), 'null': Value()}[other]
    if other == 'null':
        r = unary(ex.Not, v).Evaluate(None)
        ensures(conj(r.value is None, single_of(r, BaseType.boolean)), 'NULL of no type')
        ensures(n_ary(ex.And, v, BooleanValue(x)).Evaluate(None).value == (False if x is False else None), 'in and')
    else:
        ensures(fails(unary(ex.Not, v)), 'not of the wrong kind')
        for c in (ex.And, ex.Or):
            ensures(fails(n_ary(c, BooleanValue(x), v)), 'and, or of the wrong kind')
        e = n_ary(ex.AnyN, BooleanValue(x), v)
        e.min, e.max = '1', '1'
        ensures(fails(e), 'anyN of the wrong kind')


@lemma(xs=List(BOOL3, 1, 4), lo=Int(0, 9), hi=Int(0, 9))
def any_n(xs, lo, hi):
    """anyN: NULL exactly when the NULL operands decide"""
    e = n_ary(ex.AnyN, *bools(xs))
    e.min, e.max = str(lo), str(hi)
    r = e.Evaluate(None)
    t = len([x for x in xs if x is True])
    n = len([x for x in xs if x is None])
    if r.value is True:
        ensures(conj(*[conj(lo <= t + k, t + k <= hi) for k in range(n + 1)]), 'true whatever the NULL operands are')
    elif r.value is False:
        ensures(conj(*[disj(t + k < lo, hi < t + k) for k in range(n + 1)]), 'false whatever the NULL operands are')
    else:
        ensures(n > 0, 'NULL only with a NULL operand')
        if lo <= hi:
            ensures(disj(*[conj(lo <= t + k, t + k <= hi) for k in range(n + 1)]), 'could be true')
            ensures(disj(*[disj(t + k < lo, hi < t + k) for k in range(n + 1)]), 'could be false')
    ensures(single_of(r, BaseType.boolean), 'the type')


# ---- numbers ----------------------------------------------------------------------------
def nums(kinds, a, b):
    """two operands: integers (i), floats (f), NULL integer (n), NULL float (m), NULL (0)"""
    out = []
    for k, x in zip(kinds, (a, b)):
        if k == 'i':
            out.append(IntegerValue(x))
        elif k == 'f':
            out.append(FloatValue(float(x)))
        else:
            out.append({'n': IntegerValue(), 'm': FloatValue(), '0': Value()}[k])
    return out


KIND = OneOf('i', 'f', 'n', 'm', '0')
SMALL = Int(-40000, 40000)


@lemma(k1=KIND, k2=KIND, a=SMALL, b=SMALL)
def compare_(k1, k2, a, b):
    """lt, gt, lte, gte and equal, of integers and whole floats"""
    vs = nums((k1, k2), a, b)
    null = not (k1 in 'if' and k2 in 'if')
    for c, want in ((ex.LT, a < b), (ex.GT, a > b), (ex.LTE, a <= b), (ex.GTE, a >= b), (ex.Equal, a == b)):
        r = n_ary(c, *vs).Evaluate(None)
        ensures(single_of(r, BaseType.boolean), 'the type')
        if null:
            ensures(r.value is None, 'NULL')
        else:
            ensures(iff(r.value, want), 'the comparison')


@lemma(k1=KIND, k2=KIND, a=SMALL, b=SMALL)
def arithmetic(k1, k2, a, b):
    """sum, product and subtract, of integers and whole floats"""
    vs = nums((k1, k2), a, b)
    for c, want in ((ex.Sum, a + b), (ex.Subtract, a - b)):
        r = n_ary(c, *vs).Evaluate(None)
        if k1 == '0' and k2 == '0':
            ensures(conj(r.value is None, r.baseType is None), 'NULL of no type')
            continue
        base = BaseType.float if 'f' in (k1, k2) or 'm' in (k1, k2) else BaseType.integer
        ensures(single_of(r, base), 'an integer if both are, else a float')
        if k1 in 'if' and k2 in 'if':
            ensures(r.value == want, 'the result')
        else:
            ensures(r.value is None, 'NULL')


@lemma(a=INT32, b=INT32)
def integers(a, b):
    """integer arithmetic"""
    vs = [IntegerValue(a), IntegerValue(b)]
    for c, want in ((ex.Sum, a + b), (ex.Subtract, a - b)):
        e = n_ary(c, *vs)
        if conj(LO <= want, want <= HI):
            ensures(e.Evaluate(None).value == want, 'sum, subtract')
        else:
            ensures(raises(ValueError, e.Evaluate, None), 'out of the range of integers')


@lemma(xs=List(Opt(INT32), 1, 4))
def sum_(xs):
    """the sum of any number of integers"""
    r = n_ary(ex.Sum, *[IntegerValue(x) for x in xs])
    if None in xs:
        ensures(r.Evaluate(None).value is None, 'NULL')
        return
    t = 0
    for x in xs:
        t = t + x
    requires(conj(LO <= t, t <= HI))
    ensures(r.Evaluate(None).value == t, 'the sum')


@lemma(a=Int(-46340, 46340), b=OneOf(-46340, -7, -1, 0, 1, 2, 46340), k=Bool())
def product(a, b, k):
    """the product"""
    vs = [IntegerValue(a), IntegerValue(b)]
    if k:
        vs = [vs[1], vs[0]]
    ensures(n_ary(ex.Product, *vs).Evaluate(None).value == a * b, 'the product')


@lemma(a=INT32, b=OneOf(LO, -10, -2, -1, 0, 1, 3, 10, HI))
def integer_divide(a, b):
    """integerDivide rounds down, integerModulus is the remainder"""
    d = n_ary(ex.IntegerDivide, IntegerValue(a), IntegerValue(b))
    m = n_ary(ex.IntegerModulus, IntegerValue(a), IntegerValue(b)).Evaluate(None)
    requires(not (a == LO and b == -1))
    q = d.Evaluate(None)
    ensures(conj(single_of(q, BaseType.integer), single_of(m, BaseType.integer)), 'integers')
    if b == 0:
        ensures(conj(q.value is None, m.value is None), 'NULL by zero')
    else:
        ensures(q.value * b + m.value == a, 'quotient and remainder')
        ensures(conj(m.value * (1 if b > 0 else -1) >= 0, m.value * (1 if b > 0 else -1) < (b if b > 0 else -b)), 'the remainder has the sign of the divisor')


@lemma(k1=OneOf('i', 'n', '0', 'f'), k2=OneOf('i', 'n', '0', 'f'))
def integer_types(k1, k2):
    """integerDivide and integerModulus take integers"""
    for c in (ex.IntegerDivide, ex.IntegerModulus):
        e = n_ary(c, *nums((k1, k2), 7, 2))
        if 'f' in (k1, k2):
            ensures(fails(e), 'floats are refused')
        else:
            r = e.Evaluate(None)
            ensures(iff(r.value is None, not (k1 == 'i' and k2 == 'i')), 'NULL with a NULL')
            ensures(single_of(r, BaseType.integer), 'the type')


@lemma(a=INT32, b=OneOf(-8, -4, -1, 0, 1, 2, 16), k1=OneOf('i', 'f'), k2=OneOf('i', 'f'), n=OneOf('n', 'm', '0'), _bounded='b among 7 integers')
def divide(a, b, k1, k2, n):
    """divide gives a float, NULL by zero"""
    r = n_ary(ex.Divide, *nums((k1, k2), a, b)).Evaluate(None)
    ensures(single_of(r, BaseType.float), 'a float')
    if b == 0:
        ensures(r.value is None, 'NULL by zero')
    else:
        ensures(r.value * b == a, 'the quotient')
    for vs in (nums((n, k1), 0, a), nums((k1, n), a, 0)):
        x = n_ary(ex.Divide, *vs).Evaluate(None)
        ensures(conj(x.value is None, single_of(x, BaseType.float)), 'NULL')


@lemma(n=Int(-1000000000, 1000000000), q=Int(0, 7))
def round_(n, q):
    """round and truncate, in eighths"""
    x = FloatValue(n + q * 0.125)
    r = unary(ex.Round, x).Evaluate(None)
    t = unary(ex.Truncate, x).Evaluate(None)
    ensures(conj(single_of(r, BaseType.integer), single_of(t, BaseType.integer)), 'integers')
    ensures(r.value == n + (1 if q >= 4 else 0), 'round: n for [n-0.5,n+0.5)')
    ensures(t.value == ite(conj(n < 0, q > 0), n + 1, n), 'truncate: towards zero')


@lemma(n=INT32)
def to_float(n):
    """integerToFloat"""
    r = unary(ex.IntegerToFloat, IntegerValue(n)).Evaluate(None)
    ensures(conj(single_of(r, BaseType.float), r.value == n), 'the same number')
    for c, v in ((ex.IntegerToFloat, IntegerValue()), (ex.Round, FloatValue()), (ex.Truncate, FloatValue()), (ex.Round, Value())):
        ensures(unary(c, v).Evaluate(None).value is None, 'NULL')
    for c, v in ((ex.IntegerToFloat, FloatValue(1.0)), (ex.Round, IntegerValue(1)), (ex.Truncate, IntegerValue(1))):
        ensures(fails(unary(c, v)), 'the wrong type')


@lemma(a=SMALL, b=SMALL, t0=OneOf(0, 1, 3), t1=OneOf(0, 2, None), lb=Bool(), ub=Bool(), neg_=Bool())
def equal_absolute(a, b, t0, t1, lb, ub, neg_):
    """equal with an absolute tolerance"""
    e = n_ary(ex.Equal, FloatValue(float(a)), IntegerValue(b))
    e.toleranceMode = ex.ToleranceMode.absolute
    e.tolerance = [str(t0)] if t1 is None else [str(t0), str(t1)]
    e.includeLowerBound, e.includeUpperBound = lb, ub
    hi = a + (t0 if t1 is None else t1)
    lo = a - t0
    want = conj(b >= lo if lb else b > lo, b <= hi if ub else b < hi)
    ensures(iff(e.Evaluate(None).value, want), 'within the bounds')
    e.tolerance = []
    ensures(fails(e), 'a tolerance is needed')


# ---- containers -------------------------------------------------------------------------
ITEMS = List(Int(0, 9), 0, 3)


def container(kind, xs):
    c = OrderedContainer(BaseType.integer) if kind == 'o' else MultipleContainer(BaseType.integer)
    c.SetValue(xs)
    return c


def members(v):
    return list(v.GetValues())


def count(xs, x):
    n = 0
    for y in xs:
        n = n + ite(y == x, 1, 0)
    return n


def same_bag(xs, ys):
    return conj(len(xs) == len(ys), *[count(xs, x) == count(ys, x) for x in xs])


@lemma(xs=ITEMS, kind=OneOf('o', 'm'))
def containers(xs, kind):
    """a container holds what it was given"""
    c = container(kind, xs)
    got = members(c)
    if kind == 'o':
        ensures(conj(len(got) == len(xs), *[a == b for a, b in zip(got, xs)]), 'in order')
    else:
        ensures(same_bag(xs, got), 'with their frequencies')
    ensures(iff(c.IsNull(), len(xs) == 0), 'empty is NULL')
    ensures(unary(ex.IsNull, c).Evaluate(None).value == (len(xs) == 0), 'isNull')
    ensures(unary(ex.ContainerSize, c).Evaluate(None).value == len(xs), 'containerSize')
    d = Value.CopyValue(c)
    again = members(d)
    ensures(conj(len(again) == len(got), *[a == b for a, b in zip(again, got)]), 'a copy is the same')
    ensures(conj(d.Cardinality() == c.Cardinality(), d.baseType == c.baseType), 'of the same kind')
    if xs:
        e = n_ary(ex.Match, c, d)
        ensures(e.Evaluate(None).value is True, 'and matches')


@lemma(xs=List(Int(0, 9), 1, 2), ys=List(Int(0, 9), 1, 2), kind=OneOf('o', 'm'))
def match(xs, ys, kind):
    """match compares containers by order or by frequency"""
    r = n_ary(ex.Match, container(kind, xs), container(kind, ys)).Evaluate(None)
    if kind == 'o':
        want = conj(len(xs) == len(ys), *[a == b for a, b in zip(xs, ys)])
    else:
        want = same_bag(xs, ys)
    ensures(iff(r.value, want), 'match')


@lemma(xs=ITEMS, x=Int(0, 9), kind=OneOf('o', 'm'))
def member_delete(xs, x, kind):
    """member, delete"""
    c = container(kind, xs)
    r = n_ary(ex.Member, IntegerValue(x), c).Evaluate(None)
    d = n_ary(ex.Delete, IntegerValue(x), c).Evaluate(None)
    if not xs:
        ensures(r.value is None, 'NULL container')
        ensures(d.IsNull(), 'delete from nothing')
    else:
        ensures(iff(r.value, disj(*[y == x for y in xs])), 'member')
        left = [y for y in xs if y != x]
        got = members(d)
        ensures(same_bag(left, got), 'delete removes all of them')
        if kind == 'o':
            ensures(conj(*[a == b for a, b in zip(left, got)]), 'and keeps the order')
    ensures(d.Cardinality() == c.Cardinality(), 'the kind of container')
    ensures(n_ary(ex.Member, IntegerValue(), c).Evaluate(None).value is None, 'NULL member')
    ensures(fails(n_ary(ex.Member, StringValue('x'), c)), 'another type')
    ensures(fails(n_ary(ex.Delete, StringValue('x'), c)), 'delete of another type')


@lemma(xs=List(Int(0, 3), 1, 3), ys=List(Int(0, 3), 1, 4 if QUICK else 5), kind=OneOf('o', 'm'), _bounded='containers of up to 3 and %i values' % (4 if QUICK else 5))
def contains(xs, ys, kind):
    """contains: the first container occurs in the second"""
    r = n_ary(ex.Contains, container(kind, xs), container(kind, ys)).Evaluate(None)
    if kind == 'o':
        want = disj(*[conj(*[xs[j] == ys[i + j] for j in range(len(xs))]) for i in range(len(ys) - len(xs) + 1)])
    else:
        want = conj(*[count(xs, x) <= count(ys, x) for x in xs])
    ensures(iff(r.value, want), 'contains')


@lemma(xs=ITEMS, n=Int(-5, 9))
def index(xs, n):
    """index counts from 1, NULL beyond the end"""
    e = unary(ex.Index, container('o', xs))
    e.n = n
    if not xs:
        ensures(e.Evaluate(None).value is None, 'NULL container')
    elif n < 1:
        ensures(fails(e), 'n must be positive')
    else:
        r = e.Evaluate(None)
        for i in range(len(xs)):
            if n == i + 1:
                ensures(r.value == xs[i], 'the n-th')
        if n > len(xs):
            ensures(r.value is None, 'NULL beyond the end')
        ensures(single_of(r, BaseType.integer), 'the type')
    e = unary(ex.Index, container('m', xs))
    e.n = 1
    ensures(fails(e), 'only ordered containers have an index')


PART = Union(Tuple(OneOf('s'), Opt(Int(0, 9))), Tuple(OneOf('c'), List(Int(0, 9), 0, 2)))


@lemma(parts=List(PART, 0, 2 if QUICK else 3), kind=OneOf('o', 'm'))
def combine(parts, kind):
    """multiple, ordered: the values of the parts that are not NULL"""
    vs, want = [], []
    for t, x in parts:
        if t == 's':
            vs.append(IntegerValue(x))
            if x is not None:
                want.append(x)
        else:
            vs.append(container(kind, x))
            want.extend(x)
    r = n_ary(ex.Ordered if kind == 'o' else ex.Multiple, *vs).Evaluate(None)
    got = members(r)
    ensures(r.Cardinality() == (Cardinality.ordered if kind == 'o' else Cardinality.multiple), 'the kind')
    ensures(same_bag(want, got), 'the values')
    if kind == 'o':
        ensures(conj(*[a == b for a, b in zip(want, got)]), 'in order')
    if want:
        mixed = vs + [StringValue('x')]
        ensures(fails(n_ary(ex.Multiple, *mixed)), 'of one type')
        wrong = vs + [container('m' if kind == 'o' else 'o', [1])]
        ensures(fails(n_ary(ex.Ordered if kind == 'o' else ex.Multiple, *wrong)), 'no container of the other kind')


@lemma(name=Str(1, 2, LETTER), other=Str(1, 2, LETTER), n=INT32)
def record(name, other, n):
    """fieldValue"""
    r = RecordContainer()
    ensures(r.IsNull(), 'an empty record is NULL')
    r[name] = IntegerValue(n)
    r['null'] = IntegerValue()
    e = unary(ex.FieldValue, r)
    e.fieldIdentifier = other
    v = e.Evaluate(None)
    if name == other:
        ensures(conj(v.value == n, v.baseType == BaseType.integer), 'the field')
    else:
        ensures(v.value is None, 'NULL if there is none')
    ensures(conj(len(r) == 1, 'null' not in r), 'NULL fields are dropped')
    r[name] = None
    ensures(conj(len(r) == 0, name not in r), 'setting to NULL removes')
    e = unary(ex.FieldValue, IntegerValue(n))
    ensures(fails(e), 'only records have fields')


# ---- strings, references, random values --------------------------------------------------
@lemma(a=Str(1, 2, LETTER), b=Str(1, 2, LETTER), case=Bool(), sub=Bool())
def string_match(a, b, case, sub):
    """stringMatch, substring"""
    x = a if case else a.lower()
    y = b if case else b.lower()
    e = n_ary(ex.StringMatch, StringValue(a), StringValue(b))
    e.caseSensitive, e.substring = case, sub
    inside = disj(*[x == y[i:i + len(x)] for i in range(len(y) - len(x) + 1)])
    ensures(iff(e.Evaluate(None).value, inside if sub else x == y), 'stringMatch')
    e = n_ary(ex.SubString, StringValue(a), StringValue(b))
    e.caseSensitive = case
    ensures(iff(e.Evaluate(None).value, inside), 'substring: the first is within the second')
    for c in (ex.StringMatch, ex.SubString):
        ensures(n_ary(c, StringValue(a), StringValue('')).Evaluate(None).value is None, 'the empty string is NULL')
        ensures(fails(n_ary(c, StringValue(a), IntegerValue(1))), 'strings only')


@lemma(n=INT32, text=Str(1, 3, LETTER))
def references(n, text):
    """attributes may refer to template variables"""
    e = n_ary(ex.Sum)
    ensures(e.IntegerOrTemplateRef(State(None), str(n)) == n, 'an integer')
    ensures(e.IntegerOrTemplateRef(State(IntegerValue(n)), '{t}') == n, 'the value of the variable')
    ensures(e.IntegerOrTemplateRef(State(IntegerValue()), '{t}') is None, 'NULL')
    ensures(e.FloatOrTemplateRef(State(FloatValue(0.5)), '{t}') == 0.5, 'a float variable')
    ensures(e.StringOrTemplateRef(State(StringValue(text)), '{t}') == text, 'a string variable')
    ensures(e.StringOrTemplateRef(State(StringValue(text)), text) == text, 'a string')
    for name in ('{r}', '{x}'):
        ensures(e.StringOrTemplateRef(State(StringValue(text)), name) == name, 'no such template variable: the string itself')
        ensures(raises(core.ProcessingError, e.IntegerOrTemplateRef, State(IntegerValue(n)), name), 'integers need a template variable')
        ensures(raises(core.ProcessingError, e.FloatOrTemplateRef, State(FloatValue(0.5)), name), 'floats need a template variable')
    ensures(raises(core.ProcessingError, e.IntegerOrTemplateRef, State(FloatValue(0.5)), '{t}'), 'of the right type')
    ensures(raises(core.ProcessingError, e.FloatOrTemplateRef, State(IntegerValue(n)), '{t}'), 'of the right type')


class Vars(object):
    """a session with template variables"""
    def __init__(self, d):
        self.d = d

    def IsTemplate(self, name):
        return name in self.d

    def __getitem__(self, name):
        return self.d[name]


@lemma(lo=INT32, hi=INT32, step=OneOf(1, 2, 7), text=Bool())
def random_integer(lo, hi, step, text):
    """randomInteger is in range, a number of steps from the minimum"""
    requires(lo <= hi)
    e = ex.RandomInteger(None)
    e.min, e.max, e.step = '{lo}', '{hi}', str(step) if text else '{step}'
    v = e.Evaluate(Vars({'lo': IntegerValue(lo), 'hi': IntegerValue(hi), 'step': IntegerValue(step)}))
    ensures(conj(lo <= v.value, v.value <= hi), 'in range')
    ensures((v.value - lo) % step == 0, 'at a step')
    ensures(single_of(v, BaseType.integer), 'the type')


@lemma(xs=List(Int(0, 9), 0, 3), kind=OneOf('o', 'm'))
def random_choice(xs, kind):
    """random is one of the values"""
    r = unary(ex.Random, container(kind, xs)).Evaluate(None)
    if xs:
        ensures(disj(*[r.value == x for x in xs]), 'one of the values')
    else:
        ensures(r.value is None, 'NULL')
    ensures(single_of(r, BaseType.integer), 'the type')


# ---- values -----------------------------------------------------------------------------
@lemma(n=Int(-10 ** 10, 10 ** 10))
def integer_range(n):
    """integers have 32 bits"""
    v = IntegerValue()
    if conj(LO <= n, n <= HI):
        v.SetValue(n)
        ensures(v.value == n, 'set')
        w = IntegerValue()
        w.SetValue(unicode(v))
        ensures(w.value == n, 'as text and back')
        p = PointValue((n, n))
        w = PointValue(unicode(p))
        ensures(conj(w.value[0] == n, w.value[1] == n), 'points, as text and back')
    else:
        ensures(raises(ValueError, v.SetValue, n), 'refused')
        ensures(raises(ValueError, PointValue, (0, n)), 'points too')
    ensures(BooleanValue(n).value == (n != 0), 'booleans from integers')


@lemma(a=Str(1, 2, LETTER), b=Str(1, 2, LETTER))
def pairs(a, b):
    """pairs are not directed, directed pairs are"""
    p, q = PairValue((a, b)), PairValue((b, a))
    ensures(p.value == q.value, 'pairs are the same either way')
    ensures(n_ary(ex.Match, p, q).Evaluate(None).value is True, 'and match')
    ensures(disj(p.value == (a, b), p.value == (b, a)), 'the identifiers')
    d, e = DirectedPairValue((a, b)), DirectedPairValue((b, a))
    ensures(iff(n_ary(ex.Match, d, e).Evaluate(None).value, a == b), 'directed pairs only if the same')
    ensures(conj(d.value[0] == a, d.value[1] == b), 'in order')
    ensures(DirectedPairValue(a + ' ' + b).value == d.value, 'from text')
    ensures(DirectedPairValue(unicode(d)).value == d.value, 'as text and back')
    ensures(PairValue(b + ' ' + a).value == p.value, 'pairs from text')


VALUES = OneOf('boolean', 'directedPair', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri', 'duration', 'file')


@lemma(b=VALUES)
def null_values(b):
    """NULL values of every type"""
    base = BaseType.decode[b]
    v = SingleValue.NewValue(base)
    ensures(conj(v.IsNull(), v.baseType == base, v.Cardinality() == Cardinality.single, unicode(v) == ''), 'a NULL value')
    ensures(n_ary(ex.Match, v, v).Evaluate(None).value is None if b != 'duration' else fails(n_ary(ex.Match, v, v)), 'match with NULL is NULL')
    ensures(unary(ex.IsNull, v).Evaluate(None).value is True, 'isNull')
    v.SetValue(None)
    ensures(v.IsNull(), 'set to NULL')
