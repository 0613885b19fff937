"""Values of the Entity Data Model: what can be set, what is written, what is read."""
from xpy import *
from speclib import *
import pyslet.odata2.csdl as edm
from pyslet.iso8601 import TimePoint, Date, Time

MODULES = ['pyslet.odata2.csdl', 'pyslet.xsdatatypes20041028', 'pyslet.unicode5', 'pyslet.iso8601', 'pyslet.rfc2234']
T = edm.SimpleType
TYPES = ['Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32', 'Int64', 'String', 'SByte']
CODE = dict([(n, getattr(T, n)) for n in TYPES])
CODE['null'] = None
RANGE = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767), 'Int32': (-2147483648, 2147483647), 'Int64': (-9223372036854775808, 9223372036854775807)}
INTS = OneOf(*sorted(RANGE))
ANY = OneOf(*TYPES)
BIG = Int(-1180591620717411303424, 1180591620717411303424)


class Stub(object):
    """a property definition"""

    def __init__(self, t, precision=None):
        self.simpleTypeCode = CODE[t]
        self.name = 'x'
        self.precision = precision


def new(t, v=None):
    x = edm.EDMValue.NewSimpleValue(CODE[t])
    x.value = v
    return x


def from_literal(t, s):
    x = edm.EDMValue.NewSimpleValue(CODE[t])
    x.SetFromLiteral(s)
    return x


def fits(t, n):
    return conj(RANGE[t][0] <= n, n <= RANGE[t][1])


# ---- numbers ----------------------------------------------------------------------------
@lemma(t=INTS, n=BIG)
def integers(t, n):
    """an integer type holds the integers in its range; others are refused and change nothing"""
    x = new(t, 5)
    if fits(t, n):
        x.SetFromValue(n)
        ensures(x.value == n, 'the value')
        ensures(conj(x.typeCode == CODE[t], not x.IsNull()), 'the type')
    else:
        ensures(raises(ValueError, x.SetFromValue, n), 'out of range')
        ensures(x.value == 5, 'the old value')


@lemma(t=INTS, n=Int(-70000, 70000), d=OneOf(1, 2, 4, 8))
def fractions(t, n, d):
    """fractions are rounded towards zero"""
    x = new(t, 5)
    f = float(n) / d
    if conj(RANGE[t][0] * d <= n, n <= RANGE[t][1] * d):
        x.SetFromValue(f)
        ensures(x.value == (n // d if n >= 0 else -(-n // d)), 'the value')
    else:
        ensures(raises(ValueError, x.SetFromValue, f), 'out of range')
        ensures(x.value == 5, 'the old value')


@lemma(t=INTS, n=Int(-9223372036854775808, 9223372036854775807))
def integer_literals(t, n):
    """what is written for an integer is read back"""
    requires(fits(t, n))
    s = unicode(new(t, n))
    ensures(from_literal(t, s).value == n, 'round trip')


ASCII = ((32, 126),)


@lemma(t=INTS, s=Uni(0, 4, ASCII))
def integer_texts(t, s):
    """an integer literal is a sign, where there are signs, and digits"""
    x = new(t, 5)
    d = s[1:] if len(s) > 1 and s[0] == u"-" and t != 'Byte' else s
    ok = len(d) > 0 and all([u"0" <= c and c <= u"9" for c in d])
    if ok:
        v = 0
        for c in d:
            v = v * 10 + (ord(c) - 48)
        if len(d) < len(s):
            v = -v
    if ok and fits(t, v):
        x.SetFromLiteral(s)
        ensures(x.value == v, 'the value')
    else:
        ensures(raises(ValueError, x.SetFromLiteral, s), 'refused')
        ensures(x.value == 5, 'the old value')


@lemma(t=INTS, s=OneOf(u"NaN", u"INF", u"-INF", u"1e5", u"1.0", u"1.", u".5", u"12345678901234567890", u"-12345678901234567890", u"256", u"-129", u"32768", u"-32769", u"2147483648", u"-2147483649",
                       u"9223372036854775808", u"-9223372036854775809", u"+1", u"--1", u"0x10", u"1L", u"1 ", u"\u0661"))
def integer_refused(t, s):
    """other texts, and integers out of range, are refused"""
    n = {u"256": 256, u"-129": -129, u"32768": 32768, u"-32769": -32769, u"2147483648": 2147483648, u"-2147483649": -2147483649}.get(s)
    if n is not None and fits(t, n):
        ensures(from_literal(t, s).value == n, 'in range')
    else:
        ensures(raises(ValueError, from_literal, t, s), 'refused')


@lemma(t=OneOf('Double', 'Single'), s=OneOf((u"0", 0.0), (u"1", 1.0), (u"-1", -1.0), (u"1.5", 1.5), (u".5", 0.5), (u"-.25", -0.25), (u"2.", 2.0), (u"12345678", 12345678.0), (u"1e2", 100.0), (u"1E2", 100.0), (u"1.5e-1", 0.15), (u"0.00000000000000000000000000000000000000000000000", 0.0),
                                            (u"inf", 1e999), (u"INF", 1e999), (u"-INF", -1e999)))
def float_texts(t, s):
    """the forms of a floating point literal"""
    ensures(from_literal(t, s[0]).value == s[1], 'the value')


@lemma(t=OneOf('Double', 'Single'), s=OneOf(u"", u"-", u".", u"e5", u"1e", u"1.5e", u"1.5e-", u"1e+5", u".5e5", u"1.5e1234", u"1234567890123456789", u"1.234567890123456789e1", u"-NaN", u"infinity", u"1,5", u"1.5.5", u"1 ", u" 1", u"1f", u"--1", u"1.7e308e1"))
def float_refused(t, s):
    """other texts are refused"""
    ensures(raises(ValueError, from_literal, t, s), 'refused')


@lemma(t=OneOf('Double', 'Single'), n=Int(-1000000, 1000000), d=OneOf(1, 2, 8))
def floats(t, n, d):
    """floating point values in range are stored as they are"""
    x = new(t)
    x.SetFromValue(float(n) / d)
    ensures(x.value == float(n) / d, 'a float')
    x.SetFromValue(n)
    ensures(x.value == n, 'an integer')


@lemma(f=OneOf(3.4028234663852886e+38, -3.4028234663852886e+38, 3.5e+38, -3.5e+38, 1e308, 1.7976931348623157e308, 1e999, -1e999, 2 ** 127, 2 ** 128, -2 ** 128, 2 ** 1024, -2 ** 1024))
def float_limits(f):
    """the limits of floating point values; infinities are values"""
    for t, m in (('Single', 3.4028234663852886e+38), ('Double', 1.7976931348623157e308)):
        x = new(t, 5.0)
        if abs(f) <= m or type(f) is float and abs(f) > 1.7976931348623157e308:
            x.SetFromValue(f)
            ensures(x.value == f, 'the value')
        else:
            ensures(raises(ValueError, x.SetFromValue, f), 'out of range')
            ensures(x.value == 5.0, 'the old value')


# ---- boolean, binary, string ------------------------------------------------------------
@lemma(b=Bool(), n=BIG, f=OneOf(0.0, -0.0, 0.5, -1.0, 1e-300))
def booleans(b, n, f):
    """booleans, from booleans and from numbers"""
    s = unicode(new('Boolean', b))
    ensures(s == (u"true" if b else u"false"), 'written')
    ensures(from_literal('Boolean', s).value == b, 'read')
    x = new('Boolean')
    x.SetFromValue(b)
    ensures(x.value == b, 'set')
    x.SetFromValue(n)
    ensures(x.value == (n != 0), 'an integer')
    x.SetFromValue(f)
    ensures(x.value == (f != 0), 'a float')
    ensures(conj(raises(TypeError, x.SetFromValue, u"true"), x.value == (f != 0)), 'nothing else')


@lemma(s=Uni(0, 5, ((32, 126),)))
def boolean_texts(s):
    """true and false, in any case, and nothing else"""
    t = s.lower()
    if t == u"true" or t == u"false":
        ensures(from_literal('Boolean', s).value == (t == u"true"), 'read')
    else:
        ensures(raises(ValueError, from_literal, 'Boolean', s), 'refused')


@lemma(b=Str(0, 3, ((0, 255),)))
def binaries(b):
    """what is written for a binary value is read back"""
    s = unicode(new('Binary', b))
    ensures(len(s) == 2 * len(b), 'two digits a byte')
    ensures(from_literal('Binary', s).value == b, 'round trip')
    ensures(from_literal('Binary', s.lower()).value == b, 'in lower case')
    x = new('Binary')
    x.SetFromValue(b)
    ensures(x.value == b, 'set')


def hexv(c):
    return ite(c <= 57, c - 48, ite(c <= 70, c - 55, c - 87))


@lemma(s=Uni(0, 4, ((32, 126),)))
def binary_texts(s):
    """an even number of hexadecimal digits, and nothing else"""
    H = u"0123456789ABCDEFabcdef"
    if len(s) % 2 == 0 and all([c in H for c in s]):
        v = from_literal('Binary', s).value
        ensures(conj(len(v) == len(s) // 2, *[ord(v[i]) == 16 * hexv(ord(s[2 * i])) + hexv(ord(s[2 * i + 1])) for i in range(0, len(v))]), 'the bytes')
    else:
        ensures(raises(ValueError, from_literal, 'Binary', s), 'refused')


@lemma(s=Uni(0, 4, ((0, 0xFFFF),)), b=Str(0, 3, ((0, 127),)), n=Int(-1000, 1000))
def strings(s, b, n):
    """a string is its own literal; other values are converted"""
    ensures(unicode(new('String', s)) == s, 'written')
    ensures(from_literal('String', s).value == s, 'read')
    x = new('String')
    x.SetFromValue(s)
    ensures(x.value == s, 'set')
    x.SetFromValue(b)
    ensures(conj(x.value == unicode(b), type(x.value) is unicode), 'a byte string')
    x.SetFromValue(n)
    ensures(conj(x.value == unicode(n), type(x.value) is unicode), 'a number')


# ---- times ------------------------------------------------------------------------------
H24 = Int(0, 23)
M60 = Int(0, 59)
PREC = OneOf(None, 0, 3, 7)


def value(t, v, p):
    x = edm.EDMValue.NewValue(Stub(t, p))
    x.value = v
    return x


@lemma(h=Int(0, 24), m=M60, s=Int(0, 60), p=PREC)
def times(h, m, s, p):
    """what is written for a time is read back, whatever the precision"""
    requires(disj(h < 24, conj(m == 0, s == 0)))
    t = Time(hour=h, minute=m, second=s)
    w = unicode(value('Time', t, p))
    ensures(len(w) == 8 + (p + 1 if p else 0), 'as precise as declared')
    r = from_literal('Time', w).value
    ensures(conj(r.GetTime() == (h, m, s), r.GetZone() == (None, None)), 'round trip')
    x = new('Time')
    x.SetFromValue(t)
    ensures(x.value.GetTime() == (h, m, s), 'set')


@lemma(n=Int(-100000, 1000000), f=Bool())
def time_seconds(n, f):
    """a time from the seconds since midnight"""
    x = new('Time')
    v = n / 2.0 if f else n
    if n < 0:
        ensures(raises((ValueError, TypeError), x.SetFromValue, v), 'negative')
        ensures(x.IsNull(), 'the old value')
    elif v >= 86400:
        ensures(raises(ValueError, x.SetFromValue, v), 'more than a day')
        ensures(x.IsNull(), 'the old value')
    else:
        x.SetFromValue(v)
        h, m, s = x.value.GetTime()
        ensures(conj(h * 3600 + m * 60 + s == v, 0 <= m, m < 60, 0 <= s, s < 60, 0 <= h, h < 24), 'the time')


@lemma(q=YQ, c=YC, k=YK, r=YR, mo=MM, d=DD, h=H24, p=OneOf(None, 3))
def datetimes(q, c, k, r, mo, d, h, p):
    """what is written for a DateTime is read back"""
    y = yr(q, c, k, r)
    requires(s_valid(y, mo, d))
    t = TimePoint(date=Date(century=y // 100, year=y % 100, month=mo, day=d), time=Time(hour=h, minute=4, second=5))
    w = unicode(value('DateTime', t, p))
    ensures(len(w) == 19 + (p + 1 if p else 0), 'as precise as declared')
    v = from_literal('DateTime', w).value
    ensures(conj(v.date.GetCalendarDay() == (y // 100, y % 100, mo, d), v.time.GetTime() == (h, 4, 5), v.GetZone() == (None, None)), 'round trip')


@lemma(h=H24, m=M60, s=M60, zd=OneOf(None, -1, 0, 1), zh=Int(0, 23), zm=M60)
def datetime_zone(h, m, s, zd, zh, zm):
    """the zone of a DateTime is dropped and its time left alone; a DateTimeOffset must have one, which is read back"""
    z = {'zDirection': zd, 'zHour': zh, 'zMinute': zm} if zd else {'zDirection': zd}
    t = TimePoint(date=Date(century=19, year=69, month=7, day=20), time=Time(hour=h, minute=m, second=s, **z))
    x = new('DateTime')
    x.SetFromValue(t)
    ensures(conj(x.value.GetZone() == (None, None), x.value.time.GetTime() == (h, m, s), x.value.date.GetCalendarDay() == (19, 69, 7, 20)), 'a DateTime')
    ensures(t.GetZone() == Time(hour=h, minute=m, second=s, **z).GetZone(), 'the time given is not changed')
    x = new('DateTimeOffset')
    if zd is None:
        ensures(conj(raises(ValueError, x.SetFromValue, t), x.IsNull()), 'no zone')
    else:
        x.SetFromValue(t)
        w = unicode(x)
        ensures(len(w) == 25, 'the zone in figures')
        r = from_literal('DateTimeOffset', w).value
        ensures(conj(r.time.GetTime() == (h, m, s), r.GetZone()[1] == t.GetZone()[1], r.date.GetCalendarDay() == (19, 69, 7, 20)), 'round trip')


@lemma(k=Int(0, 400), s=Int(0, 86399), f=Bool())
def unix_times(k, s, f):
    """a number is a unix time: in UTC for a DateTimeOffset, without zone for a DateTime"""
    n = k * 86400 + s
    if f:
        n = float(n)
    a, b = new('DateTime'), new('DateTimeOffset')
    a.SetFromValue(n)
    b.SetFromValue(n)
    for v, z in ((a.value, (None, None)), (b.value, (0, 0))):
        h, m, x = v.time.GetTime()
        ensures(h * 3600 + m * 60 + x == s, 'the time')
        ensures(v.date.GetAbsoluteDay() == s_abs(1970, 1, 1) + k, 'the day')
        ensures(v.GetZone() == z, 'the zone')
    ensures(conj(raises(TypeError, a.SetFromValue, -1), raises(TypeError, b.SetFromValue, -1)), 'not before 1970')


@lemma(s=OneOf(u"", u"12", u"12:", u"12:60:61", u"25:00", u"24:00:01", u"24:01", u"12:00:", u"12:00:00.", u"12:00:00.12345678", u"12:00:00Z", u"120000", u" 12:00", u"-12:00", u"12:00:61", u"12:99"))
def time_refused(s):
    """what is not a time is refused"""
    ensures(raises(ValueError, from_literal, 'Time', s), 'a time')
    ensures(raises(ValueError, from_literal, 'DateTime', u"2000-01-01T" + s), 'in a DateTime')


@lemma(s=OneOf(u"", u"2000", u"2000-01-01", u"2000-01-01 12:00", u"2000-13-01T12:00", u"2000-00-01T12:00", u"2000-01-32T12:00", u"2000-02-30T12:00", u"2001-02-29T12:00", u"1900-02-29T12:00", u"2000-1-001T12:00", u"200-01-01T12:00", u"20000-01-01T12:00", u"2000-01-01T12:00:00Z",
               u"2000-01-01T12:00+01:00", u"-2000-01-01T12:00", u"2000-04-31T12:00", u"2000-01-00T12:00", u"2000/01/01T12:00"))
def date_refused(s):
    """what is not a date and time is refused"""
    ensures(raises(ValueError, from_literal, 'DateTime', s), 'refused')


@lemma(s=OneOf(u"2000-01-01", u"2000-01-01T12:00:00", u"2000-02-30T12:00:00Z", u"", u"x", u"12:00:00Z", u"2000-01-01T12:00:00+25:00"))
def offset_refused(s):
    """what is not a date and time with a zone is refused"""
    ensures(raises(ValueError, from_literal, 'DateTimeOffset', s), 'refused')


@lemma(s=OneOf(u"", u"0", u"00000000-0000-0000-0000-00000000000", u"0000000-0000-0000-0000-000000000000", u"000000000000-0000-0000-000000000000", u"00000000000000000000000000000000", u"00000000-0000-0000-0000-00000000000g", u"{00000000-0000-0000-0000-000000000000}"))
def guid_refused(s):
    """what is not a guid is refused"""
    ensures(raises(ValueError, from_literal, 'Guid', s), 'refused')


# ---- all values -------------------------------------------------------------------------
SAMPLE = {'Binary': 'ab', 'Boolean': True, 'Byte': 1, 'SByte': 1, 'Int16': 1, 'Int32': 1, 'Int64': 1, 'Double': 1.0, 'Single': 1.0, 'String': u"1", 'Guid': u"g", 'Decimal': 1,
          'DateTime': TimePoint(date=Date(century=19, year=70, month=1, day=1), time=Time(hour=0, minute=0, second=1)), 'DateTimeOffset': TimePoint(date=Date(century=19, year=70, month=1, day=1), time=Time(hour=0, minute=0, second=1, zDirection=0)),
          'Time': Time(hour=0, minute=0, second=1)}


@lemma(t=ANY)
def nulls(t):
    """null: false, no literal, and any value can be set to it"""
    x = new(t, SAMPLE[t])
    ensures(conj(bool(x), not x.IsNull()), 'a value')
    x.SetFromValue(None)
    ensures(conj(not x, x.IsNull(), x.typeCode == CODE[t]), 'null')
    ensures(raises(ValueError, unicode, x), 'no literal')
    y = new(t, SAMPLE[t])
    y.SetNull()
    ensures(conj(y.IsNull(), x == y), 'null again')
    ensures(conj(x != new(t, SAMPLE[t]), not (x == new(t, SAMPLE[t]))), 'not equal to a value')
    ensures(new(t).IsNull(), 'new values are null')


@lemma(t=ANY, u=ANY, a=Bool(), b=Bool())
def equality(t, u, a, b):
    """values are equal if they are of one type with equal values"""
    x, y = new(t, SAMPLE[t] if a else None), new(u, SAMPLE[u] if b else None)
    e = t == u and a == b
    ensures(conj((x == y) == e, (x != y) == (not e), (y == x) == e), 'equal')
    if a:
        ensures(conj(x == SAMPLE[t], not (x != SAMPLE[t])), 'equal to its value')


@lemma(t=INTS, x=BIG, y=BIG)
def integer_equality(t, x, y):
    """... for all integers"""
    requires(conj(fits(t, x), fits(t, y)))
    ensures(conj((new(t, x) == new(t, y)) == (x == y), (new(t, x) != new(t, y)) == (x != y), (new(t, x) == y) == (x == y)), 'equal')


@lemma(t=ANY, d=Bool(), null=Bool())
def copies(t, d, null):
    """a copy is equal and separate"""
    x = edm.EDMValue.NewValue(Stub(t, 3)) if d else new(t)
    x.value = None if null else SAMPLE[t]
    y = edm.SimpleValue.Copy(x)
    ensures(conj(y == x, type(y) is type(x), y.typeCode == CODE[t], y.pDef is x.pDef, y.IsNull() == null), 'equal')
    y.SetNull()
    ensures(conj(x.IsNull() == null, null or x.value == SAMPLE[t]), 'separate')


NUM = ['Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Double', 'Single']


@lemma(t=ANY, u=ANY, null=Bool(), back=Bool())
def casts(t, u, null, back):
    """casting between types: the target takes the value where it can, and its own type stays; null casts to null"""
    requires(conj(t not in ('Decimal', 'Guid') or null, disj(u not in ('Decimal', 'Guid', 'Binary'), t == u, null)))
    x = new(t, None if null else SAMPLE[t])
    y = new(u, SAMPLE[u])
    f = (lambda: y.SetFromSimpleValue(x)) if back else (lambda: x.Cast(y))
    ok = null or t == u or u == 'String' or (t in NUM and u in NUM + ['Boolean', 'DateTime', 'DateTimeOffset', 'Time']) or (t == 'DateTimeOffset' and u == 'DateTime')
    if t == 'DateTime' and u == 'DateTimeOffset' and not null:
        ensures(conj(raises(ValueError, f), y.value == SAMPLE[u]), 'no zone')
    elif ok:
        f()
        ensures(conj(y.typeCode == CODE[u], y.IsNull() == null, x.IsNull() == null, x.typeCode == CODE[t]), 'the types')
        ensures(null or x.value == SAMPLE[t], 'the value cast is not changed')
        if not null and (t == u or t in NUM and u in NUM):
            ensures(y.value == SAMPLE[u], 'the value')
    else:
        ensures(conj(raises(TypeError, f), y.value == SAMPLE[u]), 'refused')
    z = x.SimpleCast(CODE[u]) if ok else None
    if ok:
        ensures(conj(z.typeCode == CODE[u], z == y), 'a new value')


@lemma(t=INTS, u=INTS, n=BIG)
def integer_casts(t, u, n):
    """integers are cast exactly or refused"""
    requires(fits(t, n))
    x, y = new(t, n), new(u, 5)
    if fits(u, n):
        ensures(x.Cast(y) is y, 'the target')
        ensures(y.value == n, 'the value')
    else:
        ensures(conj(raises(ValueError, x.Cast, y), y.value == 5), 'out of range')
    ensures(x.value == n, 'the value cast is not changed')


@lemma(t=ANY)
def untyped(t):
    """the untyped null"""
    x = edm.EDMValue.NewValue(None)
    ensures(conj(x.IsNull(), x.typeCode is None), 'null')
    y = new(t, SAMPLE[t])
    x.Cast(y)
    ensures(conj(y.IsNull(), y.typeCode == CODE[t]), 'cast to any type')
    ensures(raises(NotImplementedError, x.SetFromValue, 1), 'takes no value')


@lemma(t=ANY)
def from_python(t):
    """the type for a Python value"""
    v = SAMPLE[t]
    w = {'Binary': 'String', 'Byte': 'Int64', 'SByte': 'Int64', 'Int16': 'Int64', 'Int32': 'Int64', 'Single': 'Double', 'Guid': 'String', 'Decimal': 'Int64'}.get(t, t)
    x = edm.EDMValue.NewSimpleValueFromValue(v)
    ensures(conj(x.typeCode == CODE[w], x.value == v), 'the value')
