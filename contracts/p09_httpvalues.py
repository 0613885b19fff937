"""HTTP protocol values (RFC 2616 section 3, 14.16): writing, reading, comparing."""
from xpy import *
from speclib import *
import pyslet.iso8601 as iso
import pyslet.rfc2616_core as http
import pyslet.rfc2616_params as params
import pyslet.rfc2616_headers as headers
from pyslet.rfc2616_params import HTTPVersion, MediaType, TransferEncoding, ProductToken, LanguageTag, EntityTag, FullDate, ParameterParser, HTTPURL, HTTPSURL
from pyslet.rfc2616_headers import ContentRange, CacheControl, AcceptRanges, Allow

MODULES = ['pyslet.rfc2616_core', 'pyslet.rfc2616_params', 'pyslet.rfc2616_headers', 'pyslet.unicode5', 'pyslet.iso8601', 'pyslet.rfc2396']
SEPS = '()<>@,;:\\"/[]?={} \t'
TOKEN = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS)
NOSTAR = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS + '*')
ALPHA = ((65, 90), (97, 122))
NUM = Int(0, 99999)
LB = 'tokens of at most 2 characters'


def sgn(x):
    return ite(x < 0, -1, ite(x > 0, 1, 0))


def order(a, b, less, equal):
    """a and b compare as they should, and the way round does not matter"""
    ensures(iff(a == b, equal), 'equal exactly when they denote the same value')
    ensures(iff(a < b, less), 'ordered as their values')
    ensures(cmp(b, a) == -cmp(a, b), 'the order is antisymmetric')
    if a == b:
        ensures(hash(a) == hash(b), 'equal values hash alike')


# ---- versions -----------------------------------------------------------------------
@lemma(a=NUM, b=NUM, sp=OneOf('', ' '))
def version_text(a, b, sp):
    v = HTTPVersion(a, b)
    ensures(str(v) == 'HTTP/%i.%i' % (a, b), 'major and minor number')
    w = HTTPVersion.FromString('%sHTTP%s/%s%i.%i' % (sp, sp, sp, a, b))
    ensures(conj(w.major == a, w.minor == b), 'a version is read back')


@lemma(a=NUM, b=NUM, c=NUM, d=NUM)
def version_order(a, b, c, d):
    order(HTTPVersion(a, b), HTTPVersion(c, d), disj(a < c, conj(a == c, b < d)), conj(a == c, b == d))


@lemma(s=OneOf('HTTP/1', 'HTTP/1.', 'HTTP/.1', 'HTTP 1.1', 'HTTPS/1.1', '', 'HTTP/1.1.1', 'HTTP/a.b', 'HTTP/1.1 x', 'HTTP/'))
def version_malformed(s):
    ensures(raises(http.SyntaxError, HTTPVersion.FromString, s), 'a malformed version is refused')


# ---- media types and transfer encodings ------------------------------------------------
def pars(names, values):
    d = {}
    for n, v in zip(names, values):
        d[n.lower()] = [n, v]
    return d


NAMES = OneOf((), ('a',), ('b', 'Charset'))


@lemma(t=Str(1, 2, TOKEN), u=Str(1, 2, TOKEN), names=NAMES, v1=Str(0, 1, LATIN1), v2=OneOf('', 'utf-8'), _bounded=LB)
def mediatype_text(t, u, names, v1, v2):
    m = MediaType(t, u, pars(names, (v1, v2)))
    r = MediaType.FromString(str(m))
    ensures(conj(r.type == t.lower(), r.subtype == u.lower()), 'type and subtype are read back')
    ensures(r.parameters == m.parameters, 'parameters are read back')
    ensures(r == m, 'a media type is read back as an equal one')
    ensures(hash(r) == hash(m), 'equal media types hash alike')


@lemma(t=Str(1, 1, TOKEN), u=Str(1, 1, TOKEN), x=Str(1, 1, TOKEN), y=Str(1, 1, TOKEN), n1=NAMES, n2=NAMES, v=Str(1, 1, TOKEN), w=Str(1, 1, TOKEN), _bounded='tokens of a character')
def mediatype_order(t, u, x, y, n1, n2, v, w):
    a = MediaType(t, u, pars(n1, (v, 'z')))
    b = MediaType(x, y, pars(n2, (w, 'z')))
    same = conj(t.lower() == x.lower(), u.lower() == y.lower(), n1 == n2, disj(len(n1) == 0, v == w))
    ensures(iff(a == b, same), 'equal exactly when types, parameters and values are the same')
    ensures(cmp(b, a) == -cmp(a, b), 'the order is antisymmetric')
    if t.lower() != x.lower():
        ensures(iff(a < b, t.lower() < x.lower()), 'ordered by type first')
    elif u.lower() != y.lower():
        ensures(iff(a < b, u.lower() < y.lower()), 'ordered by subtype next')
    if a == b:
        ensures(hash(a) == hash(b), 'equal media types hash alike')


@lemma(t=Str(1, 1, TOKEN), s=OneOf(' /', '/ ', ' / ', ';', ',', ' '))
def mediatype_malformed(t, s):
    ensures(raises(http.SyntaxError, MediaType.FromString, t + s + t), 'space around the slash and other separators are refused')


@lemma(t=Union(Str(1, 2, TOKEN), OneOf('chunked', 'Chunked')), names=NAMES, v1=Str(0, 1, LATIN1), v2=OneOf('', 'utf-8'), _bounded=LB)
def transfer_text(t, names, v1, v2):
    m = TransferEncoding(t, pars(names, (v1, v2)))
    r = TransferEncoding.FromString(str(m))
    ensures(r.token == t.lower(), 'the encoding is read back')
    ensures(r.parameters == ({} if t.lower() == 'chunked' else pars(names, (v1, v2))), 'parameters are read back, and chunked has none')
    ensures(conj(r == m, hash(r) == hash(m)), 'a transfer encoding is read back as an equal one')
    ensures(r == str(m), 'a transfer encoding compares with its text')


@lemma(t=Str(1, 1, TOKEN), x=Str(1, 1, TOKEN), n1=NAMES, n2=NAMES, v=Str(1, 1, TOKEN), w=Str(1, 1, TOKEN), _bounded='tokens of a character')
def transfer_order(t, x, n1, n2, v, w):
    a = TransferEncoding(t, pars(n1, (v, 'z')))
    b = TransferEncoding(x, pars(n2, (w, 'z')))
    same = conj(t.lower() == x.lower(), n1 == n2, disj(len(n1) == 0, v == w))
    ensures(iff(a == b, same), 'equal exactly when encodings, parameters and values are the same')
    ensures(cmp(b, a) == -cmp(a, b), 'the order is antisymmetric')
    if a == b:
        ensures(hash(a) == hash(b), 'equal transfer encodings hash alike')


# ---- product tokens -----------------------------------------------------------------------
@lemma(t=Str(1, 2, TOKEN), v=Opt(Str(1, 3, TOKEN)), sp=OneOf('', ' '), _bounded='tokens of at most 3 characters')
def product_text(t, v, sp):
    p = ProductToken(t, v)
    ensures(str(p) == (t if v is None else t + '/' + v), 'token and version')
    r = ProductToken.FromString(sp + str(p) + sp)
    ensures(conj(r.token == t, r.version == v), 'a product token is read back')
    ensures(conj(r == p, hash(r) == hash(p)), 'as an equal one')


def ver(parts):
    r = ''
    for i in range(len(parts)):
        r = r + ('.' if i else '') + str(parts[i])
    return r


V = List(Int(0, 99), 1, 3)


@lemma(a=V, b=V, _bounded='at most 3 numeric components below 100')
def product_numeric(a, b):
    """dotted numeric versions compare component by component"""
    p, q = ProductToken('x', ver(a)), ProductToken('x', ver(b))
    order(p, q, tuple(a) < tuple(b), tuple(a) == tuple(b))


@lemma(a=List(Int(0, 99), 0, 2), m=Int(0, 999), s=Str(1, 1, ALPHA), n=Opt(Int(0, 99)), s2=Str(1, 1, ALPHA), n2=Opt(Int(0, 99)), _bounded='at most 3 components below 1000, modifiers of a letter')
def product_modifier(a, m, s, n, s2, n2):
    """a modifier sorts before the plain version, and by letter then number"""
    base = ver(a + [m])
    x = ProductToken('x', base + s + ('' if n is None else str(n)))
    y = ProductToken('x', base + s2 + ('' if n2 is None else str(n2)))
    p = ProductToken('x', base)
    ensures(conj(x < p, p > x), 'a modified version is before the plain one')
    ensures(ProductToken('x', ver(a + [m]) + '.0') > p, 'a further component is after')
    if s != s2:
        ensures(iff(x < y, s < s2), 'modifiers sort by letter')
    elif n is not None and n2 is not None:
        ensures(cmp(x, y) == sgn(n - n2), 'modifiers sort by number')
    ensures(cmp(y, x) == -cmp(x, y), 'the order is antisymmetric')


# ---- language tags ------------------------------------------------------------------------
NODASH = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS + '-')


@lemma(p=Str(1, 2, NODASH), subs=List(Str(1, 2, NODASH), 0, 2), _bounded='at most 3 subtags of 2 characters')
def language_text(p, subs):
    t = LanguageTag(p, *subs)
    r = LanguageTag.FromString(str(t))
    ensures(conj(r.primary == p, list(r.subtags) == subs), 'the tags are read back')
    ensures(conj(r == t, hash(r) == hash(t)), 'as an equal tag')


@lemma(a=List(Str(1, 1, NODASH), 1, 3), b=List(Str(1, 1, NODASH), 0, 3), _bounded='at most 3 subtags of a character')
def language_match(a, b):
    """a tag matches a range whose subtags are its first ones, whatever the case"""
    t = LanguageTag(a[0], *a[1:])
    rng = tuple([x.lower() for x in b])
    pre = len(b) <= len(a)
    if pre:
        pre = conj(*[b[i].lower() == a[i].lower() for i in range(len(b))])
    ensures(iff(t.PartialMatch(rng), pre), 'a range matches by prefix of subtags')
    if len(b) > 0:
        u = LanguageTag(b[0], *b[1:])
        ensures(iff(t == u, conj(pre, len(a) == len(b))), 'tags are equal when all subtags are, whatever the case')
        ensures(cmp(u, t) == -cmp(t, u), 'the order is antisymmetric')
        if t == u:
            ensures(hash(t) == hash(u), 'equal tags hash alike')


# ---- entity tags -----------------------------------------------------------------------------
@lemma(s=Str(0, 2, LATIN1), weak=OneOf(True, False), _bounded='tags of at most 2 characters')
def etag_text(s, weak):
    e = EntityTag(s, weak)
    r = EntityTag.FromString(str(e))
    ensures(conj(r.tag == s, r.weak == weak), 'an entity tag is read back')
    ensures(conj(r == e, hash(r) == hash(e)), 'as an equal tag')
    ensures(repr(e) == 'EntityTag(%s,%s)' % (repr(s), 'True' if weak else 'False') if s == '' else True, 'the representation names the tag')


@lemma(s=Str(0, 1, LATIN1), t=Str(0, 1, LATIN1), v=OneOf(True, False), w=OneOf(True, False), _bounded='tags of at most a character')
def etag_order(s, t, v, w):
    order(EntityTag(s, v), EntityTag(t, w), disj(s < t, conj(s == t, not v, w)), conj(s == t, v == w))


# ---- content ranges --------------------------------------------------------------------------
@lemma(a=NUM, b=NUM, n=Opt(NUM), some=OneOf(True, False))
def range_text(a, b, n, some):
    r = ContentRange(a, b, n) if some else ContentRange(None, None, n)
    t = 'bytes %s/%s' % ('%i-%i' % (a, b) if some else '*', '*' if n is None else str(n))
    ensures(str(r) == t, 'first and last byte and total length')
    q = ContentRange.FromString(t)
    ensures(conj(q.firstByte == r.firstByte, q.lastByte == r.lastByte, q.totalLength == n), 'a content range is read back')


@lemma(a=Int(), b=Int(), n=Opt(Int()))
def range_length(a, b, n):
    r = ContentRange(a, b, n)
    ensures(iff(r.IsValid(), conj(0 <= a, a <= b, True if n is None else b < n)), 'valid ranges are non-empty and inside the entity')
    if a <= b:
        requires(b - a < 2000000000)
        ensures(len(r) == b - a + 1, 'the length counts both ends')
    else:
        ensures(raises(ValueError, len, r), 'an empty range has no length')
    ensures(not ContentRange(None, None, n).IsValid(), 'an unsatisfied range is not valid')
    ensures(raises(ValueError, len, ContentRange(None, None, n)), 'an unsatisfied range has no length')


@lemma(a=OneOf(0, 7))
def range_half(a):
    ensures(raises(TypeError, ContentRange, a), 'a first byte needs a last byte')


# ---- other header values ---------------------------------------------------------------------
@lemma(ms=List(Str(1, 1, TOKEN), 0, 3), m=Str(1, 1, TOKEN), _bounded='at most 3 methods of a character')
def allow(ms, m):
    a = Allow.FromString(str(Allow(*ms)))
    ensures(iff(a.Allowed(m), disj(*[x.upper() == m.upper() for x in ms])), 'exactly the methods listed are allowed, whatever the case')
    ensures(list(a) == [x.upper() for x in ms], 'the methods are read back')


@lemma(d=Str(1, 2, TOKEN), v=Union(OneOf(None), NUM, Str(0, 1, LATIN1)), d2=OneOf(None, 'no-cache'), _bounded=LB)
def cache_control(d, v, d2):
    requires(d.lower() != 'no-cache')
    args = [d if v is None else (d, v)]
    if d2 is not None:
        args.append(d2)
    c = CacheControl(*args)
    ensures(c[d] == v, 'the value of a directive')
    ensures(conj(d.upper() in c, not ('max-age' in c)), 'the directives present')
    ensures(len(c) == len(args), 'all directives are counted')
    t = str(c)
    s = d.lower() + ('' if v is None else '=' + http.QuoteString(str(v), force=False))
    ensures(t == s + ('' if d2 is None else ', ' + d2), 'directives in order, values quoted if need be')


# ---- HTTP dates ------------------------------------------------------------------------------
def yr(q, c, k, r):
    return 400 * q + 100 * c + 4 * k + r


@contract(iso.LeapYear, year=Int(0, 10000), _ret=Bool(), _pure=True)
def k_leapyear(year):
    r = call(year)
    ensures(r == s_leap(year), 'leap years are the multiples of 4 but not of 100 unless of 400')


@contract(iso.DayOfWeek, year=Make(yr, Int(0, 24), Int(0, 3), Int(0, 24), Int(0, 3)), month=Int(1, 12), day=Int(1, 31), _ret=Int(1, 7), _pure=True, _use=['k_leapyear'])
def k_dayofweek(year, month, day):
    requires(conj(0 <= year, year <= 9999, 1 <= month, month <= 12, 1 <= day, day <= 31))
    r = call(year, month, day)


@contract(iso.WeekCount, year=Int(0, 9999), _ret=Int(52, 53), _pure=True, _use=['k_leapyear', 'k_dayofweek'])
def k_weekcount(year):
    requires(conj(0 <= year, year <= 9999))
    r = call(year)


DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
LONG = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')


def same_instant(a, b):
    return conj(a.date.GetCalendarDay() == b.date.GetCalendarDay(), a.time.GetTime() == b.time.GetTime(), b.time.GetZone() == (0, 0))


@lemma(c=Int(0, 99), y=Int(0, 99), m=OneOf(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), d=Int(1, 31), h=Int(0, 23), n=Int(0, 59), s=Int(0, 59), _use=['k_leapyear', 'k_dayofweek', 'k_weekcount'])
def date_text(c, y, m, d, h, n, s):
    requires(s_valid(c * 100 + y, m, d))
    t = FullDate(date=iso.Date(century=c, year=y, month=m, day=d), time=iso.Time(hour=h, minute=n, second=s, zDirection=0))
    x = str(t)
    ensures(x[3:] == ', %02i %s %02i%02i %02i:%02i:%02i GMT' % (d, MONTHS[m - 1], c, y, h, n, s), 'RFC 1123 format')
    ensures(x[:3] == DAYS[iso.DayOfWeek(c * 100 + y, m, d) - 1], 'the day of the week')
    ensures(same_instant(t, FullDate.FromHTTPString(x)), 'a formatted date is read back')


# quick: three months and days of the week; thorough: all of them
@lemma(c=Int(0, 99), y=Int(0, 99), m=OneOf(2, 7, 12) if QUICK else OneOf(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), d=Int(1, 31), h=Int(0, 23), n=Int(0, 59), s=Int(0, 59), w=OneOf(1, 3, 7) if QUICK else OneOf(1, 2, 3, 4, 5, 6, 7), form=OneOf(850, 'asctime'), _use=['k_leapyear', 'k_dayofweek', 'k_weekcount'])
def date_old(c, y, m, d, h, n, s, w, form):
    """the obsolete forms"""
    requires(s_valid(c * 100 + y, m, d))
    if form == 850:
        requires(c == ite(y < 90, 20, 19))
        x = '%s, %02i-%s-%02i %02i:%02i:%02i GMT' % (LONG[w - 1], d, MONTHS[m - 1], y, h, n, s)
    else:
        x = '%s %s %2i %02i:%02i:%02i %02i%02i' % (DAYS[w - 1], MONTHS[m - 1], d, h, n, s, c, y)
    try:
        t = FullDate.FromHTTPString(x)
    except http.SyntaxError:
        t = None
    ensures(iff(t is not None, iso.DayOfWeek(c * 100 + y, m, d) == w), 'a date is accepted if it has the right day of the week')
    if t is not None:
        ensures(t.date.GetCalendarDay() == (c, y, m, d), 'the day it names')
        ensures(conj(t.time.GetTime() == (h, n, s), t.time.GetZone() == (0, 0)), 'the time it names')


# ---- http and https URLs ----------------------------------------------------------------------
HOST = ((45, 46), (48, 57), (65, 90), (97, 122))


@lemma(host=Str(1, 2, HOST), port=Opt(Int(0, 65535)), seg=Str(0, 1, ((65, 90), (97, 122), (48, 57))), secure=OneOf(True, False), _bounded='hosts of at most 2 characters')
def url_canonical(host, port, seg, secure):
    sch = 'https' if secure else 'http'
    t = '%s://%s%s/%s' % (sch.upper(), host, '' if port is None else ':%05i' % port, seg)
    u = (HTTPSURL if secure else HTTPURL)(t)
    c = u.Canonicalize()
    want = '%s://%s%s/%s' % (sch, host.lower(), '' if port is None or port == (443 if secure else 80) else ':%i' % port, seg)
    ensures(str(c) == want, 'standard case of scheme and host, default port omitted')
    ensures(str(c.Canonicalize()) == want, 'the canonical form is canonical')
