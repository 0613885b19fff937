"""ISO 8601 strings: formatting and parsing are inverse."""
from xpy import *
from speclib import *
import pyslet.iso8601 as iso
from pyslet.rfc2234 import RFCSyntaxError
from pyslet.iso8601 import Date, Time, TimePoint, DateTimeError, Precision, Truncation, NoTruncation, Duration

MODULES = ['pyslet.iso8601', 'pyslet.rfc2234']


def cal(y, m, d):
    return Date(century=y // 100, year=y % 100, month=m, day=d)


def fields(date):
    return date.century, date.year, date.month, date.week, date.day


def valid_date(c, y, m, d):
    requires(s_valid(c * 100 + y, m, d))
    return Date(century=c, year=y, month=m, day=d)


C = Int(0, 99)
YY = Int(0, 99)
AnyDate = Make(valid_date, C, YY, M, DD)
TRUNC = {'Century': Truncation.Century, 'Decade': Truncation.Decade, 'Year': Truncation.Year, 'Month': Truncation.Month, 'Week': Truncation.Week,
         'No': NoTruncation}


def date_roundtrip(s, date, base, fmt):
    d2, f2 = Date.FromStringFormat(s, base)
    ensures(fields(d2) == fields(date), 'a formatted date parses to the same date')
    ensures(f2 == fmt, 'the parser recognises the format that was written')
    ensures(len(s) == len(fmt), 'the string has the width of its format')


@lemma(date=AnyDate, basic=Bool())
def calendar_day(date, basic):
    s = date.GetCalendarString(basic)
    date_roundtrip(s, date, None, 'YYYYMMDD' if basic else 'YYYY-MM-DD')
    if not basic:
        ensures(str(date) == s, 'str is the extended calendar form')
        ensures(unicode(date) == s, 'unicode is the extended calendar form')
        ensures(Date.FromString(s) == date, 'a formatted date parses to an equal date')


@lemma(date=AnyDate, basic=Bool(), t=OneOf('Century', 'Year', 'Month'))
def calendar_truncated(date, basic, t):
    s = date.GetCalendarString(basic, TRUNC[t])
    fmt = {'Century': ('YYMMDD', 'YY-MM-DD'), 'Year': ('--MMDD', '--MM-DD'), 'Month': ('---DD', '---DD')}[t]
    date_roundtrip(s, date, date, fmt[0 if basic else 1])


@lemma(c=C, y=YY, m=Int(1, 12), basic=Bool(), p=OneOf('month', 'year', 'century'))
def calendar_reduced(c, y, m, basic, p):
    requires(disj(c > 0, y > 0))
    if p == 'month':
        date = Date(century=c, year=y, month=m)
        fmt = 'YYYY-MM'
    elif p == 'year':
        date = Date(century=c, year=y)
        fmt = 'YYYY'
    else:
        date = Date(century=c)
        fmt = 'YY'
    date_roundtrip(date.GetCalendarString(basic), date, None, fmt)
    ensures(not date.Complete(), 'a date of reduced precision is not complete')


@lemma(date=AnyDate, basic=Bool(), c=C, y=YY, m=Int(1, 12))
def calendar_reduced_truncated(date, basic, c, y, m):
    requires(disj(c > 0, y > 0))
    d = Date(century=c, year=y, month=m)
    s = d.GetCalendarString(basic, Truncation.Century)
    ensures(s == ('-%02i%02i' % (y, m) if basic else '-%02i-%02i' % (y, m)), 'truncated month form')
    s = d.GetCalendarString(basic, Truncation.Year)
    ensures(s == '--%02i' % m, 'truncated month form')


@lemma(date=Make(valid_date, C, YY, MM, DD), basic=Bool(), t=OneOf('No', 'Century', 'Year'))
def ordinal(date, basic, t):
    s = date.GetOrdinalString(basic, TRUNC[t])
    fmt = {'No': ('YYYYDDD', 'YYYY-DDD'), 'Century': ('YYDDD', 'YY-DDD'), 'Year': ('-DDD', '-DDD')}[t]
    date_roundtrip(s, date, date, fmt[0 if basic else 1])


def weekform(q, c, k, r, w, wd):
    y = yr(q, c, k, r)
    requires(y >= 1)
    return y // 100, y // 10 % 10, y % 10, w, wd


def is_weekform(t):
    wy = t[0] * 100 + t[1] * 10 + t[2]
    return conj(len(t) == 5, 1 <= wy, wy <= 9999, 0 <= t[0], 0 <= t[1], t[1] <= 9, 0 <= t[2], t[2] <= 9,
                1 <= t[3], t[3] <= 53, 1 <= t[4], t[4] <= 7)


WFMT = {'No': ('YYYYWwwD', 'YYYY-Www-D'), 'Century': ('YYWwwD', 'YY-Www-D'), 'Decade': ('-YWwwD', '-Y-Www-D'), 'Year': ('-WwwD', '-Www-D'),
        'Week': ('-W-D', '-W-D')}


class WeekDate(Date):
    """a date that reports the week fields it is given: what is proved is how they are written"""
    def GetWeekDay(self):
        return self.given


@lemma(c=C, e=Int(0, 9), y=Int(0, 9), w=Int(1, 53), wd=Int(1, 7), basic=Bool(), t=OneOf('No', 'Century', 'Decade', 'Year', 'Week'))
def week_text(c, e, y, w, wd, basic, t):
    date = WeekDate()
    date.given = (c, e, y, w, wd)
    s = date.GetWeekString(basic, TRUNC[t])
    spec = {'No': ('%02i%i%iW%02i%i' % (c, e, y, w, wd), '%02i%i%i-W%02i-%i' % (c, e, y, w, wd)),
            'Century': ('%i%iW%02i%i' % (e, y, w, wd), '%i%i-W%02i-%i' % (e, y, w, wd)),
            'Decade': ('-%iW%02i%i' % (y, w, wd), '-%i-W%02i-%i' % (y, w, wd)),
            'Year': ('-W%02i%i' % (w, wd), '-W%02i-%i' % (w, wd)),
            'Week': ('-W-%i' % wd, '-W-%i' % wd)}[t]
    ensures(s == spec[0 if basic else 1], 'the week form holds the week fields')


# What the parser does with week fields is a matter of the calendar (P01, P02); here it is enough
# that the calendar functions depend on nothing but their arguments.
@contract(iso.LeapYear, year=Int(0, 10000), _ret=Bool(), _pure=True)
def k_leapyear(year):
    r = call(year)
    ensures(r == s_leap(year), 'leap years are the multiples of 4 but not of 100 unless of 400')


@contract(iso.DayOfWeek, year=Make(yr, YQ, YC, YK, YR), month=MM, day=DD, _ret=Int(1, 7), _pure=True, _use=['k_leapyear'])
def k_dayofweek(year, month, day):
    requires(conj(0 <= year, year <= 9999, 1 <= month, month <= 12, 1 <= day, day <= 31))
    r = call(year, month, day)


@contract(iso.WeekCount, year=Int(0, 9999), _ret=Int(52, 53), _pure=True, _use=['k_leapyear', 'k_dayofweek'])
def k_weekcount(year):
    requires(conj(0 <= year, year <= 9999))
    r = call(year)


def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except DateTimeError:
        return None


@lemma(c=C, e=Int(0, 9), y=Int(0, 9), w=Int(1, 53), wd=Int(1, 7), basic=Bool(), _use=['k_leapyear', 'k_dayofweek', 'k_weekcount'])
def week_parse(c, e, y, w, wd, basic):
    requires(c + e + y > 0)
    date = attempt(Date, century=c, decade=e, year=y, week=w, weekday=wd)
    if basic:
        s = '%02i%i%iW%02i%i' % (c, e, y, w, wd)
    else:
        s = '%02i%i%i-W%02i-%i' % (c, e, y, w, wd)
    r = attempt(Date.FromStringFormat, s)
    if date is None:
        ensures(r is None, 'week dates that do not exist do not parse')
    else:
        ensures(r is not None, 'every week date parses')
        d, f = r
        ensures(f == WFMT['No'][0 if basic else 1], 'the parser recognises week dates')
        ensures(fields(d) == fields(date), 'the week fields are the ones written')


@lemma(c=C, y=YY, w=Int(1, 52), basic=Bool(), _use=['k_leapyear', 'k_dayofweek', 'k_weekcount'])
def week_reduced(c, y, w, basic):
    requires(disj(c > 0, y > 0))
    date = Date(century=c, decade=y // 10, year=y % 10, week=w)
    date_roundtrip(date.GetWeekString(basic), date, None, 'YYYYWww' if basic else 'YYYY-Www')


# ---- times -------------------------------------------------------------------------
H = Int(0, 23)
MI = Int(0, 59)
S = Int(0, 60)
ZD = OneOf(None, -1, 0, 1)
ZH = Int(0, 23)


def zone_args(zd, zh, zm):
    if zd is None or zd == 0:
        return {'zDirection': zd}
    return {'zDirection': zd, 'zHour': zh, 'zMinute': zm}


def mktime(p, h, m, s, zd, zh, zm):
    if p == 'minute':
        s = None
    elif p == 'hour':
        m = s = None
    return Time(hour=h, minute=m, second=s, **zone_args(zd, zh, zm))


@lemma(p=OneOf('second', 'minute', 'hour'), h=Int(0, 24), m=MI, s=S, zd=ZD, zh=ZH, zm=MI, basic=Bool(), zp=OneOf('Complete', 'Hour'))
def time_roundtrip(p, h, m, s, zd, zh, zm, basic, zp):
    requires(disj(h < 24, conj(m == 0, s == 0)))
    t = mktime(p, h, m, s, zd, zh, zm)
    x = t.GetString(basic, zonePrecision=getattr(Precision, zp))
    t2, over, f = Time.FromStringFormat(x)
    ensures(t2.GetTime() == t.GetTime(), 'a formatted time parses to the same time')
    ensures(t2.GetZone3() == t.GetZone3(), 'a formatted time parses to the same zone')
    ensures(over == 0, 'no overflow')
    ensures(t2.GetPrecision() == t.GetPrecision(), 'a formatted time parses with the same precision')
    if not basic and zp == 'Complete':
        ensures(str(t) == x, 'str is the extended form')


@lemma(h=H, m=MI, s=Int(0, 59), basic=Bool(), tr=OneOf('Hour', 'Minute'))
def time_truncated(h, m, s, basic, tr):
    t = Time(hour=h, minute=m, second=s)
    x = t.GetString(basic, getattr(Truncation, tr))
    t2, over, f = Time.FromStringFormat(x, t)
    ensures(t2.GetTime() == t.GetTime(), 'a truncated time completes to the base it was taken from')
    ensures(over == 0, 'no overflow')
    ensures(f == {'Hour': ('-mmss', '-mm:ss'), 'Minute': ('--ss', '--ss')}[tr][0 if basic else 1], 'the parser recognises the truncated form')


@lemma(h=H, m=MI, s=S, zd=OneOf(-1, 0, 1), zh=ZH, zm=MI, basic=Bool())
def zone_string(h, m, s, zd, zh, zm, basic):
    t = Time(hour=h, minute=m, second=s)
    z = t.WithZone(**zone_args(zd, zh, zm))
    ensures(z.GetTime() == t.GetTime(), 'setting the zone leaves the time alone')
    w, f = t.WithZoneStringFormat(z.GetZoneString(basic))
    ensures(w.GetZone3() == z.GetZone3(), 'a formatted zone parses to the same zone')
    v = t.WithZoneString(z.GetZoneString(basic))
    ensures(v.GetZone3() == z.GetZone3(), 'a formatted zone parses to the same zone, without its format')


# ---- timepoints ----------------------------------------------------------------------
def tp_roundtrip(tp, basic):
    x = tp.GetCalendarString(basic)
    tp2, f = TimePoint.FromStringFormat(x)
    ensures(fields(tp2.date) == fields(tp.date), 'a formatted timepoint parses to the same date')
    ensures(tp2.time.GetTime() == tp.time.GetTime(), 'a formatted timepoint parses to the same time')
    ensures(tp2.time.GetZone3() == tp.time.GetZone3(), 'a formatted timepoint parses to the same zone')
    if not basic:
        ensures(str(tp) == x, 'str is the extended calendar form')


@lemma(date=AnyDate, h=H, m=MI, s=S, zd=OneOf(0) if QUICK else OneOf(None, 0, 1), basic=Bool(), _use=['k_leapyear'])
def timepoint_date(date, h, m, s, zd, basic):
    tp_roundtrip(TimePoint(date=date, time=mktime('second', h, m, s, zd, 0, 0)), basic)


@lemma(d=DD, p=OneOf('second', 'minute', 'hour'), h=H, m=MI, s=S, zd=ZD, zh=ZH, zm=MI, basic=Bool())
def timepoint_time(d, p, h, m, s, zd, zh, zm, basic):
    tp_roundtrip(TimePoint(date=cal(2012, 12, d), time=mktime(p, h, m, s, zd, zh, zm)), basic)


@lemma(date=Make(valid_date, C, YY, MM, DD), h=H, m=MI, s=S, basic=Bool(), _use=['k_leapyear'])
def timepoint_ordinal(date, h, m, s, basic):
    tp = TimePoint(date=date, time=Time(hour=h, minute=m, second=s))
    x = tp.GetOrdinalString(basic)
    tp2, f = TimePoint.FromStringFormat(x)
    ensures(fields(tp2.date) == fields(date), 'a formatted timepoint parses to the same date')
    ensures(tp2.time.GetTime() == tp.time.GetTime(), 'a formatted timepoint parses to the same time')


# ---- what the parsers accept ----------------------------------------------------------
@lemma(s=Str(8, 8, chars('0123456789')))
def parse_basic(s):
    try:
        d, f = Date.FromStringFormat(s)
    except DateTimeError:
        d = None
    n = [ord(x) - 48 for x in s]
    c, y, m, dd = n[0] * 10 + n[1], n[2] * 10 + n[3], n[4] * 10 + n[5], n[6] * 10 + n[7]
    good = s_valid(c * 100 + y, m, dd)
    if d is None:
        ensures(neg(good), 'every date parses')
    else:
        ensures(good, 'only dates parse')
        ensures(d.GetCalendarDay() == (c, y, m, dd), 'the digits are the fields')


@lemma(s=Str(6, 6, chars('0123456789')), z=OneOf('', 'Z'))
def parse_basic_time(s, z):
    try:
        t, over, f = Time.FromStringFormat(s + z)
    except DateTimeError:
        t = None
    n = [ord(x) - 48 for x in s]
    h, m, x = n[0] * 10 + n[1], n[2] * 10 + n[3], n[4] * 10 + n[5]
    good = disj(conj(h < 24, m < 60, x <= 60), conj(h == 24, m == 0, x == 0))
    if t is None:
        ensures(neg(good), 'every time parses')
    else:
        ensures(good, 'only times parse')
        ensures(t.GetTime() == (h, m, x), 'the digits are the fields')
        ensures(t.GetZoneOffset() == (0 if z else None), 'the zone is parsed')


# ---- durations ---------------------------------------------------------------------
N = Int(0, 1200)
BOUND = 'duration components up to 1200'


@lemma(n=OneOf(1, 2, 3, 4, 5, 6), a=N, b=Int(0, 30), c=Int(0, 30), d=Int(0, 30), e=Int(0, 30), f=N, _bounded=BOUND)
def duration_roundtrip(n, a, b, c, d, e, f):
    v = [a, b, c, d, e, f]
    for i in range(n, 6):
        v[i] = None
    x = Duration()
    x.SetCalendarDuration(*v)
    s = x.GetString()
    y = Duration(s)
    ensures(y.GetCalendarDuration() == tuple(v), 'a formatted duration parses to the same duration')
    ensures(y == x, 'a formatted duration parses to an equal duration')


@lemma(a=N, b=Int(0, 30), c=Int(0, 30), d=Int(0, 30), e=Int(0, 30), f=N, _bounded=BOUND)
def duration_truncated(a, b, c, d, e, f):
    x = Duration()
    x.SetCalendarDuration(a, b, c, d, e, f)
    y = Duration(x.GetString(1))
    ensures(y.GetCalendarDuration() == (a, b, c, d, e, f), 'a duration formatted without leading zeros parses to the same duration')


@lemma(w=N, _bounded=BOUND)
def duration_weeks(w):
    x = Duration()
    x.SetWeekDuration(w)
    y = Duration(x.GetString())
    ensures(y.GetWeekDuration() == w, 'a week duration round trips')
    ensures(raises(DateTimeError, y.GetCalendarDuration), 'a week duration has no calendar components')


TEXT = ((43, 46), (48, 58), (77, 77), (80, 80), (84, 84), (87, 90))


def reader(k, s):
    return Date.FromString(s) if k == 'date' else (Time.FromString(s) if k == 'time' else (TimePoint.FromString(s) if k == 'point' else Duration(s)))


@lemma(k=OneOf('date', 'time', 'point', 'duration'), s=Str(0, 3 if QUICK else 4, TEXT), _bounded='texts of up to 3 (thorough: 4) characters')
def short_texts(k, s):
    """a short text is read or refused, never anything else"""
    try:
        reader(k, s)
    except (DateTimeError, RFCSyntaxError):
        pass
    ensures(True, 'read or refused')


@lemma(k=OneOf('date', 'time', 'point', 'duration'), t=OneOf("2000-01-01T12:30:45.25+05:30", "20000101T123045Z", "2000-W01-3T12Z", "2000W013T1230-01", "P1Y2M3DT4H5M6.5S", "P3W", "-9-W15-2", "-9W152", "--0102", "-00-01", "---02", "-W-3", "-30:45", "--45,5", "12.5+01", "PT4M5S"), n=Int(0, 28), c=Str(0, 1, TEXT), _bounded='texts that start like one of the listed ones')
def cut_texts(k, t, n, c):
    """a text that is cut off, with another character or not, is read or refused"""
    requires(n <= len(t))
    try:
        reader(k, t[:n] + c)
    except (DateTimeError, RFCSyntaxError):
        pass
    ensures(True, 'read or refused')
