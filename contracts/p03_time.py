"""Times of day, zones and timepoints: arithmetic, zone shifts, comparison."""
from xpy import *
from speclib import *
import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, Time, TimePoint, DateTimeError, Precision

MODULES = ['pyslet.iso8601']

H = Int(0, 23)
MI = Int(0, 59)
S = Int(0, 59)
ZD = OneOf(None, -1, 0, 1)
ZD1 = OneOf(-1, 0, 1)
ZH = Int(0, 23)


def zone_args(zd, zh, zm):
    if zd is None or zd == 0:
        return {'zDirection': zd}
    return {'zDirection': zd, 'zHour': zh, 'zMinute': zm}


def mktime(h, m, s, zd, zh, zm):
    return Time(hour=h, minute=m, second=s, **zone_args(zd, zh, zm))


def zoff(zd, zh, zm):
    """minutes east of UTC"""
    if zd is None:
        return None
    if zd == 0:
        return 0
    return zd * (60 * zh + zm)


def cal(y, m, d):
    return Date(century=y // 100, year=y % 100, month=m, day=d)


def ymd(date):
    c, y, m, d = date.GetCalendarDay()
    return c * 100 + y, m, d


def valid_date(y, m, d):
    requires(s_valid(y, m, d))
    return cal(y, m, d)


AnyDate = Make(valid_date, Y, M, DD)


def valid_date2(q, c, k, r, m, d):
    y = yr(q, c, k, r)
    requires(s_valid(y, m, d))
    return cal(y, m, d)


ShapedDate = Make(valid_date2, YQ, YC, YK, YR, MM, DD)


def is_date(r):
    y, m, d = ymd(r)
    return conj(isinstance(r, Date), s_valid(y, m, d), r.GetCalendarDay() == (y // 100, y % 100, m, d), r.week is None)


@contract(iso.LeapYear, year=Int(0, 10000), _ret=Bool())
def k_leapyear(year):
    requires(conj(0 <= year, year <= 10000))
    r = call(year)
    ensures(iff(r, s_leap(year)), 'leap years are the multiples of 4, except centuries not divisible by 400')


@contract(Date.GetAbsoluteDay, self=AnyDate, _ret=Int(), _pure=True)
def k_absday(self):
    y, m, d = ymd(self)
    requires(s_valid(y, m, d))
    r = call(self)
    ensures(r == s_abs(y, m, d), 'absolute day counts the days from 0001-01-01')


@contract(Date.Offset, self=ShapedDate, days=Int(-3, 3), _ret=AnyDate, _retok=is_date)
def k_offset_days(self, days):
    y, m, d = ymd(self)
    requires(s_valid(y, m, d))
    requires(conj(-3 <= days, days <= 3))
    e = s_near(y, m, d, days)
    requires(conj(1 <= e[0], e[0] <= 9999))
    r = call(self, 0, 0, 0, 0, days)
    ensures(ymd(r) == e, 'offset moves by exactly the given days')


# ---- times of day -----------------------------------------------------------------
@lemma(h=Int(-2, 26), m=Int(-2, 62), s=Int(-2, 62))
def time_validation(h, m, s):
    good = conj(0 <= h, h <= 24, 0 <= m, m <= 59, 0 <= s, s <= 60, disj(h < 24, conj(m == 0, s == 0)))
    try:
        t = Time(hour=h, minute=m, second=s)
    except DateTimeError:
        ensures(neg(good), 'every time of day can be constructed')
        return
    ensures(good, 'only times of day can be constructed')
    ensures(t.GetTime() == (h, m, s), 'the fields read back unchanged')
    ensures(t.GetZone() == (None, None), 'no zone unless one is given')
    ensures(t.GetZoneOffset() is None, 'no zone offset unless a zone is given')
    ensures(t.Complete(), 'hours, minutes and seconds are a complete time')


@lemma(zd=Int(-3, 3), zh=Int(0, 30), zm=Int(0, 59))
def zone_validation(zd, zh, zm):
    good = conj(-1 <= zd, zd <= 1, disj(zd == 0, zh * 60 + zm < 1440))
    try:
        t = Time(hour=1, minute=2, second=3, zDirection=zd, zHour=zh, zMinute=zm)
    except DateTimeError:
        ensures(neg(good), 'every zone can be constructed')
        return
    ensures(good, 'only zones under a day from UTC can be constructed')
    ensures(t.GetZoneOffset() == zd * (60 * zh + zm), 'the zone offset is signed minutes from UTC')
    if zd == 0:
        ensures(t.GetZone3() == (0, 0, 0), 'UTC reads back as zero')
        ensures(t.GetCanonicalZone() == (0, 0, 0), 'canonical UTC')
        ensures(t.GetZone() == (0, 0), 'UTC direction and offset')
    else:
        ensures(t.GetZone3() == (zd, zh, zm), 'the zone reads back unchanged')
        ensures(t.GetZone() == (zd, zh * 60 + zm), 'zone direction and offset')
        if zh * 60 + zm == 0:
            ensures(t.GetCanonicalZone() == (0, 0, 0), 'a zero offset is canonically UTC')
        else:
            ensures(t.GetCanonicalZone() == (zd, zh, zm), 'a canonical zone is the zone')


@lemma(h=H, m=MI, s=S)
def total_seconds(h, m, s):
    t = Time(hour=h, minute=m, second=s)
    n = t.GetTotalSeconds()
    ensures(n == 3600 * h + 60 * m + s, 'total seconds counts from midnight')
    ensures(Time(totalSeconds=n).GetTime() == (h, m, s), 'constructing from total seconds is the inverse')


@lemma(n=Int(-200000, 200000))
def from_total_seconds(n):
    try:
        t = Time(totalSeconds=n)
    except DateTimeError:
        ensures(disj(n < 0, n > 86399), 'every second of the day is a time')
        return
    ensures(conj(0 <= n, n <= 86399), 'only seconds of the day are times')
    ensures(t.GetTotalSeconds() == n, 'total seconds read back unchanged')


@lemma(h=Int(0, 24), m=MI, s=S, zd=ZD, zh=ZH, zm=MI, hours=Int(), minutes=Int(), seconds=Int())
def offset(h, m, s, zd, zh, zm, hours, minutes, seconds):
    requires(disj(h < 24, conj(m == 0, s == 0)))
    t = mktime(h, m, s, zd, zh, zm)
    r, days = t.Offset(hours=hours, minutes=minutes, seconds=seconds)
    h2, m2, s2 = r.GetTime()
    ensures(conj(0 <= h2, 0 <= m2, m2 <= 59, 0 <= s2, s2 <= 59, h2 * 3600 + m2 * 60 + s2 <= 86400), 'offset gives a time of day')
    ensures(days * 86400 + h2 * 3600 + m2 * 60 + s2 == 3600 * (h + hours) + 60 * (m + minutes) + s + seconds,
            'offset and day overflow add up to the seconds added')
    ensures(r.GetZone3() == t.GetZone3(), 'offset keeps the zone')
    ensures(t.GetTime() == (h, m, s), 'the original time is unchanged')


@lemma(h=H, m=MI, zd=ZD, zh=ZH, zm=MI, hours=Int(), minutes=Int())
def offset_minute_precision(h, m, zd, zh, zm, hours, minutes):
    t = mktime(h, m, None, zd, zh, zm)
    r, days = t.Offset(hours=hours, minutes=minutes)
    h2, m2, s2 = r.GetTime()
    ensures(s2 is None, 'offset keeps the precision')
    ensures(conj(0 <= h2, h2 <= 23, 0 <= m2, m2 <= 59), 'offset gives a time of day')
    ensures(days * 1440 + h2 * 60 + m2 == 60 * (h + hours) + m + minutes, 'offset and day overflow add up to the minutes added')
    ensures(r.GetZone3() == t.GetZone3(), 'offset keeps the zone')


@lemma(h=H, hours=Int())
def offset_hour_precision(h, hours):
    t = Time(hour=h)
    r, days = t.Offset(hours=hours)
    h2, m2, s2 = r.GetTime()
    ensures(conj(m2 is None, s2 is None), 'offset keeps the precision')
    ensures(conj(0 <= h2, h2 <= 23, days * 24 + h2 == h + hours), 'offset and day overflow add up to the hours added')
    ensures(raises(DateTimeError, t.Offset, 0, 1), 'minutes cannot be added to an hour')
    ensures(raises(DateTimeError, t.Offset, 0, 0, 1), 'seconds cannot be added to an hour')


@lemma(h=H, m=MI, s=S, zd=ZD1, zh=ZH, zm=MI, zd2=ZD1, zh2=ZH, zm2=MI)
def shift_zone(h, m, s, zd, zh, zm, zd2, zh2, zm2):
    t = mktime(h, m, s, zd, zh, zm)
    z = zone_args(zd2, zh2, zm2)
    r, days = t.ShiftZone(**z)
    h2, m2, s2 = r.GetTime()
    ensures(conj(0 <= h2, h2 <= 23, 0 <= m2, m2 <= 59), 'a shifted time is a time of day')
    ensures(days * 1440 + h2 * 60 + m2 - zoff(zd2, zh2, zm2) == h * 60 + m - zoff(zd, zh, zm), 'a zone shift keeps the instant')
    ensures(s2 == s, 'a zone shift keeps the seconds')
    ensures(r.GetZoneOffset() == zoff(zd2, zh2, zm2), 'a shifted time is in the zone asked for')


@lemma(h=H, m=MI, zd=ZD1, zh=ZH, zm=MI, zd2=ZD1, zh2=ZH, zm2=MI)
def shift_zone_minutes(h, m, zd, zh, zm, zd2, zh2, zm2):
    t = mktime(h, m, None, zd, zh, zm)
    r, days = t.ShiftZone(**zone_args(zd2, zh2, zm2))
    h2, m2, s2 = r.GetTime()
    ensures(s2 is None, 'a zone shift keeps the precision')
    ensures(conj(0 <= h2, h2 <= 23, 0 <= m2, m2 <= 59), 'a shifted time is a time of day')
    ensures(days * 1440 + h2 * 60 + m2 - zoff(zd2, zh2, zm2) == h * 60 + m - zoff(zd, zh, zm), 'a zone shift keeps the instant')


@lemma(h=H, zd=ZD1, zh=ZH, zm=MI, zd2=ZD1, zh2=ZH, zm2=MI)
def shift_zone_hours(h, zd, zh, zm, zd2, zh2, zm2):
    t = mktime(h, None, None, zd, zh, zm)
    shift = zoff(zd2, zh2, zm2) - zoff(zd, zh, zm)
    try:
        r, days = t.ShiftZone(**zone_args(zd2, zh2, zm2))
    except DateTimeError:
        ensures(shift % 60 != 0, 'an hour shifts by whole hours')
        return
    ensures(shift % 60 == 0, 'an hour shifts by whole hours only')
    h2, m2, s2 = r.GetTime()
    ensures(conj(m2 is None, s2 is None), 'a zone shift keeps the precision')
    ensures(conj(0 <= h2, h2 <= 23, (days * 24 + h2 - h) * 60 == shift), 'a zone shift keeps the instant')


@lemma(h=H, m=MI, s=S, zd=ZD, zh=ZH, zm=MI, s2=S)
def extend_second(h, m, s, zd, zh, zm, s2):
    t = mktime(h, m, s, zd, zh, zm)
    r, over = t.Extend(second=s2)
    h3, m3, s3 = r.GetTime()
    n = over * 86400 + h3 * 3600 + m3 * 60 + s3
    b = h * 3600 + m * 60 + s
    ensures(conj(s3 == s2, b <= n, n < b + 60), 'the second completes to the earliest time on or after the base')
    ensures(conj(0 <= h3, h3 <= 23, 0 <= m3, m3 <= 59), 'a completed time is a time of day')
    ensures(r.GetZone3() == t.GetZone3(), 'completing keeps the zone')


@lemma(h=H, m=MI, s=S, zd=ZD, zh=ZH, zm=MI, m2=MI, s2=S)
def extend_minute(h, m, s, zd, zh, zm, m2, s2):
    t = mktime(h, m, s, zd, zh, zm)
    r, over = t.Extend(minute=m2, second=s2)
    h3, m3, s3 = r.GetTime()
    n = over * 86400 + h3 * 3600 + m3 * 60 + s3
    b = h * 3600 + m * 60 + s
    ensures(conj(s3 == s2, m3 == m2, b <= n, n < b + 3600), 'minute and second complete to the earliest time on or after the base')
    ensures(conj(0 <= h3, h3 <= 23), 'a completed time is a time of day')
    ensures(r.GetZone3() == t.GetZone3(), 'completing keeps the zone')
    r, over = t.Extend(minute=m2)
    h3, m3, s3 = r.GetTime()
    n = over * 1440 + h3 * 60 + m3
    b = h * 60 + m
    ensures(conj(s3 is None, m3 == m2, b <= n, n < b + 60), 'a minute completes to the earliest minute on or after the base')


@lemma(h1=H, m1=MI, s1=Int(0, 60), h2=H, m2=MI, s2=Int(0, 60), zd=ZD, zh=ZH, zm=MI)
def time_order(h1, m1, s1, h2, m2, s2, zd, zh, zm):
    a = mktime(h1, m1, s1, zd, zh, zm)
    b = mktime(h2, m2, s2, zd, zh, zm)
    k = 3660 * h1 + 61 * m1 + s1 - (3660 * h2 + 61 * m2 + s2)
    ensures(iff(a < b, k < 0), 'earlier times of a zone compare less')
    ensures(iff(a == b, k == 0), 'equal times of a zone compare equal')
    ensures(iff(a > b, k > 0), 'later times of a zone compare greater')
    if a == b:
        ensures(hash(a) == hash(b), 'equal times hash alike')


@lemma(zd=ZD)
def midnight(zd):
    a = mktime(24, 0, 0, zd, 1, 0)
    b = mktime(0, 0, 0, zd, 1, 0)
    ensures(a == b, 'the two midnights compare equal')


@lemma(h=H, m=MI, s=S, zd=ZD, zh=ZH, zm=MI, p=OneOf('Hour', 'Minute', 'Complete'))
def with_precision(h, m, s, zd, zh, zm, p):
    t = mktime(h, m, s, zd, zh, zm)
    q = getattr(Precision, p)
    r = t.WithPrecision(q, True)
    ensures(r.GetPrecision() == q, 'the precision asked for')
    ensures(r.GetZone3() == t.GetZone3(), 'a change of precision keeps the zone')
    h2, m2, s2 = r.GetTime()
    ensures(h2 == h, 'truncation keeps the hour')
    ensures(m2 == (None if p == 'Hour' else m), 'truncation keeps the minute of finer precisions')
    ensures(s2 == (s if p == 'Complete' else None), 'truncation drops the seconds')
    back = r.WithPrecision(Precision.Complete, True)
    ensures(back.GetTime() == (h2, m2 or 0, s2 or 0), 'missing parts complete to zero')


# ---- timepoints --------------------------------------------------------------------
@lemma(date=AnyDate, h=H, m=MI, s=S, zd=ZD1, zh=ZH, zm=MI, zd2=ZD1, zh2=ZH, zm2=MI, _use=['k_offset_days'])
def timepoint_shift(date, h, m, s, zd, zh, zm, zd2, zh2, zm2):
    y, mo, d = ymd(date)
    requires(conj(1 < y, y < 9999))
    tp = TimePoint(date=date, time=mktime(h, m, s, zd, zh, zm))
    r = tp.ShiftZone(**zone_args(zd2, zh2, zm2))
    h2, m2, s2 = r.time.GetTime()
    ensures(r.time.GetZoneOffset() == zoff(zd2, zh2, zm2), 'a shifted timepoint is in the zone asked for')
    n = h * 60 + m - zoff(zd, zh, zm) + zoff(zd2, zh2, zm2)
    ensures(conj(h2 * 60 + m2 == n % 1440, s2 == s), 'a zone shift keeps the time of the instant')
    ensures(ymd(r.date) == s_near(y, mo, d, n // 1440), 'a zone shift keeps the date of the instant')


def utc(date, h, m, s, off):
    """key of the instant: date, then seconds of the day, in UTC"""
    y, mo, d = ymd(date)
    n = h * 60 + m - off
    y2, mo2, d2 = s_near(y, mo, d, n // 1440)
    return (y2 * 12 + mo2) * 31 + d2, n % 1440 * 60 + s


@lemma(date=AnyDate, h=H, m=MI, s=S, zd=ZD1, zh=ZH, zm=MI, date2=AnyDate, h2=H, m2=MI, s2=S, zd2=ZD1, zh2=ZH, zm2=MI, _use=['k_offset_days'])
def timepoint_order(date, h, m, s, zd, zh, zm, date2, h2, m2, s2, zd2, zh2, zm2):
    y, mo, d = ymd(date)
    requires(conj(1 < y, y < 9999))
    y2, mo2, d2 = ymd(date2)
    requires(conj(1 < y2, y2 < 9999))
    a = TimePoint(date=date, time=mktime(h, m, s, zd, zh, zm))
    b = TimePoint(date=date2, time=mktime(h2, m2, s2, zd2, zh2, zm2))
    k1, t1 = utc(date, h, m, s, zoff(zd, zh, zm))
    k2, t2 = utc(date2, h2, m2, s2, zoff(zd2, zh2, zm2))
    c = cmp(a, b)
    ensures(iff(c < 0, disj(k1 < k2, conj(k1 == k2, t1 < t2))), 'earlier instants compare less')
    ensures(iff(c == 0, conj(k1 == k2, t1 == t2)), 'the same instant in any two zones compares equal')


@lemma(date=AnyDate, h=H, m=MI, s=S, zd=ZD1, zh=ZH, zm=MI, zd2=ZD1, zh2=ZH, zm2=MI, _use=['k_offset_days'])
def timepoint_hash(date, h, m, s, zd, zh, zm, zd2, zh2, zm2):
    y, mo, d = ymd(date)
    requires(conj(1 < y, y < 9999))
    a = TimePoint(date=date, time=mktime(h, m, s, zd, zh, zm))
    b = a.ShiftZone(**zone_args(zd2, zh2, zm2))
    ensures(hash(a) == hash(b), 'the same instant in any two zones hashes alike')


@lemma(date=AnyDate, h=H, m=MI, s=S, date2=AnyDate, h2=H, m2=MI, s2=S)
def timepoint_order_nozone(date, h, m, s, date2, h2, m2, s2):
    y, mo, d = ymd(date)
    y2, mo2, d2 = ymd(date2)
    a = TimePoint(date=date, time=Time(hour=h, minute=m, second=s))
    b = TimePoint(date=date2, time=Time(hour=h2, minute=m2, second=s2))
    k = ((y - y2) * 12 + mo - mo2) * 31 + d - d2
    k = k * 86400 + h * 3600 + m * 60 + s - (h2 * 3600 + m2 * 60 + s2)
    c = cmp(a, b)
    ensures(iff(c < 0, k < 0), 'earlier timepoints without zone compare less')
    ensures(iff(c == 0, k == 0), 'equal timepoints without zone compare equal')
    if c == 0:
        ensures(hash(a) == hash(b), 'equal timepoints hash alike')


@lemma(date=ShapedDate, h=H, m=MI, s=S)
def timepoint_struct(date, h, m, s):
    y, mo, d = ymd(date)
    tp = TimePoint(date=date, time=Time(hour=h, minute=m, second=s))
    t = [0] * 9
    tp.UpdateStructTime(t)
    ensures([t[i] for i in range(6)] == [y, mo, d, h, m, s], 'struct_time holds the fields')
    back = TimePoint.FromStructTime(t)
    ensures(back.GetCalendarTimePoint() == tp.GetCalendarTimePoint(), 'struct_time converts back')
