"""Date arithmetic: offsets, and completing truncated dates from a base date."""
from xpy import *
from speclib import *
import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, DateTimeError

MODULES = ['pyslet.iso8601']


def cal(y, m, d):
    return Date(century=y // 100, year=y % 100, month=m, day=d)


def ymd(date):
    c, y, m, d = date.GetCalendarDay()
    return c * 100 + y, m, d


def valid_date(y, m, d):
    requires(s_valid(y, m, d))
    return cal(y, m, d)


AnyDate = Make(valid_date, Y, M, DD)


@contract(iso.LeapYear, year=Int(0, 10000), _ret=Bool())
def k_leapyear(year):
    requires(conj(0 <= year, year <= 10000))
    r = call(year)
    ensures(iff(r, s_leap(year)), 'leap years are the multiples of 4, except centuries not divisible by 400')


@contract(Date.GetAbsoluteDay, self=AnyDate, _ret=Int(), _pure=True)
def k_absday(self):
    y, m, d = ymd(self)
    requires(s_valid(y, m, d))
    r = call(self)
    ensures(r == s_abs(y, m, d), 'absolute day counts the days from 0001-01-01')


@contract(Date.GetAbsoluteDay, self=AnyDate, _ret=Int(), _pure=True)
def k_absday_range(self):
    # a weaker contract, for callers that only need a number
    y, m, d = ymd(self)
    requires(s_valid(y, m, d))
    r = call(self)
    ensures(conj(1 <= r, r <= 3652059), 'absolute days lie inside the calendar')


def s_ym_offset(y, m, n):
    """the month n months after month m of year y"""
    t = 12 * y + m - 1 + n
    return t // 12, t % 12 + 1


@lemma(date=AnyDate, days=Int(-4000000, 4000000), weeks=Int(-600000, 600000), _use=['k_absday', 'k_leapyear'])
def offset_days(date, days, weeks):
    y, m, d = ymd(date)
    n = s_abs(y, m, d) + days + 7 * weeks
    requires(n != 0)
    good = conj(1 <= n, n <= 3652059)
    try:
        r = date.Offset(days=days, weeks=weeks)
    except DateTimeError:
        ensures(neg(good), 'every offset inside the calendar succeeds')
        return
    ensures(good, 'offsets outside the calendar fail')
    y2, m2, d2 = ymd(r)
    ensures(conj(s_valid(y2, m2, d2), s_abs(y2, m2, d2) == n), 'offset moves by exactly the given days')
    ensures(ymd(date) == (y, m, d), 'the original date is unchanged')


@lemma(y=Int(1, 9999), m=Int(1, 12), d=DD, centuries=Int(-200, 200), years=Int(-20000, 20000), months=Int(-200000, 200000))
def offset_months(y, m, d, centuries, years, months):
    requires(s_valid(y, m, d))
    y2, m2 = s_ym_offset(y, m, months + 12 * years + 1200 * centuries)
    good = s_valid(y2, m2, d)
    date = cal(y, m, d)
    try:
        r = date.Offset(centuries=centuries, years=years, months=months)
    except DateTimeError:
        ensures(neg(good), 'every month offset to an existing date succeeds')
        return
    ensures(good, 'month offsets to dates that do not exist fail')
    ensures(ymd(r) == (y2, m2, d), 'month offset keeps the day and moves by exactly the given months')


@lemma(date=AnyDate, yq=YQ, yc=YC, yk=YK, yr4=YR, m1=MM, d1=DD, months=Int(-1000, 1000), _use=['k_absday_range', 'k_leapyear'])
def offset_both(date, yq, yc, yk, yr4, m1, d1, months):
    # every day offset is the distance to some date y1-m1-d1
    y1 = yr(yq, yc, yk, yr4)
    requires(s_valid(y1, m1, d1))
    days = s_abs(y1, m1, d1) - date.GetAbsoluteDay()
    requires(days != 0)     # days == 0 is offset_months
    y2, m2 = s_ym_offset(y1, m1, months)
    good = s_valid(y2, m2, d1)
    try:
        r = date.Offset(days=days, months=months)
    except DateTimeError:
        ensures(neg(good), 'combined offsets to existing dates succeed')
        return
    ensures(good, 'combined offsets to dates that do not exist fail')
    ensures(ymd(r) == (y2, m2, d1), 'a combined offset applies the days first, then the months')


# ---- truncated dates ----------------------------------------------------------
def attempt(**kw):
    try:
        return ymd(Date(**kw))
    except (DateTimeError, ValueError):
        return None


@lemma(y=Y, m=M, d=DD, d2=Int(1, 31))
def trunc_month(y, m, d, d2):
    requires(s_valid(y, m, d))
    base = cal(y, m, d)
    r = attempt(day=d2, base=base)
    ey, em = s_ym_offset(y, m, ite(d2 < d, 1, 0))
    if s_valid(ey, em, d2):
        ensures(r == (ey, em, d2), 'day of month: this month if not before the base, else next month')
    else:
        ensures(r is None, 'day of month that does not exist is refused')


@lemma(y=Y, m=M, d=DD, m2=Int(1, 12), d2=Int(1, 31))
def trunc_year(y, m, d, m2, d2):
    requires(s_valid(y, m, d))
    base = cal(y, m, d)
    r = attempt(month=m2, day=d2, base=base)
    ey = y + ite(disj(m2 < m, conj(m2 == m, d2 < d)), 1, 0)
    if s_valid(ey, m2, d2):
        ensures(r == (ey, m2, d2), 'month and day: this year if not before the base, else next year')
    else:
        ensures(r is None, 'month and day that do not exist are refused')


@lemma(y=Y, m=M, d=DD, y2=Int(0, 99), m2=Int(1, 12), d2=Int(1, 31))
def trunc_century(y, m, d, y2, m2, d2):
    requires(s_valid(y, m, d))
    base = cal(y, m, d)
    r = attempt(year=y2, month=m2, day=d2, base=base)
    yy = y % 100
    ey = y - yy + y2 + ite(disj(y2 < yy, conj(y2 == yy, disj(m2 < m, conj(m2 == m, d2 < d)))), 100, 0)
    if s_valid(ey, m2, d2):
        ensures(r == (ey, m2, d2), 'two-digit year: this century if not before the base, else next century')
    else:
        ensures(r is None, 'two-digit year dates that do not exist are refused')


@lemma(y=Y, m=M, d=DD, n2=Int(1, 366))
def trunc_ordinal(y, m, d, n2):
    requires(s_valid(y, m, d))
    base = cal(y, m, d)
    r = attempt(ordinalDay=n2, base=base)
    ey = y + ite(n2 < s_ord(y, m, d), 1, 0)
    if conj(ey <= 9999, n2 <= ite(s_leap(ey), 366, 365)):
        ensures(conj(r is not None), 'ordinal day can be completed')
        a, b, c = r
        ensures(conj(a == ey, s_valid(a, b, c), s_ord(a, b, c) == n2), 'ordinal day: this year if not before the base, else next year')
    else:
        ensures(r is None, 'ordinal day that does not exist is refused')


@lemma(y=Y, m=M, d=DD, y2=Int(0, 99), n2=Int(1, 366))
def trunc_ordinal_century(y, m, d, y2, n2):
    requires(s_valid(y, m, d))
    base = cal(y, m, d)
    r = attempt(year=y2, ordinalDay=n2, base=base)
    yy = y % 100
    ey = y - yy + y2 + ite(disj(y2 < yy, conj(y2 == yy, n2 < s_ord(y, m, d))), 100, 0)
    if conj(1 <= ey, ey <= 9999, n2 <= ite(s_leap(ey), 366, 365)):
        ensures(conj(r is not None), 'ordinal day of a two-digit year can be completed')
        a, b, c = r
        ensures(conj(a == ey, s_valid(a, b, c), s_ord(a, b, c) == n2), 'two-digit ordinal date: this century if not before the base, else next century')
    else:
        ensures(r is None, 'ordinal day that does not exist is refused')


def s_week(y, m, d):
    """(week year, week, weekday)"""
    n = s_abs(y, m, d)
    t = (n - 1) // 7 * 7 + 4
    wy = ite(t < s_abs(y, 1, 1), y - 1, ite(t > s_abs(y, 12, 31), y + 1, y))
    return wy, (t - s_abs(wy, 1, 1)) // 7 + 1, (n - 1) % 7 + 1


def s_weekcount(y):
    return (s_abs(y, 12, 31) + 3) // 7 - (s_abs(y, 1, 1) + 2) // 7


def s_weekabs(wy, w, wd):
    return (s_abs(wy, 1, 4) - 1) // 7 * 7 + 1 + 7 * (w - 1) + wd - 1


@contract(iso.WeekCount, year=Int(0, 9999), _ret=Int(52, 53), _use=['k_leapyear', 'k_dayofweek'])
def k_weekcount(year):
    requires(conj(0 <= year, year <= 9999))
    r = call(year)
    ensures(r == s_weekcount(year), 'a year has as many weeks as Thursdays')


@contract(iso.DayOfWeek, year=Make(yr, YQ, YC, YK, YR), month=MM, day=DD, _ret=Int(1, 7), _use=['k_leapyear'])
def k_dayofweek(year, month, day):
    requires(conj(0 <= year, year <= 9999, 1 <= month, month <= 12, 1 <= day, day <= 31))
    r = call(year, month, day)
    ensures(r == (s_abs(year, month, day) - 1) % 7 + 1, 'Monday is 1 and days cycle')


def s_weekyear(t):
    return t[0] * 100 + t[1] * 10 + t[2]


def weekform(q, c, k, r, w, wd):
    y = yr(q, c, k, r)
    requires(y >= 1)
    return y // 100, y // 10 % 10, y % 10, w, wd


def is_weekform(t):
    return conj(len(t) == 5, 1 <= s_weekyear(t), s_weekyear(t) <= 9999, 0 <= t[0], 0 <= t[1], t[1] <= 9, 0 <= t[2], t[2] <= 9,
                1 <= t[3], t[3] <= 53, 1 <= t[4], t[4] <= 7)


@contract(Date.GetWeekDay, self=Make(valid_date, Y, MM, DD), _ret=Make(weekform, YQ, YC, YK, YR, Int(1, 53), Int(1, 7)), _retok=is_weekform, _pure=True,
          _use=['k_leapyear', 'k_dayofweek', 'k_weekcount'])
def k_getweekday(self):
    y, m, d = ymd(self)
    requires(s_valid(y, m, d))
    requires(y < 9999)
    r = call(self)
    ensures(r[3] <= s_weekcount(s_weekyear(r)), 'the week is a week of its year')


def check_week(r, wy, w, wd, label):
    n = s_weekabs(wy, w, wd)
    if conj(wy <= 9999, wy >= 1, w <= s_weekcount(wy), n >= 1, n <= 3652059):
        ensures(r is not None, label + ': can be completed')
        a, b, c = r
        ensures(conj(s_valid(a, b, c), s_abs(a, b, c) == n), label)
    else:
        ensures(r is None, label + ': weeks that do not exist are refused')


WEEKS = ['k_getweekday']


BOUND = 'the week year of the base is 3 modulo 4, in a century that is 3 modulo 4 (the years before and into every leap year of such centuries)' if QUICK else None


def week_of(date):
    c, e, y, w, wd = date.GetWeekDay()
    wy = c * 100 + e * 10 + y
    if QUICK:
        requires(conj(wy % 4 == 3, c % 4 == 3))
    return wy, w, wd


@lemma(base=AnyDate, wd2=Int(1, 7), _use=WEEKS, _bounded=BOUND)
def trunc_weekday(base, wd2):
    requires(ymd(base)[0] < 9999)
    y, w, wd = week_of(base)
    r = attempt(weekday=wd2, base=base)
    nw = w + ite(wd2 < wd, 1, 0)
    if nw > s_weekcount(y):
        check_week(r, y + 1, 1, wd2, 'weekday: this week if not before the base, else next week')
    else:
        check_week(r, y, nw, wd2, 'weekday: this week if not before the base, else next week')


@lemma(base=AnyDate, w2=Int(1, 53), wd2=Int(1, 7), _use=WEEKS, _bounded=BOUND)
def trunc_week(base, w2, wd2):
    requires(ymd(base)[0] < 9999)
    y, w, wd = week_of(base)
    before = disj(w2 < w, conj(w2 == w, wd2 < wd))
    r = attempt(week=w2, weekday=wd2, base=base)
    check_week(r, y + ite(before, 1, 0), w2, wd2, 'week: this year if not before the base, else next year')


@lemma(base=AnyDate, d2=Int(0, 9), w2=Int(1, 53), wd2=Int(1, 7), _use=WEEKS, _bounded=BOUND)
def trunc_week_decade(base, d2, w2, wd2):
    requires(ymd(base)[0] < 9999)
    y, w, wd = week_of(base)
    before = disj(w2 < w, conj(w2 == w, wd2 < wd))
    yd = y % 10
    r = attempt(year=d2, week=w2, weekday=wd2, base=base)
    check_week(r, y - yd + d2 + ite(disj(d2 < yd, conj(d2 == yd, before)), 10, 0), w2, wd2,
               'year of decade: this decade if not before the base, else next decade')


@lemma(base=AnyDate, e2=Int(0, 9), d2=Int(0, 9), w2=Int(1, 53), wd2=Int(1, 7), _use=WEEKS, _bounded=BOUND)
def trunc_week_century(base, e2, d2, w2, wd2):
    requires(ymd(base)[0] < 9999)
    y, w, wd = week_of(base)
    before = disj(w2 < w, conj(w2 == w, wd2 < wd))
    yc = y % 100
    n2 = 10 * e2 + d2
    r = attempt(decade=e2, year=d2, week=w2, weekday=wd2, base=base)
    check_week(r, y - yc + n2 + ite(disj(n2 < yc, conj(n2 == yc, before)), 100, 0), w2, wd2,
               'two-digit week year: this century if not before the base, else next century')
