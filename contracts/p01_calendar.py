"""C01: the date representations of pyslet.iso8601 are bijective views of one
calendar (all dates 0001-01-01 .. 9999-12-31)."""
from xpy import *
from speclib import *
import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, DateTimeError

MODULES = ['pyslet.iso8601']

def cal(y, m, d):
    return Date(century=y // 100, year=y % 100, month=m, day=d)


def ymd(date):
    c, y, m, d = date.GetCalendarDay()
    return c * 100 + y, m, d




@contract(iso.LeapYear, year=Int(0, 10000))
def k_leapyear(year):
    r = call(year)
    ensures(iff(r, s_leap(year)), 'leap years are the multiples of 4, except centuries not divisible by 400')


@lemma(y=Y, m=M, d=DD)
def calendar_absolute(y, m, d):
    requires(s_valid(y, m, d))
    date = cal(y, m, d)
    n = date.GetAbsoluteDay()
    ensures(n == s_abs(y, m, d), 'absolute day counts the days from 0001-01-01')
    ensures(date.GetOrdinalDay() == (y // 100, y % 100, s_ord(y, m, d)), 'ordinal day counts the days of the year')


@lemma(n=Int(1, 3652059))
def absolute_calendar(n):
    date = Date(absoluteDay=n)
    y, m, d = ymd(date)
    ensures(s_valid(y, m, d), 'every absolute day is a valid date')
    ensures(s_abs(y, m, d) == n, 'constructing from an absolute day is the inverse of counting')


@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, m=MM, d=DD)
def absolute_roundtrip(yq, yc, yk, yr4, m, d):
    y = yr(yq, yc, yk, yr4)
    requires(s_valid(y, m, d))
    date = Date(absoluteDay=s_abs(y, m, d))
    ensures(ymd(date) == (y, m, d), 'the date with the absolute day of y-m-d is y-m-d')


@lemma(y=Y, n=Int(1, 366))
def ordinal_calendar(y, n):
    requires(n <= ite(s_leap(y), 366, 365))
    date = Date(century=y // 100, year=y % 100, ordinalDay=n)
    y2, m, d = ymd(date)
    ensures(conj(y2 == y, s_valid(y, m, d), s_ord(y, m, d) == n), 'ordinal day n names the n-th day of the year')
    ensures(date.GetOrdinalDay() == (y // 100, y % 100, n), 'reading back the ordinal day')



@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, m=MM, d=DD)
def calendar_week(yq, yc, yk, yr4, m, d):
    y = yr(yq, yc, yk, yr4)
    requires(s_valid(y, m, d))
    date = cal(y, m, d)
    c, dec, yy, w, wd = date.GetWeekDay()
    wy = c * 100 + dec * 10 + yy
    n = s_abs(y, m, d)
    ensures(wd == (n - 1) % 7 + 1, 'weekday cycles with the absolute day and 0001-01-01 is a Monday')
    ensures(conj(0 <= dec, dec <= 9, 0 <= yy, yy <= 9, 0 <= c), 'decade and year are digits')
    t = s_thursday(n)
    a = s_abs(wy, 1, 1)
    ensures(conj(a <= t, t < a + ite(s_leap(wy), 366, 365)), 'the week year holds the Thursday of the week')
    ensures(w == (t - a) // 7 + 1, 'the week number counts the Thursdays of the week year')
    if conj(wy >= 1, wy <= 9999):
        back = Date(century=c, decade=dec, year=yy, week=w, weekday=wd)
        ensures(ymd(back) == (y, m, d), 'constructing from the week form gives the same date')


@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR)
def k_weekcount(yq, yc, yk, yr4):
    year = yr(yq, yc, yk, yr4)
    requires(year >= 1)
    r = iso.WeekCount(year)
    first = s_abs(year, 1, 1)
    last = s_abs(year, 12, 31)
    thursdays = (last + 3) // 7 - (first + 2) // 7
    ensures(r == thursdays, 'a year has as many weeks as Thursdays')


@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, month=MM, day=DD)
def k_dayofweek(yq, yc, yk, yr4, month, day):
    year = yr(yq, yc, yk, yr4)
    requires(s_valid(year, month, day))
    r = iso.DayOfWeek(year, month, day)
    ensures(r == (s_abs(year, month, day) - 1) % 7 + 1, 'Monday is 1 and days cycle')


@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, w=Int(-5, 60), wd=Int(-2, 10))
def week_calendar(yq, yc, yk, yr4, w, wd):
    y = yr(yq, yc, yk, yr4)
    requires(y >= 1)
    requires(disj(y > 1, w != 1))
    requires(w != 0)
    requires(wd != 0)
    wc = (s_abs(y, 12, 31) + 3) // 7 - (s_abs(y, 1, 1) + 2) // 7
    good = conj(1 <= w, w <= wc, 1 <= wd, wd <= 7)
    requires(disj(y < 9999, w < 52))
    try:
        date = Date(century=y // 100, decade=y // 10 % 10, year=y % 10, week=w, weekday=wd)
    except DateTimeError:
        ensures(neg(good), 'every week day of the calendar can be constructed')
        return
    ensures(good, 'only week days of the calendar can be constructed')
    y2, m, d = ymd(date)
    # Monday of week 1 is the Monday on or before 4th January
    j4 = s_abs(y, 1, 4)
    ensures(conj(s_valid(y2, m, d), s_abs(y2, m, d) == (j4 - 1) // 7 * 7 + 1 + 7 * (w - 1) + wd - 1), 'week days count from the Monday of week 1')



@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, m=MM, d=DD)
def julian(yq, yc, yk, yr4, m, d):
    y = yr(yq, yc, yk, yr4)
    requires(s_valid(y, m, d))
    date = cal(y, m, d)
    jy, jm, jd = date.GetJulianDay()
    ensures(conj(1 <= jm, jm <= 12, 1 <= jd, jd <= s_jlen(jy, jm), s_jabs(jy, jm, jd) == s_abs(y, m, d)), 'the Julian date names the same day')
    if jy >= 1:
        back = Date.FromJulian(jy, jm, jd)
        ensures(ymd(back) == (y, m, d), 'constructing from the Julian date gives the same date')


@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, m=MM, d=DD)
def from_julian(yq, yc, yk, yr4, m, d):
    y = yr(yq, yc, yk, yr4)
    requires(y >= 1)
    requires(d <= s_jlen(y, m))
    n = s_jabs(y, m, d)
    requires(conj(1 <= n, n <= 3652059))
    date = Date.FromJulian(y, m, d)
    ensures(date.GetJulianDay() == (y, m, d), 'Julian dates read back unchanged')


# validation
@lemma(c=Int(-3, 103), y=Int(-3, 103), m=Int(-3, 15), d=Int(-3, 35))
def validation(c, y, m, d):
    good = conj(0 <= c, c <= 99, 0 <= y, y <= 99, s_valid(c * 100 + y, m, d))
    try:
        date = Date(century=c, year=y, month=m, day=d)
    except DateTimeError:
        ensures(neg(good), 'every calendar date can be constructed')
        return
    ensures(good, 'only calendar dates can be constructed')
    ensures(date.GetCalendarDay() == (c, y, m, d), 'calendar fields read back unchanged')
    ensures(iff(date.LeapYear(), s_leap(c * 100 + y)), 'leap year test')


@lemma(y=Y, n=Int(-5, 400))
def ordinal_validation(y, n):
    requires(n != 0)
    good = conj(1 <= n, n <= ite(s_leap(y), 366, 365))
    try:
        date = Date(century=y // 100, year=y % 100, ordinalDay=n)
    except DateTimeError:
        ensures(neg(good), 'every ordinal date can be constructed')
        return
    ensures(good, 'only ordinal dates of the year can be constructed')


# order
@lemma(y1=Y, m1=M, d1=DD, y2=Y, m2=M, d2=DD)
def order(y1, m1, d1, y2, m2, d2):
    requires(conj(s_valid(y1, m1, d1), s_valid(y2, m2, d2)))
    a = cal(y1, m1, d1)
    b = cal(y2, m2, d2)
    k = y1 * 372 + m1 * 31 + d1 - (y2 * 372 + m2 * 31 + d2)
    ensures(iff(a < b, k < 0), 'earlier dates compare less')
    ensures(iff(a == b, k == 0), 'equal dates compare equal')
    ensures(iff(a > b, k > 0), 'later dates compare greater')
    if a == b:
        ensures(hash(a) == hash(b), 'equal dates hash alike')


# struct_time
@lemma(yq=YQ, yc=YC, yk=YK, yr4=YR, m=MM, d=DD)
def struct_time(yq, yc, yk, yr4, m, d):
    y = yr(yq, yc, yk, yr4)
    requires(s_valid(y, m, d))
    date = cal(y, m, d)
    t = [0] * 9
    date.UpdateStructTime(t)
    ensures(t == [y, m, d, 0, 0, 0, (s_abs(y, m, d) - 1) % 7, s_ord(y, m, d), 0], 'struct_time fields agree with the date')
    ensures(ymd(Date.FromStructTime(t)) == (y, m, d), 'struct_time converts back')
