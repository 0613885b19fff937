"""Specification functions: the mathematical calendar."""
from xpy import *


def s_leap(y):
    return conj(y % 4 == 0, disj(y % 100 != 0, y % 400 == 0))


def s_mlen(y, m):
    """length of month m (1..12) of year y"""
    return ite(m == 2, ite(s_leap(y), 29, 28), ite(disj(m == 4, m == 6, m == 9, m == 11), 30, 31))


def s_cum(m):
    """days before month m in a common year, as a closed form"""
    return ite(m <= 2, 31 * (m - 1), (153 * (m - 3) + 2) // 5 + 59)


def s_ord(y, m, d):
    return s_cum(m) + ite(conj(m > 2, s_leap(y)), 1, 0) + d


def s_abs(y, m, d):
    z = y - 1
    return 365 * z + z // 4 - z // 100 + z // 400 + s_ord(y, m, d)


def s_valid(y, m, d):
    return conj(1 <= y, y <= 9999, 1 <= m, m <= 12, 1 <= d, d <= s_mlen(y, m))


# ISO week: the week belongs to the year that holds its Thursday; 0001-01-01 is a Monday
def s_thursday(n):
    return (n - 1) // 7 * 7 + 4


# Julian calendar
def s_jabs(y, m, d):
    """absolute day (Gregorian count) of a Julian calendar date"""
    z = y - 1
    return 365 * z + z // 4 + s_cum(m) + ite(conj(m > 2, y % 4 == 0), 1, 0) + d - 2


def s_jlen(y, m):
    return ite(m == 2, ite(y % 4 == 0, 29, 28), ite(disj(m == 4, m == 6, m == 9, m == 11), 30, 31))




# A year is given by its position in the 400-year cycle: Y4 lists the cycle, the
# century of the cycle, the quad year of the century and the year of the quad.
# Every year 0..9999 has exactly one such form; it is only a form of the input
# that keeps the arithmetic linear for the solver.
Y = Int(1, 9999)
M = Int(1, 12)
DD = Int(1, 31)
YQ = Int(0, 24)
YC = OneOf(0, 1, 2, 3)
YK = Int(0, 24)
YR = OneOf(0, 1, 2, 3)
MM = OneOf(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)


def yr(q, c, k, r):
    return 400 * q + 100 * c + 4 * k + r


def s_near(y, m, d, k):
    """the date k days after y-m-d, for small k (at most 28 days either way)"""
    n = s_mlen(y, m)
    py = ite(m == 1, y - 1, y)
    pm = ite(m == 1, 12, m - 1)
    ny = ite(m == 12, y + 1, y)
    nm = ite(m == 12, 1, m + 1)
    e = d + k
    return (ite(e < 1, py, ite(e > n, ny, y)), ite(e < 1, pm, ite(e > n, nm, m)),
            ite(e < 1, e + s_mlen(py, pm), ite(e > n, e - n, e)))
