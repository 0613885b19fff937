"""Character classes behave as sets of characters with one canonical form."""
from xpy import *
from pyslet.unicode5 import CharClass

MODULES = ['pyslet.unicode5']

# code points below the surrogate block: in the Jython runtime, characters above it do not compare in code point order
CP = Int(0, 0xD7FE)
BOUND = 'classes of at most 3 ranges' if QUICK else 'classes of at most 4 ranges'
N = 3 if QUICK else 4
PAIRS = List(Tuple(CP, CP), 0, N)


def cclass(pairs):
    """the class whose canonical ranges are pairs"""
    last = -2
    c = CharClass()
    for a, z in pairs:
        requires(conj(last + 1 < a, a <= z))
        last = z
    for a, z in pairs:
        c.AddRange(unichr(a), unichr(z))
    return c


def member(pairs, x):
    r = False
    for a, z in pairs:
        r = disj(r, conj(a <= x, x <= z))
    return r


def canonical(c):
    last = -2
    r = True
    for a, z in c.ranges:
        r = conj(r, last + 1 < ord(a), ord(a) <= ord(z))
        last = ord(z)
    return r


OPTS = dict(_bounded=BOUND)


@lemma(pairs=PAIRS, x=CP, **OPTS)
def test(pairs, x):
    c = cclass(pairs)
    ensures(iff(c.Test(unichr(x)), member(pairs, x)), 'a character is in the class exactly if it was added')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')
    ensures(not c.Test(None), 'no character is in no class')


@lemma(pairs=PAIRS, a=CP, z=CP, x=CP, **OPTS)
def add_range(pairs, a, z, x):
    c = cclass(pairs)
    c.AddRange(unichr(a), unichr(z))
    inside = disj(conj(a <= x, x <= z), conj(z <= x, x <= a))
    ensures(iff(c.Test(unichr(x)), disj(member(pairs, x), inside)), 'adding a range adds its characters and no others')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


@lemma(pairs=PAIRS, a=CP, z=CP, x=CP, **OPTS)
def subtract_range(pairs, a, z, x):
    c = cclass(pairs)
    c.SubtractRange(unichr(a), unichr(z))
    inside = disj(conj(a <= x, x <= z), conj(z <= x, x <= a))
    ensures(iff(c.Test(unichr(x)), conj(member(pairs, x), neg(inside))), 'subtracting a range removes its characters and no others')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


@lemma(pairs=PAIRS, a=CP, x=CP, **OPTS)
def add_char(pairs, a, x):
    c = cclass(pairs)
    c.AddChar(unichr(a))
    ensures(iff(c.Test(unichr(x)), disj(member(pairs, x), x == a)), 'adding a character adds it and no other')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


@lemma(pairs=PAIRS, a=CP, x=CP, **OPTS)
def subtract_char(pairs, a, x):
    c = cclass(pairs)
    c.SubtractChar(unichr(a))
    ensures(iff(c.Test(unichr(x)), conj(member(pairs, x), x != a)), 'subtracting a character removes it and no other')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


P2 = List(Tuple(CP, CP), 0, 2)
BOUND2 = 'classes of at most 2 ranges'


@lemma(p=P2, q=P2, x=CP, _bounded=BOUND2)
def add_class(p, q, x):
    c = cclass(p)
    d = cclass(q)
    c.AddClass(d)
    ensures(iff(c.Test(unichr(x)), disj(member(p, x), member(q, x))), 'adding a class is set union')
    ensures(iff(d.Test(unichr(x)), member(q, x)), 'the class added is unchanged')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


@lemma(p=P2, q=P2, x=CP, _bounded=BOUND2)
def subtract_class(p, q, x):
    c = cclass(p)
    d = cclass(q)
    c.SubtractClass(d)
    ensures(iff(c.Test(unichr(x)), conj(member(p, x), neg(member(q, x)))), 'subtracting a class is set difference')
    ensures(iff(d.Test(unichr(x)), member(q, x)), 'the class subtracted is unchanged')
    ensures(canonical(c), 'ranges are sorted, separated and not empty')


@lemma(p=P2, x=CP, _bounded=BOUND2)
def negate(p, x):
    c = cclass(p)
    c.Negate()
    ensures(iff(c.Test(unichr(x)), neg(member(p, x))), 'negation is set complement')
    c.Negate()
    ensures(iff(c.Test(unichr(x)), member(p, x)), 'double negation is the class')
    ensures(c == cclass(p), 'double negation equals the class')


@lemma(p=P2, a=CP, z=CP, x=CP, op=OneOf(0, 1, 2, 3, 4), _bounded=BOUND2)
def copies(p, a, z, x, op):
    c = cclass(p)
    d = CharClass(c)
    ensures(d == c, 'a copy equals the class')
    if op == 0:
        d.AddRange(unichr(a), unichr(z))
    elif op == 1:
        d.SubtractRange(unichr(a), unichr(z))
    elif op == 2:
        d.AddChar(unichr(a))
    elif op == 3:
        d.SubtractChar(unichr(a))
    else:
        d.Negate()
    ensures(iff(c.Test(unichr(x)), member(p, x)), 'changing a copy leaves the original alone')


@lemma(p=List(Tuple(CP, CP), 1, 3), perm=OneOf((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)), _bounded='up to 3 ranges added in any order')
def any_order(p, perm):
    c = CharClass()
    for a, z in p:
        c.AddRange(unichr(a), unichr(z))
    d = CharClass()
    for i in perm:
        if i < len(p):
            d.AddRange(unichr(p[i][0]), unichr(p[i][1]))
    ensures(c == d, 'classes built in any order are equal')


@lemma(a=CP, z=CP, b=CP, x=CP)
def constructor(a, z, b, x):
    c = CharClass((unichr(a), unichr(z)), unichr(b))
    inside = disj(conj(a <= x, x <= z), conj(z <= x, x <= a), x == b)
    ensures(iff(c.Test(unichr(x)), inside), 'the constructor adds its ranges and characters')
