"""Self-test of the engine: what the functions below return under Jython (worked out on
import) is what the engine says they return, for known and for unknown arguments."""
from xpy import *
import string, itertools

MODULES = []


class Base(object):
    kind = 'base'

    def __init__(self, n=1):
        self.n = n

    def name(self):
        return self.kind + str(self.n)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        return i * 2

    def __cmp__(self, other):
        return cmp(self.n, other.n)

    def __add__(self, other):
        return Derived(self.n + other.n)

    @classmethod
    def make(cls, n):
        return cls(n)

    @staticmethod
    def plain(n):
        return n + 1

    @property
    def double(self):
        return self.n * 2


class Derived(Base):
    kind = 'derived'

    def __init__(self, n):
        super(Derived, self).__init__(n + 1)
        Base.__init__(self, self.n)
        self.extra = [n]

    def name(self):
        return '<' + super(Derived, self).name() + '>'

    def __contains__(self, x):
        return x in self.extra

    def __call__(self, *args, **kw):
        return (args, sorted(kw.items()))

    def __iter__(self):
        for i in range(self.n):
            yield i


class Old:
    count = 0

    def __init__(self):
        self.d = {}

    def __nonzero__(self):
        return bool(self.d)

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __getattr__(self, name):
        if name == 'made':
            return 'up'
        raise AttributeError(name)


class Oops(ValueError):
    def __init__(self, msg, code=3):
        ValueError.__init__(self, msg)
        self.code = code


class Managed(object):
    def __init__(self, log, swallow=False):
        self.log, self.swallow = log, swallow

    def __enter__(self):
        self.log.append('in')
        return self

    def __exit__(self, t, v, tb):
        self.log.append(t is None and 'ok' or t.__name__)
        return self.swallow


# ---- statements --------------------------------------------------------------------------
def while_else(x):
    n = 0
    while n < x:
        n += 1
        if n == 3:
            break
    else:
        return ('else', n)
    return ('break', n)


def for_else(x):
    for i in xrange(5):
        if i == x:
            break
    else:
        i = -1
    return i


def cont(x):
    t = 0
    for i in range(0, 6):
        if i % 2 == x:
            continue
        t += i
    return t


def try_all(x):
    log = []
    try:
        try:
            log.append('t')
            if x == 0:
                raise Oops('a', 7)
            elif x == 1:
                raise KeyError(x)
            elif x == 2:
                return log
        except Oops as e:
            log.append((e.code, str(e)))
        except (KeyError, IndexError), e:
            log.append(e.args)
            raise
        else:
            log.append('else')
        finally:
            log.append('f')
    except LookupError:
        log.append('outer')
    return log


def finally_return(x):
    try:
        if x > 1:
            raise ValueError
        return 'try'
    finally:
        if x > 0:
            return 'finally'


def bare_except(x):
    try:
        return 10 // x
    except:
        return 'zero'


def with_it(x):
    log = []
    try:
        with Managed(log, x == 1) as m:
            m.log.append('body')
            if x:
                raise Oops('b')
    except ValueError:
        log.append('caught')
    return log


def swap(x, y):
    x, y = y, x
    (a, b), c = (x, y), [x]
    c[0] += 1
    return a, b, c


def slices(x):
    l = range(10)
    l[2:4] = ['a'] * x
    del l[-2:]
    del l[0]
    m = l[:]
    m.insert(1, x)
    m.reverse()
    return l, m, l[::2], l[::-1], l[-3:], m[x:x + 2], l[:100], l[100:]


def dicts(x):
    d = {'a': 1, 'b': x}
    d.update({'c': 3})
    d.setdefault('a', 9)
    d.setdefault('z', 9)
    e = dict((k, v + 1) for k, v in d.items())
    f = dict([('q', 1)], r=2)
    del d['c']
    p = d.pop('z')
    return sorted(d.items()), sorted(e.keys()), e.get('nope', x), f['r'], p, 'a' in d, d.has_key('c'), len(e), d == {'b': x, 'a': 1}


def sets(x):
    s = set([1, 2, x])
    t = frozenset((2, 3))
    s.add(5)
    s.discard(1)
    return sorted(s), sorted(s & t), sorted(s | t), sorted(s - t), 5 in s, t <= set([1, 2, 3])


def comps(x):
    a = [i * j for i in range(3) for j in range(i) if i + j != x]
    b = sum(i for i in range(x + 2))
    c = any(i > x for i in range(3)), all(i < x for i in range(3))
    d = [(k, v) for k, v in enumerate('abc') if v != 'b']
    return a, b, c, d, zip([1, 2], 'xy'), map(lambda i: i + x, [1, 2]), filter(None, [0, x, 2]), reduce(lambda p, q: p * 10 + q, [1, 2, x])


def sorting(x):
    l = [3, x, 2, x + 1]
    m = sorted(l, key=lambda i: -i)
    n = sorted([(1, 'b'), (0, 'c'), (1, 'a')])
    l.sort(reverse=True)
    o = sorted(['b', 'A', 'c'], cmp=lambda p, q: cmp(p.lower(), q.lower()))
    return l, m, n, o, list(reversed([1, 2, x])), min(l), max(1, x, 2), min('b', 'a'), l.index(3), l.count(x)


def gen(n):
    i = 0
    while i < n:
        yield i
        i += 1


def gens(x):
    g = gen(x + 1)
    first = g.next()
    return first, list(g), [i for i in itertools.chain(gen(2), gen(x))], list(itertools.izip([1, 2], 'ab')) if 0 else None


def closures(x):
    acc = []

    def add(y, *rest, **kw):
        acc.append(y + x)
        return len(rest), sorted(kw)
    r = add(1, 2, 3, k=4)
    add(*[5], **{'z': 1})
    f = lambda p, q=x: (p, q)
    return acc, r, f(1), f(1, q=2), apply(f, (7,))


def chained(x):
    return 0 < x < 3, 0 <= x != 2, not x, x and 'yes' or 'no', 'a' if x else 'b', x is None, None is None, x in (1, 2), x not in [0]


def deleted(x):
    l = [1]
    try:
        del l[x]
        return 'gone', l
    except IndexError:
        return 'no'


def asserts(x):
    try:
        assert x != 1, 'one'
        return 'fine'
    except AssertionError as e:
        return str(e)


def globals_(x):
    return COUNTER + x, len(LETTERS), LETTERS[x]


COUNTER = 7
LETTERS = 'abc'


# ---- numbers -----------------------------------------------------------------------------
def arith(x, y):
    r = [x + y, x - y, x * y, -x, +x, ~x, abs(x), x ** 2, x << 2, x >> 1, x & 3, cmp(x, y)]
    if y:
        r = r + [x // y, x % y, divmod(x, y), x / y]
    return r


def floats(x, y):
    a = x / 4.0
    b = y * 0.5
    r = [a, b, a + b, a - b, a * b, a < b, int(a), long(b), a == b, float(x), -a, abs(b), x + a]
    if y:
        r += [a > b]
    return r


def conv(x):
    return int(str(x)), int('%d' % x), '%03d' % x, '%+d' % x, '%5d|' % x, '%-5d|' % x, '%i' % x, str(x), repr(x), unicode(x), '%s and %s' % (x, [x]), bool(x), int('1f', 16), int('07', 8), hex(10), '%x' % 255


def longs(x):
    return x * 2 ** 40 // 2 ** 39, long(x), 2147483647 + x, isinstance(2 ** 40, long), isinstance(x, int), (x + 2 ** 33) % 7


def rounding(x):
    return round(2.5), int(-2.5), int(2.999), -7 // 2, -7 % 3, 7 // -2, divmod(-7, 2), 7 % -3, x // -2, x % -3


# ---- strings -----------------------------------------------------------------------------
def text(s):
    return (s.upper(), s.lower(), s + 'x', s * 2, len(s), s[0:1], s[-1:], s[::-1], s.find('b'), s.rfind('b'), s.split('b'), s.replace('b', 'cc'),
            s.startswith('a'), s.endswith(('b', 'c')) if 0 else s.endswith('c'), s.strip('a'), s.lstrip('a'), s.rstrip('c'), 'b' in s, s == 'abc', s < 'abd', cmp(s, 'b'))


def more_text(s):
    return (s.isalpha(), s.isdigit(), s.isspace(), s.split(), s.split(None, 1), s.split('b', 1), s.join(['1', '2', '3']), s.count('b'), s.zfill(5), s.ljust(4) + '|', s.rjust(4),
            [c for c in s], list(s), tuple(s), sorted(s), s.partition('b'), s.rsplit('b', 1), s.center(7) if 0 else None)


def uni(s):
    u = s.decode('ascii')
    return u + u'\xe9', (u + u'\xe9').encode('utf-8'), u == s, [ord(c) for c in u], u[:1], type(u) is unicode, isinstance(u, basestring), u"%s!" % u, "%s" % u, unichr(65) + chr(66), '\xc3\xa9'.decode('utf-8') == u'\xe9'


def joined(s):
    l = []
    for c in s:
        l.append('%02X' % ord(c))
    return string.join(l, '-'), '-'.join(l), ''.join(reversed(s)), string.split(s, 'b'), string.find(s, 'c'), string.upper(s)


def lookups(s):
    d = {'a': 1, 'ab': 2, 'abc': 3}
    return d.get(s), s in d, [k for k in sorted(d) if s.startswith(k)], {'k': s}['k'], 'abc'.index('c')


def fmt(s):
    return '%s' % s, '%10s|' % s, '%-6s|' % s, '%%', '%s%s' % (s, 1), '%c' % 'x', '%(k)s' % {'k': s}, s.encode('hex') if 0 else None, '{0}'.format(s) if 0 else None


def compare_text(s):
    return [cmp(s, t) for t in ('', 'a', 'ab', 'abc', 'abcd', 'b')], [s < t for t in ('', 'ab', 'abd')], max(s, 'abb'), s != 'x', (s, 1) < (s, 2), [s] == ['abc']


# ---- objects -----------------------------------------------------------------------------
def objects(x):
    b = Base(x)
    d = Derived(x)
    return b.name(), d.name(), len(b), list(d), x in d, b < d, b == Base(x), (b + d).n, Base.make(x).n, Derived.make(x).name(), b.plain(x), d.double, d(x, k=1), isinstance(d, Base), issubclass(Derived, Base), d.__class__.__name__, hasattr(b, 'extra'), getattr(d, 'extra', None), getattr(b, 'extra', 'none'), bool(b)


def old(x):
    o = Old()
    r = [bool(o), o.made]
    o['k'] = x
    o.count += x
    r += [bool(o), o.count, Old.count, o.d.keys()]
    del o['k']
    try:
        o.nothing
    except AttributeError:
        r.append('none')
    setattr(o, 'made', 5)
    r.append(o.made)
    return r


def getitem_iter(x):
    r = [i for i in Base(x)]
    try:
        r.append(Base(x)[x])
    except IndexError as e:
        r.append(e.args[0])
    return r


def raising(x):
    try:
        if x == 0:
            raise Oops, 'text'
        elif x == 1:
            raise Oops('t')
        else:
            {}['k']
    except ValueError, e:
        return e.__class__.__name__, str(e), isinstance(e, Oops)
    except Exception as e:
        return type(e).__name__


def aliasing(x):
    a = [x]
    b = a
    b += [2]
    c = a + [3]
    a.append(4)
    d = (a,)
    d[0].extend([5])
    return a, b, c, a is b, a == list(b), [[0] * 2] * 2


def unpack(x):
    def f(a, b=2, *c, **d):
        return a, b, c, sorted(d.items())
    r = [f(x), f(x, 1), f(x, 1, 3, 4), f(b=x, a=0), f(x, e=5)]
    try:
        f()
    except TypeError:
        r.append('missing')
    return r


INTS = (while_else, for_else, cont, try_all, finally_return, bare_except, with_it, slices, dicts, sets, comps, sorting, gens, closures, chained, deleted, asserts, globals_, conv, longs, rounding, objects, old, getitem_iter, raising, aliasing, unpack)
PAIRS = (swap, arith, floats)
TEXTS = (text, more_text, uni, joined, lookups, fmt, compare_text)
XS = (0, 1, 2)
YS = ((0, 0), (7, 2), (-7, 2), (7, -2), (-7, -2), (3, 5), (1, 0))
SS = ('', 'a', 'abc', 'abcb', 'b c', ' a')
WANT = {}
for f in INTS:
    for x in XS:
        WANT[(f.__name__, x)] = f(x)
for f in PAIRS:
    for x in YS:
        WANT[(f.__name__, x)] = f(*x)
for f in TEXTS:
    for x in SS:
        WANT[(f.__name__, x)] = f(x)
BY = dict((f.__name__, f) for f in INTS + PAIRS + TEXTS)


def deep(a, b):
    """same type and value, all the way down"""
    if isinstance(a, (list, tuple)):
        return conj(isinstance(b, (list, tuple)), type(a) is type(b), len(a) == len(b), *[deep(p, q) for p, q in zip(a, b)]) if isinstance(b, (list, tuple)) and len(a) == len(b) else False
    if a is None or b is None:
        return a is b
    return conj(type(a) is type(b), a == b)


@lemma(f=OneOf(*[f.__name__ for f in INTS]), x=OneOf(*XS), y=Int(-3, 9), known=Bool())
def ints(f, x, y, known):
    """functions of a number"""
    if not known:
        requires(y == x)
    ensures(deep(BY[f](x if known else y), WANT[(f, x)]), f + ' ' + str(x) + (' known' if known else ''))


@lemma(f=OneOf(*[f.__name__ for f in PAIRS]), p=OneOf(*YS), x=Int(-9, 9), y=Int(-9, 9), known=Bool())
def pairs(f, p, x, y, known):
    """functions of two numbers"""
    if not known:
        requires(conj(x == p[0], y == p[1]))
    ensures(deep(BY[f](p[0], p[1]) if known else BY[f](x, y), WANT[(f, p)]), f + ' ' + str(p) + (' known' if known else ''))


@lemma(f=OneOf(*[f.__name__ for f in TEXTS]), s=OneOf(*SS), t=Str(0, 4, ((32, 126),)), known=Bool())
def texts(f, s, t, known):
    """functions of a string"""
    if not known:
        requires(len(t) == len(s))
        requires(t == s)
    ensures(deep(BY[f](s if known else t), WANT[(f, s)]), f + ' ' + repr(s) + (' known' if known else ''))
