"""HTTP content negotiation (RFC 2616 14.1-14.5): Accept headers choose the right alternative."""
from xpy import *
from speclib import *
import pyslet.rfc2616_core as http
from pyslet.rfc2616_params import MediaType, LanguageTag
from pyslet.rfc2616_headers import MediaRange, AcceptItem, AcceptList, AcceptToken, AcceptTokenList, AcceptCharsetItem, AcceptCharsetList, AcceptEncodingItem, AcceptEncodingList, AcceptLanguageItem, AcceptLanguageList, AcceptRanges

MODULES = ['pyslet.rfc2616_core', 'pyslet.rfc2616_params', 'pyslet.rfc2616_headers', 'pyslet.unicode5']
SEPS = '()<>@,;:\\"/[]?={} \t'
NOSTAR = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS + '*')
LETTERS = ((65, 90), (97, 122))
# qualities are numbers; thousandths are given as whole numbers
Q = Int(0, 1000)
KIND = OneOf('all', 'type', 'exact', 'param')


def mrange(kind, t, u, p, v):
    """a media range of a kind: */*  t/*  t/u  t/u;p=v"""
    if kind == 'all':
        return MediaRange()
    if kind == 'type':
        return MediaRange(t, '*')
    return MediaRange(t, u, {} if kind == 'exact' else {p.lower(): [p, v]})


def s_matches(kind, t, u, p, v, mt, mu, mp):
    """does t/u;p=v of a kind match the media type mt/mu;mp"""
    if kind == 'all':
        return True
    if kind == 'type':
        return mt.lower() == t.lower()
    c = conj(mt.lower() == t.lower(), mu.lower() == u.lower())
    if kind == 'exact':
        return c
    has = False
    for (n, w) in mp:
        has = disj(has, conj(n.lower() == p.lower(), w == v))
    return conj(c, has)


RANK = {'all': 0, 'type': 1, 'exact': 2, 'param': 3}
L = Str(1, 1, LETTERS)
TT = Str(1, 1 if QUICK else 2, NOSTAR)
PARS = List(Tuple(OneOf('a', 'B'), L), 0, 2)


def mtype(t, u, ps):
    d = {}
    for (n, w) in ps:
        requires(n.lower() not in d)
        d[n.lower()] = [n, w]
    return MediaType(t, u, d)


@lemma(kind=KIND, t=TT, u=TT, p=OneOf('a', 'A', 'b'), v=L, mt=TT, mu=TT, mp=PARS, _bounded='tokens of at most 2 characters, at most 2 parameters')
def media_match(kind, t, u, p, v, mt, mu, mp):
    m = mtype(mt, mu, mp)
    r = mrange(kind, t, u, p, v)
    ensures(iff(r.MatchMediaType(m), s_matches(kind, t, u, p, v, mt, mu, mp)), 'wild cards match anything, parameters of the range must be present')


@lemma(k1=KIND, t1=L, u1=L, v1=L, k2=KIND, t2=L, u2=L, v2=L, q1=Q, q2=Q, _bounded='tokens of a character, at most a parameter')
def media_order(k1, t1, u1, v1, k2, t2, u2, v2, q1, q2):
    a, b = mrange(k1, t1, u1, 'a', v1), mrange(k2, t2, u2, 'a', v2)
    same = k1 == k2
    if same and k1 != 'all':
        same = t1.lower() == t2.lower()
        if k1 != 'type':
            same = conj(same, u1.lower() == u2.lower())
        if k1 == 'param':
            same = conj(same, v1 == v2)
    ensures(iff(a == b, same), 'equal exactly when they are the same range')
    ensures(cmp(b, a) == -cmp(a, b), 'the order is antisymmetric')
    x, y = AcceptItem(a, q1), AcceptItem(b, q2)
    ensures(iff(x == y, conj(same, q1 == q2)), 'items are equal when range and quality are')
    ensures(cmp(y, x) == -cmp(x, y), 'the order of items is antisymmetric')
    if a == b:
        ensures(hash(a) == hash(b), 'equal ranges hash alike')
        ensures(iff(x < y, q1 > q2), 'the higher quality first')
        if q1 == q2:
            ensures(hash(x) == hash(y), 'equal items hash alike')
    else:
        ensures(cmp(x, y) == cmp(a, b), 'items sort by range first')
        m = mtype(t1, u1, [('a', v1)])
        if a.MatchMediaType(m) and b.MatchMediaType(m):
            ensures(iff(a < b, RANK[k1] > RANK[k2]), 'of two ranges that match a type the more specific is first')


ITEM = Tuple(KIND, L, L, Q)


def best(cands):
    """index of the first candidate with the greatest quality above 0, or None"""
    k, bq = None, 0
    for i in range(len(cands)):
        if cands[i] > bq:
            k, bq = i, cands[i]
    return k


def quality(items, mt, mu, mp):
    """the quality of a type: that of the most specific range that matches"""
    rank, q = -1, 0
    for (k, t, u, iq) in items:
        if RANK[k] > rank and s_matches(k, t, u, 'a', 'x', mt, mu, mp):
            rank, q = RANK[k], iq
    return q


def distinct(items):
    """no two of the items are the same range"""
    for i in range(len(items)):
        for j in range(i):
            a, b = items[i], items[j]
            if a[0] == b[0]:
                requires(a[0] != 'all')
                requires(neg(conj(a[1].lower() == b[1].lower(), True if a[0] == 'type' else a[2].lower() == b[2].lower())))


@lemma(items=List(ITEM, 1, 2), types=List(Tuple(L, L, OneOf((), (('A', 'x'),)) if QUICK else OneOf((), (('a', 'x'),), (('A', 'x'), ('b', 'x')), (('a', 'z'),))), 1, 2), _bounded='2 ranges, 2 types, tokens of a character')
def select_type(items, types):
    distinct(items)
    al = AcceptList(*[AcceptItem(mrange(k, t, u, 'a', 'x'), q) for (k, t, u, q) in items])
    ms = [mtype(t, u, ps) for (t, u, ps) in types]
    b = best([quality(items, t, u, ps) for (t, u, ps) in types])
    r = al.SelectType(ms)
    if b is None:
        ensures(r is None, 'nothing is acceptable')
    else:
        ensures(r is ms[b], 'the first type of the best quality')


@lemma(kinds=OneOf(('all', 'type', 'exact'), ('exact', 'all', 'type'), ('type', 'exact', 'all'), ('param', 'exact', 'all'), ('type', 'param', 'exact'), ('all', 'type', 'exact', 'param'), ('exact', 'exact', 'all')), ts=List(L, 4, 4), us=List(L, 4, 4), qs=List(Q, 4, 4), t=L, u=L, ps=OneOf((), (('a', 'x'),)), _bounded='up to 4 ranges, tokens of a character')
def select_precedence(kinds, ts, us, qs, t, u, ps):
    """however many ranges match a type, the most specific decides"""
    items = [(kinds[i], ts[i], us[i], qs[i]) for i in range(len(kinds))]
    distinct(items)
    al = AcceptList(*[AcceptItem(mrange(k, a, b, 'a', 'x'), q) for (k, a, b, q) in items])
    m = mtype(t, u, ps)
    ensures(iff(al.SelectType([m]) is m, quality(items, t, u, ps) > 0), 'the most specific range that matches decides')


# ---- charsets and encodings ---------------------------------------------------------------
CH = Union(L, OneOf('*'))
TOK = Tuple(CH, Q)


def tquality(items, tok, default):
    star, own = None, None
    for (t, q) in items:
        if t == '*':
            star = q
        elif t.lower() == tok.lower():
            own = q
    if own is not None:
        return own
    if star is not None:
        return star
    return default


def dtokens(items):
    for i in range(len(items)):
        for j in range(i):
            requires(items[i][0].lower() != items[j][0].lower())


@lemma(a=Tuple(Union(Str(1, 2, NOSTAR), OneOf('*')), Q), b=Tuple(Union(Str(1, 2, NOSTAR), OneOf('*')), Q), cls=OneOf(AcceptToken, AcceptCharsetItem, AcceptEncodingItem), _bounded='tokens of at most 2 characters')
def token_order(a, b, cls):
    x, y = cls(*a), cls(*b)
    same = a[0].lower() == b[0].lower()
    ensures(iff(x == y, conj(same, a[1] == b[1])), 'equal when token and quality are')
    ensures(cmp(y, x) == -cmp(x, y), 'the order is antisymmetric')
    if a[0] != '*' and b[0] == '*':
        ensures(x < y, 'wild cards come last')
    elif a[0].lower() == b[0].lower():
        ensures(iff(x < y, a[1] > b[1]), 'the higher quality first')
    if x == y:
        ensures(hash(x) == hash(y), 'equal items hash alike')


@lemma(items=List(TOK, 1, 3), toks=List(L, 1, 2), _bounded='3 items, 2 choices, tokens of a character')
def select_token(items, toks):
    dtokens(items)
    al = AcceptTokenList(*[AcceptToken(t, q) for (t, q) in items])
    b = best([tquality(items, t, 0) for t in toks])
    ensures(al.SelectToken(toks) == (None if b is None else toks[b]), 'the first token of the best quality')


@lemma(items=List(Tuple(Union(CH, OneOf('ISO-8859-1')), Q), 1, 2), tok=L, order=OneOf(0, 1, 2), name=OneOf('iso-8859-1', 'ISO-8859-1'), _bounded='2 items, tokens of a character')
def select_charset(items, tok, order, name):
    """iso-8859-1 is acceptable unless it is mentioned"""
    dtokens(items)
    al = AcceptCharsetList(*[AcceptCharsetItem(t, 1.0 if q > 500 else 0.0) for (t, q) in items])
    toks = [[name, tok], [tok, name], [name]][order]
    qs = []
    its = [(t, 1 if q > 500 else 0) for (t, q) in items]
    for t in toks:
        qs.append(tquality(its, t, 1 if t == name else 0))
    b = best(qs)
    ensures(al.SelectToken(toks) == (None if b is None else toks[b]), 'the default charset has quality 1')


@lemma(items=List(Tuple(Union(CH, OneOf('Identity')), Q), 1, 2), tok=L, order=OneOf(0, 1, 2), name=OneOf('identity', 'Identity'), _bounded='2 items, tokens of a character')
def select_encoding(items, tok, order, name):
    """identity is acceptable, but least so, unless it is mentioned"""
    dtokens(items)
    al = AcceptEncodingList(*[AcceptEncodingItem(t, q) for (t, q) in items])
    toks = [[name, tok], [tok, name], [name]][order]
    qs = []
    for t in toks:
        qs.append(tquality([(x, 2 * q) for (x, q) in items], t, 1 if t == name else 0))
    b = best(qs)
    ensures(al.SelectToken(toks) == (None if b is None else toks[b]), 'the identity encoding is the last resort')


# ---- languages ---------------------------------------------------------------------------
TAG = List(L, 1, 3)


def dash(tag):
    r = ''
    for i in range(len(tag)):
        r = r + ('-' if i else '') + tag[i]
    return r


def is_prefix(rng, tag):
    if len(rng) > len(tag):
        return False
    return conj(*[rng[i].lower() == tag[i].lower() for i in range(len(rng))])


def lquality(items, tag):
    n, q = -1, 0
    for (r, iq) in items:
        if len(r) > n and is_prefix(r, tag):
            n, q = len(r), iq
    return q


@lemma(a=List(L, 0, 2), b=List(L, 0, 2), q1=Q, q2=Q, _bounded='ranges of at most 2 subtags of a character')
def language_order(a, b, q1, q2):
    x, y = AcceptLanguageItem(dash(a) if a else '*', q1), AcceptLanguageItem(dash(b) if b else '*', q2)
    same = conj(len(a) == len(b), is_prefix(a, b))
    ensures(iff(x == y, conj(same, q1 == q2)), 'equal when range and quality are')
    ensures(cmp(y, x) == -cmp(x, y), 'the order is antisymmetric')
    if len(a) != len(b):
        ensures(iff(x < y, len(a) > len(b)), 'the longest range first')
    if x == y:
        ensures(hash(x) == hash(y), 'equal items hash alike')


@lemma(items=List(Tuple(List(L, 0, 2), Q), 1, 2), tags=List(List(L, 1, 2), 1, 2), _bounded='2 ranges and 2 tags of at most 2 subtags of a character')
def select_language(items, tags):
    for i in range(len(items)):
        for j in range(i):
            if len(items[i][0]) == len(items[j][0]):
                requires(neg(is_prefix(items[i][0], items[j][0])))
    al = AcceptLanguageList(*[AcceptLanguageItem(dash(r) if r else '*', q) for (r, q) in items])
    b = best([lquality(items, t) for t in tags])
    ts = [dash(t) for t in tags]
    ensures(al.SelectToken(ts) == (None if b is None else ts[b]), 'the first tag of the best quality, by the longest matching range')


# ---- header text --------------------------------------------------------------------------
def qtext(n):
    """the shortest text of n thousandths"""
    if n >= 1000:
        return '1'
    t = '%03i' % n
    if t[2] != '0':
        return '0.' + t
    if t[1] != '0':
        return '0.' + t[:2]
    if t[0] != '0':
        return '0.' + t[:1]
    return '0'


QS = [0, 1, 2, 9, 10, 30, 70, 99, 100, 101, 120, 250, 300, 333, 500, 505, 700, 900, 990, 999, 1000]
ALLQ = OneOf(*(QS if QUICK else range(1001)))


@lemma(n=ALLQ, t=L, u=L, kind=KIND, v=L, ext=OneOf({}, {'level': ['Level', '1']}))
def item_text(n, t, u, kind, v, ext):
    a = AcceptItem(mrange(kind, t, u, 'p', v), n / 1000.0, ext)
    x = {'all': '*/*', 'type': t.lower() + '/*', 'exact': t.lower() + '/' + u.lower(), 'param': t.lower() + '/' + u.lower() + '; p=' + v}[kind]
    if n < 1000 or ext:
        x = x + '; q=' + qtext(n) + ('; Level=1' if ext else '')
    y = str(a)
    ensures(y.lower() == x.lower(), 'range, quality and extensions')
    b = AcceptItem.FromString(y)
    ensures(conj(b == a, b.q == a.q, b.params == a.params), 'an item is read back')


@lemma(n=ALLQ, t=Union(Str(1, 2, NOSTAR), OneOf('*')), cls=OneOf(AcceptToken, AcceptLanguageItem))
def token_text(n, t, cls):
    a = cls(t, n / 1000.0)
    y = str(a)
    ensures(y == t + ('' if n == 1000 else ';q=' + qtext(n)), 'token and quality')
    b = cls.FromString(y)
    ensures(conj(b == a, b.token == t, b.q == a.q), 'an item is read back')


@lemma(n=ALLQ, form=OneOf('%s', '%s0', '%s000', '0%s', '%s.', '%s1'), name=OneOf('q', 'Q'), sub=OneOf('', '/b'))
def quality_text(n, form, name, sub):
    """other ways to write a quality"""
    x = form % qtext(n)
    y = 'a%s;%s=%s' % (sub, name, x)
    if form == '%s.' or (form != '%s' and form != '0%s' and n in (0, 1000)):
        skip()
    q = (AcceptItem if sub else AcceptToken).FromString(y).q
    ensures(conj(0 <= q, q <= 1), 'qualities are between 0 and 1')
    if form == '%s1':
        ensures(n / 1000.0 <= q, 'more digits do not lower it')
    else:
        ensures(q == n / 1000.0, 'leading and trailing zeros do not count')


@lemma(x=OneOf('a;q', 'a;q=', 'a;q=x', 'a;q=-1', 'a;q=0.1.2', 'a;x=1', 'a;q=.5', '', ';q=1', 'a b', 'a/b', 'a;q=1;q=1'))
def malformed_token(x):
    ensures(raises(http.SyntaxError, AcceptToken.FromString, x), 'a malformed item is refused')


@lemma(x=OneOf('text', 'text/', '/html', 'text/html;q', 'text/html;q=', 'text/html;q=x', 'text/html;level', 'text/html;q=1;x', '', 'text/html text/plain'))
def malformed_item(x):
    ensures(raises(http.SyntaxError, AcceptItem.FromString, x), 'a malformed item is refused')


@lemma(items=List(Tuple(L, OneOf(0, 500, 1000)), 0, 2), kind=OneOf('charset', 'type', 'language'), sep=OneOf(', ', ','), _bounded='at most 2 items of a character')
def list_text(items, kind, sep):
    dtokens(items)
    its = [(t + '/x' if kind == 'type' else t, q) for (t, q) in items]
    x = ''
    for (t, q) in its:
        x = x + ('' if x == '' else sep) + t + ('' if q == 1000 else ';q=' + qtext(q))
    cls = AcceptList if kind == 'type' else (AcceptCharsetList if kind == 'charset' else AcceptLanguageList)
    if kind == 'type' and not items:
        ensures(raises(http.SyntaxError, cls.FromString, x), 'at least a media range is required')
        return
    al = cls.FromString(x)
    ensures(len(al) == len(items), 'all items are read')
    got = [str(i) for i in al]
    for (t, q) in its:
        w = (t.lower() if kind == 'type' else t) + ('' if q == 1000 else ('; q=' if kind == 'type' else ';q=') + qtext(q))
        ensures(disj(*[w == g for g in got]), 'each item is read')


# ---- accept-ranges ------------------------------------------------------------------------
@lemma(rs=List(L, 0, 2), ss=List(L, 0, 2), _bounded='at most 2 units of a character')
def accept_ranges(rs, ss):
    a, b = AcceptRanges(*rs), AcceptRanges(*ss)
    same = len(rs) == len(ss)
    if same:
        x, y = [r.lower() for r in rs], [s.lower() for s in ss]
        x.sort()
        y.sort()
        same = x == y
    ensures(iff(a == b, same), 'equal when they have the same units')
    ensures(list(AcceptRanges.FromString(str(a))) == rs, 'the units are read back')
    ensures(iff(str(a) == 'none', len(rs) == 0), 'no units is none')
