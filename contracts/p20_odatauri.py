"""OData URIs: keys, paths and options."""
from xpy import *
from speclib import *
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.rfc2396 as uri

MODULES = ['pyslet.odata2.core', 'pyslet.odata2.csdl', 'pyslet.xsdatatypes20041028', 'pyslet.unicode5', 'pyslet.rfc2396', 'pyslet.rfc2616', 'pyslet.rfc2616_core', 'pyslet.rfc2616_params', 'pyslet.rfc2616_headers', 'pyslet.iso8601', 'pyslet.rfc2234']
# the parser works these out on first use, for every parser anew; here once and for all, as it does
core.Parser.SimpleIdentifierStartClass = core.CharClass(core.CharClass.UCDCategory(u"L"))
core.Parser.SimpleIdentifierStartClass.AddClass(core.CharClass.UCDCategory(u"Nl"))
core.Parser.SimpleIdentifierClass = core.CharClass(core.Parser.SimpleIdentifierStartClass)
for c in ['Nd', 'Mn', 'Mc', 'Pc', 'Cf']:
    core.Parser.SimpleIdentifierClass.AddClass(core.CharClass.UCDCategory(c))
T = edm.SimpleType
URI = core.ODataURI
PO = core.PathOption
SQ = core.SystemQueryOption


def val(t, v):
    x = edm.EDMValue.NewSimpleValue(t)
    x.value = v
    return x


def is_val(x, t, v):
    return conj(x.typeCode == t, x.value == v)


def refused(s, prefix=''):
    return raises((core.ServerError, ValueError), URI, s, prefix)


CHARS = ((32, 126), (0xE9, 0xE9), (0x20AC, 0x20AC))


# ---- keys -------------------------------------------------------------------------------
@lemma(v=Uni(0, 2, CHARS), p=OneOf('', '/x'), _bounded='keys of up to 2 characters')
def string_key(v, p):
    """a text key: whatever its characters it stays in its segment and reads back"""
    k = URI.FormatKeyDict({u'a': val(T.String, v)})
    u = URI(p + '/P' + k + '/Q', p)
    ensures(conj(len(u.navPath) == 2, u.navPath[0][0] == u'P', u.navPath[1] == (u'Q', None)), 'the path')
    d = u.navPath[0][1]
    ensures(conj(d.keys() == [u''], is_val(d[u''], T.String, v)), 'the key')


@lemma(n=Int(-2147483648, 2147483647), v=Uni(0, 1, CHARS), t=OneOf('Int32', 'Int64', 'Boolean'), both=Bool(), _bounded='texts of up to 1 character')
def named_keys(n, v, t, both):
    """keys of several properties, and of other types"""
    c = getattr(T, t)
    x = n > 0 if t == 'Boolean' else n
    d = {u'ID_1': val(c, x)}
    if both:
        d[u'name'] = val(T.String, v)
    u = URI('/P' + URI.FormatKeyDict(d))
    ensures(conj(len(u.navPath) == 1, u.navPath[0][0] == u'P'), 'the path')
    k = u.navPath[0][1]
    if both:
        ensures(conj(len(k) == 2, is_val(k[u'ID_1'], c, x), is_val(k[u'name'], T.String, v)), 'the keys')
    else:
        ensures(conj(k.keys() == [u''], is_val(k[u''], c, x)), 'the key')


@lemma(s=OneOf("(", "()x", "(1", "(1,2)", "(a=1,2)", "(1,a=2)", "(a=)", "(a=1,)", "('a)", "(a)", "(=1)", "(a=1%20,b=2)", "('a'b)", "(1)(2)", "(3000000000)", "(x'0')"))
def bad_keys(s):
    """what is not a key predicate is refused, or no predicate at all"""
    try:
        u = URI('/P' + s)
        ensures(conj(len(u.navPath) == 1, u.navPath[0] == (u'P' + s, None)), 'part of the name')
    except (core.ServerError, ValueError):
        ensures(s[-1] == ')' and '(' in s, 'refused')


# ---- paths ------------------------------------------------------------------------------
NAMES = {'plain': (u"Products", "Products"), 'space': (u"Order Details", "Order%20Details"), 'accent': (u"caf\xe9", "caf%C3%A9"), 'slash': (u"a/b", "a%2Fb"), 'dollar': (u"$count", "%24count"), 'semicolon': (u"a;b", "a;b"), 'key': (u"P", "P(7)"), 'nokey': (u"P", "P()"), 'escaped': (u"P", "P(%277%27)")}
SEG = OneOf('plain', 'space', 'accent', 'slash', 'dollar', 'semicolon', 'key', 'nokey', 'escaped')


def seg_is(x, k):
    if x[0] != NAMES[k][0]:
        return False
    if k == 'key':
        return conj(x[1].keys() == [u''], is_val(x[1][u''], T.Int32, 7))
    if k == 'escaped':
        return conj(x[1].keys() == [u''], is_val(x[1][u''], T.String, u"7"))
    return x[1] == ({} if k == 'nokey' else None)


def path(ks):
    return "".join(['/' + NAMES[k][1] for k in ks])


AT = OneOf(('', ''), ('', '/x/y.svc'), ('http://www.example.com', '/x'))


@lemma(ks=List(SEG, 0, 2), opt=OneOf('', 'count', 'value', 'Count'), at=AT)
def paths(ks, opt, at):
    """the path: segments, and at the end an option"""
    p = at[1]
    s = at[0] + p + path(ks) + ('/$' + opt if opt else '')
    if not ks and not opt:
        s = s + '/'
    u = URI(s, p)
    ensures(len(u.navPath) == len(ks), 'how many')
    ensures(conj(*[seg_is(u.navPath[i], ks[i]) for i in range(0, len(ks))]), 'the segments')
    ensures(u.pathOption == {'': None, 'count': PO.count, 'Count': PO.count, 'value': PO.value}[opt], 'the option')
    ensures(conj(u.linksProperty is None, u.pathPrefix == p, u.queryOptions == [], len(u.sysQueryOptions) == 0), 'nothing else')


@lemma(ks=List(SEG, 0, 1 if QUICK else 2), q=SEG, at=AT)
def links(ks, q, at):
    """the links of an entity: the property comes last"""
    p = at[1]
    s = at[0] + p + path(ks) + '/$links/' + NAMES[q][1]
    if not ks:
        ensures(refused(s, p), 'links of nothing')
        return
    u = URI(s, p)
    n = ks + [q]
    ensures(len(u.navPath) == len(n), 'how many')
    ensures(conj(*[seg_is(u.navPath[i], n[i]) for i in range(0, len(n))]), 'the segments')
    ensures(conj(u.pathOption == PO.links, u.linksProperty == NAMES[q][0]), 'the links')
    ensures(conj(u.pathPrefix == p, u.queryOptions == [], len(u.sysQueryOptions) == 0), 'nothing else')


@lemma(opt=OneOf('metadata', 'batch'), ks=List(OneOf('plain', 'key'), 0, 2), after=OneOf('', '/A', '/$count', '/$links', '/$metadata'), p=OneOf('', '/x'))
def only_options(opt, ks, after, p):
    """$metadata and $batch stand alone"""
    s = p + path(ks) + '/$' + opt + after
    if ks or after:
        ensures(refused(s, p), 'refused')
    else:
        u = URI(s, p)
        ensures(conj(u.navPath == [], u.pathOption == getattr(PO, opt)), 'the option')


@lemma(s=OneOf('/$foo', '/$', '/P/$foo', '/P/$count/Q', '/P/$count/$value', '/P/$value/Q', '/P/$value/$count', '/P/$count/$count', '/P/$links', '/P/$links/$count', '/P/$links/Q/R', '/P/$links/Q/$count', '/P/$links/$links/Q', '/P/$links/Q/$links/R', '/$links/Q', '/P/$value/$links/Q', '/P/$count/$links/Q', '/P/$count(1)'), p=OneOf('', '/x'), q=OneOf('', '?', '?a=b'))
def bad_paths(s, p, q):
    """options out of place are refused"""
    ensures(refused(p + s + q, p), 'refused')


@lemma(p=OneOf('/x', '/x/y', '/x/y.svc'), s=OneOf('', '/', 'z', '/P', '/P(1)', '?$top=1', '.', 'P/P'), q=OneOf('', '/x', '/y'))
def prefixes(p, s, q):
    """only what is below the prefix, at a segment, is of this service"""
    t = q + p + s
    u = URI(t, p)
    a = t.split('?')[0]
    mine = a == p or a[:len(p) + 1] == p + '/'
    ensures((u.resourcePath is not None) == mine, 'whose')
    if mine:
        ensures(u.resourcePath == a[len(p):], 'the path')
    else:
        ensures(conj(u.navPath == [], u.pathOption is None, u.queryOptions == [], len(u.sysQueryOptions) == 0), 'nothing')


@lemma(k=SEG, p=OneOf('/x', '/x/y.svc'))
def relative(k, p):
    """a relative URI is of this service"""
    u = URI(NAMES[k][1], p)
    ensures(conj(len(u.navPath) == 1, seg_is(u.navPath[0], k)), 'the segment')


# ---- options ----------------------------------------------------------------------------
@lemma(v=Uni(0, 2, CHARS), n=OneOf(u"a", u"b c", u"d&e=f"), before=OneOf('', 'x&', '$top=1&', 'y=1&'), after=OneOf('', '&z', '&$skip=2'), _bounded='values of up to 2 characters')
def parameters(v, n, before, after):
    """custom options: any name, any value"""
    e = lambda s: uri.EscapeData(s.encode('utf-8'))
    l = URI.FormatLiteral(val(T.String, v))
    u = URI('/P?' + before + e(n) + '=' + e(l) + after)
    x = u.GetParamValue(n)
    ensures(is_val(x, T.String, v), 'the value')
    ensures(raises(KeyError, u.GetParamValue, u"nosuch"), 'no other')
    ensures(len(u.queryOptions) == 1 + (1 if before in ('x&', 'y=1&') else 0) + (1 if after == '&z' else 0), 'how many')
    ensures(conj((SQ.top in u.sysQueryOptions) == (before == '$top=1&'), (SQ.skip in u.sysQueryOptions) == (after == '&$skip=2')), 'system options')


@lemma(n=Tuple(OneOf('a', 'b'), OneOf('a', 'b'), OneOf('a', '%61', 'c', None)), v=Str(3, 3, ((48, 57),)))
def repeated(n, v):
    """custom options are kept as they are, in their order; the last of a name counts"""
    o = [m + '=' + x for m, x in zip(n, v) if m] + ([] if n[2] else [v[2]])
    u = URI('/P?' + '&$skip=1&'.join(o))
    ensures(u.queryOptions == o, 'as written')
    last = {}
    for m, x in zip(n, v):
        last['a' if m == '%61' else m] = int(x)
    for m in ('a', 'b', 'c'):
        if m in last:
            ensures(u.GetParamValue(unicode(m)).value == last[m], 'the last')
        else:
            ensures(raises(KeyError, u.GetParamValue, unicode(m)), 'none')


@lemma(n=Int(0, 100000), o=OneOf('skip', 'top'), x=OneOf('', '$format=json', 'a=b'), swap=Bool())
def numbers(n, o, x, swap):
    """$skip and $top"""
    s = '$' + o + '=' + str(n)
    u = URI('/P?' + '&'.join([y for y in ([s, x] if swap else [x, s]) if y]))
    ensures(u.sysQueryOptions[getattr(SQ, o)] == n, 'the number')
    ensures(len(u.sysQueryOptions) == (2 if x[:1] == '$' else 1), 'the others')


@lemma(v=Uni(0, 2, CHARS), o=OneOf('filter', 'orderby'), _bounded='literals of up to 2 characters')
def expressions(v, o):
    """$filter and $orderby: any literal in them"""
    e = core.BinaryExpression(core.Operator.eq)
    e.AddOperand(core.PropertyExpression(u"a"))
    e.AddOperand(core.LiteralExpression(val(T.String, v)))
    c = getattr(SQ, o)
    u = URI('/P?' + URI.FormatSysQueryOptions({c: unicode(e) + (u" desc" if o == 'orderby' else u"")}))
    r = u.sysQueryOptions[c]
    if o == 'orderby':
        ensures(conj(len(r) == 1, r[0][1] == -1), 'descending')
        r = r[0][0]
    ensures(conj(type(r) is core.BinaryExpression, r.operator == core.Operator.eq, len(r.operands) == 2), 'the operator')
    ensures(conj(r.operands[0].name == u"a", is_val(r.operands[1].value, T.String, v)), 'the operands')


TREES = [{u'A': None}, {u'A': None, u'B': None}, {u'A': {u'B': None}}, {u'A': {u'B': None, u'C': None}, u'D': None}, {u'A': {u'B': {u'C': None}}, u'AB': {u'B': None}}, {u'A': {u'A': {u'A': None, u'B': {u'A': None}}}}]
STARS = [{u'*': None}, {u'A': {u'*': None}}, {u'A': {u'*': None, u'B': None}, u'*': None, u'C': None}]


@lemma(i=OneOf(*range(0, 9)), o=OneOf('expand', 'select'))
def trees(i, o):
    """$expand and $select: trees of names; stars are only for $select"""
    t = (TREES + STARS)[i]
    s = core.FormatExpand(t) if o == 'expand' else core.FormatSelect(t)
    x = URI.FormatSysQueryOptions({getattr(SQ, o): s})
    if o == 'expand' and i >= 6:
        ensures(refused('/P?' + x), 'no stars')
    else:
        ensures(URI('/P?' + x).sysQueryOptions[getattr(SQ, o)] == t, 'the tree')


@lemma(a=OneOf('A', 'A/B', 'A/B/C', 'B'), b=OneOf('A', 'A/B', 'A/C', 'B/A'), swap=Bool(), o=OneOf('expand', 'select'))
def merged(a, b, swap, o):
    """paths with a common start share it, in either order"""
    t = {}
    for x in (a, b):
        d = t
        n = x.split('/')
        for i in range(0, len(n)):
            y = unicode(n[i])
            if d.get(y) is None:
                d[y] = {} if i + 1 < len(n) else None
            d = d[y]
            if d is None:
                break
    u = URI('/P?$' + o + '=' + (b + ',' + a if swap else a + ',' + b))
    ensures(u.sysQueryOptions[getattr(SQ, o)] == t, 'the tree')


@lemma(s=OneOf('$top', '$skip', '$filter', '$foo=1', '$=1', '$top=', '$top=a', '$top=-1', '$top=1.5', '$top=1%202', '$skip=a', '$skip=-1', '$filter=', '$filter=a%20eq', '$filter=a%20b', '$filter=(a', '$orderby=', '$orderby=a,', '$orderby=a%20up', '$expand=', '$expand=A,', '$expand=A/', '$expand=*', '$expand=A,,B', '$expand=/A',
               '$select=', '$select=A,', '$select=*/A', '$select=A/', '$inlinecount=', '$inlinecount=maybe', '$format=foo', '$Top=1'), x=OneOf('', 'a=b&', '$skip=1&'))
def bad_options(s, x):
    """malformed system options are refused with InvalidSystemQueryOption"""
    ensures(raises(core.InvalidSystemQueryOption, URI, '/P?' + x + s), 'refused')


@lemma(o=OneOf(('allpages', 'allpages'), ('none', 'none'), ('AllPages', 'allpages')), f=OneOf(('json', 'application/json'), ('atom', 'application/atom+xml'), ('xml', 'application/xml'), ('JSON', 'application/json'), ('application/json', 'application/json'), ('text%2Fplain', 'text/plain')))
def names(o, f):
    """$inlinecount and $format"""
    u = URI('/P?$inlinecount=' + o[0] + '&$format=' + f[0])
    ensures(u.sysQueryOptions[SQ.inlinecount] == getattr(core.InlineCount, o[1]), '$inlinecount')
    l = u.sysQueryOptions[SQ.format]
    ensures(conj(len(l) == 1, str(l[0].range) == f[1]), '$format')


ALLOWED = {'links': ('skip', 'top', 'skiptoken', 'format', 'inlinecount'), 'count1': (), 'metadata': ('format',), 'batch': ()}


@lemma(k=OneOf('metadata', 'batch'), o=OneOf(('filter', 'a'), ('orderby', 'a'), ('expand', 'A'), ('select', 'A'), ('top', '1'), ('skip', '1'), ('skiptoken', 'x'), ('inlinecount', 'none')))
def misplaced(k, o):
    """options that make no sense for the resource"""
    ensures(raises(core.InvalidSystemQueryOption, URI, '/$' + k + '?$' + o[0] + '=' + o[1]), 'refused')
