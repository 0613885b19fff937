"""Names are expanded and written as Namespaces in XML says."""
from xpy import *
from speclib import *
import pyslet.xml20081126.structures as xml
import pyslet.xmlnames20091208 as ns
from pyslet.xml20081126.structures import XMLEntity
from pyslet.xmlnames20091208 import XMLNSElement, XMLNSDocument, XMLNSParser, NO_NAMESPACE, XML_NAMESPACE

MODULES = ['pyslet.xml20081126.structures', 'pyslet.xml20081126.parser', 'pyslet.unicode5', 'pyslet.xmlnames20091208']
U = u'u:1'
V = u'v&"2'


def read(t):
    p = XMLNSParser(XMLEntity(t))
    return p.ParseDocument()


def written(e):
    return u''.join(e.GenerateXML(xml.EscapeCharData, u'', u'', True))


def kids(e):
    return [c for c in e.GetChildren() if not (type(c) in (unicode, str))]


def attrs(e):
    d = e.GetAttributes()
    return d


def same_tree(a, b):
    """names and attributes, with their namespaces"""
    if a.GetXMLName() != b.GetXMLName():
        return False
    x = attrs(a)
    y = attrs(b)
    if len(x) != len(y):
        return False
    for k in x.keys():
        if not (k in y) or x[k] != y[k]:
            return False
    p = kids(a)
    q = kids(b)
    return len(p) == len(q) and all([same_tree(c, d) for c, d in zip(p, q)])


# ---- reading ---------------------------------------------------------------------------------
SCOPE = [(), ((u'', U),), ((u'', V),), ((u'', u''),), ((u'p', U),), ((u'p', V),), ((u'', U), (u'p', V)), ((u'', u''), (u'p', U)), ((u'p', U), (u'q', U))]

OUTER = SCOPE[:2] + SCOPE[4:5] + SCOPE[6:7] if QUICK else SCOPE
MIDDLE = SCOPE[:1] + SCOPE[2:6] if QUICK else SCOPE
INNER = SCOPE[:1] + SCOPE[3:5] if QUICK else SCOPE
WRITTEN = [(u'e', u''), (u'p:e', u' x="1" p:x="2"')] if QUICK else [(e, a) for e in (u'e', u'p:e') for a in (u'', u' x="1"', u' p:x="1"', u' x="1" p:x="2"')]


def decls(s):
    return u''.join([u' xmlns' + (u':' + p if p else u'') + u'=' + xml.EscapeCharData(u, True) for p, u in s])


def lookup(prefix, *scopes):
    for s in scopes:
        for p, u in s:
            if p == prefix:
                return u or None
    return None


@lemma(s=OneOf(*OUTER), m=OneOf(*MIDDLE), i=OneOf(*INNER), e=OneOf(u'e', u'p:e'), a=OneOf(u'x', u'p:x', u'xml:lang', u'xmlnsx'))
def scopes(s, m, i, e, a):
    """a prefix means what its nearest declaration says"""
    requires(not QUICK or a == u'p:x' or (e == u'e') == (a == u'x'))
    p = u'p' in e or a[:2] == u'p:'
    requires(not p or lookup(u'p', i, m, s) is not None)
    t = u'<r' + decls(s) + u'><m' + decls(m) + u'><' + e + decls(i) + u' ' + a + u'="1"/></m></r>'
    r = read(t).root
    ensures(r.GetXMLName() == (lookup(u'', s), u'r'), 'the root')
    m1 = kids(r)[0]
    ensures(m1.GetXMLName() == (lookup(u'', m, s), u'm'), 'the middle')
    f = kids(m1)[0]
    ensures(f.GetXMLName() == (lookup(u'p' if e == u'p:e' else u'', i, m, s), u'e'), 'the element')
    k = {u'x': (NO_NAMESPACE, u'x'), u'xmlnsx': (NO_NAMESPACE, u'xmlnsx'), u'xml:lang': (XML_NAMESPACE, u'lang')}.get(a)
    if k is None:
        k = (lookup(u'p', i, m, s), u'x')
    d = f.GetAttributes()
    ensures(d.keys() == [k] and d[k] == u'1', 'the attribute')
    ensures(m1.GetAttributes() == {} and r.GetAttributes() == {}, 'no others')


@lemma(s=OneOf(*OUTER), m=OneOf(*MIDDLE), i=OneOf(*INNER), ea=OneOf(*WRITTEN))
def documents_written(s, m, i, ea):
    """a document that is written again keeps its names"""
    e, a = ea
    requires(lookup(u'p', i, m, s) is not None or not (u'p:' in e or u'p:' in a))
    t = u'<r' + decls(s) + u'><m' + decls(m) + u'><' + e + decls(i) + a + u'><n/></' + e + u'></m></r>'
    r = read(t).root
    w = written(r)
    ensures(same_tree(read(w).root, r), 'the names')
    ensures(same(written(read(w).root), w), 'written again')
    m1 = kids(r)[0]
    ensures(same_tree(read(written(m1)).root, m1), 'a part of it')


# ---- writing -----------------------------------------------------------------------------------
NSX = Union(Const(None), Uni(1, 1, ((117, 118),)))
NSA = Union(Const(NO_NAMESPACE), Uni(1, 1, ((117, 118),)))


@lemma(n0=NSX, n1=NSX, n2=NSX, a0=Opt(NSA), a1=Opt(NSA), b1=Opt(NSA), a2=Opt(NSA))
def trees(n0, n1, n2, a0, a1, b1, a2):
    """whatever the namespaces of elements and attributes, they read back"""
    requires(not QUICK or (b1 is not None and n0 is None and n1 is None and n2 is None and a2 is None) or (a0 is None and b1 is None and (a2 is None or a1 is None) and (n2 is None or a1 is None)))
    requires(b1 is None or a1 is not None)
    e = XMLNSElement(None, (n0, u'a'))
    f = e.ChildElement(XMLNSElement, (n1, u'b'))
    g = f.ChildElement(XMLNSElement, (n2, u'c'))
    h = e.ChildElement(XMLNSElement, (n2, u'c'))
    if a0 is not None:
        e.SetAttribute((a0, u'x'), u'0')
    if a1 is not None:
        f.SetAttribute((a1, u'x'), u'1')
    if b1 is not None:
        f.SetAttribute((b1, u'y'), u'2')
    if a2 is not None:
        g.SetAttribute((a2, u'x'), u'3')
        h.SetAttribute((a2, u'x'), u'4')
    w = written(e)
    r = read(w).root
    ensures(r.GetXMLName() == (n0, u'a'), 'the root')
    ensures(same_tree(r, e), 'the tree')
    ensures(same_tree(read(written(e)).root, e), 'written twice')
    ensures(same_tree(read(written(f)).root, f), 'a part of it')


@lemma(n0=NSX, n1=NSX, a1=Opt(NSA), p0=OneOf(None, u'', u'p', u'ns1'), u0=Uni(1, 1, ((117, 118),)), p1=OneOf(None, u'', u'p', u'ns1'), u1=Uni(1, 1, ((117, 118),)))
def prefixes(n0, n1, a1, p0, u0, p1, u1):
    """prefixes that were chosen are kept, and never change what names mean"""
    requires((p0 is not None or u0 == u'u') and (p1 is not None or u1 == u'u'))
    requires(not QUICK or ((n0 is None or n1 is None or a1 is None) and (p0 != u'ns1' or p1 is None) and (p1 != u'ns1' or p0 is None)))
    requires(p0 != u'' or n0 == u0)
    requires(p1 != u'' or n1 == u1)
    e = XMLNSElement(None, (n0, u'a'))
    f = e.ChildElement(XMLNSElement, (n1, u'b'))
    if a1 is not None:
        f.SetAttribute((a1, u'x'), u'1')
    if p0 is not None:
        e.MakePrefix(u0, p0)
    if p1 is not None:
        f.MakePrefix(u1, p1)
    r = read(written(e)).root
    ensures(same_tree(r, e), 'the tree')
    if p0 is not None:
        ensures(r.GetNS(p0) == u0, 'the prefix')
    if p1 is not None:
        ensures(kids(r)[0].GetNS(p1) == u1, 'the inner prefix')


# ---- prefix maps ---------------------------------------------------------------------------------
PX = OneOf(u'', u'p', u'q')
NU = Uni(1, 1, ((117, 118),))


@lemma(p0=PX, u0=NU, p1=PX, u1=NU, p2=PX, u2=NU, look=PX, want=NU)
def contexts(p0, u0, p1, u1, p2, u2, look, want):
    """the prefixes in force at an element"""
    requires(not QUICK or p0 != u'q')
    e = XMLNSElement(None, (None, u'a'))
    f = e.ChildElement(XMLNSElement, (None, u'b'))
    e.MakePrefix(u0, p0)
    f.MakePrefix(u1, p1)
    ensures(raises(ValueError, f.MakePrefix, u2, p1), 'a prefix is made once')
    d = {}
    d[p0] = u0
    d[p1] = u1
    if p2 != p1:
        f.MakePrefix(u2, p2)
        d[p2] = u2
    ensures(f.GetNS(look) == d.get(look), 'the namespace')
    ensures(f.GetPrefixMap() == d, 'all of them')
    got = f.GetPrefix(want)
    if got is None:
        n = f.MakePrefix(want)
        ensures(not (n in d) and f.GetNS(n) == want and f.GetPrefix(want) == n, 'a new one')
    else:
        ensures(got in d and d[got] == want, 'a prefix')
    ensures(f.GetPrefix(XML_NAMESPACE) == u'xml' and f.GetNS(u'xml') == XML_NAMESPACE and f.GetPrefix(NO_NAMESPACE) == u'', 'xml')
    f.ResetPrefixMap()
    ensures(f.GetPrefixMap() == {p0: u0}, 'reset')
    e.ResetPrefixMap(True)
    ensures(f.GetPrefixMap() == {}, 'all reset')


# ---- names ---------------------------------------------------------------------------------------
@lemma(t=Uni(0, 2 if QUICK else 3, ((45, 46), (48, 58), (65, 66), (0xB7, 0xB7), (0xD7, 0xD8), (0x2070, 0x2070))), _bounded='names of up to 3 characters (2 in quick runs)')
def nc_names(t):
    """NCNames are names without colons"""
    ensures(iff(ns.IsValidNCName(t), xml.IsValidName(t) and not (u':' in t)), 'NCName')
    ensures(XMLNSElement(None, (None, u'a')).IsValidName(t) == ns.IsValidNCName(t), 'of an element')


@lemma(t=OneOf(u'<a:b:c/>', u'<:a/>', u'<a:/>', u'<r a:b:c="1"/>', u'<r :a="1"/>', u'<r a:="1"/>', u'<r xmlns:p="u" xmlns:q="u" p:x="1" q:x="2"/>', u'<r xmlns:p="u"><e xmlns:q="u" p:x="1" q:x="2"/></r>', u'<r xmlns:p="u"><p:e></e></r>', u'<r xmlns:p="u" xmlns:q="u"><p:e></q:e></r>'))
def refused(t):
    """names that are not qualified names, and attributes given twice"""
    ensures(raises(xml.XMLFatalError, read, t), 'refused')


@lemma(x=Uni(1, 2, ((97, 98),)), y=Uni(1, 2, ((97, 98),)), n=NSX, m=NSX, al=List(NU, 0, 2))
def equal_names(x, y, n, m, al):
    """names with aliases"""
    ensures(iff(ns.NSEqualNames((n, x), (m, y), al), x == y and (n == m or (m is not None and m in al))), 'equal')
    ensures(iff(ns.NSEqualNames((n, x), (m, y)), x == y and n == m), 'without aliases')
