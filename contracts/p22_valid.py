"""Documents are checked against their DTD as XML 1.0 defines validity."""
from xpy import *
from speclib import *
import pyslet.xml20081126.structures as xml
import pyslet.xml20081126.parser as parser
from pyslet.xml20081126.structures import XMLEntity, ElementType, ContentParticleCursor, XMLContentParticle, XMLNameParticle, XMLChoiceList, XMLSequenceList

MODULES = ['pyslet.xml20081126.structures', 'pyslet.xml20081126.parser', 'pyslet.unicode5', 'pyslet.rfc2396']
WF = xml.XMLFatalError
OCC = (u'', u'?', u'*', u'+')


# ---- what a content model means ----------------------------------------------------------
# a particle is (kind, occurrence, name or list of particles); kinds n(ame), s(equence), c(hoice)
def once(p, w, i):
    """the positions that p, taken once, can end at when it starts at i"""
    if p[0] == 'n':
        return [i + 1] if i < len(w) and w[i] == p[2] else []
    if p[0] == 'c':
        r = []
        for q in p[2]:
            for k in ends(q, w, i):
                if k not in r:
                    r.append(k)
        return r
    at = [i]
    for q in p[2]:
        nx = []
        for j in at:
            for k in ends(q, w, j):
                if k not in nx:
                    nx.append(k)
        at = nx
    return at


def starts(p, w, i):
    """the positions at which p can be taken (again)"""
    r = [i]
    if p[1] in (u'*', u'+'):
        for j in r:
            for k in once(p, w, j):
                if k not in r:
                    r.append(k)
    return r


def ends(p, w, i):
    r = []
    for j in starts(p, w, i):
        for k in once(p, w, j):
            if k not in r:
                r.append(k)
    if p[1] in (u'*', u'?') and i not in r:
        r.append(i)
    return r


def matches(p, w):
    return len(w) in ends(p, w, 0)


def begins(p, w, i):
    """w[i:] begins some sequence that p matches"""
    if i == len(w):
        return True
    for j in starts(p, w, i):
        if p[0] == 'n':
            if w[j:] == p[2:]:
                return True
        elif p[0] == 'c':
            for q in p[2]:
                if begins(q, w, j):
                    return True
        else:
            at = [j]
            for q in p[2]:
                nx = []
                for k in at:
                    if begins(q, w, k):
                        return True
                    for m in ends(q, w, k):
                        if m not in nx:
                            nx.append(m)
                at = nx
            if len(w) in at:
                return True
    return False


def build(p):
    """the particles of the library"""
    if p[0] == 'n':
        q = XMLNameParticle()
        q.name = p[2]
    else:
        q = XMLChoiceList() if p[0] == 'c' else XMLSequenceList()
        for c in p[2]:
            q.children.append(build(c))
    q.occurrence = {u'': XMLContentParticle.ExactlyOnce, u'?': XMLContentParticle.ZeroOrOne, u'*': XMLContentParticle.ZeroOrMore, u'+': XMLContentParticle.OneOrMore}[p[1]]
    return q


def etype(p, mixed=False):
    e = ElementType()
    e.name = u'r'
    e.contentType = ElementType.Mixed if mixed else ElementType.ElementContent
    e.contentModel = build(p)
    e.BuildModel()
    return e


def words(names, n):
    r = [()]
    last = r
    for i in range(n):
        last = [w + (x,) for w in last for x in names]
        r = r + last
    return r


def agrees(p, e, names, n):
    """the cursor accepts exactly what the model matches, and foretells it"""
    todo = [()]
    for w in todo:
        c = ContentParticleCursor(e)
        for x in w:
            ensures(c.Next(x) is True, 'the beginning')
        x = c.Expected()
        exp = [y for y in names if begins(p, w + (y,), 0)]
        end = matches(p, w)
        ensures(x == exp + ([u'</r>'] if end else []), 'expected')
        ensures(not c.Next(u'z'), 'no other name')
        ensures(c.Next(u'') == end, 'the end')
        if end:
            ensures(not c.Next(names[0]) and not c.Next(u''), 'after the end')
        if len(w) < n:
            todo.extend([w + (y,) for y in exp])
            d = ContentParticleCursor(e)
            for y in w:
                d.Next(y)
            for y in names:
                if y not in exp:
                    ensures(not d.Next(y), 'not expected')
            ensures(d.Expected() == x, 'unchanged')


NAMES = (u'a', u'b')


@lemma(kind=OneOf('s', 'c'), o=OneOf(*OCC), n=OneOf(1, 2, 3), o1=OneOf(*OCC), o2=OneOf(*OCC), o3=OneOf(*OCC), x=OneOf(*NAMES), y=OneOf(*NAMES), _bounded='models of up to 3 names (2 in quick runs), sequences of up to 4 elements (3)')
def flat(kind, o, n, o1, o2, o3, x, y):
    """sequences and choices of names"""
    requires(not QUICK or n < 3)
    requires(n > 2 or (o3 == u'' and y == u'a'))
    requires(n > 1 or (o2 == u'' and x == u'a' and kind == 's'))
    c = [('n', o1, u'a'), ('n', o2, x), ('n', o3, y)][:n]
    p = (kind, o, c)
    agrees(p, etype(p), NAMES, 3 if QUICK else 4)


@lemma(kind=OneOf('s', 'c'), o=OneOf(*OCC), inner=OneOf('s', 'c'), io=OneOf(*OCC), o1=OneOf(*OCC), o2=OneOf(*OCC), o3=OneOf(*OCC), x=OneOf(*NAMES), first=Bool(), _bounded='a name and a group of two names, sequences of up to 4 elements (3 in quick runs)')
def nested(kind, o, inner, io, o1, o2, o3, x, first):
    """groups in groups"""
    requires(not QUICK or (o1 == u'' and (o3 == u'' or o3 == u'?') and (o2 == u'' or o2 == u'*') and x == u'a'))
    g = (inner, io, [('n', o2, u'a'), ('n', o3, u'b')])
    p = (kind, o, [('n', o1, x), g] if first else [g, ('n', o1, x)])
    agrees(p, etype(p), NAMES, 3 if QUICK else 4)


@lemma(k=Tuple(OneOf('s', 'c'), OneOf('s', 'c'), OneOf('s', 'c')), o=Tuple(OneOf(*OCC), OneOf(*OCC), OneOf(*OCC)), x=OneOf(*NAMES), _bounded='three levels of groups, sequences of up to 4 elements (3 in quick runs)')
def deep(k, o, x):
    """groups in groups in groups"""
    requires(not QUICK or (x == u'a' and (o[1] == u'' or o[1] == u'+')))
    p = (k[2], o[2], [('n', u'', u'a'), ('n', u'?', u'b')])
    p = (k[1], o[1], [p, ('n', u'', u'a')])
    p = (k[0], o[0], [('n', u'', x), p])
    agrees(p, etype(p), NAMES, 3 if QUICK else 4)


@lemma(n=OneOf(0, 1, 2), _bounded='up to 2 names')
def mixed(n):
    """mixed content: the names in any number and order"""
    p = ('c', u'*', [('n', u'', x) for x in NAMES[:n]])
    e = etype(p, True)
    agrees(p, e, NAMES, 3)
    ensures(e.IsDeterministic(), 'deterministic')


@lemma(t=OneOf(ElementType.Empty, ElementType.Any), w=OneOf(*words(NAMES, 2)))
def unmodelled(t, w):
    """EMPTY and ANY"""
    e = ElementType()
    e.contentType = t
    e.name = u'r'
    e.BuildModel()
    ensures(e.IsDeterministic(), 'deterministic')
    c = ContentParticleCursor(e)
    for x in w:
        ensures(c.Next(x) == (t == ElementType.Any), 'children')
    ensures(c.Next(u''), 'the end')
    ensures(not c.Next(u'') and not c.Next(u'a') and c.Expected() == [], 'after the end')


@lemma(x=Uni(1, 2, ((97, 98),)), y=Uni(1, 2, ((97, 98),)), o=OneOf(*OCC), kind=OneOf('s', 'c'), u=Uni(1, 2, ((97, 98),)), v=Uni(0, 2, ((97, 98),)), _bounded='names of up to 2 characters')
def any_names(x, y, o, kind, u, v):
    """names are compared as wholes"""
    p = ('s', u'', [(kind, o, [('n', u'', x), ('n', u'', y)])])
    c = ContentParticleCursor(etype(p))
    w = (u,)
    ok = c.Next(u)
    ensures(ok == begins(p, w, 0), 'the first')
    if ok:
        if v:
            w = (u, v)
            ensures(c.Next(v) == begins(p, w, 0), 'the second')
        else:
            ensures(c.Next(v) == matches(p, w), 'the end')


# ---- determinism: after no beginning may two occurrences of a name come next ------------------
def mark(p, n):
    """the model with every name made unique"""
    if p[0] == 'n':
        n.append(p[2])
        return ('n', p[1], len(n) - 1)
    return (p[0], p[1], [mark(q, n) for q in p[2]])


def clash(p, k):
    """two occurrences of one name can follow the same beginning of up to k elements"""
    n = []
    m = mark(p, n)
    todo = [()]
    for w in todo:
        nx = [i for i in range(len(n)) if begins(m, w + (i,), 0)]
        if len(nx) != len(set([n[i] for i in nx])):
            return True
        if len(w) < k:
            todo.extend([w + (i,) for i in nx])
    return False


@lemma(kind=OneOf('s', 'c'), o=OneOf(*OCC), inner=OneOf('s', 'c'), io=OneOf(*OCC), o1=OneOf(*OCC), o2=OneOf(*OCC), o3=OneOf(u'', u'?'), x=OneOf(*NAMES), first=Bool())
def deterministic(kind, o, inner, io, o1, o2, o3, x, first):
    """models of a name and a group of two are deterministic or not"""
    requires(not QUICK or (o1 == u'' and (o2 == u'' or o2 == u'*')))
    g = (inner, io, [('n', o2, u'a'), ('n', o3, u'b')])
    p = (kind, o, [('n', o1, x), g] if first else [g, ('n', o1, x)])
    ensures(etype(p).IsDeterministic() == (not clash(p, 3)), 'deterministic')


# ---- declarations -----------------------------------------------------------------------------
def check(t):
    p = parser.XMLParser(XMLEntity(t))
    p.checkValidity = True
    p.ParseDocument()
    return p


def valid(t):
    """validity, and that it is reported alike in every way"""
    p = check(t)
    ensures(iff(p.valid, p.nonFatalErrors == []), 'the list of errors')
    q = parser.XMLParser(XMLEntity(t))
    q.checkValidity = True
    q.raiseValidityErrors = True
    ensures(iff(raises(xml.XMLValidityError, q.ParseDocument), not p.valid), 'raised')
    return p.valid


def text(p, s):
    if p[0] == 'n':
        return p[2] + p[1]
    return u'(' + s + ((s + (u'|' if p[0] == 'c' else u',') + s).join([text(q, s) for q in p[2]])) + s + u')' + p[1]


EXAMPLES = [('s', u'', [('n', u'', u'a')]), ('s', u'*', [('n', u'', u'a'), ('n', u'?', u'b')]), ('c', u'+', [('n', u'', u'a'), ('n', u'+', u'b')]),
            ('s', u'?', [('n', u'', u'a'), ('c', u'*', [('n', u'', u'a'), ('n', u'', u'b')])]), ('c', u'', [('n', u'*', u'a'), ('s', u'+', [('n', u'', u'b'), ('n', u'', u'a')])]),
            ('s', u'', [('s', u'?', [('n', u'', u'a')]), ('s', u'', [('n', u'', u'b'), ('c', u'?', [('n', u'', u'a'), ('n', u'*', u'b')])])])]
DECL = u'<!ELEMENT a EMPTY><!ELEMENT b ANY>'


@lemma(p=OneOf(*EXAMPLES), s=OneOf(u'', u' ', u'\n\t'))
def declared(p, s):
    """a declared model is the one that is written"""
    d = check(u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ' + text(p, s) + s + u'>]><r/>').dtd
    e = d.GetElementType(u'r')
    ensures(e.contentType == ElementType.ElementContent, 'the type')
    agrees(p, e, NAMES, 2)


@lemma(p=OneOf(*EXAMPLES), w=OneOf(*words(NAMES, 3)), s=OneOf(u'', u'\n'), long=Bool())
def documents(p, w, s, long):
    """a document is valid if its elements match their models"""
    requires(not QUICK or (len(w) < 3 and (s == u'') == long))
    t = u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ' + text(p, u'') + u'>]>'
    c = s.join([u'<' + x + (u'></' + x + u'>' if long else u'/>') for x in w])
    t = t + (u'<r>' + s + c + s + u'</r>' if c or long else u'<r/>')
    ensures(valid(t) == matches(p, w), 'valid')


@lemma(m=OneOf(u'()', u'(a,)', u'(a|b,a)', u'(a,b|a)', u'(a', u'a', u'(a|)', u'(|a)', u'(#PCDATA|a)', u'(#PCDATA,a)*', u'(a)**', u'(#PCDATA)+', u'(a) *', u'(a *)', u'(a b)', u'((a)', u'(a))', u'(#PCDATA|(a))*', u'(#PCDATA|a?)*', u'(a|#PCDATA)*', u'(?a)', u'', u'EMPTYa', u'ANY*', u'any', u'(1)', u'(#PCDATA|)*', u'(#PCDATA|a) *'))
def bad_models(m):
    """malformed declarations are refused"""
    ensures(raises(WF, check, u'<!DOCTYPE r [<!ELEMENT r ' + m + u'>]><r/>'), 'refused')


MODELS = [u'EMPTY', u'ANY', u'(#PCDATA)', u'(#PCDATA)*', u'(#PCDATA|a)*', u'(a?)', u'(a|b)*']
INSIDE = [(u'', 'none'), (u'<!--c-->', 'misc'), (u'<?p i?>', 'misc'), (u'<![CDATA[ ]]>', 'data'), (u'<![CDATA[x]]>', 'data'), (u'<![CDATA[]]>', 'data'), (u'&#32;', 'data'), (u'&#97;', 'data'), (u'&amp;', 'data'), (u'&e;', 'ref'), (u'<a/>', 'a'), (u'<b></b>', 'b'), (u'<c/>', 'undeclared')]


@lemma(m=OneOf(*MODELS), i=OneOf(*INSIDE))
def content(m, i):
    """what may stand in an element"""
    t = u'<!DOCTYPE r [' + DECL + u'<!ENTITY e ""><!ELEMENT r ' + m + u'>]><r>' + i[0] + u'</r>'
    k = i[1]
    if k == 'none':
        ok = True
    elif k == 'undeclared' or m == u'EMPTY':
        ok = False
    elif k == 'misc' or k == 'ref' or m == u'ANY':
        ok = True
    elif k == 'data':
        ok = m[1] == u'#'
    else:
        ok = (u'|' + k in m) or (u'(' + k in m)
    ensures(valid(t) == ok, 'valid')


@lemma(m=OneOf(*MODELS), t=Uni(1, 2, ((9, 10), (32, 32), (97, 98), (160, 160))), _bounded='up to 2 characters')
def data(m, t):
    """character data"""
    sp = conj(*[disj(c == u' ', c == u'\n', c == u'\t') for c in t])
    v = check(u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ' + m + u'>]><r>' + t + u'</r>').valid
    if m == u'EMPTY':
        ensures(not v, 'EMPTY')
    elif m == u'ANY' or m[1] == u'#':
        ensures(v, 'mixed')
    else:
        ensures(iff(v, sp), 'only space')


@lemma(i=OneOf(*INSIDE), t=Uni(0, 1, ((32, 32), (97, 97))))
def undeclared(i, t):
    """errors in elements that are not declared are reported once, and parsing goes on"""
    p = check(u'<!DOCTYPE r [' + DECL + u'<!ENTITY e ""><!ELEMENT r ANY>]><r><u>' + t + i[0] + u'</u><b/></r>')
    ensures(not p.valid, 'not valid')
    ensures([c.GetXMLName() for c in p.doc.root.GetChildren()] == [u'u', u'b'], 'read')


@lemma(n=Uni(1, 2, ((97, 98),)), d=Bool(), _bounded='names of up to 2 characters')
def roots(n, d):
    """the root element must be the one of the document type"""
    ensures(iff(valid(u'<!DOCTYPE ' + (u'a' if d else u'ba') + u' [<!ELEMENT ' + n + u' EMPTY>]><' + n + u'/>'), n == (u'a' if d else u'ba')), 'root')
    ensures(not valid(u'<' + n + u'/>'), 'no document type')


# ---- attributes ---------------------------------------------------------------------------------
VAL = ((32, 32), (45, 45), (97, 97), (49, 49), (233, 233))


def is_name(t):
    return conj(len(t) > 0, *[c != u' ' for c in t]) and not (t[0] == u'-' or t[0] == u'1')


def is_token(t):
    return conj(len(t) > 0, *[c != u' ' for c in t])


TYPES = [u'CDATA', u'ID', u'IDREF', u'IDREFS', u'NMTOKEN', u'NMTOKENS', u'(a|-)', u'ENTITY', u'ENTITIES', u'NOTATION (a)']


def fits(ty, t):
    """the value of an attribute suits its type (a is the one ID, unparsed entity and notation)"""
    v = t.strip(u' ')
    vs = [x for x in v.split(u' ') if x]
    if ty == u'CDATA':
        return True
    elif ty == u'ID':
        return is_name(v)
    elif ty == u'NMTOKEN':
        return is_token(v)
    elif ty == u'NMTOKENS':
        return len(vs) > 0
    elif ty[0] == u'(':
        return v == u'a' or v == u'-'
    elif ty == u'IDREFS' or ty == u'ENTITIES':
        return conj(len(vs) > 0, *[x == u'a' for x in vs])
    return v == u'a'


def adoc(ty, how, rest, root=u'i="a"'):
    return (u'<!DOCTYPE r [<!NOTATION a SYSTEM "n"><!ENTITY a SYSTEM "x:u" NDATA a><!ELEMENT r (e*)><!ATTLIST r i ID #IMPLIED><!ELEMENT e ANY><!ATTLIST e v ' + ty + u' ' + how + u'>]><r ' + root + u'>' + rest + u'</r>')


@lemma(ty=OneOf(*TYPES), t=Uni(0, 3, VAL), _bounded='values of up to 3 characters (2 in quick runs)')
def attributes(ty, t):
    """values must suit their types"""
    requires(not QUICK or len(t) < 3)
    p = check(adoc(ty, u'#IMPLIED', u'<e v="' + t + u'"/>', u'i="a"' if ty != u'ID' else u'i="b"'))
    ensures(iff(p.valid, fits(ty, t)), 'valid')


@lemma(ty=OneOf(*TYPES), t=Uni(0, 2, VAL), fixed=Bool(), _bounded='values of up to 2 characters')
def defaults(ty, t, fixed):
    """default values must suit their types, and IDs have none"""
    p = check(adoc(ty, (u'#FIXED ' if fixed else u'') + u'"' + t + u'"', u'<e/>', u'i="a"' if ty != u'ID' else u'i="b"'))
    ensures(iff(p.valid, ty != u'ID' and fits(ty, t)), 'valid')


@lemma(t=Uni(0, 2, VAL), u=Uni(0, 2, VAL), ty=OneOf(u'CDATA', u'NMTOKENS'), _bounded='values of up to 2 characters')
def fixed(t, u, ty):
    """values of fixed attributes are as declared"""
    requires(not QUICK or len(u) < 2)
    if ty != u'CDATA':
        requires(t.strip(u' ') != u'' and u.strip(u' ') != u'')
        eq = [x for x in t.split(u' ') if x] == [x for x in u.split(u' ') if x]
    else:
        eq = t == u
    ensures(iff(check(adoc(ty, u'#FIXED "' + t + u'"', u'<e v="' + u + u'"/>')).valid, eq), 'valid')


@lemma(t=Uni(1, 2, ((97, 98),)), u=Uni(1, 2, ((97, 98),)), v=Uni(1, 2, ((97, 98),)), _bounded='values of up to 2 characters')
def identifiers(t, u, v):
    """IDs are unique, and references refer to one before or after them"""
    d = u'<!DOCTYPE r [<!ELEMENT r (e*)><!ELEMENT e EMPTY><!ATTLIST e i ID #IMPLIED f IDREF #IMPLIED>]>'
    ensures(iff(check(d + u'<r><e i="' + t + u'"/><e i="' + u + u'"/></r>').valid, t != u), 'unique')
    ensures(iff(check(d + u'<r><e f="' + v + u'"/><e i="' + t + u'"/><e/></r>').valid, t == v), 'refers')
    ensures(iff(check(d + u'<r><e i="' + t + u'" f="' + t + u'"/><e f="' + v + u'"/></r>').valid, t == v), 'refers back')


@lemma(how=OneOf(u'#REQUIRED', u'#IMPLIED', u'"a"', u'#FIXED "a"'), given=Bool())
def presence(how, given):
    """required attributes are given"""
    ensures(valid(adoc(u'CDATA', how, u'<e v="a"/>' if given else u'<e/>')) == (given or how != u'#REQUIRED'), 'valid')
    ensures(not valid(adoc(u'CDATA', how, u'<e v="a" w="a"/>')), 'not declared')


GOOD = [u'<!ATTLIST r b ID #IMPLIED>', u'<!ATTLIST r b ID #REQUIRED c IDREF #IMPLIED>', u'<!ATTLIST r b (x|y) "x" c (x|y) "y">', u'<!NOTATION n SYSTEM "x:u"><!ENTITY f SYSTEM "x:u" NDATA n>',
        u'<!ELEMENT s (#PCDATA|a|b)*>', u'<!ENTITY % p "(a,b)"><!ELEMENT s ((a|b),b)>', u'<!ENTITY x "y"><!ENTITY x "z">', u'<!ATTLIST r b CDATA "1"><!ATTLIST r b CDATA "2">', u'<!ATTLIST u b CDATA #IMPLIED>']
WRONG = [u'<!ATTLIST r b ID #IMPLIED c ID #IMPLIED>', u'<!ATTLIST r b ID "x">', u'<!ATTLIST r b (x|y|x) "x">', u'<!ATTLIST r b (x|y) "z">', u'<!ENTITY f SYSTEM "x:u" NDATA n>', u'<!ELEMENT s (#PCDATA|a|a)*>',
         u'<!ELEMENT a ANY>', u'<!ATTLIST r b IDREF "1">', u'<!ATTLIST r b NMTOKEN "1 2">', u'<!ATTLIST r b NMTOKENS " ">', u'<!NOTATION n SYSTEM "x:u"><!ATTLIST a b NOTATION (n) #IMPLIED>', u'<!NOTATION n SYSTEM "x:u"><!NOTATION n SYSTEM "x:v">',
         u'<!NOTATION n SYSTEM "x:u"><!ATTLIST b b NOTATION (n) #IMPLIED c NOTATION (n) #IMPLIED>', u'<!NOTATION n SYSTEM "x:u"><!ATTLIST b b NOTATION (n|n) #IMPLIED>', u'<!ATTLIST b b NOTATION (m) #IMPLIED>']


@lemma(d=OneOf(*GOOD), r=OneOf(u'<r/>', u'<r b="x"/>'))
def declarations(d, r):
    """valid declarations"""
    requires(u'r b' in d or r == u'<r/>')
    requires(not (u'REQUIRED' in d and r == u'<r/>') and not (u'CDATA' in d and u'u b' in d and r != u'<r/>'))
    ensures(valid(u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ANY>' + d + u']>' + r), 'valid')


@lemma(d=OneOf(*WRONG))
def bad_declarations(d):
    """declarations that break a validity constraint"""
    ensures(not valid(u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ANY>' + d + u']><r/>'), 'not valid')


@lemma(m=OneOf(*EXAMPLES), w=OneOf(*words(NAMES, 2)))
def unchecked(m, w):
    """documents are only checked on demand"""
    p = parser.XMLParser(XMLEntity(u'<!DOCTYPE r [' + DECL + u'<!ELEMENT r ' + text(m, u'') + u'>]><r>' + u''.join([u'<' + x + u'/>' for x in w]) + u'</r>'))
    p.ParseDocument()
    ensures(p.valid is None and p.nonFatalErrors == [], 'not checked')
