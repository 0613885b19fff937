"""XML text is read as XML 1.0 says, and what is written reads back."""
from xpy import *
from speclib import *
import pyslet.xml20081126.structures as xml
import pyslet.xml20081126.parser as parser
from pyslet.xml20081126.structures import XMLEntity, XMLWellFormedError, Element, Document

MODULES = ['pyslet.xml20081126.structures', 'pyslet.xml20081126.parser', 'pyslet.unicode5']
WF = xml.XMLFatalError
ALL = ((0, 0x10FFFF),)
CHAR = ((9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
PLAIN = ((9, 10), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
START = ((58, 58), (65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
NAME = START + ((45, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040))
SPACE = ((9, 10), (13, 13), (32, 32))
MIX = ((9, 10), (13, 13), (32, 62), (93, 93), (97, 98), (0x85, 0x85), (0x2028, 0x2028), (0xFFFE, 0xFFFE))


def within(n, ranges):
    return disj(*[conj(lo <= n, n <= hi) for lo, hi in ranges])


def every(t, ranges):
    return conj(*[within(ord(c), ranges) for c in t])


def read(t):
    p = parser.XMLParser(XMLEntity(t))
    p.ParseDocument()
    return p


def parse(t):
    return read(t).doc.root


def refused(t):
    return raises(WF, parse, t)


def lines(t):
    """the line ends of XML: CR LF and CR are LF"""
    r = []
    last = None
    for c in t:
        if c == u'\r':
            r.append(u'\n')
        elif c == u'\n' and last == u'\r':
            pass
        else:
            r.append(c)
        last = c
    return u''.join(r)


@contract(xml.IsChar, c=Uni(1, 1, ALL), _ret=Bool(), _pure=True)
def k_char(c):
    requires(c is not None and len(c) == 1)
    r = call(c)
    ensures(iff(r, within(ord(c), CHAR)), 'Char')


@contract(xml.IsNameStartChar, c=Opt(Uni(1, 1, ALL)), _ret=Bool(), _pure=True)
def k_start(c):
    requires(c is None or len(c) == 1)
    r = call(c)
    ensures(iff(r, c is not None and within(ord(c), START)), 'NameStartChar')


@contract(xml.IsNameChar, c=Opt(Uni(1, 1, ALL)), _ret=Bool(), _pure=True)
def k_name(c):
    requires(c is None or len(c) == 1)
    r = call(c)
    ensures(iff(r, c is not None and within(ord(c), NAME)), 'NameChar')


USE = ['k_char', 'k_start', 'k_name']


# ---- characters -------------------------------------------------------------------------
@lemma(c=Uni(1, 1, ALL))
def classes(c):
    """S and PubidChar"""
    n = ord(c)
    ensures(iff(xml.IsS(c), within(n, SPACE)), 'S')
    ensures(iff(xml.IsPubidChar(c), disj(within(n, ((32, 33), (35, 37), (39, 59), (61, 61), (63, 90), (95, 95), (97, 122))), n == 10, n == 13)), 'PubidChar')


@lemma(x=Bool())
def ends(x):
    """the end of the text is no character"""
    ensures(not xml.IsChar(None) and not xml.IsS(None) and not xml.IsNameStartChar(None) and not xml.IsNameChar(None), 'None')
    ensures(not xml.IsChar(u'') and not xml.IsS(u'') and not xml.IsNameChar(u''), 'nothing')


@lemma(_use=USE, t=Uni(0, 3, ALL), _bounded='names of up to 3 characters')
def names(t):
    """Name"""
    ok = conj(len(t) > 0, every(t[:1], START), every(t[1:], NAME))
    ensures(iff(xml.IsValidName(t), ok), 'Name')


@lemma(_use=USE, t=Uni(0, 3, ((45, 46), (48, 58), (65, 122), (0xB7, 0x2FF), (0x2070, 0x2070))), e=OneOf(u'', u' ', u'>', u'=', u'\xd7'), _bounded='names of up to 3 characters')
def parse_names(t, e):
    """a name is read up to the first character that is not of it"""
    requires(every(t, NAME))
    p = parser.XMLParser(XMLEntity(t + e))
    if t and not within(ord(t[0]), START):
        ensures(p.ParseName() is None, 'no name')
        ensures(raises(WF, p.ParseRequiredName), 'refused')
        ensures(p.ParseNmtoken() == t, 'a token')
    elif t:
        ensures(p.ParseName() == t, 'the name')
        ensures(p.theChar == (e[0] if e else None), 'where it ends')
    else:
        ensures(conj(p.ParseName() is None, p.ParseNmtoken() is None), 'nothing')


SP = ((9, 10), (13, 13), (32, 33), (97, 97), (160, 160))


@lemma(_use=USE, t=Uni(0, 4, SP), lead=Bool(), _bounded='texts of up to 4 characters')
def spaces(t, lead):
    """functions of white space"""
    s = [c == u' ' or c == u'\t' or c == u'\r' or c == u'\n' for c in t]
    ensures(iff(xml.IsWhiteSpace(t), conj(*s)), 'IsWhiteSpace')
    ensures(iff(xml.ContainsS(t), disj(*s)), 'ContainsS')
    i = 0
    while i < len(t) and s[i]:
        i += 1
    ensures(xml.StripLeadingS(t) == t[i:], 'StripLeadingS')
    ensures(xml.NormalizeSpace(t) == u' '.join([w for w in t.split(u' ') if w]), 'NormalizeSpace')
    w = []
    for c, x in zip(t, s):
        if not x:
            w.append(c)
        elif (w and w[-1] != u' ') or not (w or lead):
            w.append(u' ')
    ensures(xml.CollapseSpace(t, lead) == (u''.join(w) or u' '), 'CollapseSpace')


# ---- the entity -------------------------------------------------------------------------
@lemma(t=Uni(0, 4, ((9, 10), (13, 13), (97, 97))), _bounded='texts of up to 4 characters')
def line_ends(t):
    """CR LF and CR are read as LF, and lines are counted"""
    e = XMLEntity(t)
    r = []
    line = 1
    while e.theChar is not None:
        r.append(e.theChar)
        if e.theChar == u'\n':
            line += 1
        ensures(e.lineNum == line, 'the line')
        e.NextChar()
    ensures(u''.join(r) == lines(t), 'the characters')
    e.Reset()
    ensures(e.theChar == (lines(t)[0] if t else None), 'from the start')


@lemma(_use=USE, m=Str(1, 3, ((97, 99),)), t=Str(0, 4, ((97, 99),)), _bounded='literals of up to 3 characters in texts of up to 4')
def literals(m, t):
    """a literal is read whole or not at all"""
    p = parser.XMLParser(XMLEntity(unicode(t)))
    ok = t[:len(m)] == m
    ensures(p.ParseLiteral(unicode(m)) == ok, 'whether')
    r = []
    while p.theChar is not None:
        r.append(p.theChar)
        p.NextChar()
    ensures(u''.join(r) == (t[len(m):] if ok else t), 'the rest')


# ---- character data ---------------------------------------------------------------------
@lemma(_use=USE, t=Uni(0, 3, CHAR) if not QUICK else Uni(0, 2, CHAR), seven=Bool(), _bounded='texts of up to 3 characters (2 in quick runs)')
def data_reads_back(t, seven):
    """escaped character data reads back"""
    f = xml.EscapeCharData7 if seven else xml.EscapeCharData
    s = f(t)
    if seven:
        ensures(every(s, ((0, 127),)), 'ASCII')
    ensures(parse(u'<a>' + s + u'</a>').GetValue() == t, 'the data')


@lemma(_use=USE, t=Uni(0, 3, CHAR) if not QUICK else Uni(0, 2, CHAR), seven=Bool(), _bounded='values of up to 3 characters (2 in quick runs)')
def values_read_back(t, seven):
    """escaped attribute values read back"""
    f = xml.EscapeCharData7 if seven else xml.EscapeCharData
    s = f(t, True)
    if seven:
        ensures(every(s, ((0, 127),)), 'ASCII')
    e = parse(u'<a b=' + s + u'/>')
    ensures(e.GetAttribute(u'b') == t, 'the value')


@lemma(_use=USE, t=Uni(3, 3 if QUICK else 4, ((34, 34), (38, 39))), seven=Bool(), _bounded='values of 3 and 4 characters (3 in quick runs)')
def quotes_read_back(t, seven):
    """... with quotes of both kinds"""
    f = xml.EscapeCharData7 if seven else xml.EscapeCharData
    e = parse(u'<a b=' + f(t, True) + u'/>')
    ensures(e.GetAttribute(u'b') == t, 'the value')


@lemma(_use=USE, t=Uni(0, 3, MIX), _bounded='texts of up to 3 characters')
def data(t):
    """unescaped character data"""
    d = u'<a>' + t + u'x</a>'
    bad = disj(*([conj(t[i] == u']', t[i + 1] == u']', t[i + 2] == u'>') for i in range(len(t) - 2)] + [neg(every(t, CHAR)), u'<' in t, u'&' in t]))
    if bad:
        ensures(refused(d), 'refused')
    else:
        ensures(parse(d).GetValue() == lines(t) + u'x', 'the data')


@lemma(_use=USE, t=Uni(0, 3, ((9, 10), (13, 13), (62, 62), (93, 93), (97, 97))), k=OneOf(1, 2, 3), _bounded='texts of up to 3 characters, read in chunks of up to 3')
def chunks(t, k):
    """what is read does not depend on the size of the chunks it is read in"""
    n = XMLEntity.ChunkSize
    XMLEntity.ChunkSize = k
    try:
        for a, b in ((u'<a>', u'x</a>'), (u'<a><![CDATA[', u']]></a>')):
            d = a + t + b
            if u']]>' in t:
                ensures(b[0] == u']' or refused(d), 'refused')
            else:
                ensures(parse(d).GetValue() == lines(t) + b[:b.index(u'<')].replace(u']]>', u''), 'the data')
    finally:
        XMLEntity.ChunkSize = n


@lemma(_use=USE, t=Uni(0, 3, MIX), q=OneOf(u'"', u"'"), _bounded='values of up to 3 characters')
def values(t, q):
    """unescaped attribute values: white space is a space"""
    requires(not (q in t))
    d = u'<a b=' + q + t + q + u'></a>'
    bad = disj(neg(every(t, CHAR)), u'<' in t, u'&' in t)
    if bad:
        ensures(refused(d), 'refused')
    else:
        v = u''.join([u' ' if c in u'\t\n' else c for c in lines(t)])
        ensures(parse(d).GetAttribute(u'b') == v, 'the value')


@lemma(_use=USE, n=Int(0, 0x120000), where=OneOf('data', 'value'), zero=OneOf(u'', u'0', u'00'))
def references(n, where, zero):
    """decimal character references"""
    s = u'&#' + zero + unicode(n) + u';'
    d = u'<a>' + s + u'</a>' if where == 'data' else u'<a b="' + s + u'"/>'
    if within(n, CHAR):
        e = parse(d)
        v = e.GetValue() if where == 'data' else e.GetAttribute(u'b')
        ensures(conj(len(v) == 1, ord(v) == n), 'the character')
    else:
        ensures(refused(d), 'refused')


HEX = ((48, 57), (65, 70), (97, 102))


@lemma(_use=USE, h=Str(1, 6, HEX), where=OneOf('data', 'value'))
def hex_references(h, where):
    """hexadecimal character references"""
    n = 0
    for c in h:
        o = ord(c)
        n = n * 16 + ite(o <= 57, o - 48, ite(o <= 70, o - 55, o - 87))
    s = u'&#x' + unicode(h) + u';'
    d = u'<a>' + s + u'</a>' if where == 'data' else u'<a b="' + s + u'"/>'
    if within(n, CHAR):
        e = parse(d)
        v = e.GetValue() if where == 'data' else e.GetAttribute(u'b')
        ensures(conj(len(v) == 1, ord(v) == n), 'the character')
    else:
        ensures(refused(d), 'refused')


@lemma(_use=USE, r=OneOf((u'&amp;', u'&'), (u'&lt;', u'<'), (u'&gt;', u'>'), (u'&apos;', u"'"), (u'&quot;', u'"'), (u'&AMP;', None), (u'&amp', None), (u'&', None), (u'& ', None), (u'&;', None), (u'&#;', None), (u'&#x;', None), (u'&#X41;', None), (u'&#6a;', None), (u'&#-1;', None),
               (u'&#xg;', None), (u'&nosuch;', None), (u'&#65', None), (u'&#99999999999;', None), (u'&#xFFFFFFFFFF;', None)), t=Uni(0, 1, ((97, 98), (38, 38), (59, 60))), where=OneOf('data', 'value'))
def entities(r, t, where):
    """the predefined entities, and nothing else"""
    x = xml.EscapeCharData(t)
    d = u'<a>' + r[0] + x + u'</a>' if where == 'data' else u'<a b="' + r[0] + x + u'"/>'
    if r[1] is None:
        requires(t != u';')
        ensures(refused(d), 'refused')
    else:
        e = parse(d)
        ensures((e.GetValue() if where == 'data' else e.GetAttribute(u'b')) == r[1] + t, 'the character')


# ---- CDATA, comments, instructions ------------------------------------------------------
@lemma(_use=USE, t=Uni(0, 4, ((13, 13), (38, 38), (60, 60), (62, 62), (93, 93), (97, 97), (1, 1))), _bounded='texts of up to 4 characters')
def cdata(t):
    """a CDATA section ends at the first ]]> and holds the characters as they are"""
    d = u'<a>x<![CDATA[' + t + u']]>y</a>'
    i = t.find(u']]>')
    if i < 0 and not (u'\x01' in t):
        ensures(parse(d).GetValue() == u'x' + lines(t) + u'y', 'the data')
    elif u'\x01' in t:
        ensures(refused(d), 'refused')
    elif not (u'<' in t[i:] or u'&' in t[i:]):
        ensures(refused(d), 'a ]]> left over')


@lemma(_use=USE, t=Uni(0, 4, ((38, 38), (60, 60), (62, 62), (93, 93), (97, 97), (0x2028, 0x2028))), _bounded='texts of up to 4 characters')
def cdata_reads_back(t):
    """EscapeCDSect"""
    ensures(parse(u'<a>' + xml.EscapeCDSect(t) + u'</a>').GetValue() == t, 'the data')


COM = ((32, 32), (45, 45), (62, 62), (97, 97), (1, 1), (60, 60))


@lemma(_use=USE, t=Uni(0, 4, COM), where=OneOf('data', 'before', 'after'), _bounded='comments of up to 4 characters')
def comments(t, where):
    """a comment is dropped; -- is not allowed in it"""
    requires(not (u'-->' in t))
    c = u'<!--' + t + u'-->'
    d = {'data': u'<a>x' + c + u'y</a>', 'before': c + u'<a>xy</a>', 'after': u'<a>xy</a>' + c}[where]
    s = t + u'-'
    bad = disj(u'\x01' in t, *[conj(s[i] == u'-', s[i + 1] == u'-') for i in range(len(t))])
    if bad:
        ensures(refused(d), 'refused')
    else:
        ensures(parse(d).GetValue() == u'xy', 'dropped')


@lemma(_use=USE, t=Uni(0, 4, ((32, 32), (62, 63), (97, 97), (60, 60))), where=OneOf('data', 'before', 'after'), _bounded='instructions of up to 4 characters')
def instructions(t, where):
    """a processing instruction ends at the first ?>"""
    requires(not (u'?>' in t))
    c = u'<?b ' + t + u'?>'
    d = {'data': u'<a>x' + c + u'y</a>', 'before': c + u'<a>xy</a>', 'after': u'<a>xy</a>' + c}[where]
    p = read(d)
    ensures(p.doc.root.GetValue() == u'xy', 'not data')


@lemma(_use=USE, d=OneOf(u'<a>x<?b?>y</a>', u'<?b?><a>xy</a>', u'<?xml-b c?><a>xy</a>', u'<?xmlb?><a>xy</a>', u'<a>x<?xml-b?>y</a>', u'<a>x<?b ??>y</a>', u'<a>xy</a><?b ??>', u'<?xml version="1.0"?><?b?><a>xy</a>', u'<a>x<?b  ?>y</a>', u'<a>x<!---->y</a>', u'<a>x<!-- - -->y</a>'))
def accepted(d):
    """well-formed documents"""
    ensures(parse(d).GetValue() == u'xy', 'accepted')


DOCS = [u'<?xml version="1.0" encoding="UTF-8" standalone="yes"?><!-- b --><a b="c" d=\'e\'>f<g/>&lt;<![CDATA[h]]><?i j?><k>l</k></a>', u'<!DOCTYPE a [<!ENTITY b "c"><!ELEMENT a ANY><!ATTLIST a d CDATA #IMPLIED>]><a>&b;</a>']


@lemma(_use=['k_start', 'k_name'], d=OneOf(*DOCS), n=OneOf(*range(200)))
def prefixes(d, n):
    """a document that breaks off is refused"""
    requires(n < len(d))
    ensures(refused(d[:n]), 'refused')


@lemma(_use=['k_start', 'k_name'], d=OneOf(u'', u' ', u'x', u'<', u'<>', u'</a>', u'<a>', u'<a></b>', u'<a><b></a></b>', u'<a/><b/>', u'<a/>x', u'x<a/>', u'<a b/>', u'<a b=c/>', u'<a b="c/>', u'<a b="c"d="e"/>', u'<a b="c" b="d"/>', u'< a/>', u'<a></ a>', u'<1/>', u'<-a/>', u'<a><!b></a>', u'<a><![CDATA[x]]</a>', u'<a><![cdata[x]]></a>', u'<a/ >',
               u'<a b="<"/>', u"<a b=\"c'/>", u'<a>&b;</a>', u'<?xml version="1.0"?>', u' <?xml version="1.0"?><a/>', u'<a><?xml version="1.0"?></a>', u'<a><?XML b?></a>', u'<?xml?><a/>', u'<?xml version="2.0"?><a/>', u'<?xml version="1.0" standalone="maybe"?><a/>', u'<?xml encoding="UTF-8"?><a/>',
               u'<?xml version="1.0" standalone="yes" encoding="UTF-8"?><a/>', u'<?xml version="1.0"encoding="UTF-8"?><a/>', u'<!DOCTYPE a><!DOCTYPE a><a/>', u'<a/><!DOCTYPE a>', u'<!doctype a><a/>', u'<a><?b</a>', u'<a><? b?></a>', u'<a><!-- b --', u'<a/><!-- b', u'<a/><?b', u'<a/>&amp;', u'<a/><![CDATA[]]>', u'<a>]]></a>'))
def malformed(d):
    """what is not well-formed is refused"""
    ensures(refused(d), 'refused')


# ---- entities and attribute lists of the internal subset ----------------------------------
ET = ((10, 10), (32, 32), (39, 39), (62, 62), (97, 97))


def spaced(t):
    return u''.join([u' ' if c in u'\t\n\r' else c for c in t])


@lemma(_use=['k_start', 'k_name'], t=Uni(0, 2, ET), u=Uni(0, 1, ET), _bounded='replacement texts of up to 2 characters')
def general_entities(t, u):
    """an internal entity stands for its replacement text, wherever it is declared from"""
    e = parse(u'<!DOCTYPE a [<!ENTITY e "' + t + u'&f;' + t + u'"><!ENTITY f "' + u + u'"><!ENTITY e "no"><!ENTITY f "no">]><a b="x&e;y" c=\'&f;\'>x&e;y</a>')
    ensures(e.GetValue() == u'x' + t + u + t + u'y', 'data')
    ensures(e.GetAttribute(u'b') == u'x' + spaced(t + u + t) + u'y', 'an attribute')
    ensures(e.GetAttribute(u'c') == spaced(u), 'a quote is data')


@lemma(_use=['k_start', 'k_name'], d=OneOf((u'<!ENTITY e "&#60;b/>">', u'&e;', u'<b>'), (u'<!ENTITY e "&#38;#60;">', u'&e;', u'<'), (u'<!ENTITY e "&#x26;amp;">', u'&e;', u'&'), (u'<!ENTITY e "&amp;">', u'&e;', u'&'), (u'<!ENTITY e "<b>x</b>">', u'&e;', u'<b>x'), (u'<!ENTITY e "<![CDATA[<]]>">', u'&e;', u'<'),
                                                 (u'<!ENTITY e "<!-- - -->x">', u'&e;', u'x'), (u'<!ENTITY e "">', u'&e;', u''), (u'<!ENTITY e "&#37;">', u'&e;', u'%'), (u"<!ENTITY e '\"'>", u'&e;', u'"'), (u'<!ENTITY lt "&#38;#60;">', u'&lt;', u'<')))
def markup_entities(d):
    """replacement text is parsed where it is referred to"""
    e = parse(u'<!DOCTYPE a [' + d[0] + u']><a>' + d[1] + u'</a>')
    r = []
    for c in e.GetChildren():
        if type(c) in (unicode, str):
            r.append(c)
        else:
            r.append(u'<' + c.GetXMLName() + u'>' + c.GetValue())
    ensures(u''.join(r) == d[2], 'the content')


@lemma(_use=['k_start', 'k_name'], d=OneOf((u'<!ENTITY e "&e;">', u'&e;'), (u'<!ENTITY e "&f;"><!ENTITY f "&e;">', u'&e;'), (u'<!ENTITY e "x&f;y"><!ENTITY f "x&e;y">', u'&f;'), (u'<!ENTITY e "<b>">', u'&e;</b>'), (u'<!ENTITY e "</b>">', u'<b>&e;'), (u'<!ENTITY e "</a><a>">', u'&e;'),
                                                 (u'<!ENTITY e "&#38;">', u'&e;'), (u'<!ENTITY e "&#60;">', u'&e;'), (u'<!ENTITY e "]]>">', u'&e;'), (u'<!ENTITY e "x">', u'&f;'), (u'', u'&e;')))
def bad_entities(d):
    """recursion and replacement text that is not well-formed content are refused"""
    ensures(refused(u'<!DOCTYPE a [' + d[0] + u']><a>' + d[1] + u'</a>'), 'refused')


@lemma(_use=['k_start', 'k_name'], d=OneOf((u'<!ENTITY e "<!--">', u'&e;-->'), (u'<!ENTITY e "<![CDATA[">', u'&e;]]>'), (u'<!ENTITY e "<b">', u'&e;/>'), (u'<!ENTITY e "&#60;">', u'&e;b/>')))
def spanning(d):
    """markup that starts in an entity and ends outside it is refused"""
    ensures(refused(u'<!DOCTYPE a [' + d[0] + u']><a>' + d[1] + u'</a>'), 'markup that spans entities is refused')


@lemma(_use=['k_start', 'k_name'], d=OneOf(u'<!ENTITY e "&e;">', u'<!ENTITY e "x&f;"><!ENTITY f "&e;y">', u'<!ENTITY e "<b/>">', u'<!ENTITY e "&#60;">', u'<!ENTITY e "&#38;">', u'<!ENTITY e "x', u'<!ENTITY e x>', u'<!ENTITY e"x">', u'<!ENTITY "x">', u'<!ENTITY e "&x">', u'<!ENTITY e "%x">', u'<!ENTITY e "&#0;">'))
def bad_values(d):
    """what an attribute value cannot refer to"""
    ensures(refused(u'<!DOCTYPE a [' + d + u']><a b="&e;"/>'), 'refused')


@lemma(_use=['k_start', 'k_name'], ty=OneOf(u'CDATA', u'NMTOKENS', u'NMTOKEN', u'IDREFS', u'(x|y)', u'ENTITY'), how=OneOf(u'', u'#FIXED '), t=Uni(0, 3, ((10, 10), (32, 32), (120, 121))), _bounded='values of up to 3 characters')
def attribute_lists(ty, how, t):
    """defaults, and normalization by type"""
    v = spaced(t)
    if ty != u'CDATA':
        v = u' '.join([w for w in v.split(u' ') if w])
    dtd = u'<!DOCTYPE a [<!ATTLIST a b ' + ty + u' ' + how + u'"' + t + u'" b CDATA "no"><!ATTLIST a b CDATA "no" c CDATA #IMPLIED>]>'
    e = parse(dtd + u'<a/>')
    ensures(e.GetAttribute(u'b') == v, 'the default')
    ensures(raises(KeyError, e.GetAttribute, u'c'), 'no default')
    f = parse(dtd + u'<a b="' + t + u'" c="' + t + u'"/>')
    ensures(f.GetAttribute(u'b') == v, 'by its type')
    ensures(f.GetAttribute(u'c') == spaced(t), 'CDATA')


# ---- trees --------------------------------------------------------------------------------
def shape(e):
    """name, attribute b and content of an element, adjacent data joined"""
    try:
        b = e.GetAttribute(u'b')
    except KeyError:
        b = None
    r = []
    for c in e.GetChildren():
        if type(c) in (unicode, str):
            if r and type(r[-1]) is unicode:
                r[-1] = r[-1] + c
            elif c:
                r.append(unicode(c))
        else:
            r.append(shape(c))
    return (e.GetXMLName(), b, r)


def written(e, seven=False):
    return u''.join(e.GenerateXML(xml.EscapeCharData7 if seven else xml.EscapeCharData))


DT = ((9, 10), (13, 13), (32, 32), (38, 38), (60, 60), (97, 97), (233, 233))


def tree(b, t, u, n):
    e = Element(None, u'a')
    if b is not None:
        e.SetAttribute(u'b', b)
    e.AddData(t)
    if n != 'none':
        f = e.ChildElement(Element, u'c')
        if n != 'empty':
            f.AddData(u)
        if n == 'deep':
            g = f.ChildElement(Element, u'd')
            g.SetAttribute(u'b', u)
        e.AddData(u)
    return e


@lemma(_use=USE, b=Opt(Uni(0, 1, DT)), t=Uni(0, 2, DT), u=Uni(0, 1, DT), n=OneOf('none', 'empty', 'deep') if QUICK else OneOf('none', 'empty', 'data', 'deep'), seven=Bool(), _bounded='data of up to 2 characters (1 in quick runs)')
def trees(b, t, u, n, seven):
    """a tree whose space is preserved reads back the same"""
    requires(not QUICK or (b is None) == seven)
    requires(not QUICK or len(t) < 2)
    e = tree(b, t, u, n)
    e.SetSpace(u'preserve')
    ensures(same(shape(parse(written(e, seven).strip(u'\n'))), shape(e)), 'the tree')


WT = ((10, 10), (32, 32), (38, 38), (97, 97))


@lemma(_use=USE, t=Uni(0, 3, WT), sp=Tuple(OneOf(None, u'preserve', u'default'), OneOf(None, u'preserve', u'default'), OneOf(None, u'preserve', u'default')), _bounded='data of up to 3 characters (2 in quick runs), three levels')
def preserved(t, sp):
    """the nearest xml:space decides"""
    requires(not QUICK or len(t) < 3)
    e = f = Element(None, u'a')
    if sp[0]:
        e.SetSpace(sp[0])
    for x in sp[1:]:
        f = f.ChildElement(Element, u'c')
        if x:
            f.SetSpace(x)
    f.AddData(t)
    keep = (sp[2] or sp[1] or sp[0]) == u'preserve'
    d = parse(written(e).strip(u'\n'))
    for x in sp[1:]:
        d = [c for c in d.GetChildren() if not (type(c) in (unicode, str))][0]
    if keep:
        ensures(d.GetValue() == t or not t, 'kept')
    else:
        ensures(d.GetValue().strip(u' \n') == u' '.join([w for w in u' '.join(t.split(u'\n')).split(u' ') if w]), 'collapsed')


@lemma(_use=USE, t=Uni(0, 3, WT), u=Uni(0, 2, WT), n=OneOf('none', 'empty', 'deep'), _bounded='data of up to 3 characters (2 in quick runs)')
def space_collapses(t, u, n):
    """otherwise white space is collapsed, and nothing else changes"""
    requires(not QUICK or (len(t) < 3 and len(u) < 2))
    e = tree(None, t, u, n)
    s = written(e)
    f = parse(s.strip(u'\n'))
    ensures(collapsed(shape(f)) == collapsed(shape(e)), 'only space changes')
    ensures(written(f) == s, 'written again')


def collapsed(sh):
    r = []
    for c in sh[2]:
        if type(c) is tuple:
            r.append(collapsed(c))
        else:
            w = u''.join([d for d in c if not (d in u' \n')])
            if w:
                r.append(w)
    return (sh[0], sh[1], r)


BOM = [('\xef\xbb\xbf', 'utf-8', 3, True), ('\xfe\xff', 'utf_16_be', 2, True), ('\xff\xfe', 'utf_16_le', 2, True), ('', 'utf-8', 0, False)]


@lemma(m=OneOf(*BOM), t=Str(0, 4, ((0, 0), (60, 63), (97, 97))), _bounded='4 characters after the mark')
def byte_order_marks(m, t):
    """the byte order mark decides the encoding"""
    requires(t[:1] != '\0' and (t[1:2] != '\0'))
    e = XMLEntity(u'')
    from StringIO import StringIO
    s = StringIO(m[0] + t)
    e.AutoDetectEncoding(s)
    ensures(conj(e.encoding in (m[1], m[1].replace('-', '_')), e.bom == m[3]), 'the encoding')
    ensures(s.read() == (m[0] + t)[m[2]:], 'the mark is skipped')
