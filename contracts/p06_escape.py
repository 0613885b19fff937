"""Percent-escaping of URI data (RFC 2396)."""
from xpy import *
import pyslet.rfc2396 as uri
from pyslet.rfc2396 import EscapeData, UnescapeData, CanonicalizeData, ParseURIC, EncodeUnicodeURI, IsReserved, IsUnreserved, IsPathSegmentReserved, IsAuthorityReserved, IsQueryReserved

MODULES = ['pyslet.rfc2396']
N = 3 if QUICK else 5
BYTES = ((0, 255),)
B = 'strings of at most %d characters'
UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!~*'()"
RESERVED = ';/?:@&=+$,'
HEX = '0123456789ABCDEFabcdef'


def nothing(c):
    return False


FUNCS = {'default': IsReserved, 'path': IsPathSegmentReserved, 'authority': IsAuthorityReserved, 'query': IsQueryReserved, 'none': nothing}
ESCAPED = {'default': ';/?:@&=+$,', 'path': '/;=?', 'authority': ';:@?/', 'query': ';/?:@&=+,$', 'none': ''}


def escape(s, which):
    if which == 'default':
        return EscapeData(s)
    return EscapeData(s, FUNCS[which])


@lemma(c=Str(1, 1, BYTES))
def classes(c):
    """the character classes of RFC 2396"""
    n = ord(c)
    up = conj(65 <= n, n <= 90)
    low = conj(97 <= n, n <= 122)
    digit = conj(48 <= n, n <= 57)
    ensures(iff(uri.IsUpAlpha(c), up), 'upper case letters')
    ensures(iff(uri.IsLowAlpha(c), low), 'lower case letters')
    ensures(iff(uri.IsDigit(c), digit), 'digits')
    ensures(iff(uri.IsAlphaNum(c), disj(up, low, digit)), 'alphanumerics')
    ensures(iff(uri.IsUnreserved(c), c in UNRESERVED), 'unreserved characters')
    ensures(iff(uri.IsReserved(c), c in RESERVED), 'reserved characters')
    ensures(iff(uri.IsHex(c), c in HEX), 'hex digits')
    ensures(iff(uri.IsControl(c), disj(n < 32, n == 127)), 'control characters')
    ensures(iff(uri.IsSchemeChar(c), disj(up, low, digit, c in '+-.')), 'scheme characters')
    ensures(iff(uri.IsDelims(c), c in '<>#%"'), 'delimiters')
    ensures(iff(uri.IsUnwise(c), c in '{}|\\^[]`'), 'unwise characters')
    for k in ('path', 'authority', 'query'):
        ensures(iff(FUNCS[k](c), c in ESCAPED[k]), 'component reserved characters')
    ensures(conj(*[not f(None) for f in (uri.IsUpAlpha, uri.IsLowAlpha, uri.IsDigit, uri.IsReserved, uri.IsUnreserved, uri.IsHex)]), 'the end of the input is in no class')


@lemma(c=Str(1, 1, BYTES), which=OneOf('default', 'path', 'authority', 'query', 'none'))
def escape_char(c, which):
    """the escape of one character"""
    e = escape(c, which)
    if c in UNRESERVED:
        ensures(e == c, 'unreserved characters are not escaped')
    elif conj(c in RESERVED, not (c in ESCAPED[which])):
        ensures(e == c, 'characters not reserved in the component are not escaped')
    else:
        ensures(e == '%%%02X' % ord(c), 'any other character is %XX')


@lemma(s=Str(0, N, BYTES), which=OneOf('default', 'path', 'authority', 'query', 'none'), _bounded=B % N)
def escape_roundtrip(s, which):
    e = escape(s, which)
    ensures(UnescapeData(e) == s, 'unescaping inverts escaping')
    ensures(ParseURIC(e) == len(e), 'escaped data is made of URI characters')
    ensures(not [c for c in e if c in ESCAPED[which]], 'no character reserved in the component is left')


@lemma(s=Str(0, 2, BYTES), t=Str(0, 2, BYTES), _bounded='two strings of at most 2 characters')
def escape_concat(s, t):
    ensures(EscapeData(s + t) == EscapeData(s) + EscapeData(t), 'escaping works character by character')


@lemma(s=Str(0, 4, BYTES), _bounded=B % 4)
def unescape_plain(s):
    """text without any complete escape sequence"""
    for i in range(len(s) - 2):
        requires(neg(conj(s[i] == '%', s[i + 1] in HEX, s[i + 2] in HEX)))
    ensures(UnescapeData(s) == s, 'text without escapes is unchanged')


@lemma(a=Str(0, 2, BYTES), h=Str(1, 1, chars(HEX)), l=Str(1, 1, chars(HEX)), b=Str(0, 2, BYTES), _bounded='an escape between strings of at most 2 characters')
def unescape_one(a, h, l, b):
    requires(not [c for c in a if c == '%'])
    ensures(UnescapeData(a + '%' + h + l + b) == a + chr(int(h + l, 16)) + UnescapeData(b), 'an escape stands for the octet of its hex digits')


@lemma(s=Str(0, N, BYTES), which=OneOf('default', 'none'), _bounded=B % N)
def canonical(s, which):
    """canonical form of escaped data"""
    e = escape(s, which)
    c = CanonicalizeData(e)
    ensures(UnescapeData(c) == s, 'the canonical form stands for the same octets')
    ensures(CanonicalizeData(c) == c, 'the canonical form is canonical')
    ensures(c == e, 'escaped data is canonical')


@lemma(s=Str(0, 4, BYTES), _bounded=B % 4)
def canonical_any(s):
    """data whose escapes are complete, with any other characters"""
    for i in range(len(s)):
        if s[i] == '%':
            requires(i + 2 < len(s))
            requires(conj(s[i + 1] in HEX, s[i + 2] in HEX))
    c = CanonicalizeData(s)
    ensures(UnescapeData(c) == UnescapeData(s), 'the canonical form stands for the same octets')
    ensures(CanonicalizeData(c) == c, 'the canonical form is canonical')
    ensures(ParseURIC(c) == len(c), 'the canonical form is made of URI characters')


@lemma(c=Str(1, 1, chars(UNRESERVED)), low=Bool(), b=Str(0, 1, ((0, 36), (38, 255))))
def canonical_needless(c, low, b):
    """an unreserved character that is escaped although it need not be"""
    e = ('%%%02x' if low else '%%%02X') % ord(c)
    ensures(CanonicalizeData(e + b) == c + CanonicalizeData(b), 'needless escapes are removed')


@lemma(s=Uni(0, 2), _bounded='strings of at most 2 characters')
def unicode_uri(s):
    requires(not [c for c in s if ord(c) == 37])
    e = EncodeUnicodeURI(s)
    ensures(not [c for c in e if ord(c) > 127], 'a URI is made of ASCII octets')
    ensures(UnescapeData(e) == s.encode('utf-8'), 'non-ASCII characters are escaped UTF-8')


@lemma(s=Str(0, 4, BYTES), pos=OneOf(0, 1), _bounded=B % 4)
def uric(s, pos):
    """the number of URI characters is the longest prefix of URI characters and complete escapes"""
    n = ParseURIC(s, pos)
    i = pos
    while i < len(s):
        if disj(s[i] in UNRESERVED, s[i] in RESERVED):
            i += 1
        elif i + 2 < len(s) and conj(s[i] == '%', s[i + 1] in HEX, s[i + 2] in HEX):
            i += 3
        else:
            break
    ensures(n == max(i - pos, 0), 'the longest prefix of URI characters')
