"""HTTP tokens, quoted strings, comments and parameters (RFC 2616 section 2.2, 3.6)."""
from xpy import *
import pyslet.rfc2616_core as http
from pyslet.rfc2616_core import QuoteString, DecodeQuotedString, WordParser, FormatParameters, CheckToken

MODULES = ['pyslet.rfc2616_core', 'pyslet.unicode5']
SEPS = '()<>@,;:\\"/[]?={} \t'
TOKEN = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS)
PLAINSEP = '<>@,;:\\/[]?={}'        # separators that are words of their own
ALL = chars([chr(i) for i in range(256)])
N = 3 if QUICK else 4
M = 1 if QUICK else 2
MALFORMED = (ValueError, http.SyntaxError)


def tokenchar(c):
    n = ord(c)
    return conj(33 <= n, n <= 126, neg(c in SEPS))


@lemma(c=Str(1, 1, LATIN1))
def classes(c):
    n = ord(c)
    ensures(iff(http.IsCTL(c), disj(n < 32, n == 127)), 'control characters')
    ensures(iff(http.IsCHAR(c), n < 128), 'ASCII characters')
    ensures(iff(http.IsDIGIT(c), conj(48 <= n, n <= 57)), 'digits')
    ensures(iff(http.IsALPHA(c), disj(conj(65 <= n, n <= 90), conj(97 <= n, n <= 122))), 'letters')
    ensures(iff(http.IsHEX(c), c in '0123456789abcdefABCDEF'), 'hex digits')
    ensures(iff(http.IsSEPARATOR(c), c in SEPS), 'separators')
    ensures(http.IsOCTET(c), 'octets')


@lemma(s=Str(0, 3, LATIN1), _bounded='strings of at most 3 characters')
def digit_strings(s):
    ensures(iff(http.IsDIGITS(s), conj(len(s) > 0, *[c in '0123456789' for c in s])), 'strings of digits')
    ensures(iff(http.IsHEXDIGITS(s), conj(len(s) > 0, *[c in '0123456789abcdefABCDEF' for c in s])), 'strings of hex digits')
    ensures(raises(ValueError, CheckToken, s) == neg(conj(*[tokenchar(c) for c in s])), 'tokens have no separators, controls or non-ASCII characters')


@lemma(s=Str(0, N, LATIN1), _bounded='strings of at most %d characters' % N)
def quote_roundtrip(s):
    q = QuoteString(s)
    ensures(DecodeQuotedString(q) == s, 'decoding inverts quoting')
    ensures(conj(q[0] == '"', q[len(q) - 1] == '"', len(q) >= 2), 'a quoted string is in double quotes')
    p = WordParser(q)
    ensures(p.ParseQuotedString() == s, 'the parser reads a quoted string back')
    ensures(p.cWord is None, 'a quoted string is one word')


@lemma(s=Str(0, M + 1, LATIN1), _bounded='strings of at most %d characters' % (M + 1))
def quote_token(s):
    """quoting only what is not a token"""
    q = QuoteString(s, force=False)
    if len(s) > 0:
        if conj(*[tokenchar(c) for c in s]):
            ensures(q == s, 'a token is left as it is')
    if conj(len(s) > 0, *[disj(tokenchar(c), ord(c) > 127) for c in s]):
        pass
    else:
        ensures(q == QuoteString(s), 'anything else is quoted')
    p = WordParser(q)
    r = p.ParseToken() if p.IsToken() else p.ParseQuotedString()
    ensures(r == s, 'the parser reads the value back')


NAMES = OneOf('a', 'Charset', 'x-Y')


@lemma(names=OneOf((), ('a',), ('Charset', 'a'), ('x-Y', 'a', 'Q')), v1=Str(0, M, LATIN1), v2=OneOf('', 'b', ' '), v3=Str(1, 1, LATIN1), space=OneOf(True, False), case=OneOf(True, False), _bounded='up to 3 parameters with values of up to %d characters' % M)
def params_roundtrip(names, v1, v2, v3, space, case):
    vals = (v1, v2, v3)
    d = {}
    for i in range(len(names)):
        d[names[i] if case else names[i].lower()] = [names[i], vals[i]]
    s = FormatParameters(d)
    p = WordParser(s, space)
    r = {}
    p.ParseParameters(r, ignoreAllSpace=space, caseSensitive=case)
    ensures(r == d, 'the parser reads formatted parameters back')
    ensures(p.cWord is None, 'all parameters are read')


@lemma(n1=Str(1, 1, TOKEN), v1=Str(1, 2, TOKEN), v2=Str(1, 1, TOKEN), sp=OneOf('', ' '), _bounded='values of at most 2 characters')
def params_q(n1, v1, v2, sp):
    """parameter parsing stops at the named parameter"""
    requires(conj(n1 != 'q', n1 != 'Q'))
    p = WordParser(';' + sp + n1 + '=' + v1 + sp + ';' + sp + 'Q=' + v2)
    r = {}
    p.ParseParameters(r, qMode='q')
    ensures(r == {n1.lower(): [n1, v1]}, 'the parameters before it')
    ensures(p.ParseSeparator(';'), 'rewound to before the parameter')
    ensures(p.ParseToken() == 'Q', 'the parameter is not consumed')


# ---- words -----------------------------------------------------------------------
def w_token(s):
    return ('t', s)


def w_sep(s):
    return ('s', s)


def w_quoted(s):
    return ('q', QuoteString(s))


def w_comment(s, t):
    return ('c', '(' + s + '(' + t + '))')


CT = tuple((i, i) for i in range(33, 127) if chr(i) not in '()\\')
WORD = Union(Make(w_token, Str(1, 1, TOKEN)), Make(w_sep, Str(1, 1, chars(PLAINSEP))), Make(w_quoted, Str(0, 1, LATIN1)), Make(w_comment, Str(0, 1, CT), Str(0, 1, CT)))


@lemma(words=List(WORD, 0, 2), gap=OneOf('', ' ', '\t\r\n '), edge=OneOf('', ' ', '\r\n\t'), _bounded='two words of a character')
def tokenize(words, gap, edge):
    requires(not QUICK or len(words) < 2 or (edge == '') == (gap != ''))
    s = edge
    first = True
    tight = False
    for k, w in words:
        if not first:
            s = s + gap
            if gap == '' and k == 't' and tight:
                skip()
        first = False
        tight = k == 't'
        s = s + w
    s = s + edge
    p = WordParser(s)
    ensures(p.words == [w for k, w in words], 'the words, without the space around them')


@lemma(s=Str(0, M + 1, LATIN1), _bounded='strings of at most %d characters' % (M + 1))
def any_words(s):
    """any text at all is tokenized or refused"""
    try:
        w = WordParser(s, ignoreSpace=False).words
    except MALFORMED:
        w = None
    if w is not None:
        ensures(conj(*[x is not None for x in w]), 'words are strings')
        if conj(*[neg(c in ' \t\r\n"(') for c in s]):
            ensures(''.join(w) == s, 'no text is lost')
            ensures(conj(*[neg(http.IsCTL(c)) for c in s]), 'control characters are refused')
    else:
        ensures(disj(*[disj(http.IsCTL(c), c in '"(') for c in s]), 'only malformed text is refused')


@lemma(s=Str(0, 2, ((32, 32), (35, 91), (93, 126))), _bounded='strings of at most 2 characters')
def unclosed(s):
    ensures(raises(MALFORMED, WordParser, '"' + s), 'an unclosed quoted string is refused')
    ensures(raises(MALFORMED, WordParser, '"' + s + '\\"'), 'an escaped quote does not close a quoted string')
    ensures(raises(MALFORMED, WordParser, '"' + s + '\\'), 'an incomplete escape is refused')
    ensures(raises(MALFORMED, WordParser, '((a)'), 'an unclosed comment is refused')
