"""URI references: splitting, resolving and making relative (RFC 2396)."""
from xpy import *
import pyslet.rfc2396 as uri
from pyslet.rfc2396 import URI, ServerBasedURL, FileURL, URIFactory, SplitAbsPath, SplitRelPath, NormalizeSegments, SplitServer, SplitPathSegment

MODULES = ['pyslet.rfc2396']
UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!~*'()"
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
DIGIT = '0123456789'
URIC = UNRESERVED + ';/?:@&=+$,'


def but(s, x):
    return chars([c for c in s if c not in x])


A = chars(ALPHA)
SCH = chars(ALPHA + DIGIT + '+-.')
SEG = but(URIC, '/?')                   # characters of path segments
SEG0 = but(URIC, '/?:')                 # ... of the first one of a relative path
AUTH = but(URIC, '/?')
QUERY = chars(URIC)
NM = 1 if QUICK else 2
LB = 'components of at most 2 characters (scheme 3, each path segment %d), at most 3 segments'


def join(segs):
    r = ''
    first = True
    for s in segs:
        r = r + ('' if first else '/') + s
        first = False
    return r


def text(scheme, authority, path, query, fragment):
    """putting the components together: RFC 2396 section 5.2, step 7"""
    r = ''
    if scheme is not None:
        r = r + scheme + ':'
    if authority is not None:
        r = r + '//' + authority
    r = r + path
    if query is not None:
        r = r + '?' + query
    if fragment is not None:
        r = r + '#' + fragment
    return r


def scheme_of(a, b):
    return a + b


@lemma(scheme=Opt(Make(scheme_of, Str(1, 1, A), Str(0, 2, SCH))), authority=Opt(Str(0, 1, AUTH)), segs=List(Str(0, NM, SEG), 0, 3), query=Opt(Str(0, 1, QUERY)), fragment=Opt(Str(0, 1, QUERY)), _bounded=LB % NM)
def split_absolute(scheme, authority, segs, query, fragment):
    """the components of a URI, or of a relative reference with an absolute path or authority"""
    if authority is None:
        requires(len(segs) > 0)
        requires(disj(len(segs) == 1, len(segs[0]) > 0))      # //x is an authority
    path = ''
    for s in segs:
        path = path + '/' + s
    t = text(scheme, authority, path, query, fragment)
    u = URI(t)
    ensures(u.scheme == scheme, 'scheme')
    ensures(u.authority == authority, 'authority')
    ensures(u.absPath == (path if path else None), 'absolute path')
    ensures(conj(u.relPath is None, u.opaquePart is None), 'no relative path or opaque part')
    ensures(u.query == query, 'query')
    ensures(u.fragment == fragment, 'fragment')
    ensures(str(u) == t, 'the URI is the text it was made from')
    ensures(u.IsAbsolute() == (scheme is not None), 'absolute if it has a scheme')
    ensures(SplitAbsPath(u.absPath) == segs, 'path segments')


@lemma(first=Str(0, 2, SEG0), segs=List(Str(0, NM, SEG), 0, 2), query=Opt(Str(0, 2, QUERY)), fragment=Opt(Str(0, 2, QUERY)), _bounded=LB % NM)
def split_relative(first, segs, query, fragment):
    """the components of a relative reference with a relative path"""
    requires(disj(len(segs) == 0, len(first) > 0))
    path = first
    for s in segs:
        path = path + '/' + s
    t = text(None, None, path, query, fragment)
    u = URI(t)
    ensures(conj(u.scheme is None, u.authority is None, u.absPath is None, u.opaquePart is None), 'only a relative path')
    ensures(u.relPath == path, 'relative path')
    ensures(u.query == query, 'query')
    ensures(u.fragment == fragment, 'fragment')
    ensures(str(u) == t, 'the URI is the text it was made from')
    ensures(not u.IsAbsolute(), 'relative')
    ensures(SplitRelPath(u.relPath) == [first] + segs, 'path segments')


@lemma(scheme=Make(scheme_of, Str(1, 1, A), Str(0, 2, SCH)), a=Str(1, 1, but(URIC, '/')), b=Str(0, 2, QUERY), fragment=Opt(Str(0, 2, QUERY)), _bounded='components of at most 3 characters')
def split_opaque(scheme, a, b, fragment):
    u = URI(text(scheme, None, a + b, None, fragment))
    ensures(conj(u.scheme == scheme, u.opaquePart == a + b, u.fragment == fragment), 'scheme and opaque part')
    ensures(conj(u.authority is None, u.absPath is None, u.relPath is None, u.query is None), 'an opaque URI has no path')


@lemma(s=Str(1, 3, chars(URIC)), t=Str(1, 1, but([chr(i) for i in range(256)], URIC + '#%')), r=Str(0, 1, LATIN1), _bounded='a bad character after at most 3 others')
def bad_character(s, t, r):
    ensures(raises(uri.URIException, URI, s + t + r), 'text with a character not allowed in URIs is refused')


# ---- the server part -----------------------------------------------------------
HOST = chars(ALPHA + DIGIT + '-.')
USER = but(URIC, '/?@:')


@lemma(user=Opt(Str(0, 2, USER)), pw=Opt(Str(0, 2, but(URIC, '/?@'))), host=Str(0, 2, HOST), port=Opt(Str(0, 2, chars(DIGIT))), _bounded='components of at most 2 characters')
def split_server(user, pw, host, port):
    requires(disj(user is not None, pw is None))
    userinfo = None
    if user is not None:
        userinfo = user + (':' + pw if pw is not None else '')
    t = ('' if userinfo is None else userinfo + '@') + host + ('' if port is None else ':' + port)
    ensures(SplitServer(t) == (userinfo, host, port), 'user, host and port')


@lemma(scheme=Make(scheme_of, Str(1, 1, A), Str(0, 1, SCH)), user=Opt(Str(0, 1, USER)), host=Str(1, 2, HOST), port=Opt(Str(0, 2, chars(DIGIT))), seg=Str(0, 1, SEG), query=Opt(Str(0, 1, QUERY)), _bounded='components of at most 2 characters')
def canonical_server(scheme, user, host, port, seg, query):
    """equivalent forms of a server based URL have the same canonical form"""
    auth = ('' if user is None else user + '@')
    t = text(scheme, auth + host + ('' if port is None else ':' + port), '/' + seg, query, None)
    c = ServerBasedURL(t).Canonicalize()
    p = ''
    if port:
        p = ':%i' % int(port)
    ensures(str(c) == text(scheme.lower(), auth + host.lower() + p, '/' + seg, query, None), 'scheme, host and port in standard form, nothing else changed')
    ensures(c.Match(URI(t)) == (str(c) == scheme.lower() + t[len(scheme):]), 'matching compares canonical forms')


@lemma(pchar=Str(0, 2, but(URIC, '/?;')), params=List(Str(0, 1, but(URIC, '/?;')), 0, 3), _bounded='up to 3 parameters')
def segment_params(pchar, params):
    s = pchar
    for p in params:
        s = s + ';' + p
    ensures(SplitPathSegment(s) == (pchar, params), 'segment and parameters')


# ---- resolving ------------------------------------------------------------------
def remove_dots(segs):
    """RFC 2396 section 5.2, step 6 (c) to (g); references above the root are kept"""
    out = []
    n = len(segs)
    for i in range(n):
        s = segs[i]
        if s == '.':
            if i == n - 1:
                out.append('')
        elif s == '..':
            if out and out[-1] != '..':
                out.pop()
                if i == n - 1:
                    out.append('')
            else:
                out.append('..')
                if i == n - 1:
                    out.append('')
        else:
            out.append(s)
    return out


NORM = Union(OneOf('.', '..', ''), Str(1, 1, but(URIC, '/?.')))


@lemma(segs=List(NORM, 0, 4 if QUICK else 5), _bounded='at most 4 (thorough: 5) segments')
def normalize(segs):
    r = list(segs)
    NormalizeSegments(r)
    ensures(r == remove_dots(segs), 'dot segments are removed')
    q = list(r)
    NormalizeSegments(q)
    ensures(q == r, 'normalising twice changes nothing')


RB = List(NORM, 1, 2)
RR = List(NORM, 1, 3)


@lemma(bsegs=RB, rsegs=RR, _bounded='base paths of 2 segments, relative paths of 3')
def resolve_path(bsegs, rsegs):
    """the path of a relative reference against a base with an absolute path"""
    requires(rsegs[0] != '')
    requires(conj(*[c != ':' for c in rsegs[0]]))
    u = URI(join(rsegs)).Resolve(URI('x://h/' + join(bsegs)))
    ensures(str(u) == 'x://h/' + join(remove_dots(bsegs[:-1] + rsegs)), 'merged path without dot segments')


@lemma(scheme=OneOf('x', None), auth=OneOf('h', None), bseg=NORM, rseg=NORM, bq=OneOf(None, 'q'), query=Opt(Str(0, 1, QUERY)), fragment=Opt(Str(0, 1, QUERY)), _bounded='paths of 2 segments')
def resolve_parts(scheme, auth, bseg, rseg, bq, query, fragment):
    """the other components"""
    requires(disj(rseg != '', query is not None))
    requires(rseg != ':')
    base = URI(text(scheme, auth, '/a/' + bseg, bq, 'f'))
    r = URI(text(None, None, rseg, query, fragment))
    u = r.Resolve(base)
    ensures(str(u) == text(scheme, auth, '/' + join(remove_dots(['a', rseg])), query, fragment), 'scheme and authority of the base, own query and fragment')


@lemma(scheme=OneOf('x', None), auth=OneOf('h', None), rauth=Opt(Str(0, 1, AUTH)), rsegs=List(NORM, 1, 2), query=Opt(Str(0, 1, QUERY)), fragment=Opt(Str(0, 1, QUERY)), rscheme=Opt(Str(1, 1, A)), _bounded='paths of 2 segments')
def resolve_absolute(scheme, auth, rauth, rsegs, query, fragment, rscheme):
    """a reference with its own absolute path, authority or scheme"""
    requires(disj(rauth is not None, len(rsegs) == 1, rsegs[0] != ''))
    base = URI(text(scheme, auth, '/b', 'q', None))
    t = text(rscheme, rauth, '/' + join(rsegs), query, fragment)
    u = URI(t).Resolve(base)
    if rscheme is not None:
        ensures(str(u) == t, 'an absolute reference stands for itself')
    elif rauth is not None:
        ensures(str(u) == text(scheme, rauth, '/' + join(rsegs), query, fragment), 'scheme from the base')
    else:
        ensures(str(u) == text(scheme, auth, '/' + join(rsegs), query, fragment), 'scheme and authority from the base')


@lemma(scheme=OneOf('x', None), auth=OneOf('h', None), bsegs=RB, bq=Opt(Str(0, 1, QUERY)), fragment=Opt(Str(0, 1, QUERY)), _bounded='base paths of 2 segments')
def resolve_same(scheme, auth, bsegs, bq, fragment):
    """the empty reference is the current document"""
    requires(disj(auth is not None, len(bsegs) == 1, bsegs[0] != ''))
    b = text(scheme, auth, '/' + join(bsegs), bq, None)
    u = URI(text(None, None, '', None, fragment)).Resolve(URI(b + '#z'))
    ensures(str(u) == text(None, None, b, None, fragment), 'the base with the new fragment')


# ---- making relative ----------------------------------------------------------------
def normal(segs):
    """no dot segments"""
    return conj(*[conj(s != '.', s != '..') for s in segs])


REL = Union(OneOf(''), Str(1, 1, but(URIC, '/?.')))
DIR = Union(OneOf('', 'a:', '..a'), Str(1, 1, but(URIC, '/?.')))


@lemma(usegs=List(REL, 1, 3), bsegs=List(REL, 1, 3), _bounded='paths of 3 segments')
def relative_path(usegs, bsegs):
    """resolving inverts making relative"""
    t = 'x://h/' + join(usegs)
    base = URI('x://h/' + join(bsegs))
    r = URI(t).Relative(base)
    ensures(conj(r.scheme is None, r.authority is None), 'the result is relative to the base')
    ensures(str(r.Resolve(base)) == t, 'resolving gives the URI back')


@lemma(scheme=OneOf('x', None), auth=OneOf('h', None), d=OneOf(None, 'a', '', 'c:'), useg=DIR, bsegs=List(OneOf('a', '', 'b:'), 1, 2), query=Opt(Str(0, 1, QUERY)), fragment=Opt(Str(0, 1, QUERY)), bq=OneOf(None, 'q'), _bounded='paths of 2 segments')
def relative_parts(scheme, auth, d, useg, bsegs, query, fragment, bq):
    """resolving inverts making relative: all components"""
    if QUICK:
        requires(disj(query is None, fragment is None))
        requires(disj(bq is None, d is None, d == 'a'))
    usegs = [useg] if d is None else [d, useg]
    requires(disj(auth is not None, conj(disj(len(usegs) == 1, usegs[0] != ''), disj(len(bsegs) == 1, bsegs[0] != ''))))
    t = text(scheme, auth, '/' + join(usegs), query, fragment)
    base = URI(text(scheme, auth, '/' + join(bsegs), bq, None))
    r = URI(t).Relative(base)
    ensures(conj(r.scheme is None, r.authority is None), 'the result is relative to the base')
    ensures(str(r.Resolve(base)) == t, 'resolving gives the URI back')


@lemma(s1=Str(1, 1, A), s2=Str(1, 1, A), a1=Str(1, 1, HOST), a2=Str(1, 1, HOST), seg=Str(1, 1, but(URIC, '/?.')), bseg=Str(1, 1, but(URIC, '/?.')))
def relative_other(s1, s2, a1, a2, seg, bseg):
    """URIs of another scheme or authority"""
    requires(disj(s1.lower() != s2.lower(), a1 != a2))
    t = text(s1, a1, '/' + seg, None, None)
    base = URI(text(s2, a2, '/' + bseg, None, None))
    r = URI(t).Relative(base)
    if s1.lower() != s2.lower():
        ensures(str(r) == t, 'another scheme: the URI itself')
    else:
        ensures(str(r) == t[2:], 'another authority: a network path')
