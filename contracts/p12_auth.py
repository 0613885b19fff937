"""HTTP authentication: challenges are read as written, credentials go only where they belong."""
from xpy import *
from speclib import *
import pyslet.rfc2616 as http
import pyslet.rfc2616_core as core
import pyslet.rfc2617 as auth
import pyslet.rfc2396 as uri
from pyslet.rfc2616 import HTTPRequest, HTTPResponse, HTTPRequestManager
from pyslet.rfc2617 import Challenge, BasicChallenge, Credentials, BasicCredentials

MODULES = ['pyslet.rfc2617', 'pyslet.rfc2616', 'pyslet.rfc2616_core', 'pyslet.rfc2616_params', 'pyslet.rfc2616_headers', 'pyslet.rfc2396', 'pyslet.unicode5']
SEPS = '()<>@,;:\\"/[]?={} \t'
TOKEN = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS)
PRINT = ((32, 126),)
BYTES = ((0, 255),)
USER = ((0, 57), (59, 255))
SEG = ((ord('a'), ord('z')), (ord('.'), ord('.')))
WORD = ((ord('a'), ord('z')),)


class Manager(object):
    """stands for the queue of the request manager: records what is sent"""
    def __init__(self, credentials):
        self.inner = Inner(credentials)
        self.queue = []

    def QueueRequest(self, q):
        self.queue.append((str(q.requestURI), q.GetHeader('Authorization')))

    def FindCredentials(self, c):
        return find(self.inner, c)

    def FindCredentialsForURL(self, url):
        return find_url(self.inner, url)

    def RemoveCredentials(self, c):
        remove(self.inner, c)


class Inner(HTTPRequestManager):
    """a request manager with credentials and no network"""
    def __init__(self, credentials):
        self.managerLock = NoLock()
        self.credentials = []
        for c in credentials:
            self.AddCredentials(c)


class NoLock(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def find(m, c):
    return m.FindCredentials(c)


def find_url(m, u):
    return m.FindCredentialsForURL(u)


def remove(m, c):
    m.RemoveCredentials(c)


def root(s):
    return uri.URIFactory.URI(s).GetCanonicalRoot()


def creds(space, realm=None, user='u', password='p'):
    c = BasicCredentials()
    c.protectionSpace = space
    c.realm = realm
    c.userid = user
    c.password = password
    return c


def refused(f, *a):
    try:
        f(*a)
    except (core.SyntaxError, ValueError):
        return True
    return False


def s_prefix(p, path):
    """segment-wise: an empty segment of the prefix stands for any segment"""
    if len(p) > len(path):
        return False
    return conj(*[disj(a == '', a == b) for a, b in zip(p, path)])


# ---- challenges -------------------------------------------------------------------------
PARAM = Tuple(Str(1, 1, TOKEN), Str(0, 2, PRINT), Bool()) if QUICK else Tuple(Str(1, 2, TOKEN), Str(0, 2, PRINT), Bool())


@lemma(scheme=Str(1, 1, TOKEN), params=List(PARAM, 0, 1) if QUICK else List(PARAM, 0, 2), basic=Bool(), sp=OneOf('', ' '), _bounded='parameter names and values of at most 2 characters')
def challenge_text(scheme, params, basic, sp):
    """reading a challenge as it is written"""
    if QUICK:
        requires(sp == '' or params == [])
    c = BasicChallenge(*params) if basic else Challenge(scheme, *params)
    s = str(c)
    d = Challenge.FromString(sp + s + sp)
    ensures(d.scheme == ('Basic' if basic else scheme), 'the scheme')
    ensures(isinstance(d, BasicChallenge) == basic, 'the class')
    ensures(len(d) == len(c), 'the number of parameters')
    ensures(conj(*[conj(a[0] == b[0], a[1] == b[1]) for a, b in zip(d, c)]), 'the parameters in order')
    ensures(str(d) == s, 'writing gives the same text')


@lemma(name=OneOf('realm', 'Realm', 'REALM'), value=Str(1, 2, PRINT), other=Str(1, 5, WORD))
def challenge_realm(name, value, other):
    """a challenge without a realm has the default one"""
    requires(other != 'realm')
    c = BasicChallenge((name, value, True), (other, 'x', False))
    ensures(c['realm'] == value, 'the realm given')
    ensures(conj(len(c) == 2, 'realm' in c, 'REALM' in c), 'nothing added')
    d = BasicChallenge((other, 'x', False))
    ensures(conj(d['realm'] == 'Default', 'realm' in d, len(d) == 2), 'the default realm')
    ensures(d[1] == ('realm', 'Default', True), 'is a parameter')


def s_find(params, key):
    low = key.lower()
    for n, v in params:
        if n == key:
            return v
    for n, v in params:
        if n.lower() == low:
            return v
    return None


@lemma(a=Str(1, 2, TOKEN), b=Str(1, 2, TOKEN), key=Str(1, 2, TOKEN))
def challenge_lookup(a, b, key):
    """parameters are found by name, by case first"""
    requires(a != b)
    c = Challenge('x', (a, '1', False), (b, '2', False))
    params = [(a, '1'), (b, '2')]
    exact = [v for n, v in params if n == key]
    loose = [v for n, v in params if n.lower() == key.lower()]
    ensures(iff(key in c, len(loose) > 0), 'contains')
    if not loose:
        ensures(raises(KeyError, c.__getitem__, key), 'unknown parameter')
    elif exact:
        ensures(c[key] == exact[0], 'the exact name first')
    else:
        ensures(c[key] in loose, 'then the name in any case')


S1 = OneOf('Basic', 'basic', 'X', 'Digest')
LP = OneOf('', ' a=b', ' realm="x, y=z"', ' a=b, c="d\\"e"', ' a = b ,c=d')
LISTED = {'': [], ' a=b': [('a', 'b')], ' realm="x, y=z"': [('realm', 'x, y=z')], ' a=b, c="d\\"e"': [('a', 'b'), ('c', 'd"e')], ' a = b ,c=d': [('a', 'b'), ('c', 'd')]}


@lemma(items=List(Tuple(S1, LP), 1, 2), sep=OneOf(', ', ',', ' , ', ',,'), lead=OneOf('', ' ', ', '))
def challenge_list(items, sep, lead):
    """a list of challenges keeps each challenge with its own parameters"""
    text = lead + sep.join([s + p for s, p in items])
    cs = Challenge.ListFromString(text)
    ensures(len(cs) == len(items), 'the number of challenges')
    for c, (s, p) in zip(cs, items):
        ensures(c.scheme == ('Basic' if s == 'basic' else s), 'the scheme')
        want = LISTED[p]
        if 'realm' not in [n for n, v in want]:
            want = want + [('realm', 'Default')]
        ensures([(x[0], x[1]) for x in c] == want, 'its parameters')


@lemma(text=OneOf('', ' ', '"x"', 'X a=', 'X a="', 'X a="b', '=', 'X a=b c=d', 'X "y"', 'X a=b;c=d', 'X a=b, =', 'X, "y"'))
def challenge_malformed(text):
    """malformed challenges"""
    ensures(refused(Challenge.FromString, text), 'is refused')
    if text.strip():
        ensures(refused(Challenge.ListFromString, text), 'also in a list')


# ---- Basic credentials ------------------------------------------------------------------
@lemma(user=Str(0, 2, USER) if QUICK else Str(0, 4, USER), password=Str(0, 2, BYTES) if QUICK else Str(0, 4, BYTES), name=OneOf('Basic', 'basic', 'BASIC'), _bounded='user names and passwords of at most 4 octets (2 in quick runs)')
def basic_text(user, password, name):
    """Basic credentials are read as written"""
    c = creds(None, None, user, password)
    s = str(c)
    ensures(s[:6] == 'Basic ', 'the scheme')
    d = Credentials.FromHTTPString(name + s[5:])
    ensures(isinstance(d, BasicCredentials), 'the class')
    ensures(conj(d.userid == user, d.password == password), 'the user and the password')
    ensures(conj(d.protectionSpace is None, d.realm is None, len(d.pathPrefixes) == 0), 'good nowhere yet')


@lemma(text=OneOf('', 'abc', 'dXNlcg==', 'd', '=', 'dXNlcjpQ!'))
def basic_malformed(text):
    """credentials that have no user and password"""
    c = BasicCredentials()
    if text != 'dXNlcjpQ!':
        ensures(raises(core.SyntaxError, c.SetBasicCredentials, text), 'is a syntax error')
        ensures(conj(c.userid is None, c.password is None), 'nothing set')


SPACE = OneOf(None, 'http://a.com', 'http://a.com:8080', 'https://a.com', 'http://b.com')


@lemma(s1=OneOf('Basic', 'Digest', 'X'), s2=OneOf('Basic', 'Digest', 'X'), p1=SPACE, p2=SPACE, realm=Opt(Str(0, 2, PRINT)), other=Str(0, 2, PRINT))
def match_challenge(s1, s2, p1, p2, realm, other):
    """credentials answer a challenge of their scheme, protection space and realm"""
    if QUICK:
        requires(p1 != 'http://b.com' and s2 != 'X')
    c = BasicCredentials()
    c.scheme = s1
    c.protectionSpace = root(p1) if p1 else None
    c.realm = realm
    h = Challenge(s2, ('realm', other, True))
    h.protectionSpace = root(p2) if p2 else None
    want = conj(s1 == s2, p1 == p2, disj(realm is None, realm == '', realm == other))
    ensures(iff(c.MatchChallenge(h), want), 'match')
    ensures(iff(c.Match(h), want), 'match without a URL')


HOST = Str(1, 2, ((ord('a'), ord('z')), (ord('A'), ord('Z'))))
PORTS = OneOf('', ':', ':80', ':443', ':8080', ':080')


def s_port(sch, p):
    p = p[1:]
    if p == '':
        return 443 if sch == 'https' else 80
    return int(p)


@lemma(s1=OneOf('http', 'https', 'HTTP'), h1=HOST, p1=PORTS, s2=OneOf('http', 'https'), h2=HOST, p2=PORTS, path=OneOf('', '/', '/x', '/x?q'))
def test_url(s1, h1, p1, s2, h2, p2, path):
    """credentials are volunteered only to their own server"""
    if QUICK:
        requires(path == '/x' or (p1 == '' and p2 == ''))
        requires(conj(len(h1) == 1, len(h2) == 1))
    c = creds(root(s2 + '://' + h2 + p2))
    u = uri.URIFactory.URI(s1 + '://' + h1 + p1 + path)
    ensures(not c.TestURL(u), 'not before they were accepted somewhere')
    c.AddSuccessPath('')
    same = conj(s1.lower() == s2, h1.lower() == h2.lower(), s_port(s1.lower(), p1) == s_port(s2, p2))
    ensures(iff(c.TestURL(u), same), 'only to the same scheme, host and port')
    c.pathPrefixes = [['y']]
    ensures(not c.TestURL(u), 'only for an accepted path')
    h = BasicChallenge()
    h.protectionSpace = u.GetCanonicalRoot()
    ensures(iff(c.MatchChallenge(h), same), 'only answering the same server')


@lemma(u=OneOf('x', '/x', '../x', '', '//h/x'))
def test_url_relative(u):
    ensures(raises(ValueError, creds(root('http://a')).TestURL, uri.URIFactory.URI(u)), 'a relative URL is refused')
    ensures(raises(ValueError, creds(root('http://a')).Match), 'something must be matched')


@lemma(p=List(Str(0, 2, WORD), 0, 3), path=List(Str(0, 2, WORD), 0, 3), _bounded='at most 3 segments of at most 2 characters')
def is_prefix(p, path):
    """a prefix is made of whole segments"""
    ensures(iff(BasicCredentials().IsPrefix(p, path), s_prefix(p, path)), 'prefix')


SEGS = List(Str(0, 1, WORD), 0, 2)


def join(segs):
    return ''.join(['/' + s for s in segs])


@lemma(old=List(SEGS, 0, 2), new=SEGS if QUICK else List(Str(0, 1, WORD), 0, 3), probe=SEGS if QUICK else List(Str(0, 1, WORD), 0, 3), _bounded='at most 2 prefixes, paths of at most 2 segments of one character')
def add_success(old, new, probe):
    """accepting a path"""
    if QUICK:
        requires(len(probe) == 2 or len(old) < 2)
    if len(old) == 2:
        requires(neg(s_prefix(old[0], old[1])))
        requires(neg(s_prefix(old[1], old[0])))
    c = BasicCredentials()
    c.pathPrefixes = [list(p) for p in old]
    before = c.TestPath(join(probe))
    c.AddSuccessPath(join(new))
    after = c.TestPath(join(probe))
    ensures(iff(after, disj(before, s_prefix(new, probe))), 'adds what starts with the path, and nothing else')
    for i in range(len(c.pathPrefixes)):
        for j in range(len(c.pathPrefixes)):
            if i != j:
                ensures(neg(s_prefix(c.pathPrefixes[i], c.pathPrefixes[j])), 'no prefix is within another')


@lemma(seg=Str(1, 1, WORD), dots=OneOf('/..', '/x/../..', '/./..', '/../x/..', '/..//..'), tail=OneOf('', '/', '/y'))
def dot_segments(seg, dots, tail):
    """dot segments do not lead out of the accepted path"""
    requires(seg != 'x')
    c = BasicCredentials()
    c.AddSuccessPath('/' + seg)
    path = '/' + seg + dots + tail
    leaves = dots in ('/..', '/x/../..', '/./..')
    if leaves:
        ensures(not c.TestPath(path) or (tail == '/y' and seg == 'y'), 'a path that leaves is not accepted')
    ensures(c.TestPath('/x/../' + seg + '/z'), 'a path that comes back is accepted')
    ensures(c.TestPath('/./' + seg), 'a path through . is accepted')


# ---- the request manager ----------------------------------------------------------------
@lemma(spaces=List(OneOf('http://a.com', 'http://b.com', 'https://a.com'), 0, 3), realms=Tuple(OneOf(None, 'r', 's'), OneOf(None, 'r', 's'), OneOf('r')), at=OneOf('http://a.com', 'https://a.com'), realm=OneOf('r', 's'), gone=OneOf(0, 1, 2, 3))
def find_credentials(spaces, realms, at, realm, gone):
    """the first credentials that match are used, until they are removed"""
    requires(gone <= len(spaces))
    if QUICK:
        requires(at == 'http://a.com' and realm == 'r' and gone < 2 and len(spaces) < 3)
    cs = [creds(root(s), r) for s, r in zip(spaces, realms)]
    m = Inner(cs)
    h = BasicChallenge(('realm', realm, True))
    h.protectionSpace = root(at)
    ok = [c for c, s, r in zip(cs, spaces, realms) if s == at and (r is None or r == realm)]
    ensures(find(m, h) is (ok[0] if ok else None), 'the first match')
    ensures(find_url(m, uri.URIFactory.URI(at + '/p')) is None, 'not volunteered')
    for c in cs:
        c.AddSuccessPath('/p')
    urlok = [c for c, s in zip(cs, spaces) if s == at]
    ensures(find_url(m, uri.URIFactory.URI(at + '/p/q')) is (urlok[0] if urlok else None), 'volunteered once accepted')
    x = cs[gone] if gone < len(cs) else creds(root(at))
    remove(m, x)
    left = [c for c in ok if c is not x]
    ensures(find(m, h) is (left[0] if left else None), 'removed credentials are not used')
    ensures(len(m.credentials) == len([c for c in cs if c is not x]), 'only they are removed')


def answered(q, status, *headers):
    """the request got this response"""
    r = HTTPResponse(q)
    r.status = status
    for n, v in headers:
        r.SetHeader(n, v)
    q.SetResponse(r)
    q.connection = None
    q.ResponseFinished()


CHALLENGES = OneOf(None, 'Basic realm="r"', 'Basic realm="s"', 'Digest realm="r"', 'Digest realm="r", Basic realm="r"', 'Basic realm="r", Basic realm="r"', 'Basic realm="r", Digest realm="r"', 'Basic realm="s", Basic realm="r", X realm="r"')


@lemma(at=OneOf('http://a.com/p', 'http://A.com:80/p?q', 'http://a.com:81/p', 'https://a.com/p', 'http://b.com/p'), ch=CHALLENGES, then=OneOf(200, 204, 401, 404))
def challenged(at, ch, then):
    """a 401 response is answered once, with credentials for the server and the realm"""
    c = creds(root('http://a.com'), 'r')
    m = Manager([c])
    q = HTTPRequest(at)
    q.SetManager(m)
    q.ReadRequestHeader()
    ensures(not q.HasHeader('Authorization'), 'nothing is volunteered')
    www = [] if ch is None else [('WWW-Authenticate', ch)]
    answered(q, 401, *www)
    ok = at in ('http://a.com/p', 'http://A.com:80/p?q') and ch is not None and 'Basic realm="r"' in ch
    ensures(len(m.queue) == (1 if ok else 0), 'sent again once if there are credentials')
    if not ok:
        ensures(conj(not q.HasHeader('Authorization'), q.status == 401, q.done), 'else the response stands')
        return
    ensures(m.queue[0] == (at, 'Basic dTpw'), 'with the credentials, to the same URL')
    answered(q, then, *www)
    ensures(conj(len(m.queue) == 1, q.status == then, q.done), 'sent again only once')
    if then == 401:
        ensures(len(m.inner.credentials) == 0, 'refused credentials are removed')
        ensures(not c.TestURL(uri.URIFactory.URI(at)), 'and not accepted')
    else:
        ensures(c.TestURL(uri.URIFactory.URI(at)), 'accepted credentials are remembered for the path')
        q2 = HTTPRequest('http://a.com/p/x')
        q2.SetManager(m)
        q2.ReadRequestHeader()
        ensures(q2.GetHeader('Authorization') == 'Basic dTpw', 'and volunteered below it')
        q3 = HTTPRequest('http://a.com/')
        q3.SetManager(m)
        q3.ReadRequestHeader()
        ensures(not q3.HasHeader('Authorization'), 'not above it')


@lemma(at=OneOf('http://a.com/p', 'http://a.com/p/q'), to=OneOf('http://a.com/p/y', '/p/z', 'z', 'http://a.com:80/p', 'http://A.COM/p', 'http://b.com/p', 'http://b.com/', 'http://a.com:81/p', 'https://a.com/p', 'http://a.com.b/p', 'https://a.com:80/p'), status=OneOf(300, 301, 302, 303, 307), manual=Bool())
def redirected(at, to, status, manual):
    """credentials do not follow a redirect to another server"""
    c = creds(root('http://a.com'), 'r')
    c.AddSuccessPath('/p')
    m = Manager([c])
    q = HTTPRequest(at)
    q.SetManager(m)
    if manual:
        q.SetHeader('Authorization', 'Basic eDp5')
    q.ReadRequestHeader()
    sent = 'Basic eDp5' if manual else 'Basic dTpw'
    ensures(q.GetHeader('Authorization') == sent, 'volunteered')
    answered(q, status, ('Location', to))
    ensures(len(m.queue) == 1, 'redirected')
    away = '//' in to and root(to) != root(at)
    q.ReadRequestHeader()
    if away:
        ensures(not q.HasHeader('Authorization'), 'no credentials are sent to another server')
    elif '/p' in to:
        ensures(q.GetHeader('Authorization') == sent, 'they are still sent to the same server')
