"""HTTP/1.1 message framing: requests are written, and responses read, exactly as long as they are."""
from xpy import *
from speclib import *
import pyslet.rfc2616 as http
import pyslet.rfc2616_core as core
from pyslet.rfc2616 import HTTPRequest, HTTPResponse, HTTPMessage, Connection

MODULES = ['pyslet.rfc2616', 'pyslet.rfc2616_core', 'pyslet.rfc2616_params', 'pyslet.rfc2616_headers', 'pyslet.rfc2396', 'pyslet.unicode5']
SEPS = '()<>@,;:\\"/[]?={} \t'
TOKEN = tuple((i, i) for i in range(33, 127) if chr(i) not in SEPS)
BYTES = ((0, 255),)
CRLF = '\r\n'


class Manager(object):
    """stands for the request manager: no credentials"""
    def _NextId(self):
        return 1

    def FindCredentialsForURL(self, url):
        return None

    def FindCredentials(self, c):
        return None

    def _DeactivateConnection(self, c):
        pass


class Sock(object):
    """a socket that delivers the given pieces, one by one, then end of file"""
    def __init__(self, pieces):
        self.pieces = list(pieces)
        self.closed = False

    def recv(self, n):
        if not self.pieces:
            return ''
        p = self.pieces[0]
        del self.pieces[0]
        return p

    def shutdown(self, how):
        self.closed = True

    def close(self):
        self.closed = True


class Stream(object):
    """a stream on a string that reads at most a number of bytes at a time"""
    def __init__(self, data, most):
        self.data = data
        self.most = most

    def tell(self):
        return 0

    def read(self, n):
        k = min(n, self.most)
        r = self.data[:k]
        self.data = self.data[k:]
        return r


def connection(pieces, method='GET'):
    c = Connection(Manager(), 'http', 'h', 80)
    c.socket = Sock(pieces)
    q = HTTPRequest('http://h/x', method)
    q.autoRedirect = False
    q.SetManager(c.manager)
    c.response = HTTPResponse(q)
    return c, q, c.response


def deliver(c, pieces):
    """the number of receive calls until the response was complete, or None"""
    for i in range(len(pieces)):
        if c._RecvResponseData():
            return i + 1
    return None


def cut(text, cuts):
    """text cut at the given positions into non-empty pieces"""
    out, last = [], 0
    for k in cuts:
        if last < k and k < len(text):
            out.append(text[last:k])
            last = k
    out.append(text[last:])
    return out


# ---- responses --------------------------------------------------------------------------
CUT = OneOf(0, 1, 9, 16, 17, 18, 19)


def check_response(c, q, r, n, body, extra):
    ensures(q.resBody == body, 'the body received')
    ensures(n is not None, 'the response is complete at its last octet')
    ensures(''.join(c.recvBuffer) + ''.join(c.socket.pieces) == extra, 'nothing after the response is consumed')
    ensures(c.recvBufferSize == len(''.join(c.recvBuffer)), 'the size of the buffer is known')


@lemma(body=Str(0, 3, BYTES), extra=OneOf('', 'H'), a=CUT, b=OneOf(0, 1, 2, 3), name=OneOf('Content-Length', 'content-length'), _bounded='bodies of at most 3 octets, cut in at most 3 pieces')
def response_length(body, extra, a, b, name):
    """a response with a Content-Length"""
    head = 'HTTP/1.1 200 OK\r\n%s: %i\r\n\r\n' % (name, len(body))
    pieces = cut(head + body + extra, [a, len(head) + b])
    c, q, r = connection(pieces)
    n = deliver(c, pieces)
    check_response(c, q, r, n, body, extra)
    ensures(conj(r.status == 200, r.reason == 'OK'), 'the status line')
    ensures(r.GetContentLength() == len(body), 'the length')


def chunks(cs, ext, upper, trailer):
    t = ''
    for x in cs:
        t = t + (('%X' if upper else '%x') % len(x)) + ext + CRLF + x + CRLF
    return t + '0' + ext + CRLF + trailer + CRLF


@lemma(cs=List(Str(1, 2, BYTES), 0, 2), ext=OneOf('', ';a=b', ' '), trailer=OneOf('', 'X: y\r\n'), extra=OneOf('', 'H'), te=OneOf('chunked', 'Chunked', 'x, chunked'), a=OneOf(0, 1, 2, 3, 4, 5, 6, 7, 8), w=OneOf(0, 2), length=OneOf('', 'Content-Length: 1\r\n'), _bounded='at most 2 chunks of 2 octets, cut in at most 3 pieces')
def response_chunked(cs, ext, trailer, extra, te, a, w, length):
    """a chunked response"""
    if QUICK:
        requires(ext != ' ' and te != 'x, chunked')
        requires(length == '' or (trailer == '' and te == 'chunked'))
        requires(w == 0 or trailer == '')
    head = 'HTTP/1.1 200 OK\r\n%sTransfer-Encoding: %s\r\n\r\n' % (length, te)
    pieces = cut(head + chunks(cs, ext, te == 'chunked', trailer) + extra, [len(head) + a, len(head) + a + w])
    c, q, r = connection(pieces)
    n = deliver(c, pieces)
    check_response(c, q, r, n, ''.join(cs), extra)
    ensures(iff(r.HasHeader('x'), trailer != ''), 'the trailer is read')


@lemma(size=OneOf(9, 10, 15, 16, 17, 26, 255, 256), k=OneOf(0, 1, 2), c=Str(1, 1, BYTES))
def response_bigchunk(size, k, c):
    """the size of a chunk is hexadecimal"""
    body = c + 'x' * (size - 2) + c
    t = chunks([body], '', False, '')
    x, q, r = connection(['HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + t[:size + k], t[size + k:]])
    n = deliver(x, x.socket.pieces[:])
    check_response(x, q, r, n, body, '')


@lemma(body=Str(0, 2, BYTES), status=OneOf(200, 404, 204, 304, 101), method=OneOf('GET', 'HEAD'), length=OneOf('none', 'length', 'chunked', 'identity'), version=OneOf('1.0', '1.1'), a=OneOf(0, 1), _bounded='bodies of at most 2 octets')
def response_bodyless(body, status, method, length, version, a):
    """responses without a body, whatever the headers, and bodies that end with the connection"""
    requires(status != 101 or body == '')
    requires(length != 'length' or status == 200 or body == '')
    hd = {'none': '', 'length': 'Content-Length: %i\r\n' % 7, 'chunked': 'Transfer-Encoding: chunked\r\n', 'identity': 'Transfer-Encoding: identity\r\n'}[length]
    nobody = method == 'HEAD' or status in (204, 304, 101)
    requires(nobody or length in ('none', 'identity'))
    head = 'HTTP/%s %i Some Reason\r\n%s\r\n' % (version, status, hd)
    pieces = cut(head + body, [len(head) + a])
    c, q, r = connection(pieces, method)
    n = deliver(c, pieces)
    if nobody and status == 101:
        ensures(conj(r.status is None, q.status == 101), 'a 1xx response is followed by another')
    elif nobody:
        check_response(c, q, r, 1, '', body)
        ensures(n == 1, 'the response is complete after its headers')
        ensures(q.status == status, 'the status')
        ensures(r.reason == 'Some Reason', 'the reason')
    else:
        ensures(n is None, 'the response lasts as long as the connection')
        ensures(c._RecvResponseData(), 'the connection has ended')
        ensures(conj(q.resBody == body, q.status == status), 'the body is all that was received')
        ensures(c.response is None, 'the response is done')


@lemma(body=Str(0, 2, BYTES), hdr=OneOf('', 'Content-Length: 5\r\n'), a=OneOf(0, 10, 23, 24, 25, 26, 27, 42, 43, 44, 45, 46), _bounded='bodies of at most 2 octets')
def response_continue(body, hdr, a):
    """informational responses come before the response"""
    head = 'HTTP/1.1 100 Continue\r\n%s\r\n' % hdr
    text = head + 'HTTP/1.1 200 OK\r\nContent-Length: %i\r\n\r\n' % len(body) + body
    pieces = cut(text, [a])
    c, q, r = connection(pieces)
    n = deliver(c, pieces)
    check_response(c, q, r, n, body, '')
    ensures(q.status == 200, 'the status is that of the final response')


# ---- one step of reading a body, of any length ------------------------------------------------
class Reader(HTTPRequest):
    def __init__(self):
        self.method = 'GET'
        self.got = ''
        self.finished = 0

    def SetResponse(self, r):
        self.response = r

    def WriteResponse(self, data):
        self.got = self.got + data

    def ResponseFinished(self, err=None):
        self.finished = self.finished + 1


@lemma(length=Int(1, None), pos=Int(0, None), data=Str(1, 3, BYTES))
def read_length(length, pos, data):
    """in a body of any length, after any number of octets"""
    requires(pos < length)
    q = Reader()
    r = HTTPResponse(q)
    r.status = 200
    r.mode = r.RESP_DATA
    r.transferLength, r.transferPos = length, pos
    ensures(r.RecvNeeds() == length - pos, 'the octets still to come are asked for')
    r.RecvBytes(data)
    left = length - pos
    ensures(q.got == (data if left >= len(data) else data[:left]), 'the octets of the body, and no others, are delivered')
    ensures(iff(r.RecvNeeds() is None, left <= len(data)), 'the response is complete at its last octet')
    ensures(q.finished == (1 if left <= len(data) else 0), 'completion is signalled once')
    if left > len(data):
        ensures(conj(r.transferPos == pos + len(data), r.transferLength == length, r.mode == r.RESP_DATA), 'the position moves on')


@lemma(size=Int(1, None), pos=Int(0, None), data=Str(1, 3, BYTES))
def read_chunk(size, pos, data):
    """in a chunk of any size, after any number of octets, up to its CRLF"""
    requires(pos + len(data) <= size + 2)
    q = Reader()
    r = HTTPResponse(q)
    r.status = 200
    r.mode = r.RESP_CHUNK_DATA
    r.transferLength, r.transferPos = size + 2, pos
    ensures(r.RecvNeeds() == size + 2 - pos, 'the rest of the chunk is asked for')
    r.RecvBytes(data)
    left = size - pos
    ensures(q.got == (data if left >= len(data) else data[:left] if left > 0 else ''), 'the octets of the chunk, and no others, are delivered')
    ensures(iff(r.RecvNeeds() == CRLF, pos + len(data) == size + 2), 'the next chunk is read after the CRLF')
    ensures(q.finished == 0, 'the body is not complete')
    if r.RecvNeeds() != CRLF:
        ensures(conj(r.transferPos == pos + len(data), r.transferLength == size + 2, r.mode == r.RESP_CHUNK_DATA), 'the position moves on')


# ---- headers ---------------------------------------------------------------------------------
VALUE = Str(0, 2, ((33, 126), (128, 255)))


@lemma(name=Str(1, 2, TOKEN), v=VALUE, w=VALUE, fold=OneOf('', ' ', '\t'), case=OneOf(0, 1, 2), again=OneOf(True, False), _bounded='names and values of at most 2 characters')
def header_read(name, v, w, fold, case, again):
    """fields by name whatever the case, folded lines, repeated fields"""
    requires(name.lower() != 'te')
    text = 'HTTP/1.1 204 OK\r\n' + name + ':' + v + CRLF
    if fold:
        text = text + fold + w + CRLF
    if again:
        text = text + [name, name.lower(), name.upper()][case] + ':' + w + CRLF
    c, q, r = connection([text + CRLF])
    c._RecvResponseData()
    x = v + (CRLF + fold + w if fold else '')
    ensures(r.GetHeader([name, name.upper(), name.lower()][case]) == x + (', ' + w if again else ''), 'the value of the field')
    ensures(r.GetHeaderList() == [name.lower()], 'the fields received')


@lemma(h=Str(1, 2, TOKEN), g=Str(1, 2, TOKEN), v=VALUE, w=VALUE, append=OneOf(True, False), _bounded='names and values of at most 2 characters')
def header_set(h, g, v, w, append):
    m = HTTPMessage()
    m.SetHeader(h, v)
    m.SetHeader(g, w, append)
    same = h.lower() == g.lower()
    ensures(m.GetHeader(h.upper()) == ((v + ', ' + w if append else w) if same else v), 'a field is replaced, or appended to')
    ensures(m.GetHeader(g.lower()) == (v + ', ' + w if append and same else w), 'a field is set')
    ensures(len(m.GetHeaderList()) == (1 if same else 2), 'names do not depend on case')
    m.SetHeader(h, None)
    ensures(not m.HasHeader(h.lower()), 'a field is removed')
    ensures(iff(m.HasHeader(g), not same), 'others stay')


@lemma(n=Int(0, 99999), sp=OneOf('', ' ', '\t '))
def header_length(n, sp):
    m = HTTPMessage()
    m.SetContentLength(n)
    ensures(conj(m.GetContentLength() == n, m.GetHeader('content-length') == str(n)), 'a length is read back')
    m.SetHeader('Content-Length', sp + str(n) + sp)
    ensures(m.GetContentLength() == n, 'space around it does not count')
    m.SetContentLength(None)
    ensures(m.GetContentLength() is None, 'a length is removed')


# ---- requests -----------------------------------------------------------------------------------
METHOD = OneOf('GET', 'HEAD', 'DELETE', 'PUT', 'POST', 'get')


def request(url, method, body):
    q = HTTPRequest(url, method, body)
    q.SetManager(Manager())
    return q


def s_unchunk(t):
    """decode a chunked body: its data, or None if it is not well formed"""
    out = ''
    i = 0
    while True:
        j = t.find(CRLF, i)
        if j < 0:
            return None
        n = int(t[i:j], 16)
        i = j + 2
        if n == 0:
            return out if t[i:] == CRLF else None
        out = out + t[i:i + n]
        if t[i + n:i + n + 2] != CRLF:
            return None
        i = i + n + 2


def fields(text):
    """the fields of a request header, in lower case"""
    d = {}
    for l in text.split(CRLF)[1:-2]:
        k = l.find(': ')
        d[l[:k].lower()] = l[k + 2:]
    return d


@lemma(body=Str(0, 3, BYTES), method=METHOD, mode=OneOf('plain', 'length', 'short', 'long', 'chunked', 'identity'), _bounded='bodies of at most 3 octets')
def request_body(body, method, mode):
    q = request('http://h/x?y', method, body)
    if mode == 'length':
        q.SetContentLength(len(body))
    elif mode == 'short':
        q.SetContentLength(len(body) + 1)
    elif mode == 'long':
        requires(len(body) > 0)
        q.SetContentLength(len(body) - 1)
    elif mode != 'plain':
        q.SetTransferEncoding(mode)
    try:
        head = q.ReadRequestHeader()
    except http.HTTPException:
        head = None
    ensures(iff(head is None, mode in ('short', 'long')), 'a Content-Length that is not that of the body is refused')
    if head is not None:
        ensures(head.startswith(method + ' /x?y HTTP/1.1' + CRLF), 'the request line')
        ensures(conj(head[-4:] == CRLF + CRLF, head.find(CRLF + CRLF) == len(head) - 4), 'the header ends with an empty line')
        f = fields(head)
        ensures(f['host'] == 'h', 'the host')
        sent = q.ReadRequestBody()
        if mode == 'chunked':
            ensures(s_unchunk(sent) == body, 'chunks carry the body')
        else:
            ensures(sent == body, 'the body')
            if body != '' or mode == 'length' or method.upper() not in ('GET', 'HEAD', 'DELETE'):
                ensures(f['content-length'] == str(len(body)), 'the length of the body')
            else:
                ensures('content-length' not in f, 'no body, no length')
        ensures(q.ReadRequestBody() == '', 'the body is sent once')


@lemma(body=Str(0, 4, BYTES), most=OneOf(1, 2, 5), method=OneOf('PUT', 'GET'), length=OneOf(None, 0, 1), _bounded='streams of at most 4 octets')
def request_stream(body, most, method, length):
    """a body read from a stream: chunked, or as long as its length"""
    q = request('http://h/', method, Stream(body, most))
    if length is not None:
        q.SetContentLength(len(body) + length)
    f = fields(q.ReadRequestHeader())
    sent = ''
    try:
        for i in range(len(body) + 3):
            sent = sent + q.ReadRequestBody()
        ok = True
    except http.HTTPException:
        ok = False
    ensures(iff(ok, length != 1), 'a stream shorter than the Content-Length is an error')
    if length is None:
        ensures(f['transfer-encoding'] == 'chunked', 'a stream of unknown length is chunked')
        ensures(s_unchunk(sent) == body, 'chunks carry the body')
    else:
        ensures(conj(sent == body, 'transfer-encoding' not in f), 'the body')
    if ok:
        ensures(q.ReadRequestBody() == '', 'the body is sent once')


@lemma(host=Str(1, 2, ((97, 122),)), port=OneOf('', ':', ':80', ':443', ':8080'), secure=OneOf(True, False), path=OneOf('', '/', '/a/b'), query=OneOf('', '?', '?q'), _bounded='hosts of at most 2 letters')
def request_target(host, port, secure, path, query):
    q = HTTPRequest(('https://' if secure else 'http://') + host + port + path + query)
    std = port in ('', ':', ':443' if secure else ':80')
    ensures(q.GetHost() == host + ('' if std else port), 'the host, and the port unless it is the standard one')
    ensures(q.port == (int(port[1:]) if len(port) > 1 else (443 if secure else 80)), 'the port')
    ensures(q.url == (path or '/') + query, 'the path and query')
    ensures(q.scheme == ('https' if secure else 'http'), 'the scheme')


# ---- the transfer length ----------------------------------------------------------------------
@lemma(status=Int(100, 599), method=OneOf('GET', 'HEAD', 'POST'), te=OneOf(None, 'identity', ' identity', 'Identity', 'chunked', 'gzip, chunked'), n=Opt(Int(0, 9999)))
def transfer_length(status, method, te, n):
    """RFC 2616 section 4.4 for responses"""
    q = HTTPRequest('http://h/', method)
    r = HTTPResponse(q)
    r.status = status
    if te is not None:
        r.SetTransferEncoding(te)
    r.SetContentLength(n)
    r.CalculateTransferLength()
    if disj(status < 200, status == 204, status == 304, method == 'HEAD'):
        ensures(conj(not r.transferChunked, r.transferLength == 0), 'responses that have no body')
    elif te is not None and te.strip().lower() != 'identity':
        ensures(conj(r.transferChunked, r.transferLength is None), 'a transfer encoding overrides the length')
    else:
        ensures(conj(not r.transferChunked, r.transferLength == n), 'the Content-Length, or until the connection closes')


# ---- pipelining -------------------------------------------------------------------------------
class Wire(Sock):
    """a server: it sends each response when it has got that many requests (blank lines)"""
    def __init__(self, most, replies, together):
        Sock.__init__(self, [])
        self.sent = ''
        self.most = most
        self.replies = list(replies)
        self.together = together
        self.early = False

    def send(self, data):
        k = min(len(data), self.most)
        self.sent = self.sent + data[:k]
        return k

    def ready(self):
        """is there anything to receive"""
        n = len(self.sent.split(CRLF + CRLF)) - 1
        if not self.replies:
            return False
        if n < (2 if self.together and len(self.replies) == 2 else 3 - len(self.replies)):
            return False
        if self.together:
            self.pieces.append(''.join(self.replies))
            self.replies = []
        else:
            self.pieces.append(self.replies[0])
            del self.replies[0]
        return True


class Pipe(Connection):
    def socketSelect(self, r, w, e, t):
        return (r if r and self.socket.ready() else []), w, []


@lemma(m1=OneOf('GET', 'POST', 'DELETE'), m2=OneOf('GET', 'POST', 'PUT'), b1=Str(0, 1, BYTES), b2=Str(0, 1, BYTES), most=OneOf(7, 30, 1000), together=OneOf(True, False), _bounded='two requests, bodies of at most an octet')
def pipeline(m1, m2, b1, b2, most, together):
    """two requests queued on a connection"""
    requires(not together or m2 != 'POST')
    if QUICK:
        requires(most != 7 or m1 == 'GET')
    c = Pipe(Manager(), 'http', 'h', 80)
    r1 = 'HTTP/1.1 200 OK\r\nContent-Length: %i\r\n\r\n%s' % (len(b1), b1)
    r2 = 'HTTP/1.1 404 No\r\nContent-Length: %i\r\n\r\n%s' % (len(b2), b2)
    c.socket = Wire(most, [r1, r2], together)
    c.socketFile = 7
    qs = []
    for (m, u) in ((m1, 'http://h/1'), (m2, 'http://h/2')):
        q = HTTPRequest(u, m)
        q.SetManager(c.manager)
        c.requestQueue.append(q)
        qs.append(q)
    for i in range(14):
        c.ConnectionTask()
    w = c.socket
    heads = w.sent.split(CRLF + CRLF)
    ensures(len(heads) == 3, 'each request is sent once')
    ensures(conj(heads[0].startswith(m1 + ' /1 '), heads[1].startswith(m2 + ' /2 ')), 'in the order they were queued')
    ensures(conj(qs[0].status == 200, qs[0].resBody == b1), 'the first response is for the first request')
    ensures(conj(qs[1].status == 404, qs[1].resBody == b2), 'the second response is for the second request')
    ensures(conj(qs[0].done, qs[1].done, c.response is None, c.request is None), 'both are complete')


@lemma(m2=OneOf('POST', 'GET', 'PATCH'))
def pipeline_wait(m2):
    """while a response is awaited only an idempotent request is sent"""
    c = Pipe(Manager(), 'http', 'h', 80)
    c.socket = Wire(1000, [], False)
    c.socketFile = 7
    for (m, u) in (('GET', 'http://h/1'), (m2, 'http://h/2')):
        q = HTTPRequest(u, m)
        q.SetManager(c.manager)
        c.requestQueue.append(q)
    for i in range(3):
        c.ConnectionTask()
    heads = c.socket.sent.split(CRLF + CRLF)
    ensures(len(heads) == (3 if m2 == 'GET' else 2), 'a request that is not idempotent waits for the response')
