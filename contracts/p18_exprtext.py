"""OData expressions: what is written is what is read, and the operators bind as the protocol says."""
from xpy import *
from speclib import *
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm

MODULES = ['pyslet.odata2.core', 'pyslet.odata2.csdl', 'pyslet.xsdatatypes20041028', 'pyslet.unicode5']
# the parser works these out on first use, for every parser anew; here once and for all, as it does
core.Parser.SimpleIdentifierStartClass = core.CharClass(core.CharClass.UCDCategory(u"L"))
core.Parser.SimpleIdentifierStartClass.AddClass(core.CharClass.UCDCategory(u"Nl"))
core.Parser.SimpleIdentifierClass = core.CharClass(core.Parser.SimpleIdentifierStartClass)
for c in ['Nd', 'Mn', 'Mc', 'Pc', 'Cf']:
    core.Parser.SimpleIdentifierClass.AddClass(core.CharClass.UCDCategory(c))
Op = core.Operator
CE = core.CommonExpression

# the precedence table of the protocol
LEVEL = {'/': 9, 'mul': 7, 'div': 7, 'mod': 7, 'add': 6, 'sub': 6, 'lt': 5, 'gt': 5, 'le': 5, 'ge': 5, 'eq': 4, 'ne': 4, 'and': 3, 'or': 2}
OPS = sorted(LEVEL)
CODE = dict([(n, core.Operator.decode[n]) for n in OPS if n != '/'])
CODE['/'] = Op.member
UN = ['-', 'not']
UCODE = {'-': Op.negate, 'not': Op.boolNot}


def prop(n):
    return core.PropertyExpression(n)


def lit(t, v):
    x = edm.EDMValue.NewSimpleValue(t)
    x.value = v
    return core.LiteralExpression(x)


def expr(cls, op, *es):
    e = cls(op)
    for x in es:
        e.AddOperand(x)
    return e


def binary(op, a, b):
    return expr(core.BinaryExpression, CODE[op], a, b)


def unary(op, a):
    return expr(core.UnaryExpression, UCODE[op], a)


def function(m, *es):
    e = core.CallExpression(m)
    for x in es:
        e.AddOperand(x)
    return e


def eqv(a, b):
    """two expressions are the same tree"""
    if type(a) is not type(b):
        return False
    if isinstance(a, core.PropertyExpression):
        return a.name == b.name
    if isinstance(a, core.LiteralExpression):
        return conj(a.value.typeCode == b.value.typeCode, a.value.value is None if b.value.value is None else a.value.value == b.value.value)
    if a.operator != b.operator or len(a.operands) != len(b.operands):
        return False
    if isinstance(a, core.CallExpression) and a.method != b.method:
        return False
    return conj(*[eqv(x, y) for x, y in zip(a.operands, b.operands)])


def read(s):
    return CE.FromString(s)


def text(op):
    return op if op == '/' else u" " + op + u" "


A, B, C = prop(u"a"), prop(u"b"), prop(u"c")


# ---- precedence -------------------------------------------------------------------------
@lemma(p=OneOf(*OPS), q=OneOf(*OPS))
def binds(p, q):
    """the stronger of two operators binds first, equal ones from the left; brackets override"""
    e = read(u"a" + text(p) + u"b" + text(q) + u"c")
    if LEVEL[p] >= LEVEL[q]:
        ensures(eqv(e, binary(q, binary(p, A, B), C)), 'from the left')
    else:
        ensures(eqv(e, binary(p, A, binary(q, B, C))), 'the stronger first')
    ensures(eqv(read(u"(a" + text(p) + u"b)" + text(q) + u"c"), binary(q, binary(p, A, B), C)), 'brackets on the left')
    ensures(eqv(read(u"a" + text(p) + u"( b" + text(q) + u"c )"), binary(p, A, binary(q, B, C))), 'brackets on the right')
    ensures(eqv(read(u"(a" + text(p) + u"(b))"), binary(p, A, B)), 'brackets around')


def build(ops, xs):
    """the tree of x0 op0 x1 op1 x2 ..: split at the last of the weakest operators"""
    if not ops:
        return xs[0]
    k = 0
    for i in range(0, len(ops)):
        if LEVEL[ops[i]] <= LEVEL[ops[k]]:
            k = i
    return binary(ops[k], build(ops[:k], xs[:k + 1]), build(ops[k + 1:], xs[k + 1:]))


SEVEN = OneOf('/', 'mul', 'sub', 'lt', 'eq', 'and', 'or')


@lemma(p=SEVEN, q=SEVEN, r=OneOf('/', 'div', 'add', 'ge', 'ne', 'and', 'or'), _bounded='three binary operators, seven kinds of the fourteen')
def binds3(p, q, r):
    """three operators"""
    D = prop(u"d")
    e = read(u"a" + text(p) + u"b" + text(q) + u"c" + text(r) + u"d")
    ensures(eqv(e, build([p, q, r], [A, B, C, D])), 'the tree')


@lemma(u=OneOf(*UN), p=OneOf(*OPS))
def unaries(u, p):
    """unary operators bind more tightly than all but /"""
    t = u if u == '-' else u + u" "
    a = read(t + u"a" + text(p) + u"b")
    if p == '/':
        ensures(eqv(a, unary(u, binary(p, A, B))), 'a path')
    else:
        ensures(eqv(a, binary(p, unary(u, A), B)), 'on the left')
    ensures(eqv(read(u"a" + text(p) + t + u"b"), binary(p, A, unary(u, B))), 'on the right')
    ensures(eqv(read(u"a" + text(p) + t + u"b or c"), binary('or', binary(p, A, unary(u, B)), C)), 'in the middle')
    ensures(eqv(read(t + u"(a" + text(p) + u"b)"), unary(u, binary(p, A, B))), 'of brackets')


@lemma(u=OneOf(*UN), v=OneOf(*UN), w=OneOf('', '-', 'not'))
def unary_chains(u, v, w):
    """unary operators of unary operators"""
    t = u"".join([x if x == '-' else x + u" " for x in (u, v, w) if x])
    e = unary(u, unary(v, unary(w, A) if w else A))
    ensures(eqv(read(t + u"a"), e), 'read')
    ensures(eqv(read(unicode(e)), e), 'written')


# ---- round trip -------------------------------------------------------------------------
def operand(k):
    return {'p': A, 'time': prop(u"time"), 'info': prop(u"info"), 'nand1': prop(u"nand1"), 'X': prop(u"X"), 'guid': prop(u"guid"), 'dotted': prop(u"a.b_1"), 'not_': prop(u"notable"),
            'int': lit(edm.SimpleType.Int32, 1), 'neg': lit(edm.SimpleType.Int32, -1), 'long': lit(edm.SimpleType.Int64, 7), 'str': lit(edm.SimpleType.String, u"it's"), 'null': lit(None, None), 'true': lit(edm.SimpleType.Boolean, True),
            'f': function(core.Method.length, B), 'g': function(core.Method.concat, B, binary('or', B, lit(edm.SimpleType.Int32, -2))),
            'isof': expr(core.BinaryExpression, Op.isof, B, lit(edm.SimpleType.String, u"Edm.Int32")), 'isof1': expr(core.BinaryExpression, Op.isof, lit(edm.SimpleType.String, u"N.T")),
            'cast': expr(core.BinaryExpression, Op.cast, binary('and', A, B), lit(edm.SimpleType.String, u"Edm.Int32")), 'cast1': expr(core.BinaryExpression, Op.cast, lit(edm.SimpleType.String, u"N.T")),
            '-': unary('-', B), 'not': unary('not', B)}[k]


OPERAND = OneOf('p', 'time', 'info', 'nand1', 'X', 'guid', 'dotted', 'not_', 'int', 'neg', 'long', 'str', 'null', 'true', 'f', 'g', 'isof', 'isof1', 'cast', 'cast1', '-', 'not')


@lemma(k=OPERAND, m=OneOf('p', 'neg', 'isof', '-', 'not') if QUICK else OneOf('p', 'neg', 'str', 'isof', 'cast1', '-', 'not', 'info'), p=SEVEN if QUICK else OneOf(*OPS), swap=Bool())
def written(k, m, p, swap):
    """what is written for an operator and its operands is read as the same expression"""
    a, b = operand(k), operand(m)
    if swap:
        a, b = b, a
    e = binary(p, a, b)
    ensures(eqv(read(unicode(e)), e), 'binary')


@lemma(k=OPERAND, u=OneOf('', '-', 'not'), v=OneOf(*UN))
def written_unary(k, u, v):
    """... and of unary operators"""
    e = operand(k)
    if u:
        e = unary(u, e)
    e = unary(v, e)
    ensures(eqv(read(unicode(e)), e), 'unary')
    ensures(eqv(read(unicode(operand(k))), operand(k)), 'alone')


@lemma(p=OneOf(*OPS), q=OneOf(*OPS), side=OneOf('left', 'right', 'under -', 'under not', '- under', 'not under'), _bounded='operators nested two deep')
def written_nested(p, q, side):
    """... and of operators inside operators"""
    i = binary(q, B, C)
    e = {'left': lambda: binary(p, i, A), 'right': lambda: binary(p, A, i), 'under -': lambda: unary('-', i), 'under not': lambda: unary('not', i),
         '- under': lambda: binary(p, unary('-', i), A), 'not under': lambda: binary(p, A, unary('not', i))}[side]()
    ensures(eqv(read(unicode(e)), e), 'nested')


@lemma(n=Int(-2147483648, 2147483647), u=OneOf('', '-', 'not'), p=OneOf('mul', 'sub', 'eq'))
def numbers(n, u, p):
    """literal integers, negative ones included"""
    e = lit(edm.SimpleType.Int32, n)
    if u:
        e = unary(u, e)
    ensures(eqv(read(unicode(e)), e), 'a number')
    e = binary(p, A, e)
    ensures(eqv(read(unicode(e)), e), 'an operand')


@lemma(s=Uni(0, 3, ((32, 126), (0xE0, 0xFF))), p=OneOf('eq', 'add'), _bounded='strings of up to 3 characters')
def strings(s, p):
    """literal strings: quotes are doubled"""
    e = binary(p, lit(edm.SimpleType.String, s), A)
    ensures(eqv(read(unicode(e)), e), 'a string')


# ---- form -------------------------------------------------------------------------------
WS = OneOf(u"", u" ", u"\t", u" \t ")


@lemma(w=WS, x=WS, y=WS, z=WS)
def space(w, x, y, z):
    """white space around operands and inside brackets is of no importance"""
    e = read(w + u"(" + x + u"a" + y + u")" + z + u" add" + x + u" b")
    ensures(eqv(e, binary('add', A, B)), 'brackets')
    e = read(u"concat" + w + u"(" + x + u"a" + y + u"," + z + u"b" + w + u")")
    ensures(eqv(e, function(core.Method.concat, A, B)), 'a function')
    e = read(u"isof" + w + u"(" + x + u"a" + y + u"," + z + u"'T'" + w + u")")
    ensures(eqv(e, expr(core.BinaryExpression, Op.isof, A, lit(edm.SimpleType.String, u"T"))), 'isof')
    e = read(w + u"-" + x + u"a" + y + u"/" + z + u"b")
    ensures(eqv(e, unary('-', binary('/', A, B))), 'a path')


BAD = [u"", u" ", u"(", u")", u"()", u"(a", u"a)", u"a b", u"a eq", u"eq b", u"a eq eq b", u"a not b", u"not", u"not(", u"-", u"a -", u"a - b", u"a/", u"/a", u"a//b", u"a eq b c", u"a mul", u"'a", u"a eq 'b", u"a,b",
       u"length(", u"length()", u"length(a", u"length(a,", u"length(a,)", u"nosuch(a)", u"isof(a,b)", u"isof(a)", u"isof(a,1)", u"isof()", u"cast(a", u"cast 'T'", u"a methodCall b", u"a paren b", u"a negate b", u"a isof 'T'", u"a EQ b", u"1x", u"1 2", u"a.", u"a..b", u".", u"3000000000", u"datetime'", u"datetime'x'", u"time'1'", u"guid'1'", u"X'1'", u"X'zz'", u"a & b", u"a=b"]


@lemma(s=OneOf(*BAD), _bounded='the listed texts')
def malformed(s):
    """anything else is refused"""
    ensures(raises(ValueError, read, s), 'refused')


# ---- order by ---------------------------------------------------------------------------
@lemma(k=List(OneOf('info', 'str', 'f', '-'), 1, 2 if QUICK else 3), d=List(OneOf(1, -1), 3, 3), p=OneOf('sub', '/'), _bounded='up to two (thorough: three) keys')
def order_by(k, d, p):
    """$orderby: a list of expressions, each ascending or descending"""
    es = [(operand(k[i]) if i else binary(p, A, operand(k[i])), d[i]) for i in range(0, len(k))]
    r = CE.OrderByFromString(CE.OrderByToString(es))
    ensures(conj(len(r) == len(es), *[conj(eqv(r[i][0], es[i][0]), r[i][1] == es[i][1]) for i in range(0, len(r))]), 'round trip')
    ensures(conj(*[x[1] == 1 for x in CE.OrderByFromString(u",".join([unicode(e[0]) for e in es]))]), 'ascending by default')


@lemma(s=OneOf(u"", u",", u"a,", u",a", u"a asc desc", u"a up", u"a desc b", u"desc desc desc"), _bounded='the listed texts')
def order_by_bad(s):
    """malformed orderings are refused"""
    ensures(raises(ValueError, CE.OrderByFromString, s), 'refused')


@lemma(c=Uni(1, 1, ((32, 126), (0xA0, 0xFF), (0x2160, 0x2164))), d=OneOf(u"", u"_", u"1", u"\u0301", u"-", u" ", u"\u20AC"))
def names(c, d):
    """names are made of letters, digits and underscores, with points between; the classes are those the parser works out itself"""
    core.Parser.SimpleIdentifierStartClass = None
    core.Parser.SimpleIdentifierClass = None
    p = core.Parser(c + d)
    r = p.ParseSimpleIdentifier()
    L = core.CharClass.UCDCategory
    start = disj(L(u"L").Test(c), L(u"Nl").Test(c))
    ensures(iff(r is not None, start), 'starts with a letter')
    if r is not None:
        ensures(r[:1] == c, 'from its first character')
    if r is not None and len(d) == 1:
        more = disj(*[L(x).Test(d) for x in (u"L", u"Nl", u"Nd", u"Mn", u"Mc", u"Pc", u"Cf")])
        ensures((len(r) == 2) == more, 'goes on with letters and digits')
        ensures(implies(len(r) == 2, r == c + d), 'the name')
