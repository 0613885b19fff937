"""Lengths, coordinates and shapes: the points inside a shape, its bounds and offsets."""
from xpy import *
from speclib import *
import pyslet.imsqtiv2p1
import pyslet.html40_19991224 as html
import pyslet.qtiv2.core as core
from pyslet.html40_19991224 import LengthType, Coords
from pyslet.qtiv2.core import Shape, ShapeElementMixin

MODULES = ['pyslet.html40_19991224', 'pyslet.qtiv2.core', 'pyslet.xsdatatypes20041028', 'pyslet.xmlnames20091208', 'pyslet.xml20081126.structures', 'pyslet.unicode5', 'pyslet.rfc2396']
PIX, PCT = LengthType.Pixel, LengthType.Percentage
COORD = Int(-10000, 10000)
DIM = Int(0, 10000)


def shape(kind, coords):
    s = ShapeElementMixin()
    s.shape = kind
    s.coords = coords
    return s


def px(v, pct, dim):
    """the value of a length in pixels: percentages round to the nearest"""
    return (v * dim + 50) // 100 if pct else v


def length(v, pct):
    return LengthType(v, PCT if pct else None)


# ---- lengths ----------------------------------------------------------------------------
@lemma(v=Int(0, 10 ** 6), pct=Bool(), force=OneOf(None, 0, 1), dim=DIM)
def length_text(v, pct, force, dim):
    """lengths as text and back"""
    a = length(v, pct)
    text = str(a)
    b = LengthType(text)
    ensures(conj(b.type == a.type, b.value == v, a.type == (PCT if pct else PIX)), 'as text and back')
    ensures(conj(unicode(a) == text, LengthType(unicode(a)).value == v), 'unicode too')
    c = LengthType(text, force)
    ensures(conj(c.value == v, c.type == (PCT if pct else (PIX if force is None else force))), 'with a type given')
    d = LengthType(a)
    ensures(conj(d.value == v, d.type == a.type, d is not a), 'copied')
    ensures(a.GetValue(dim) == px(v, pct, dim), 'the value in pixels')
    ensures(bool(a) == (not v == 0), 'zero or not')
    if pct:
        ensures(raises(ValueError, a.GetValue), 'relative lengths need a dimension')
        ensures(conj(2 * abs(100 * a.GetValue(dim) - v * dim) <= 100), 'rounded to the nearest')
    else:
        ensures(a.GetValue() == v, 'pixels do not')


@lemma(text=Str(1, 3, ((0, 127),)))
def length_syntax(text):
    """any text is a length or an error"""
    try:
        n = LengthType(text)
    except html.XHTMLValidityError:
        return
    s = text.strip()
    ensures(s[0] in '0123456789', 'starts with a digit')
    ensures(n.value >= 0, 'not negative')
    ensures(iff(n.type == PCT, '%' in s), 'relative if there is a percent sign')


@lemma(a=COORD, b=COORD, p=Bool(), q=Bool())
def length_add(a, b, p, q):
    """adding lengths"""
    x = length(a, p)
    if p == q:
        x.Add(length(b, q))
        ensures(conj(x.value == a + b, x.type == (PCT if p else PIX)), 'of the same type')
    else:
        ensures(raises(ValueError, x.Add, length(b, q)), 'not of different types')
        ensures(x.value == a, 'left alone')
    y = length(a, p)
    if p:
        ensures(raises(ValueError, y.Add, b), 'numbers are pixels')
    else:
        y.Add(b)
        ensures(y.value == a + b, 'numbers are pixels')


@lemma(vs=List(Tuple(Int(0, 999), Bool()), 2, 3))
def coords_text(vs):
    """coordinates as text and back"""
    c = Coords([length(v, p) for v, p in vs])
    d = Coords(unicode(c))
    e = Coords(str(c))
    ensures(conj(len(d) == len(vs), len(e) == len(vs)), 'all of them')
    for i in range(len(vs)):
        v, p = vs[i]
        for x in (d, e):
            ensures(conj(x[i].value == v, x[i].type == (PCT if p else PIX)), 'the same lengths')
    d[0] = '40%'
    ensures(conj(d[0].type == PCT, d[0].value == 40, c[0].value == vs[0][0]), 'can be assigned')


# ---- inside or not ----------------------------------------------------------------------
FOUR = Tuple(COORD, COORD, COORD, COORD)
FLAGS = OneOf((False, False, False, False), (True, True, True, True), (False, True, True, False))


@lemma(c=FOUR, rel=FLAGS, x=COORD, y=COORD, w=DIM, h=DIM)
def rect(c, rel, x, y, w, h):
    """rectangles: left and top included, right and bottom not, corners in any order"""
    s = shape(Shape.rect, Coords([length(v, p) for v, p in zip(c, rel)]))
    a, b = px(c[0], rel[0], w), px(c[2], rel[2], w)
    t, u = px(c[1], rel[1], h), px(c[3], rel[3], h)
    inside = conj(disj(conj(a <= x, x < b), conj(b <= x, x < a)), disj(conj(t <= y, y < u), conj(u <= y, y < t)))
    ensures(iff(s.TestPoint((x, y), w, h), inside), 'inside')


@lemma(c=Tuple(COORD, COORD, DIM), rel=OneOf((False, False, False), (True, True, True), (False, False, True)), x=COORD, y=COORD, w=DIM, h=DIM)
def circle(c, rel, x, y, w, h):
    """circles: no further from the centre than the radius, relative to the smaller dimension"""
    s = shape(Shape.circle, Coords([length(v, p) for v, p in zip(c, rel)]))
    dx, dy = x - px(c[0], rel[0], w), y - px(c[1], rel[1], h)
    r = px(c[2], rel[2], ite(w < h, w, h))
    ensures(iff(s.TestPoint((x, y), w, h), dx * dx + dy * dy <= r * r), 'inside')


@lemma(c=Tuple(COORD, COORD, OneOf(0, 7, 50), OneOf(0, 3, 50)), rel=OneOf((False, False, False, False), (True, True, True, True)), x=COORD, y=COORD, w=OneOf(100, 300), h=OneOf(200))
def ellipse(c, rel, x, y, w, h):
    """ellipses"""
    s = shape(Shape.ellipse, Coords([length(v, p) for v, p in zip(c, rel)]))
    dx, dy = x - px(c[0], rel[0], w), y - px(c[1], rel[1], h)
    rx, ry = px(c[2], rel[2], w), px(c[3], rel[3], h)
    inside = s.TestPoint((x, y), w, h)
    if inside:
        ensures(conj(-rx <= dx, dx <= rx, -ry <= dy, dy <= ry), 'within its box')
        ensures(dx * dx * ry * ry + dy * dy * rx * rx <= rx * rx * ry * ry, 'inside')
    elif conj(-rx <= dx, dx <= rx, -ry <= dy, dy <= ry):
        ensures(dx * dx * ry * ry + dy * dy * rx * rx > rx * rx * ry * ry, 'outside')


@lemma(x=COORD, y=COORD, w=Opt(DIM), h=Opt(DIM))
def default(x, y, w, h):
    """the default shape is the whole region"""
    s = shape(Shape.default, None)
    inside = conj(x >= 0, y >= 0)
    if w is not None:
        inside = conj(inside, x <= w)
    if h is not None:
        inside = conj(inside, y <= h)
    ensures(iff(s.TestPoint((x, y), w, h), inside), 'inside')


def crossings(vs, x, y):
    """is the number of edges of the closed polygon left of, or at, the point odd (top ends included)"""
    odd = False
    for i in range(len(vs)):
        x0, y0 = vs[i]
        x1, y1 = vs[(i + 1) % len(vs)]
        down = conj(y0 <= y, y < y1, (x1 - x0) * (y - y0) <= (x - x0) * (y1 - y0))
        up = conj(y1 <= y, y < y0, (x0 - x1) * (y - y1) <= (x - x1) * (y0 - y1))
        odd = xor(odd, disj(down, up))
    return odd


def xor(a, b):
    return conj(disj(a, b), neg(conj(a, b)))


SMALLXY = Int(-1000, 1000)


def poly(vs):
    out = []
    for x, y in vs:
        out.append(x)
        out.append(y)
    return shape(Shape.poly, Coords(out))


@lemma(xs=Tuple(COORD, COORD, COORD), ys=OneOf((0, 4, 7), (0, 7, 4), (4, 0, 7), (0, 0, 7), (7, 0, 0), (0, 7, 7), (4, 4, 4)), x=COORD, y=Int(-1, 8))
def triangle(xs, ys, x, y):
    """triangles"""
    vs = list(zip(xs, ys))
    for k in range(-1, 9):
        if y == k:
            ensures(iff(poly(vs).TestPoint((x, k), 100, 100), crossings(vs, x, k)), 'inside')


FIGURES = OneOf(((0, 0), (10, 0), (10, 10), (0, 10)), ((0, 0), (8, 3), (3, 9), (-4, 5), (2, 2)), ((0, 0), (10, 10), (10, 0), (0, 10)), ((5, 0), (6, 6), (0, 6), (9, -3), (3, 3), (3, 8)), ((0, 0), (0, 7), (7, 7), (7, 0), (3, 4)))


@lemma(vs=FIGURES, x=COORD, y=COORD, dx=COORD, dy=COORD, first=Bool(), back=Bool())
def polygon(vs, x, y, dx, dy, first, back):
    """polygons, concave and crossing, anywhere, closed or not, in either direction"""
    qs = [(a + dx, b + dy) for a, b in vs]
    want = crossings(qs, x, y)
    if back:
        qs.reverse()
    if first:
        qs.append(qs[0])
    ensures(iff(poly(qs).TestPoint((x, y), 100, 100), want), 'inside')


@lemma(n=Int(0, 7), kind=OneOf(Shape.rect, Shape.circle, Shape.ellipse, Shape.poly))
def wrong_size(n, kind):
    """too few coordinates are an error"""
    cs = []
    for i in range(8):
        if i < n:
            cs.append(i * i)
    s = shape(kind, Coords(cs))
    need = {Shape.rect: 4, Shape.circle: 3, Shape.ellipse: 4, Shape.poly: 6}[kind]
    if len(cs) < need or kind == Shape.poly and len(cs) % 2 == 1:
        ensures(raises(ValueError, s.TestPoint, (1, 1), 10, 10), 'refused')
    else:
        ensures(s.TestPoint((1, 1), 10, 10) in (True, False), 'decided')


# ---- bounds and offsets -----------------------------------------------------------------
@lemma(c=FOUR, kind=OneOf(Shape.rect, Shape.circle, Shape.ellipse, Shape.default), x=Int(0, 1024), y=Int(0, 768), dx=COORD, dy=COORD)
def bounds_offset(c, kind, x, y, dx, dy):
    """the bounds contain the points inside; an offset moves them and their bounds"""
    if kind != Shape.rect:
        requires(conj(c[2] >= 0, c[3] >= 0))
    n = 3 if kind == Shape.circle else 4
    coords = Coords(list(c)[:n])
    b = core.CalculateShapeBounds(kind, coords)
    core.OffsetShape(kind, coords, dx, dy)
    d = core.CalculateShapeBounds(kind, coords)
    if kind == Shape.default:
        ensures(conj(b == [0, 0, 1024, 768], d == b), 'the whole region')
        return
    ensures(conj(d[0] == b[0] - dx, d[1] == b[1] - dy, d[2] == b[2] - dx, d[3] == b[3] - dy), 'the bounds move')
    if kind == Shape.rect:
        want = [min(c[0], c[2]), min(c[1], c[3]), max(c[0], c[2]), max(c[1], c[3])]
    else:
        ry = c[2] if kind == Shape.circle else c[3]
        want = [c[0] - c[2], c[1] - ry, c[0] + c[2], c[1] + ry]
    ensures(conj(*[p == q for p, q in zip(b, want)]), 'the bounds')


@lemma(vs=List(Tuple(COORD, COORD), 3, 4), dx=COORD, dy=COORD)
def poly_bounds_offset(vs, dx, dy):
    """the bounds of a polygon are those of its corners; an offset moves every corner"""
    s = poly(vs)
    b = core.CalculateShapeBounds(Shape.poly, s.coords)
    ensures(conj(*[conj(b[0] <= x, x <= b[2], b[1] <= y, y <= b[3]) for x, y in vs]), 'all the corners')
    for k, i in ((0, 0), (1, 1), (2, 0), (3, 1)):
        ensures(disj(*[b[k] == v[i] for v in vs]), 'no more')
    core.OffsetShape(Shape.poly, s.coords, dx, dy)
    ensures(conj(*[conj(s.coords[2 * i].value == vs[i][0] - dx, s.coords[2 * i + 1].value == vs[i][1] - dy) for i in range(len(vs))]), 'every corner moves')
