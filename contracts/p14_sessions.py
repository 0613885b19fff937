"""QTI v2 item sessions: variables, mappings, lookup tables, rules and submissions."""
from xpy import *
from speclib import *
import pyslet.imsqtiv2p1
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.processing as pr
import pyslet.qtiv2.items as items
from pyslet.qtiv2.variables import BaseType, Cardinality, Value, SingleValue, BooleanValue, IntegerValue, FloatValue, StringValue, IdentifierValue, PointValue, OrderedContainer, MultipleContainer, RecordContainer
from pyslet.html40_19991224 import Coords

MODULES = ['pyslet.qtiv2.variables', 'pyslet.qtiv2.processing', 'pyslet.qtiv2.items', 'pyslet.qtiv2.core', 'pyslet.qtiv2.metadata', 'pyslet.qtiv2.expressions', 'pyslet.xsdatatypes20041028', 'pyslet.xmlnames20091208', 'pyslet.xml20081126.structures', 'pyslet.html40_19991224', 'pyslet.unicode5', 'pyslet.rfc2396', 'pyslet.rfc2616_params', 'pyslet.rfc2616_core']
LO, HI = -2147483648, 2147483647
INT32 = Int(LO, HI)
SMALL = Int(-40000, 40000)
DIGIT = Int(0, 9)
LETTER = ((ord('a'), ord('z')), (ord('A'), ord('Z')))


class Val(object):
    """an expression with a known value"""
    def __init__(self, v):
        self.v = v

    def Evaluate(self, state):
        return self.v


def members(v):
    return list(v.GetValues())


def count(xs, x):
    n = 0
    for y in xs:
        n = n + ite(y == x, 1, 0)
    return n


def same_bag(xs, ys):
    return conj(len(xs) == len(ys), *[count(xs, x) == count(ys, x) for x in xs])


def same_list(xs, ys):
    return conj(len(xs) == len(ys), *[a == b for a, b in zip(xs, ys)])


def declare(item, cls, name, card, base, default=None, correct=None):
    d = cls(item)
    d.identifier = name
    d.cardinality = card
    d.baseType = base
    if default is not None:
        d.DefaultValue = defined(variables.DefaultValue, default)
    if correct is not None:
        d.CorrectResponse = defined(variables.CorrectResponse, correct)
    if item is not None:
        {variables.ResponseDeclaration: item.ResponseDeclaration, variables.OutcomeDeclaration: item.OutcomeDeclaration,
         variables.TemplateDeclaration: item.TemplateDeclaration}[cls].append(d)
        d.ContentChanged()
    return d


def defined(cls, values):
    e = cls(None)
    for v in values:
        x = variables.ValueElement(e)
        if isinstance(v, tuple):
            x.fieldIdentifier, x.baseType, v = v
        x.SetValue(unicode(v))
        e.ValueElement.append(x)
    return e


def value(card, base, xs):
    if card == 's':
        return SingleValue.NewValue(base, xs[0] if xs else None)
    c = OrderedContainer(base) if card == 'o' else MultipleContainer(base)
    c.SetValue(xs)
    return c


# ---- mappings and tables ----------------------------------------------------------------
BOUND = Opt(SMALL)


@lemma(keys=List(DIGIT, 0, 2), to=Tuple(SMALL, SMALL), default=SMALL, lower=BOUND, upper=BOUND, kind=OneOf('s', 'o', 'm'), xs=List(DIGIT, 0, 2))
def mapping(keys, to, default, lower, upper, kind, xs):
    """a mapping adds up the targets of the distinct values, within its bounds"""
    requires(not (len(keys) == 2 and keys[0] == keys[1]))
    if kind == 's':
        requires(len(xs) == 1)
    if lower is not None and upper is not None:
        requires(lower <= upper)
    d = declare(None, variables.ResponseDeclaration, 'R', Cardinality.multiple, BaseType.integer)
    m = variables.Mapping(d)
    m.defaultValue = float(default)
    m.lowerBound = None if lower is None else float(lower)
    m.upperBound = None if upper is None else float(upper)
    for k, t in zip(keys, to):
        e = variables.MapEntry(m)
        e.mapKey, e.mappedValue = str(k), float(t)
        m.MapEntry.append(e)
    m.ContentChanged()
    r = m.MapValue(value(kind, BaseType.integer, xs))
    ensures(conj(isinstance(r, FloatValue), r.baseType == BaseType.float), 'a float')
    total, seen = 0, []
    for x in xs:
        if x in seen:
            continue
        seen.append(x)
        t = default
        for k, u in zip(keys, to):
            if x == k:
                t = u
        total = total + t
    if xs:
        if lower is not None and total < lower:
            total = lower
        elif upper is not None and total > upper:
            total = upper
        ensures(r.value == total, 'the sum')
    else:
        ensures(r.value == 0, 'nothing to map')


@lemma(to=Tuple(SMALL, SMALL), default=SMALL, kind=OneOf('o', 'm'), xs=List(Int(1, 3), 2, 4 if QUICK else 5), _bounded='containers of up to %i values' % (4 if QUICK else 5))
def mapping_repeats(to, default, kind, xs):
    """each distinct value counts once, however often and wherever it occurs"""
    d = declare(None, variables.ResponseDeclaration, 'R', Cardinality.multiple, BaseType.integer)
    m = variables.Mapping(d)
    m.defaultValue = float(default)
    for k, t in zip((1, 2), to):
        e = variables.MapEntry(m)
        e.mapKey, e.mappedValue = str(k), float(t)
        m.MapEntry.append(e)
    m.ContentChanged()
    r = m.MapValue(value(kind, BaseType.integer, xs))
    total = 0
    for k, t in zip((1, 2, 3), (to[0], to[1], default)):
        total = total + ite(disj(*[x == k for x in xs]), t, 0)
    ensures(r.value == total, 'the sum')


POINT = Tuple(Int(-20, 120), Int(-20, 120))


@lemma(points=List(POINT, 1, 2), a=Tuple(Int(0, 50), Int(0, 50)), w=OneOf(20, 60), second=OneOf('same', 'apart', 'all'), to=Tuple(SMALL, SMALL), default=SMALL, kind=OneOf('s', 'o', 'm'), lower=BOUND)
def area_mapping(points, a, w, second, to, default, kind, lower):
    """an area mapping: the first area that contains each point, each area once"""
    if kind == 's':
        requires(len(points) == 1)
    if kind == 'm' and len(points) == 2:
        requires(not (points[0] == points[1]))
    m = variables.AreaMapping(None)
    m.defaultValue = float(default)
    m.lowerBound = None if lower is None else float(lower)
    b = {'same': (a[0], a[1]), 'apart': (10, 30), 'all': (0, 0)}[second]
    for i, (x, y) in enumerate((a, b)):
        e = variables.AreaMapEntry(m)
        e.shape = core.Shape.rect
        e.coords = Coords([x, y, x + w, y + w])
        if second == 'all' and i == 1:
            e.shape = core.Shape.default
        e.mappedValue = float(to[i])
        m.AreaMapEntry.append(e)
    r = m.MapValue(value(kind, BaseType.point, points), 100, 100)
    total, used = 0, []
    for x, y in points:
        if conj(a[0] <= x, x < a[0] + w, a[1] <= y, y < a[1] + w):
            hit = 0
        elif conj(0 <= x, x <= 100, 0 <= y, y <= 100) if second == 'all' else conj(b[0] <= x, x < b[0] + w, b[1] <= y, y < b[1] + w):
            hit = 1
        else:
            total = total + default
            continue
        if hit not in used:
            used.append(hit)
            total = total + to[hit]
    if lower is not None and total < lower:
        total = lower
    ensures(r.value == total, 'the sum')
    ensures(raises(ValueError, m.MapValue, IntegerValue(1), 100, 100), 'points only')


@lemma(src=Tuple(INT32, INT32, INT32), dst=Tuple(DIGIT, DIGIT, DIGIT), default=Opt(DIGIT), x=Opt(INT32))
def match_table(src, dst, default, x):
    """a match table: the first entry with the value, else the default"""
    d = declare(None, variables.OutcomeDeclaration, 'O', Cardinality.single, BaseType.integer)
    t = variables.MatchTable(d)
    t.defaultValue = None if default is None else str(default)
    for s, v in zip(src, dst):
        e = variables.MatchTableEntry(t)
        e.sourceValue, e.targetValue = s, str(v)
        t.MatchTableEntry.append(e)
    t.ContentChanged()
    r = t.Lookup(IntegerValue(x))
    ensures(conj(isinstance(r, IntegerValue)), 'the type of the outcome')
    if x is None:
        ensures(r.value is None, 'NULL')
    elif x == src[0]:
        ensures(r.value == dst[0], 'the first')
    elif x == src[1]:
        ensures(r.value == dst[1], 'the second')
    elif x == src[2]:
        ensures(r.value == dst[2], 'the third')
    else:
        ensures(r.value == default if default is not None else r.value is None, 'the default')
    ensures(raises(ValueError, t.Lookup, FloatValue(1.0)), 'integers only')
    ensures(raises(ValueError, t.Lookup, value('m', BaseType.integer, [1])), 'not containers')


@lemma(src=Tuple(SMALL, SMALL), inc=Tuple(Bool(), Bool()), dst=Tuple(DIGIT, DIGIT), default=Opt(DIGIT), x=Opt(SMALL), real=Bool())
def interpolation_table(src, inc, dst, default, x, real):
    """an interpolation table: the first entry below the value"""
    d = declare(None, variables.OutcomeDeclaration, 'O', Cardinality.single, BaseType.integer)
    t = variables.InterpolationTable(d)
    t.defaultValue = None if default is None else str(default)
    for s, i, v in zip(src, inc, dst):
        e = variables.InterpolationTableEntry(t)
        e.sourceValue, e.includeBoundary, e.targetValue = float(s), i, str(v)
        t.InterpolationTableEntry.append(e)
    t.ContentChanged()
    r = t.Lookup(FloatValue(None if x is None else float(x)) if real else IntegerValue(x))
    if x is None:
        ensures(r.value is None, 'NULL')
    elif src[0] < x or (inc[0] and src[0] == x):
        ensures(r.value == dst[0], 'the first')
    elif src[1] < x or (inc[1] and src[1] == x):
        ensures(r.value == dst[1], 'the second')
    else:
        ensures(r.value == default if default is not None else r.value is None, 'the default')
    ensures(raises(ValueError, t.Lookup, StringValue('1')), 'numbers only')
    ensures(raises(ValueError, t.Lookup, value('m', BaseType.integer, [1])), 'not containers')


# ---- declarations and sessions ----------------------------------------------------------
CARDS = {'s': Cardinality.single, 'o': Cardinality.ordered, 'm': Cardinality.multiple, 'r': Cardinality.record}


def same_value(v, kind, xs):
    """v has the values xs of integers"""
    ok = conj(v.Cardinality() == CARDS[kind], v.baseType == BaseType.integer)
    if not xs:
        return conj(ok, v.IsNull())
    if kind == 's':
        return conj(ok, v.value == xs[0])
    if kind == 'o':
        return conj(ok, same_list(xs, members(v)))
    return conj(ok, same_bag(xs, members(v)))


def sized(kind, xs):
    return len(xs) <= 1 if kind == 's' else True


@lemma(kind=OneOf('s', 'o', 'm'), xs=List(DIGIT, 0, 2), ys=List(DIGIT, 0, 2))
def declared(kind, xs, ys):
    """default and correct values have the declared type and values"""
    requires(conj(sized(kind, xs), sized(kind, ys)))
    d = declare(None, variables.ResponseDeclaration, 'R', CARDS[kind], BaseType.integer, xs if xs else None, ys if ys else None)
    ensures(same_value(d.GetDefaultValue(), kind, xs), 'the default')
    ensures(same_value(d.GetCorrectValue(), kind, ys), 'the correct value')
    ensures(d.GetDefaultValue() is not d.GetDefaultValue(), 'a new value every time')


@lemma(n=DIGIT, text=Str(1, 2, LETTER), give=Bool())
def declared_record(n, text, give):
    """records"""
    d = declare(None, variables.ResponseDeclaration, 'R', Cardinality.record, None,
                [('a', BaseType.integer, n), ('b', BaseType.string, text)] if give else None)
    v = d.GetDefaultValue()
    ensures(v.Cardinality() == Cardinality.record, 'a record')
    if give:
        ensures(conj(len(v) == 2, v['a'].value == n, v['a'].baseType == BaseType.integer, v['b'].value == text), 'the fields')
    else:
        ensures(v.IsNull(), 'NULL')


def make_item(adaptive=False):
    item = items.AssessmentItem(None)
    item.adaptive = adaptive
    return item


@lemma(kind=OneOf('s', 'o', 'm'), xs=List(DIGIT, 0, 2), ys=List(DIGIT, 0, 2), what=OneOf('response', 'outcome', 'template'))
def session(kind, xs, ys, what):
    """a session: what each kind of variable holds before and after it starts, and at each attempt"""
    requires(conj(sized(kind, xs), sized(kind, ys)))
    item = make_item()
    cls = {'response': variables.ResponseDeclaration, 'outcome': variables.OutcomeDeclaration, 'template': variables.TemplateDeclaration}[what]
    declare(item, cls, 'V', CARDS[kind], BaseType.integer, xs if xs else None)
    s = variables.ItemSessionState(item)
    start = s['V']
    ensures(same_value(start, kind, xs if what == 'template' else []), 'NULL to start with, template variables their default')
    ensures(conj(s['numAttempts'].IsNull(), s['completionStatus'].IsNull()), 'the built in variables are NULL')
    ensures(conj(s.IsResponse('V') == (what == 'response'), s.IsOutcome('V') == (what == 'outcome'), s.IsTemplate('V') == (what == 'template')), 'the kind of variable')
    ensures(conj(s.IsResponse('numAttempts'), s.IsResponse('duration'), s.IsOutcome('completionStatus')), 'the kind of built in variables')
    ensures(raises(KeyError, s.IsOutcome, 'W'), 'others are not variables')
    s.BeginSession()
    want = xs
    if what == 'outcome' and kind == 's' and not xs:
        want = [0]
    ensures(same_value(s['V'], kind, [] if what == 'response' else want), 'outcomes have their default or 0')
    ensures(conj(s['numAttempts'].value == 0, s['completionStatus'].value == 'not_attempted', s['duration'].value == 0), 'nothing attempted')
    s.BeginAttempt()
    ensures(same_value(s['V'], kind, want), 'responses have their default at the first attempt')
    ensures(conj(s['numAttempts'].value == 1, s['completionStatus'].value == 'unknown'), 'one attempt')
    s['V'] = value(kind, BaseType.integer, ys)
    ensures(same_value(s['V'], kind, ys), 'set')
    if what != 'template':
        ensures(same_value(s['V.DEFAULT'], kind, xs), 'the default is not')
    s.BeginAttempt()
    ensures(same_value(s['V'], kind, ys), 'and kept for the next attempt')
    ensures(conj(s['numAttempts'].value == 2, s['completionStatus'].value == 'unknown'), 'two attempts')


@lemma(kind=OneOf('s', 'o', 'm'), k2=OneOf('s', 'o', 'm', 'v'), base=OneOf('integer', 'string', 'none'), xs=List(DIGIT, 0, 2))
def assignment(kind, k2, base, xs):
    """only values of the declared cardinality and base type, or NULL"""
    requires(sized(k2, xs))
    item = make_item()
    declare(item, variables.OutcomeDeclaration, 'V', CARDS[kind], BaseType.integer, [7])
    s = variables.ItemSessionState(item)
    s.BeginSession()
    if k2 == 'v':
        requires(conj(base == 'none', len(xs) == 0))
        v = Value()
    elif base == 'none':
        requires(conj(k2 != 's', len(xs) == 0))
        v = value(k2, None, [])
    elif base == 'string':
        v = value(k2, BaseType.string, [str(x) for x in xs])
    else:
        v = value(k2, BaseType.integer, xs)
    if k2 in (kind, 'v') and base != 'string':
        s['V'] = v
        ensures(same_value(s['V'], kind, xs), 'the value')
        if kind == 'o' and xs:
            v.value.append(4)
            ensures(same_value(s['V'], kind, xs), 'not shared')
    else:
        ensures(raises(ValueError, s.__setitem__, 'V', v), 'refused')
        ensures(same_value(s['V'], kind, [7]), 'and left alone')


@lemma(x=Int(0, 99), y=Int(0, 99), adaptive=Bool(), default=Opt(DIGIT), saved=Bool(), prefix=OneOf('', 'Q1.'))
def submission(x, y, adaptive, default, saved, prefix):
    """submitting: the response takes the value given, the outcomes are reset, and the rules run"""
    item = make_item(adaptive)
    declare(item, variables.ResponseDeclaration, 'R', Cardinality.single, BaseType.integer)
    declare(item, variables.ResponseDeclaration, 'S', Cardinality.single, BaseType.integer)
    declare(item, variables.OutcomeDeclaration, 'O', Cardinality.single, BaseType.integer, None if default is None else [default])
    declare(item, variables.OutcomeDeclaration, 'P', Cardinality.single, BaseType.integer)
    item.ResponseProcessing = pr.ResponseProcessing(item)
    rule = pr.SetOutcomeValue(None)
    rule.identifier = 'P'
    s = variables.ItemSessionState(item)
    s.formPrefix = prefix
    rule.Expression = Lookup('R')
    item.ResponseProcessing.ResponseRule.append(rule)
    s.BeginSession()
    s.BeginAttempt()
    s['O'] = IntegerValue(50)
    s['S'] = IntegerValue(3)
    if saved:
        s.SaveSession({prefix + 'R': str(y)})
        ensures(conj(s['R'].IsNull(), s['O'].value == 50, s['P'].value == 0), 'saving does not submit')
        s.SubmitSession({})
        ensures(s['R'].value == y, 'the saved value')
        ensures(s['P'].value == y, 'is what the rules see')
        s.BeginAttempt()
        s['O'] = IntegerValue(50)
    s.SubmitSession({prefix + 'R': str(x)})
    ensures(s['R'].value == x, 'the submitted value')
    ensures(s['P'].value == x, 'is what the rules see')
    ensures(s['S'].value == 3, 'other responses are left')
    ensures(s['O'].value == (50 if adaptive else (0 if default is None else default)), 'outcomes start again unless the item is adaptive')
    ensures(raises(variables.BadSessionParams, s.SubmitSession, {prefix + 'O': '1'}), 'only responses can be submitted')
    ensures(raises(variables.BadSessionParams, s.SubmitSession, {prefix + 'X': '1'}), 'only declared ones')
    ensures(raises(variables.BadSessionParams, s.SubmitSession, {prefix + 'R': ['1', '2']}), 'one value')
    s.SubmitSession({})
    ensures(conj(s['R'].value == x, s['S'].value == 3), 'what is refused changes nothing')
    if prefix:
        s.SubmitSession({'R': '7', 'O': '7', 'SUBMIT': 'key'})
        ensures(conj(s['R'].value == x, s['P'].value == x), 'other parameters are not for this item')


class Lookup(object):
    """the variable expression"""
    def __init__(self, name):
        self.name = name

    def Evaluate(self, state):
        return state[self.name]


@lemma(kind=OneOf('list', 'rank', 'choice', 'one'), xs=Tuple(OneOf('a', 'b', 'c'), OneOf('a', 'b', 'c')), ranks=Tuple(Int(0, 99), Int(0, 99)))
def submission_containers(kind, xs, ranks):
    """submitting multiple and ordered responses"""
    item = make_item()
    declare(item, variables.ResponseDeclaration, 'R', Cardinality.multiple if kind in ('list', 'one') else Cardinality.ordered, BaseType.identifier)
    s = variables.ItemSessionState(item)
    s.BeginSession()
    s.BeginAttempt()
    if kind == 'list':
        s.SubmitSession({'R': [xs[0], xs[1]]})
        ensures(same_bag(xs, members(s['R'])), 'the values')
        return
    if kind == 'one':
        s.SubmitSession({'R': xs[0]})
        ensures(same_bag(xs[:1], members(s['R'])), 'the value')
        return
    if kind == 'rank':
        requires(not (ranks[0] == ranks[1]))
        params = {'R.' + str(ranks[0]): xs[0], 'R.' + str(ranks[1]): xs[1]}
    else:
        requires(xs[0] != xs[1])
        params = {'R.' + xs[0]: str(ranks[0]), 'R.' + xs[1]: str(ranks[1])}
    if ranks[0] == ranks[1]:
        ensures(raises(variables.BadSessionParams, s.SubmitSession, params), 'the same rank twice')
    else:
        s.SubmitSession(params)
        want = [xs[0], xs[1]] if ranks[0] < ranks[1] else [xs[1], xs[0]]
        ensures(same_list(want, members(s['R'])), 'in order of rank')


# ---- rules ------------------------------------------------------------------------------
class Mark(object):
    """a rule that records that it was run"""
    def __init__(self, log, n):
        self.log = log
        self.n = n

    def Run(self, state):
        self.log.append(self.n)


class State(object):
    pass


BOOL3 = OneOf(None, True, False)


@lemma(c0=BOOL3, c1=List(BOOL3, 0, 2), other=Bool(), template=Bool(), exit=OneOf(None, 0, 1, 2, 3), nested=Bool())
def conditions(c0, c1, other, template, exit, nested):
    """if, elseIf, else: the rules of the first part that is true, and exit stops everything"""
    log = []
    T = template
    p = (pr.TemplateProcessing if T else pr.ResponseProcessing)(None)
    c = (pr.TemplateCondition if T else pr.ResponseCondition)(p)

    def fill(part, n):
        rules = part.TemplateRule if T else part.ResponseRule
        rules.append(Mark(log, n))
        if exit == n:
            rules.append((pr.ExitTemplate if T else pr.ExitResponse)(None))
        rules.append(Mark(log, n + 10))

    parts = [c.TemplateIf if T else c.ResponseIf]
    parts[0].Expression = Val(BooleanValue(c0))
    for v in c1:
        e = (pr.TemplateElseIf if T else pr.ResponseElseIf)(c)
        e.Expression = Val(BooleanValue(v))
        (c.TemplateElseIf if T else c.ResponseElseIf).append(e)
        parts.append(e)
    if other:
        e = (pr.TemplateElse if T else pr.ResponseElse)(c)
        if T:
            c.TemplateElse = e
        else:
            c.ResponseElse = e
        parts.append(e)
    for i in range(len(parts)):
        fill(parts[i], i)
    if nested:
        outer = (pr.TemplateCondition if T else pr.ResponseCondition)(p)
        part = outer.TemplateIf if T else outer.ResponseIf
        part.Expression = Val(BooleanValue(True))
        (part.TemplateRule if T else part.ResponseRule).append(c)
        c = outer
    rules = p.TemplateRule if T else p.ResponseRule
    rules.append(c)
    rules.append(Mark(log, 99))
    p.Run(State())
    run = None
    for i, v in enumerate([c0] + c1 + ([True] if other else [])):
        if v is True:
            run = i
            break
    want = []
    if run is not None:
        want.append(run)
        if exit != run:
            want.append(run + 10)
    if run is None or exit != run:
        want.append(99)
    ensures(log == want, 'the rules that are run')


@lemma(template=Bool(), bad=OneOf('integer', 'ordered', 'missing'))
def condition_types(template, bad):
    """a condition must be a single boolean"""
    c = (pr.TemplateIf if template else pr.ResponseIf)(None)
    if bad != 'missing':
        c.Expression = Val({'integer': IntegerValue(1), 'ordered': OrderedContainer(BaseType.boolean)}[bad])
    ensures(raises(core.ProcessingError, c.Run, State()), 'a processing error')


@lemma(n=INT32, rule=OneOf('outcome', 'template', 'correct', 'default'), var=OneOf('R', 'O', 'T', 'numAttempts', 'completionStatus'))
def setting(n, rule, var):
    """each rule sets the kind of variable it is for, and no other"""
    item = make_item()
    declare(item, variables.ResponseDeclaration, 'R', Cardinality.single, BaseType.integer, [1], [1])
    declare(item, variables.OutcomeDeclaration, 'O', Cardinality.single, BaseType.integer, [1])
    declare(item, variables.TemplateDeclaration, 'T', Cardinality.single, BaseType.integer, [1])
    s = variables.ItemSessionState(item)
    s.BeginSession()
    s.BeginAttempt()
    r = {'outcome': pr.SetOutcomeValue, 'template': pr.SetTemplateValue, 'correct': pr.SetCorrectResponse, 'default': pr.SetDefaultValue}[rule](None)
    r.identifier = var
    ensures(raises(core.ProcessingError, r.Run, s), 'an expression is needed')
    v = IdentifierValue('completed') if var == 'completionStatus' else IntegerValue(n)
    r.Expression = Val(v)
    ok = {'outcome': ('O', 'completionStatus'), 'template': ('T',), 'correct': ('R',), 'default': ('R', 'O')}[rule]
    names = ['R', 'R.CORRECT', 'R.DEFAULT', 'O', 'O.DEFAULT', 'T', 'numAttempts', 'completionStatus']
    before = [s[x].value for x in names]
    target = var + {'outcome': '', 'template': '', 'correct': '.CORRECT', 'default': '.DEFAULT'}[rule]
    if var in ok:
        r.Run(s)
        ensures(s[target].value == v.value, 'set')
    else:
        ensures(raises(core.ProcessingError, r.Run, s), 'refused')
        target = None
    for x, b in zip(names, before):
        if x != target:
            ensures(s[x].value == b, 'the others are left')


@lemma(n=DIGIT, m=DIGIT)
def clone(n, m):
    """template processing changes the defaults and correct values of the session that is cloned only"""
    item = make_item()
    declare(item, variables.ResponseDeclaration, 'R', Cardinality.single, BaseType.integer, [1], [1])
    declare(item, variables.TemplateDeclaration, 'T', Cardinality.single, BaseType.integer, [m])
    item.TemplateProcessing = pr.TemplateProcessing(item)
    for cls, x, v in ((pr.SetTemplateValue, 'T', Val(IntegerValue(n))), (pr.SetCorrectResponse, 'R', Lookup('T')), (pr.SetDefaultValue, 'R', Lookup('T'))):
        r = cls(None)
        r.identifier, r.Expression = x, v
        item.TemplateProcessing.TemplateRule.append(r)
    s = variables.ItemSessionState(item)
    t = variables.ItemSessionState(item)
    s.SelectClone()
    s.BeginSession()
    s.BeginAttempt()
    t.BeginSession()
    t.BeginAttempt()
    ensures(conj(s['T'].value == n, s['R.CORRECT'].value == n, s['R'].value == n), 'the clone')
    ensures(conj(t['T'].value == m, t['R.CORRECT'].value == 1, t['R'].value == 1), 'the other session')


@lemma(n=INT32, bad=OneOf('', 'undeclared', 'response', 'type'))
def template_default(n, bad):
    """a test overrides the value of template variables"""
    item = make_item()
    declare(item, variables.ResponseDeclaration, 'R', Cardinality.single, BaseType.integer)
    declare(item, variables.TemplateDeclaration, 'T', Cardinality.single, BaseType.integer)
    s = variables.ItemSessionState(item)
    d = pr.TemplateDefault(None)
    d.templateIdentifier = {'undeclared': 'X', 'response': 'R'}.get(bad, 'T')
    ensures(raises(core.ProcessingError, d.Run, s, State()), 'an expression is needed')
    d.Expression = Val(StringValue('x') if bad == 'type' else IntegerValue(n))
    if not bad:
        d.Run(s, State())
        ensures(s['T'].value == n, 'set')
    else:
        ensures(raises(ValueError if bad == 'type' else core.ProcessingError, d.Run, s, State()), 'refused')
        ensures(s['T'].IsNull(), 'left alone')
