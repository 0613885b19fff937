"""QTI v2 tests: forms (selection and ordering), navigation, durations, session keys and names."""
from xpy import *
from speclib import *
import pyslet.imsqtiv2p1
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.processing as pr
import pyslet.qtiv2.items as items
import pyslet.qtiv2.tests as tests
from pyslet.qtiv2.variables import BaseType, Cardinality, BooleanValue, IntegerValue, FloatValue

MODULES = ['pyslet.qtiv2.variables', 'pyslet.qtiv2.processing', 'pyslet.qtiv2.items', 'pyslet.qtiv2.core', 'pyslet.qtiv2.tests', 'pyslet.qtiv2.metadata', 'pyslet.qtiv2.expressions', 'pyslet.xsdatatypes20041028', 'pyslet.xmlnames20091208', 'pyslet.xml20081126.structures', 'pyslet.html40_19991224', 'pyslet.unicode5', 'pyslet.rfc2396', 'pyslet.rfc2616_params', 'pyslet.rfc2616_core']


class Val(object):
    """an expression with a known value"""
    def __init__(self, v):
        self.v = v

    def Evaluate(self, state):
        return self.v


class Clock(object):
    """stands in for the time module: the given readings, in order"""
    def __init__(self, ts):
        self.ts = ts
        self.i = 0

    def time(self):
        self.i = self.i + 1
        return self.ts[self.i - 1]


class Digest(object):
    """stands in for a hash without collisions: the digest is the data"""
    def __init__(self):
        self.data = ''

    def update(self, data):
        self.data = self.data + data

    def hexdigest(self):
        return '<' + self.data + '>'


class Hashes(object):
    def sha224(self):
        return Digest()


class System(object):
    def urandom(self, n):
        return 'saltsalt'[:n]


def stand_in(times):
    variables.time = Clock(times)
    variables.hashlib = Hashes()
    variables.os = System()


def new_test():
    t = tests.AssessmentTest(None)
    t.identifier = 'T'
    return t


def add_part(test, name, linear=True):
    p = tests.TestPart(test)
    p.identifier = name
    p.navigationMode = tests.NavigationMode.linear if linear else tests.NavigationMode.nonlinear
    p.submissionMode = tests.SubmissionMode.individual
    test.TestPart.append(p)
    p.ContentChanged()
    return p


def add_section(parent, name, visible=True, keep=True, required=False, fixed=False):
    s = tests.AssessmentSection(parent)
    s.identifier, s.visible, s.keepTogether, s.required, s.fixed = name, visible, keep, required, fixed
    if isinstance(parent, tests.TestPart):
        parent.AssessmentSection.append(s)
    else:
        parent.SectionPart.append(s)
    s.ContentChanged()
    return s


def add_item(parent, name, required=False, fixed=False, item=None):
    r = tests.AssessmentItemRef(parent)
    r.identifier, r.required, r.fixed = name, required, fixed
    r.item = items.AssessmentItem(None) if item is None else item
    parent.SectionPart.append(r)
    r.ContentChanged()
    return r


def select(section, n, replace=False):
    section.Selection = tests.Selection(section)
    section.Selection.select = n
    section.Selection.withReplacement = replace


def shuffled(section):
    section.Ordering = tests.Ordering(section)
    section.Ordering.shuffle = True


def count(xs, x):
    return len([y for y in xs if y == x])


def middle(form, name):
    """the part of a form between the marks of a part or section"""
    xs = list(form)
    i = xs.index(name)
    j = xs.index('-' + name)
    return xs[i + 1:j]


# ---- selection and ordering --------------------------------------------------------------
@lemma(required=List(Bool(), 0, 3), k=OneOf(None, 0, 1, 2, 3, 4), replace=Bool(), _bounded='sections of up to 3 items')
def selection(required, k, replace):
    """a selection: that many children, every required one, none twice without replacement, in their order"""
    t = new_test()
    s = add_section(add_part(t, 'P'), 'S')
    names = ['A', 'B', 'C'][:len(required)]
    for x, r in zip(names, required):
        add_item(s, x, r)
    if k is None:
        requires(not replace)
    else:
        select(s, k, replace)
    want = len(names) if k is None else k
    needed = count(required, True)
    if needed > want or (want > len(names) and not (replace and names)):
        ensures(raises(core.SelectionError, tests.TestForm, t), 'too few or too many')
        return
    form = tests.TestForm(t)
    xs = list(form)
    ensures(xs[:3] == ['', 'P', 'S'] and xs[-2:] == ['-S', '-P'], 'the marks')
    xs = xs[3:-2]
    ensures(len(xs) == want, 'the number to select')
    for x in xs:
        ensures(x in names, 'from the children')
    for x, r in zip(names, required):
        if r:
            ensures(x in xs, 'the required')
        if not replace:
            ensures(count(xs, x) <= 1, 'once each')
    ensures(xs == sorted(xs), 'in the order of definition')


@lemma(fixed=List(Bool(), 0, 3), required=OneOf(None, 0, 1), k=OneOf(None, 1, 2, 3), replace=Bool(), _bounded='sections of up to 3 items')
def ordering(fixed, required, k, replace):
    """shuffling: the same selection, with the fixed children where they were"""
    t = new_test()
    s = add_section(add_part(t, 'P'), 'S')
    names = ['A', 'B', 'C'][:len(fixed)]
    for i in range(len(names)):
        add_item(s, names[i], required == i, fixed[i])
    shuffled(s)
    if k is None:
        requires(not replace and required is None)
    else:
        requires(names != [] and (replace or k <= len(names)))
        requires(not replace or len(names) + k < 6)
        select(s, k, replace)
    want = len(names) if k is None else k
    xs = middle(tests.TestForm(t), 'S')
    ensures(len(xs) == want, 'the number to select')
    for i in range(len(names)):
        if required == i:
            ensures(names[i] in xs, 'the required')
        if not replace:
            ensures(count(xs, names[i]) <= 1, 'once each')
    plain = sorted(xs)
    for x, y in zip(xs, plain):
        ensures(x in names, 'from the children')
        if fixed[names.index(x)] or fixed[names.index(y)]:
            ensures(x == y, 'fixed in place')


@lemma(shuffle=Bool(), visible=Bool(), keep=Bool(), fixed=Tuple(Bool(), Bool(), Bool()), inner=OneOf('plain', 'shuffle', 'one', 'none', 'fixed'), _bounded='two items and a sub-section of two')
def subsections(shuffle, visible, keep, fixed, inner):
    """sub-sections: marked and kept together, unless they are invisible and their contents are to be mixed in"""
    t = new_test()
    s = add_section(add_part(t, 'P'), 'S')
    add_item(s, 'A', True, fixed[0])
    x = add_section(s, 'X', visible, keep, True, fixed[1])
    some = inner in ('one', 'none')
    add_item(x, 'X1', not some, inner == 'fixed')
    add_item(x, 'X2', not some)
    add_item(s, 'B', True, fixed[2])
    if inner in ('shuffle', 'one', 'none'):
        shuffled(x)
    if inner == 'one':
        select(x, 1)
    elif inner == 'none':
        select(x, 0)
    if shuffle:
        shuffled(s)
    mixed = shuffle and not fixed[1] and not visible and not keep
    if mixed and inner == 'fixed':
        ensures(raises(core.SelectionError, tests.TestForm, t), 'fixed and to be mixed in')
        return
    form = tests.TestForm(t)
    xs = middle(form, 'S')
    n = {'one': 1, 'none': 0}.get(inner, 2)
    ensures(count(xs, 'A') == 1 and count(xs, 'B') == 1, 'the items of the section')
    ensures(count(xs, 'X1') <= 1 and count(xs, 'X2') <= 1 and count(xs, 'X1') + count(xs, 'X2') == n, 'the items of the sub-section')
    if mixed:
        ensures(len(xs) == 2 + n, 'and nothing else')
    else:
        ensures(len(xs) == 4 + n, 'and the marks')
        i = xs.index('X')
        inside = xs[i + 1:i + 1 + n]
        ensures(xs[i + 1 + n] == '-X', 'closed after its items')
        ensures('A' not in inside and 'B' not in inside, 'kept together')
        if inner in ('plain', 'fixed'):
            ensures(inside == ['X1', 'X2'], 'in order')
        xs = xs[:i + 1] + xs[i + 2 + n:]
    if not shuffle:
        ensures(xs == ['A', 'X', 'B'], 'in the order of definition')
    else:
        if fixed[0]:
            ensures(xs[0] == 'A', 'fixed at the start')
        if fixed[2]:
            ensures(xs[-1] == 'B', 'fixed at the end')
        if fixed[1]:
            ensures(xs[1] == 'X', 'fixed in the middle')


@lemma(outer=OneOf('keep', 'mix'), inner=OneOf('visible', 'keep', 'mix'), shuffle=Bool(), _bounded='three levels')
def deeper(outer, inner, shuffle):
    """sections of sections, mixed in or kept together at each level"""
    t = new_test()
    s = add_section(add_part(t, 'P'), 'S')
    shuffled(s)
    add_item(s, 'A', False, True)
    x = add_section(s, 'X', False, outer == 'keep')
    y = add_section(x, 'Y', inner == 'visible', inner != 'mix')
    add_item(y, 'Y1')
    add_item(y, 'Y2')
    if shuffle:
        shuffled(x)
    form = tests.TestForm(t)
    xs = middle(form, 'S')
    ensures(xs[0] == 'A', 'fixed')
    xs = xs[1:]
    if outer == 'keep':
        ensures(xs[0] == 'X' and xs[-1] == '-X', 'kept together')
        xs = xs[1:-1]
    if not (shuffle and inner == 'mix'):
        ensures(xs == ['Y', 'Y1', 'Y2', '-Y'], 'kept together')
    else:
        ensures(sorted(xs) == ['Y1', 'Y2'], 'mixed in')


@lemma(k=OneOf(1, 2, 3), shuffle=Bool(), _bounded='one item and a sub-section of one, up to three times')
def repeats(k, shuffle):
    """with replacement sections may come several times; a form lists where each name is"""
    t = new_test()
    s = add_section(add_part(t, 'P'), 'S')
    add_item(s, 'A')
    x = add_section(s, 'X')
    add_item(x, 'X1')
    select(s, k, True)
    if shuffle:
        shuffled(s)
    form = tests.TestForm(t)
    xs = list(form)
    n = count(xs, 'X')
    ensures(count(xs, 'A') + n == k, 'the number to select')
    ensures(count(xs, 'X1') == n and count(xs, '-X') == n, 'each with its contents')
    for i in range(len(xs)):
        if xs[i] == 'X':
            ensures(xs[i + 1:i + 3] == ['X1', '-X'], 'and closed')
        ensures(form[i] == xs[i] and i in form.find(xs[i]), 'found')
    for name in ('', 'P', 'S', 'A', 'X', 'X1', '-X', 'other'):
        ensures(form.find(name) == [i for i in range(len(xs)) if xs[i] == name], 'in order')
    ensures(len(form) == len(xs), 'the length')
    ensures(raises(TypeError, form.__setitem__, 0, 'Z'), 'read only')
    ensures(raises(TypeError, form.__delitem__, 0), 'read only')


# ---- navigation ---------------------------------------------------------------------------
FORM = ['', 'P1', 'S1', 'A', 'S2', 'B', '-S2', 'S3', 'C', '-S3', 'D', '-S1', '-P1', 'P2', 'S4', 'E', '-S4', '-P2']
LEAVES = ['A', 'B', 'C', 'D', 'E']
ABOVE = {'A': ('S1', 'P1'), 'B': ('S2', 'S1', 'P1'), 'C': ('S3', 'S1', 'P1'), 'D': ('S1', 'P1'), 'E': ('S4', 'P2'), 'S2': ('S1', 'P1'), 'S3': ('S1', 'P1'), 'S1': ('P1',), 'S4': ('P2',), 'P1': (), 'P2': ()}


def make_test(linear=True):
    t = new_test()
    p = add_part(t, 'P1', linear)
    s = add_section(p, 'S1')
    add_item(s, 'A', True)
    add_item(add_section(s, 'S2', required=True), 'B')
    add_item(add_section(s, 'S3', required=True), 'C')
    add_item(s, 'D', True)
    add_item(add_section(add_part(t, 'P2', linear), 'S4'), 'E')
    return t


def pre(test, name, v):
    n = test.GetPart(name)
    c = pr.PreCondition(n)
    c.Expression = Val(BooleanValue(v))
    n.PreCondition.append(c)


def rule(test, name, v, target):
    n = test.GetPart(name)
    r = pr.BranchRule(n)
    r.Expression = Val(BooleanValue(v))
    r.target = target
    n.BranchRule.append(r)


def blocked(x, fails):
    return x in fails or len([y for y in ABOVE[x] if y in fails]) > 0


def first(xs, fails):
    for x in xs:
        if not blocked(x, fails):
            return x
    return None


def current(s):
    return None if s.cQuestion is None else s.form[s.cQuestion]


RUN = ('A', 'B', 'C', 'E') if QUICK else ('A', 'B', 'C', 'D', 'E')
NODES = ('P1', 'S1', 'A', 'S2', 'B', 'S3', 'C', 'D', 'P2', 'S4', 'E')
NAMES = OneOf(*NODES)


@lemma(f1=NAMES, f2=NAMES, v=OneOf(False, None), start=OneOf(None, 'A', 'B', 'C', 'D', 'E'), _bounded='one test of two parts, four sections and five items')
def preconditions(f1, f2, v, start):
    """the next question is the first one that is not inside anything whose pre-conditions fail"""
    requires(NODES.index(f1) <= NODES.index(f2) and not (QUICK and v is None and f1 != f2))
    stand_in([1.0] * 5)
    t = make_test()
    for x in ('A', 'C', 'S3', 'P2'):
        pre(t, x, True)
    pre(t, f1, v)
    if f1 != f2:
        pre(t, f2, v)
    s = variables.TestSessionState(tests.TestForm(t))
    ensures(list(s.form) == FORM, 'the form')
    todo = LEAVES
    if start is not None:
        requires(start in RUN and not blocked(start, (f1, f2)))
        s.cQuestion = FORM.index(start)
        todo = LEAVES[LEAVES.index(start) + 1:]
    s._NextQuestion()
    want = first(todo, (f1, f2))
    ensures(current(s) == want, 'the question')
    if want is not None:
        ensures(s.GetCurrentQuestion() is t.GetPart(want), 'which is current')
        ensures(s.GetCurrentTestPart() is t.GetPart(ABOVE[want][-1]), 'and its part')
        ensures(s[want + '.numAttempts'].value == 0, 'the session of the item has begun')
    else:
        ensures(s.GetCurrentQuestion() is None and s.GetCurrentTestPart() is None, 'at the end')
        s._NextQuestion()
        ensures(s.cQuestion is None, 'for good')
    for x in LEAVES:
        if x != want:
            ensures(s[x + '.numAttempts'].IsNull(), 'and no other')


@lemma(at=OneOf('A', 'B', 'C', 'D', 'E'), target=OneOf('A', 'S2', 'B', 'S3', 'C', 'D', 'EXIT_SECTION', 'EXIT_TESTPART', 'EXIT_TEST'), v=OneOf(True, False, None), fail=OneOf(None, 'S2', 'C', 'D', 'S4'), second=Bool(), _bounded='one test of two parts, four sections and five items')
def branching(at, target, v, fail, second):
    """a branch rule that is true: forward to its target, or out of the section, the part or the test"""
    stand_in([1.0] * 5)
    t = make_test()
    rule(t, at, v, target)
    if second:
        rule(t, at, True, 'EXIT_TEST')
    fails = () if fail is None else (fail,)
    requires(at in RUN and not blocked(at, fails))
    if fail is not None:
        pre(t, fail, False)
    s = variables.TestSessionState(tests.TestForm(t))
    i = FORM.index(at)
    s.cQuestion = i
    rest = LEAVES[LEAVES.index(at) + 1:]
    if v is not True and second:
        rest = []
    elif v is not True:
        pass
    elif target == 'EXIT_TEST':
        rest = []
    elif target == 'EXIT_TESTPART':
        rest = [x for x in rest if ABOVE[x][-1] != ABOVE[at][-1]]
    elif target == 'EXIT_SECTION':
        rest = [x for x in rest if ABOVE[at][0] not in ABOVE[x]]
    elif at == 'E':
        ensures(raises(core.ProcessingError, s._NextQuestion), 'not in the same part')
        return
    else:
        j = FORM.index(target)
        requires(j > i)
        for x in ABOVE[target]:
            requires(x not in fails)
        rest = [x for x in rest if FORM.index(x) >= j]
    s._NextQuestion()
    ensures(current(s) == first(rest, fails), 'the question')


@lemma(at=OneOf('S1', 'S2', 'S3', 'P1'), target=OneOf('S3', 'C', 'D', 'P2', 'EXIT_SECTION', 'EXIT_TESTPART', 'EXIT_TEST'), fail=OneOf(None, 'S2', 'S3', 'S1', 'P1'), start=OneOf(None, 'A', 'B', 'C', 'D'), _bounded='one test of two parts, four sections and five items')
def branching_sections(at, target, fail, start):
    """the branch rules of a section or part: when it has been presented, and only then"""
    stand_in([1.0] * 5)
    t = make_test()
    rule(t, at, True, target)
    fails = () if fail is None else (fail,)
    if fail is not None:
        pre(t, fail, False)
    s = variables.TestSessionState(tests.TestForm(t))
    rest = LEAVES
    i = 0
    if start is not None:
        requires(not blocked(start, fails))
        s.cQuestion = i = FORM.index(start)
        rest = LEAVES[LEAVES.index(start) + 1:]
    end = FORM.index('-' + at)
    here = [x for x in rest if not blocked(x, fails)]
    inside = [x for x in here if FORM.index(x) < end]
    if inside or i > end or blocked(at, fails):
        # something comes first, or the end of the section is not passed
        s._NextQuestion()
        ensures(current(s) == first(here, ()), 'the question')
        return
    here = [x for x in here if FORM.index(x) > end]
    if target == 'EXIT_TEST':
        here = []
    elif at == 'P1' and target != 'P2' or at != 'P1' and target == 'P2':
        ensures(raises(core.ProcessingError, s._NextQuestion), 'no such target')
        return
    elif target == 'EXIT_TESTPART':
        here = [x for x in here if ABOVE[x][-1] != 'P1']
    elif target == 'EXIT_SECTION':
        requires(at in ('S2', 'S3'))
        here = [x for x in here if ABOVE[at][0] not in ABOVE[x]]
    else:
        j = FORM.index(target)
        requires(j > end)
        for x in ABOVE[target]:
            requires(x not in fails)
        here = [x for x in here if FORM.index(x) >= j]
    s._NextQuestion()
    ensures(current(s) == first(here, ()), 'the question')


@lemma(bad=OneOf('missing', 'part', 'item', 'other'), at=OneOf('A', 'S2', 'P1'))
def branch_targets(bad, at):
    """a target that does not exist or is in another part is a processing error"""
    stand_in([1.0] * 5)
    t = make_test()
    target = {'missing': 'X', 'part': 'P2', 'item': 'E', 'other': 'S4'}[bad]
    rule(t, at, True, target)
    s = variables.TestSessionState(tests.TestForm(t))
    n = t.GetPart(at)
    if at == 'P1' and bad == 'part':
        ensures(n.GetBranchTarget(s) == 'P2', 'to a part')
    else:
        ensures(raises(core.ProcessingError, n.GetBranchTarget, s), 'an error')


@lemma(x=NAMES, v=Bool())
def nonlinear(x, v):
    """in nonlinear parts the rules of sections and items have no effect"""
    stand_in([1.0] * 5)
    t = make_test(False)
    pre(t, x, v)
    rule(t, x, True, 'P2' if x in ('P1', 'P2') else 'D')
    s = variables.TestSessionState(tests.TestForm(t))
    n = t.GetPart(x)
    if x in ('P1', 'P2'):
        ensures(n.CheckPreConditions(s) == v, 'parts have theirs')
        ensures(n.GetBranchTarget(s) == 'P2', 'and theirs')
    else:
        ensures(n.CheckPreConditions(s) == True, 'no pre-conditions')
        ensures(n.GetBranchTarget(s) is None, 'and no branches')
    s._NextQuestion()
    if v or x not in ('P1', 'P2'):
        want = 'A'
    else:
        want = 'E' if x == 'P1' else 'A'
    ensures(current(s) == want, 'the question')
    for y in LEAVES:
        begun = ABOVE[y][-1] == ABOVE[want][-1]
        ensures(s[y + '.numAttempts'].IsNull() != begun, 'all the items of the part have begun')


# ---- durations ----------------------------------------------------------------------------
@lemma(at=OneOf(None, 'A', 'B', 'C', 'D', 'E'), dt=Int(0, 1000000), d0=Int(0, 1000000), known=Bool())
def durations(at, dt, d0, known):
    """time passes for the question, for what it is in, and for the test"""
    stand_in([1.0] * 5)
    t = make_test()
    s = variables.TestSessionState(tests.TestForm(t))
    s['duration'].value = float(d0)
    for x in ABOVE:
        if known or x in LEAVES:
            s[x + '.duration'].value = float(d0)
    s.cQuestion = None if at is None else FORM.index(at)
    s.AddDuration(dt / 4.0)
    ensures(s['duration'].value == float(d0) + (0.0 if at is None else dt / 4.0), 'the test')
    for x in ABOVE:
        v = s[x + '.duration']
        if at is not None and (x == at or x in ABOVE[at]):
            if known or x in LEAVES:
                ensures(v.value == float(d0) + dt / 4.0, 'what is open')
            else:
                ensures(v.value == dt / 4.0, 'what has just been opened')
        elif known or x in LEAVES:
            ensures(v.value == float(d0), 'not the rest')
        else:
            ensures(v.IsNull(), 'not the rest')


# ---- keys ---------------------------------------------------------------------------------
@lemma(still=OneOf((True, True, True), (False, True, False), (True, False, True)), wrong=OneOf('old', 'older', 'made up', 'empty'), how=OneOf('event', 'save', 'submit', 'handle'))
def session_keys(still, wrong, how):
    """an event needs the latest key; each event makes a new one; anything else is refused and changes nothing"""
    ts = [5.0]
    for b in still:
        ts.append(ts[-1] if b else ts[-1] + 2.5)
    stand_in(ts)
    t = make_test()
    s = variables.TestSessionState(tests.TestForm(t))
    keys = [s.key]
    for i in (1, 2, 3):
        dt = s.EventUpdate(keys[-1])
        ensures(dt == ts[i] - ts[i - 1], 'the time since the last event')
        ensures(s.prevKey == keys[-1], 'the key before')
        ensures(s.key not in keys, 'a new key')
        keys.append(s.key)
    s.cQuestion = FORM.index('A')
    for x in LEAVES:
        s[x + '.duration'].value = 0.0
    s['duration'].value = 0.0
    bad = {'old': keys[2], 'older': keys[0], 'made up': 'secret', 'empty': ''}[wrong]
    exc = variables.SessionKeyExpired if wrong in ('old', 'older') else variables.SessionKeyMismatch
    if how == 'event':
        ensures(raises(exc, s.EventUpdate, bad), 'refused')
    elif how == 'save':
        ensures(raises(exc, s.SaveSession, bad, {}), 'refused')
    elif how == 'submit':
        ensures(raises(exc, s.SubmitSession, bad, {}), 'refused')
    else:
        ensures(raises(exc, s.HandleEvent, {'SUBMIT': bad}), 'refused')
        ensures(raises(exc, s.HandleEvent, {'SAVE': bad}), 'refused')
        ensures(raises(variables.SessionActionMissing, s.HandleEvent, {}), 'an action is needed')
    ensures(s.key == keys[3] and s.prevKey == keys[2] and s.t == ts[3], 'nothing changed')
    ensures(current(s) == 'A' and s['duration'].value == 0.0, 'nothing changed')


# ---- names --------------------------------------------------------------------------------
@lemma(kind=OneOf('integer', 'float', 'boolean'), default=Bool(), x=Int(0, 99))
def variables_of_tests(kind, default, x):
    """names: of the test, of its parts and sections, and of the sessions of its items"""
    stand_in([1.0] * 5)
    t = make_test()
    d = variables.OutcomeDeclaration(t)
    d.identifier, d.cardinality, d.baseType = 'O', Cardinality.single, {'integer': BaseType.integer, 'float': BaseType.float, 'boolean': BaseType.boolean}[kind]
    if default:
        d.DefaultValue = variables.DefaultValue(d)
        e = variables.ValueElement(d.DefaultValue)
        e.SetValue(u'5' if kind != 'boolean' else u'true')
        d.DefaultValue.ValueElement.append(e)
    t.OutcomeDeclaration.append(d)
    d.ContentChanged()
    r = variables.ResponseDeclaration(t.GetPart('B').item)
    r.identifier, r.cardinality, r.baseType = 'R', Cardinality.single, BaseType.integer
    t.GetPart('B').item.ResponseDeclaration.append(r)
    r.ContentChanged()
    s = variables.TestSessionState(tests.TestForm(t))
    ensures(s['O'].IsNull(), 'NULL to start with')
    s.SetOutcomeDefaults()
    if not default:
        ensures(s['O'].value == (0 if kind != 'boolean' else None), 'numbers are 0 by default')
    else:
        ensures(s['O'].value == (5 if kind != 'boolean' else True), 'the default')
    s['B.R'] = IntegerValue(x)
    ensures(s['B.R'].value == x, 'set')
    names = list(s)
    n = 0
    for y in names:
        ensures(y in s, 'each name is one')
        ensures(count(names, y) == 1, 'and only one')
        n = n + 1
    ensures(n == len(s), 'the number of names')
    for y in ('O', 'duration', 'P1.duration', 'S2.duration', 'B.duration', 'B.R', 'B.R.CORRECT', 'E.numAttempts'):
        ensures(y in names, 'the names')
    for y in ('X', 'X.R', 'B.X', 'P1.O', 'A.R', 'S1.numAttempts'):
        ensures(y not in s, 'not a name')
    ensures(s.IsResponse('duration') and s.IsResponse('S2.duration') and s.IsResponse('B.R') and not s.IsResponse('O'), 'responses')
    ensures(s.GetDeclaration('B.R') is r and s.GetDeclaration('O') is d, 'declarations')


@lemma(x=Int(0, 99), y=Int(0, 99), fail=OneOf(None, 'S2', 'D'), step=OneOf((0, 0, 0), (2, 3, 1), (1, 0, 4)))
def whole_session(x, y, fail, step):
    """a session from its start to its end"""
    ts = [10.0, 20.0]
    for i in (0, 1, 2, 2, 2):
        ts.append(ts[-1] + step[i])
    stand_in(ts)
    t = make_test()
    for n in ('A', 'C'):
        r = variables.ResponseDeclaration(t.GetPart(n).item)
        r.identifier, r.cardinality, r.baseType = 'R', Cardinality.single, BaseType.integer
        t.GetPart(n).item.ResponseDeclaration.append(r)
        r.ContentChanged()
    if fail is not None:
        pre(t, fail, False)
    rule(t, 'C', True, 'EXIT_TESTPART')
    s = variables.TestSessionState(tests.TestForm(t))
    s.BeginSession(s.key)
    ensures(current(s) == 'A' and s['duration'].value == 0.0, 'the first question')
    s.SaveSession(s.key, {'A.R': str(y), 'C.R': '1'})
    ensures(current(s) == 'A' and s['A.R'].IsNull() and s['A.numAttempts'].value == 1, 'saving does not move on')
    s.HandleEvent({'SUBMIT': s.key, 'A.R': str(x)})
    ensures(s['A.R'].value == x and s['C.R'].IsNull(), 'the response')
    total = step[0] + step[1]
    ensures(s['A.duration'].value == total and s['duration'].value == total, 'the time taken')
    if fail != 'S2':
        ensures(current(s) == 'B', 'the next question')
        s.SubmitSession(s.key, {})
        total = total + step[2]
    ensures(current(s) == 'C' and s['C.numAttempts'].value == 1, 'the next question')
    s.SubmitSession(s.key, {'C.R': str(y), 'A.R': '0'})
    ensures(s['C.R'].value == y and s['A.R'].value == x, 'the response')
    ensures(current(s) == 'E', 'out of the part')
    s.SubmitSession(s.key, {})
    total = total + 2 * step[2]
    ensures(s['duration'].value == total and s['P1.duration'].value == total - step[2] and s['P2.duration'].value == step[2], 'the time taken')
    ensures(s.cQuestion is None, 'the end')
    ensures(s['D.numAttempts'].IsNull(), 'never asked')
