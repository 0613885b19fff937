from sym import *
import sym
import builtins2
import pynames
import os

COV = set() if os.environ.get('PYVC_COV') else None   # the lines that were executed, for coverage.py


class Env(object):
    __slots__ = ('v', 'parent', 'mod', 'assigned', 'fn', 'globs')

    def __init__(self, mod, parent=None, assigned=(), fn=None):
        self.v = {}
        self.mod = mod
        self.parent = parent
        self.assigned = assigned
        self.fn = fn
        self.globs = ()


BRK = ('brk',)
CNT = ('cnt',)


def assigned_names(node):
    """Names bound in a function body (not descending into nested scopes)."""
    out = set()
    glob = set()

    def tgt(t):
        if t.t == 'Name':
            out.add(t.id)
        elif t.t in ('Tuple', 'List'):
            for x in t.elts:
                tgt(x)

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, N):
            return
        if n.t in ('FunctionDef', 'ClassDef'):
            out.add(n.name)
            return
        if n.t in ('Lambda', 'GeneratorExp'):
            return
        if n.t == 'Assign':
            for x in n.targets:
                tgt(x)
        elif n.t in ('AugAssign', 'For', 'comprehension'):
            tgt(n.target)
        elif n.t == 'With' and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif n.t == 'ExceptHandler' and n.name is not None:
            tgt(n.name)
        elif n.t == 'Delete':
            for x in n.targets:
                tgt(x)
        elif n.t in ('Import', 'ImportFrom'):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        elif n.t == 'Global':
            glob.update(n.names)
        for v in n.f.values():
            walk(v)
    walk(node.body)
    return out - glob


def has_yield(node):
    def walk(n):
        if isinstance(n, list):
            return any(walk(x) for x in n)
        if not isinstance(n, N):
            return False
        if n.t == 'Yield':
            return True
        if n.t in ('FunctionDef', 'ClassDef', 'Lambda', 'GeneratorExp'):
            return False
        return any(walk(v) for v in n.f.values())
    return walk(node.body)


SIMPLE = ('Name', 'Num', 'Str', 'Attribute', 'Compare', 'BoolOp', 'UnaryOp', 'BinOp', 'Tuple', 'List')


def simple_expr(n):
    """Side-effect free expression whose evaluation cannot fork or raise for
    the operand types it is used with (numbers and known-length strings)."""
    if n.t in ('Name', 'Num', 'Str'):
        return True
    if n.t == 'Attribute':
        return n.value.t == 'Name'
    if n.t == 'Compare':
        return all(op.t not in ('In', 'NotIn') or c.t in ('Str', 'Tuple', 'List') for op, c in zip(n.ops, n.comparators)) and \
            simple_expr(n.left) and all(simple_expr(x) for x in n.comparators)
    if n.t == 'BoolOp':
        return all(simple_expr(x) for x in n.values)
    if n.t == 'UnaryOp':
        return simple_expr(n.operand)
    if n.t in ('Tuple', 'List'):
        return all(simple_expr(x) for x in n.elts)
    if n.t == 'BinOp':
        if n.op.t in ('Add', 'Sub', 'Mult'):
            return simple_expr(n.left) and simple_expr(n.right)
        if n.op.t in ('Mod', 'FloorDiv', 'Div'):
            return simple_expr(n.left) and n.right.t == 'Num' and n.right.n != 0
    return False


class NoFork(Exception):
    pass


class Interp(object):
    def __init__(self, snap, prefix, unit, cfg):
        self.snap = snap
        self.temp = {}
        self.clsattr = {}       # per-path overlay of class attributes
        self.modattr = {}       # per-path overlay of module globals
        self.solver = z3.Solver()
        self.solver.set('timeout', cfg.get('branch_timeout', 10000))
        self.prefix = prefix
        self.dec = []
        self.nofork = 0
        self.purefn = {}
        self.newpref = []
        self.pc = []
        self.known = {}
        self.divcache = {}
        self.nbnd = 0
        self.bnd = {}           # variable id -> [lo, hi]
        self.model = None
        self.nfresh = 0
        self.unit = unit
        self.cfg = cfg
        self.inputs = []
        self.made = []
        self.purememo = {}
        self.unit_selfkeys = ()
        self.started = False
        self.depth = 0
        self.raising = None
        self.steps = 0
        self.callstack = []
        self.proving = set()
        self.handling = []
        self.use_mode = None
        self.in_ret = False
        self.functions = unit.functions
        self.bi = builtins2.TABLE
        self.in_assume = 0
        self.nq = 0

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort='Int'):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        if sort == 'Int':
            return z3.Int(nm)
        if sort == 'Bool':
            return z3.Bool(nm)
        if sort == 'Float':
            return FP(z3.FP(nm, F64))
        raise Unsupported(sort)

    # ------------------------------------------------------------ branching
    def assume(self, c):
        if c is True:
            return
        c = simp(z3.simplify(c)) if isinstance(c, z3.ExprRef) else c
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(c)
        self.pc.append(c)
        self.known[c.get_id()] = True
        self.learn(c, True)
        self.model = None

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.unit.solver_time += time.time() - t
        self.unit.queries += 1
        return r

    def feasible(self):
        r = self.check()
        return r != z3.unsat

    def branch(self, c):
        """Decide a condition: returns a Python bool, forking the path."""
        if type(c) is bool:
            return c
        c = simp(z3.simplify(c))
        if type(c) is bool:
            return c
        k = self.known.get(c.get_id())
        if k is not None:
            return k
        neg = z3.is_not(c)
        if neg:
            k = self.known.get(c.arg(0).get_id())
            if k is not None:
                return not k
        if self.nofork:
            raise NoFork()
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d in (2, 3):     # forced: the other side was infeasible
                d = (d == 2)
                self.dec.append(2 if d else 3)
                self.remember(c, d)
                # implied by pc; no need to assert
                return d
            self.dec.append(d)
            self._take(c, bool(d))
            return bool(d)
        # new decision
        can_t = can_f = None
        if self.model is not None:
            mv = simp(self.model.eval(c, model_completion=True))
            if mv is True:
                can_t = True
            elif mv is False:
                can_f = True
        if can_t is None:
            r = self.check(c)
            if r == z3.sat:
                can_t = True
                self.model = self.solver.model()
            else:
                can_t = (r != z3.unsat)
            if can_t is False and can_f is None:
                can_f = True
        if can_f is None:
            nc = z3.Not(c)
            r = self.check(nc)
            can_f = (r != z3.unsat)
        if can_t and can_f:
            if len(self.dec) > self.cfg.get('max_depth', 3000):
                raise PathLimit('branch depth')
            self.newpref.append(self.dec + [0])
            self.dec.append(1)
            self._take(c, True)
            return True
        if not can_t and not can_f:
            raise PathEnd()
        d = bool(can_t)
        self.dec.append(2 if d else 3)
        self.remember(c, d)
        return d

    def learn(self, c, d):
        """Interval bounds of variables from simple path conditions."""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not d)
        if k == z3.Z3_OP_AND and d:
            for x in c.children():
                self.learn(x, d)
            return
        if k == z3.Z3_OP_OR and not d:
            for x in c.children():
                self.learn(x, d)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return
        a, b = c.arg(0), c.arg(1)
        if not (z3.is_int_value(b) and z3.is_int(a)):
            return
        if z3.is_const(a) or a.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV, z3.Z3_OP_ITE):
            n = b.as_long()
        else:
            return
        lo = hi = None
        if k == z3.Z3_OP_EQ:
            if not d:
                o = self.bnd.get(a.get_id())
                if o is not None:
                    if o[0] == n:
                        o[0] = n + 1
                    elif o[1] == n:
                        o[1] = n - 1
                return
            lo = hi = n
        elif k == z3.Z3_OP_LE:
            if d:
                hi = n
            else:
                lo = n + 1
        elif k == z3.Z3_OP_GE:
            if d:
                lo = n
            else:
                hi = n - 1
        elif k == z3.Z3_OP_LT:
            if d:
                hi = n - 1
            else:
                lo = n
        else:
            if d:
                lo = n + 1
            else:
                hi = n
        o = self.bnd.get(a.get_id())
        if o is None:
            x, y = builtins2.atom_bounds(self, a)
            o = self.bnd[a.get_id()] = [x, y, a]
        if lo is not None and (o[0] is None or o[0] < lo):
            o[0] = lo
            self.nbnd += 1
        if hi is not None and (o[1] is None or o[1] > hi):
            o[1] = hi
            self.nbnd += 1

    def remember(self, c, d):
        self.known[c.get_id()] = d
        self.learn(c, d)
        # keep the term alive so its id is not reused
        self.pc_keep = getattr(self, 'pc_keep', [])
        self.pc_keep.append(c)

    def _take(self, c, d):
        self.remember(c, d)
        e = c if d else z3.Not(c)
        self.solver.add(e)
        self.pc.append(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def choice(self, n):
        """Non-deterministic choice among n alternatives (all explored)."""
        if n == 1:
            return 0
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.dec.append(d)
            return d - 100
        for k in range(n - 1, 0, -1):
            self.newpref.append(self.dec + [100 + k])
        self.dec.append(100)
        return 0

    def truth(self, v):
        """Truth value as Python bool or z3 Bool."""
        if type(v) is bool:
            return v
        if v is None:
            return False
        if isinstance(v, z3.BoolRef):
            return v
        if type(v) is int:
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, S):
            return len(v.c) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, L):
            return len(v.v) > 0
        if isinstance(v, (D, SetV)):
            return len(v.d) > 0
        if type(v) is float:
            return v != 0
        if isinstance(v, FP):
            return z3.Not(z3.fpIsZero(v.e))
        if isinstance(v, BigF):
            return self.truth(v.i)
        if isinstance(v, QuoF):
            return z3.Not(z3.fpIsZero(builtins2.fp(self, v)))
        if isinstance(v, O):
            m = self.lookup_special(v, '__nonzero__')
            if m is not None:
                return self.truth(self.call(m, []))
            m = self.lookup_special(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, []))
            if v.items is not None:
                return self.truth(v.items)
            return True
        if hasattr(v, 'sym_truth'):
            return v.sym_truth(self)
        if isinstance(v, Opaque):
            raise Unsupported('truth of opaque %r' % (v.what,))
        return True

    def test(self, v):
        return self.branch(self.truth(v))

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        c = self.snap.xclass(name)
        o = O(c)
        o.a['args'] = tuple(cs(a) if isinstance(a, str) else a for a in args)
        if args:
            o.a['message'] = o.a['args'][0]
        return PyExc(o)

    # ------------------------------------------------------------ contracts
    def classof(self, v):
        if v is None:
            n = 'NoneType'
        elif isinstance(v, O):
            return v.cls
        elif isbool(v):
            n = 'bool'
        elif type(v) is int:
            n = 'int' if -2147483648 <= v <= 2147483647 else 'long'
        elif isinstance(v, z3.ArithRef):
            if self.cfg.get('int_long', True):
                n = 'int' if self.branch(And(v >= -2147483648, v <= 2147483647)) else 'long'
            else:
                n = 'int'
        elif isfloat(v):
            n = 'float'
        elif isinstance(v, S):
            n = 'str' if v.k == 's' else 'unicode'
        elif isinstance(v, tuple):
            n = 'tuple'
        elif isinstance(v, L):
            n = 'list'
        elif isinstance(v, D):
            n = 'dict'
        elif isinstance(v, SetV):
            n = 'frozenset' if v.frozen else 'set'
        elif isinstance(v, F):
            n = 'function'
        elif isinstance(v, (BM, UM)):
            n = 'instancemethod'
        elif isinstance(v, C):
            n = 'classobj' if v.old else 'type'
        elif isinstance(v, XC):
            n = 'type'
        elif isinstance(v, Gen):
            n = 'generator'
        elif hasattr(v, 'sym_class'):
            n = v.sym_class
        else:
            raise Unsupported('type of %r' % (v,))
        return self.snap.xclass(n)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if isinstance(cls, Opaque):
            return False
        c = self.classof(v)
        if cls not in c.mro and isinstance(v, z3.ArithRef) and isinstance(cls, XC) and cls.name in ('int', 'long'):
            return self.classof(v) is cls
        return cls in c.mro

    # ------------------------------------------------------------ attributes
    def cls_get(self, cls, name):
        """Look a name up through the MRO; returns (found, raw value)."""
        for c in cls.mro:
            if isinstance(c, C):
                ov = self.clsattr.get((c, name), self)
                if ov is not self:
                    return True, ov, c
                if name in c.lazy:
                    j = c.lazy[name]
                    v = self.snap.dec(j, self.temp)
                    return True, v, c
            else:
                v = builtins2.xclass_attr(self, c, name)
                if v is not None:
                    return True, v, c
        return False, None, None

    def lookup_special(self, o, name):
        cls = o.cls
        found, v, c = self.cls_get(cls, name)
        if not found or v is None or isinstance(c, XC):
            return None
        return self.bind(v, o, cls)

    def bind(self, v, o, cls):
        if isinstance(v, F):
            return BM(v, o)
        if isinstance(v, ClassM):
            return BM(v.f, cls)
        if isinstance(v, Static):
            return v.f
        if isinstance(v, Prop):
            return self.call(v.get, [o])
        if isinstance(v, UM):
            return BM(v.f, o)
        if isinstance(v, B):
            return BM(v, o)
        return v

    def getattr(self, o, name, default=PathEnd):
        r = self._getattr(o, name)
        if r is PathEnd:
            self.known_name(o, name)
            if default is not PathEnd:
                return default
            raise self.exc('AttributeError', name)
        return r

    def own_names(self, c):
        """the names in the class itself"""
        return sorted(set(c.lazy) | set(n for k, n in self.clsattr if k is c))

    def known_name(self, o, name):
        """Python has the attribute and the engine does not: not an AttributeError"""
        if isinstance(o, (Mod, XMod)):
            return
        if isinstance(o, (C, XC)):
            mro = o.mro
        elif isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, O) else o.obj.mro
        else:
            mro = self.classof(o).mro
        if name in pynames.OBJECT and not (isinstance(mro[-1], C) and mro[-1].old):
            raise Unsupported('attribute %s' % name)
        for c in mro:
            if isinstance(c, XC):
                n = c.name
                if n == 'object':
                    continue
                if any(x.name == 'BaseException' for x in c.mro):
                    n = 'Exception'
                if n not in pynames.TYPES or name in pynames.TYPES[n]:
                    raise Unsupported('attribute %s of %s' % (name, n))

    def _getattr(self, o, name):
        if isinstance(o, O):
            if name in o.a:
                return o.a[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = D()
                for k, v in o.a.items():
                    d.d[keyof(cs(k))] = (cs(k), v)
                return d
            found, v, c = self.cls_get(o.cls, name)
            if found:
                return self.bind(v, o, o.cls)
            if o.items is not None:
                m = builtins2.method(self, o.items, name)
                if m is not None:
                    return m
            found, v, c = self.cls_get(o.cls, '__getattr__')
            if found:
                return self.call(self.bind(v, o, o.cls), [cs(name)])
            if name in ('args', 'message') and self.snap.xclass('BaseException') in o.cls.mro:
                return () if name == 'args' else cs('')
            return PathEnd
        if isinstance(o, (Mod,)):
            ov = self.modattr.get((o.name, name), self)
            if ov is not self:
                return ov
            if name in o.d:
                return self.snap.dec(o.d[name], self.temp)
            # submodules
            i = self.snap.modbyname.get(o.name + '.' + name)
            if i is not None:
                return self.snap.dec({'t': 'ref', 'v': i}, self.temp)
            return PathEnd
        if isinstance(o, C):
            if name == '__name__':
                return cs(o.name)
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return o.bases
            if name == '__dict__':
                d = D()
                for k in self.own_names(o):
                    d.d[keyof(cs(k))] = (cs(k), self.cls_get(o, k)[1])
                return d
            found, v, c = self.cls_get(o, name)
            if found:
                if isinstance(v, F):
                    return UM(v, o)
                if isinstance(v, ClassM):
                    return BM(v.f, o)
                if isinstance(v, Static):
                    return v.f
                return v
            return PathEnd
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, O) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, C):
                    if name in c.lazy:
                        v = self.snap.dec(c.lazy[name], self.temp)
                        return self.bind(v, o.obj, o.obj.cls if isinstance(o.obj, O) else o.obj)
                else:
                    v = builtins2.xclass_attr(self, c, name)
                    if v is not None:
                        return BM(v, o.obj)
            return PathEnd
        if isinstance(o, XMod):
            return builtins2.xmod_attr(self, o.name, name)
        if isinstance(o, XC):
            v = builtins2.xclass_attr(self, o, name)
            if v is None:
                if name == '__name__':
                    return cs(o.name)
                if name == '__bases__':
                    return tuple(o.mro[1:2])
                return PathEnd
            return v
        if isinstance(o, (UM, BM)) and name in ('im_func', '__func__'):
            return o.f
        if isinstance(o, (UM, BM)) and name == '__name__':
            return cs(o.f.name)
        if isinstance(o, BM) and name in ('im_self', '__self__'):
            return o.s
        if isinstance(o, F) and name in ('__name__', 'func_name'):
            return cs(o.name)
        if name == '__class__':
            return self.classof(o)
        if isinstance(o, Opaque):
            raise Unsupported('attribute %s of opaque %r' % (name, o.what))
        m = builtins2.method(self, o, name)
        if m is not None:
            return m
        return PathEnd

    def setattr(self, o, name, v):
        if isinstance(o, O):
            found, cv, c = self.cls_get(o.cls, name)
            if found and isinstance(cv, Prop):
                self.call(cv.set, [o, v])
                return
            found, sv, c = self.cls_get(o.cls, '__setattr__')
            if found and isinstance(sv, F):
                self.call(BM(sv, o), [cs(name), v])
                return
            o.a[name] = v
        elif isinstance(o, C):
            self.clsattr[(o, name)] = v
        elif isinstance(o, Mod):
            self.modattr[(o.name, name)] = v
        else:
            raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ calling
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BM):
            return self.call(f.f, [f.s] + list(args), kw)
        if isinstance(f, UM):
            return self.call(f.f, args, kw)
        if isinstance(f, F):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, B):
            return f.fn(self, list(args), kw)
        if isinstance(f, C):
            return self.instantiate(f, args, kw)
        if isinstance(f, XC):
            return builtins2.construct(self, f, list(args), kw)
        if isinstance(f, O):
            m = self.lookup_special(f, '__call__')
            if m is None:
                raise self.exc('TypeError', 'not callable')
            return self.call(m, args, kw)
        if isinstance(f, Opaque):
            b = builtins2.opaque_fn(self, f)
            if b is not None:
                return b.fn(self, list(args), kw)
            raise Unsupported('call of opaque %r' % (f.what,))
        if f is None:
            raise self.exc('TypeError', 'None is not callable')
        if isinstance(f, Static):
            return self.call(f.f, args, kw)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        found, v, c = self.cls_get(cls, '_fields')
        if found and isinstance(v, tuple):          # collections.namedtuple
            names = [x.text() for x in v]
            if len(args) + len(kw) != len(names) or not all(k in names[len(args):] for k in kw):
                raise self.exc('TypeError', 'wrong number of arguments')
            o = O(cls)
            o.a = dict(zip(names, args))
            o.a.update(kw)
            o.items = tuple(o.a[x] for x in names)
            return o
        found, v, c = self.cls_get(cls, '__new__')
        if found and isinstance(v, (F, Static)):
            o = self.call(v.f if isinstance(v, Static) else v, [cls] + list(args), kw)
            if not (isinstance(o, O) and cls in o.cls.mro):
                return o
        else:
            o = O(cls)
            for c in cls.mro:
                if isinstance(c, XC):
                    if c.name == 'dict':
                        o.items = D()
                    elif c.name == 'list':
                        o.items = L([])
                    elif c.name in ('str', 'unicode', 'int', 'tuple', 'float'):
                        raise Unsupported('subclass of %s' % c.name)
        found, v, c = self.cls_get(cls, '__init__')
        if found:
            self.call(self.bind(v, o, cls), args, kw)
        return o

    def call_fn(self, f, args, kw):
        if f.mod == 'xpy':
            h = builtins2.XPY.get(f.name)
            if h is not None:
                return h(self, args, kw)
        if (self.started or f.key not in self.unit_selfkeys) and f.key in self.cfg['modular'] and f.key not in self.proving:
            return self.cfg['modular'][f.key](self, f, args, kw)
        node = f.node
        if isinstance(node, tuple):
            node = self.disambiguate(f, node[1])
        if node is None:
            b = builtins2.external_fn(self, f)
            if b is not None:
                return b(self, args, kw)
            raise Unsupported('no source for %r' % (f.key,))
        self.functions.add('%s:%s' % (f.mod, f.name)) if not f.mod.startswith('contracts') else None
        env = Env(f.mod, None, (), f)
        if f.clo:
            if isinstance(f.clo, Env):
                env.parent = f.clo
            else:
                env.parent = Env(f.mod)
                for nm, j in f.clo:
                    env.parent.v[nm] = self.snap.dec(j, self.temp) if isinstance(j, dict) or j is None or isinstance(j, bool) else j
        self.bind_args(f, node, env, args, kw)
        self.depth += 1
        if self.depth > self.cfg.get('max_call_depth', 150):
            self.depth -= 1
            raise Unsupported('call depth (unbounded recursion without a contract)')
        try:
            if node.t == 'Lambda':
                return self.ev(node.body, env)
            meta = node.f.get('_meta')
            if meta is None:
                meta = (assigned_names(node), has_yield(node))
                node.f['_meta'] = meta
            env.assigned = meta[0]
            if meta[1]:
                return Gen(self.gblock_fn(node.body, env))
            r = self.block(node.body, env)
            if r is None:
                return None
            if r[0] == 'ret':
                return r[1]
            raise Unsupported('loop control outside loop')
        finally:
            self.depth -= 1

    def disambiguate(self, f, nodes):
        raise Unsupported('ambiguous lambda at %r' % (f.key,))

    def bind_args(self, f, node, env, args, kw):
        a = node.args
        names = a.args
        nd = f.defaults or []
        kw = dict(kw)
        n = len(names)
        if len(args) > n and a.vararg is None:
            raise self.exc('TypeError', '%s() takes at most %d arguments' % (f.name, n))
        for i, t in enumerate(names):
            if i < len(args):
                v = args[i]
                if t.t == 'Name' and t.id in kw:
                    raise self.exc('TypeError', 'multiple values for %s' % t.id)
            elif t.t == 'Name' and t.id in kw:
                v = kw.pop(t.id)
            elif i >= n - len(nd):
                v = nd[i - (n - len(nd))]
                if isinstance(v, dict):
                    v = self.snap.dec(v, self.temp)
            else:
                raise self.exc('TypeError', '%s() missing argument' % f.name)
            self.assign(t, v, env)
        if a.vararg is not None:
            env.v[a.vararg] = tuple(args[n:])
        if a.kwarg is not None:
            d = D()
            for k, v in kw.items():
                d.d[keyof(cs(k))] = (cs(k), v)
            env.v[a.kwarg] = d
        elif kw:
            raise self.exc('TypeError', '%s() unexpected keyword %s' % (f.name, sorted(kw)[0]))

    # ------------------------------------------------------------ names
    def name(self, id, env):
        e = env
        if id in e.v:
            return e.v[id]
        if id in e.assigned:
            raise self.exc('UnboundLocalError', id)
        e = e.parent
        while e is not None:
            if id in e.v:
                return e.v[id]
            e = e.parent
        return self.global_name(id, env.mod)

    def global_name(self, id, mod):
        ov = self.modattr.get((mod, id), self)
        if ov is not self:
            return ov
        i = self.snap.modbyname.get(mod)
        if i is not None:
            d = self.snap.heap[i]['d']
            if id in d:
                return self.snap.dec(d[id], self.temp)
        if id in self.bi:
            return self.bi[id]
        if id in BUILTIN_MRO:
            return self.snap.xclass(id)
        if id in pynames.BUILTINS:
            raise Unsupported('builtin ' + id)
        raise self.exc('NameError', id)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            r = self.st(s, env)
            if r is not None:
                return r
        return None

    def st(self, s, env):
        self.steps += 1
        if self.steps > self.cfg.get('max_steps', 400000):
            raise PathLimit('steps')
        if COV is not None:
            COV.add((s.file, s.line))
        t = s.t
        if t == 'Expr':
            self.ev(s.value, env)
            return None
        if t == 'Assign':
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
            return None
        if t == 'If':
            if self.test(self.ev(s.test, env)):
                return self.block(s.body, env)
            return self.block(s.orelse, env)
        if t == 'Return':
            return ('ret', None if s.value is None else self.ev(s.value, env))
        if t == 'For':
            return self.for_(s, env)
        if t == 'While':
            return self.while_(s, env)
        if t == 'AugAssign':
            return self.augassign(s, env)
        if t == 'Pass':
            return None
        if t == 'Break':
            return BRK
        if t == 'Continue':
            return CNT
        if t == 'Raise':
            return self.raise_(s, env)
        if t == 'TryExcept':
            return self.try_(s, env)
        if t == 'TryFinally':
            return self.tryfin(s, env)
        if t == 'FunctionDef':
            f = F(s, s.name, env.mod, [self.ev(d, env) for d in s.args.defaults], env, (s.file, s.line, s.name))
            v = f
            for d in reversed(s.decorator_list):
                v = self.call(self.ev(d, env), [v])
            env.v[s.name] = v
            return None
        if t == 'Global':
            env.globs = tuple(env.globs) + tuple(s.names)
            return None
        if t == 'Assert':
            if not self.test(self.ev(s.test, env)):
                raise self.exc('AssertionError', *([self.ev(s.msg, env)] if s.msg is not None else []))
            return None
        if t == 'Delete':
            for x in s.targets:
                self.delete(x, env)
            return None
        if t == 'Print':
            for x in s.values:
                self.ev(x, env)
            return None
        if t == 'With':
            return self.with_(s, env)
        if t in ('Import', 'ImportFrom'):
            return self.import_(s, env)
        raise Unsupported('statement %s at %s:%d' % (t, s.file, s.line))

    def import_(self, s, env):
        if s.t == 'Import':
            for a in s.names:
                nm = a.name if a.asname else a.name.split('.')[0]
                i = self.snap.modbyname.get(nm)
                v = self.snap.dec({'t': 'ref', 'v': i}, self.temp) if i is not None else XMod(nm)
                env.v[a.asname or nm] = v
        else:
            i = self.snap.modbyname.get(s.module)
            m = self.snap.dec({'t': 'ref', 'v': i}, self.temp) if i is not None else XMod(s.module)
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('import * in function')
                env.v[a.asname or a.name] = self.getattr(m, a.name)
        return None

    def with_(self, s, env):
        cm = self.ev(s.context_expr, env)
        if isinstance(cm, Opaque):      # e.g. a lock: mutual exclusion is not modelled
            v = cm
            ex = None
        else:
            ex = self.getattr(cm, '__exit__')
            v = self.call(self.getattr(cm, '__enter__'), [])
        if s.optional_vars is not None:
            self.assign(s.optional_vars, v, env)
        try:
            r = self.block(s.body, env)
        except PyExc as e:
            if ex is None or not self.test(self.call(ex, [e.obj.cls, e.obj, None])):
                raise
            return None
        if ex is not None:
            self.call(ex, [None, None, None])
        return r

    def raise_(self, s, env):
        if s.type is None:
            if not self.handling:
                raise self.exc('TypeError')
            raise PyExc(self.handling[-1])
        self.raising = self.depth       # texts of messages may be given up, see pct
        try:
            t = self.ev(s.type, env)
            inst = self.ev(s.inst, env) if s.inst is not None else None
        finally:
            self.raising = None
        if isinstance(t, (C, XC)):
            if inst is None:
                o = self.call(t, [])
            elif isinstance(inst, O) and t in inst.cls.mro:
                o = inst
            elif isinstance(inst, tuple):
                o = self.call(t, list(inst))
            else:
                o = self.call(t, [inst])
            raise PyExc(o)
        if isinstance(t, O):
            raise PyExc(t)
        raise Unsupported('raise %r' % (t,))

    def match_exc(self, o, c):
        if isinstance(c, tuple):
            return any(self.match_exc(o, x) for x in c)
        return c in o.cls.mro

    def try_(self, s, env):
        try:
            r = self.block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self.match_exc(e.obj, self.ev(h.type, env)):
                    if h.name is not None:
                        self.assign(h.name, e.obj, env)
                    self.handling.append(e.obj)
                    try:
                        return self.block(h.body, env)
                    finally:
                        self.handling.pop()
            raise
        if r is not None:
            return r
        return self.block(s.orelse, env)

    def tryfin(self, s, env):
        try:
            r = self.block(s.body, env)
        except PyExc as e:
            r2 = self.block(s.finalbody, env)
            if r2 is not None:
                return r2
            raise
        r2 = self.block(s.finalbody, env)
        return r2 if r2 is not None else r

    def while_(self, s, env):
        n = 0
        h = self.cfg['loops'].get(id(s))
        if h is not None:
            return h(self, s, env)
        lim = self.cfg.get('unroll', 400)
        while self.test(self.ev(s.test, env)):
            n += 1
            if n > lim:
                raise Unsupported('loop at %s:%d needs an invariant (unrolled %d times)' % (s.file, s.line, n))
            r = self.block(s.body, env)
            if r is BRK:
                return None
            if r is None or r is CNT:
                continue
            return r
        return self.block(s.orelse, env)

    def for_(self, s, env):
        it = self.ev(s.iter, env)
        if hasattr(it, 'sym_for'):
            return it.sym_for(self, s, env)
        for x in self.iterate(it):
            self.assign(s.target, x, env)
            r = self.block(s.body, env)
            if r is BRK:
                return None
            if r is None or r is CNT:
                continue
            return r
        return self.block(s.orelse, env)

    def iterate(self, v):
        """Python iterator over the elements of a known-length iterable."""
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, L):
            return self.iter_list(v)
        if isinstance(v, S):
            return iter([S(v.k, (c,)) for c in v.c])
        if isinstance(v, D):
            return iter([a for a, b in v.d.values()])
        if isinstance(v, SetV):
            return iter(list(v.d.values()))
        if isinstance(v, Gen):
            return self.iter_gen(v)
        if isinstance(v, O):
            m = self.lookup_special(v, '__iter__')
            if m is not None:
                return self.iterate(self.call(m, []))
            if v.items is not None:
                return self.iterate(v.items)
            m = self.lookup_special(v, 'next')
            if m is not None:
                return self.iter_next(m)
            m = self.lookup_special(v, '__getitem__')
            if m is not None:
                return self.iter_getitem(m)
        if hasattr(v, 'sym_iter'):
            return v.sym_iter(self)
        if v is None or isnum(v):
            raise self.exc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def iter_list(self, l):
        i = 0
        while i < len(l.v):
            yield l.v[i]
            i += 1

    def iter_gen(self, g):
        for x in g.it:
            yield x

    def iter_next(self, m):
        while True:
            try:
                x = self.call(m, [])
            except PyExc as e:
                if self.snap.xclass('StopIteration') in e.obj.cls.mro:
                    return
                raise
            yield x

    def iter_getitem(self, m):
        i = 0
        while True:
            try:
                x = self.call(m, [i])
            except PyExc as e:
                if self.snap.xclass('IndexError') in e.obj.cls.mro:
                    return
                raise
            yield x
            i += 1

    # generator bodies -----------------------------------------------------
    def gblock_fn(self, stmts, env):
        r = yield from self.gblock(stmts, env)
        return

    def gblock(self, stmts, env):
        for s in stmts:
            if self.contains_yield(s):
                r = yield from self.gst(s, env)
            else:
                r = self.st(s, env)
            if r is not None:
                return r
        return None

    def contains_yield(self, s):
        c = s.f.get('_y')
        if c is None:
            def walk(n):
                if isinstance(n, list):
                    return any(walk(x) for x in n)
                if not isinstance(n, N):
                    return False
                if n.t == 'Yield':
                    return True
                if n.t in ('FunctionDef', 'ClassDef', 'Lambda', 'GeneratorExp'):
                    return False
                return any(walk(v) for k, v in n.f.items() if not k.startswith('_'))
            c = walk(s)
            s.f['_y'] = c
        return c

    def gst(self, s, env):
        t = s.t
        if t == 'Expr' and s.value.t == 'Yield':
            v = None if s.value.value is None else self.ev(s.value.value, env)
            yield v
            return None
        if t == 'If':
            if self.test(self.ev(s.test, env)):
                return (yield from self.gblock(s.body, env))
            return (yield from self.gblock(s.orelse, env))
        if t == 'For':
            it = self.ev(s.iter, env)
            if hasattr(it, 'sym_gfor'):
                yield from it.sym_gfor(self, s, env)
                return None
            for x in self.iterate(it):
                self.assign(s.target, x, env)
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is None or r is CNT:
                    continue
                return r
            return (yield from self.gblock(s.orelse, env))
        if t == 'While':
            n = 0
            while self.test(self.ev(s.test, env)):
                n += 1
                if n > self.cfg.get('unroll', 400):
                    raise Unsupported('loop at %s:%d needs an invariant' % (s.file, s.line))
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is None or r is CNT:
                    continue
                return r
            return None
        if t == 'TryFinally':
            try:
                r = yield from self.gblock(s.body, env)
            except PyExc:
                r2 = self.block(s.finalbody, env)
                if r2 is not None:
                    return r2
                raise
            r2 = self.block(s.finalbody, env)
            return r2 if r2 is not None else r
        if t == 'TryExcept':
            try:
                r = yield from self.gblock(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.match_exc(e.obj, self.ev(h.type, env)):
                        if h.name is not None:
                            self.assign(h.name, e.obj, env)
                        return (yield from self.gblock(h.body, env))
                raise
            if r is not None:
                return r
            return (yield from self.gblock(s.orelse, env))
        raise Unsupported('generator statement %s at %s:%d' % (t, s.file, s.line))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if t.t == 'Name':
            if t.id in env.globs:
                self.modattr[(env.mod, t.id)] = v
            else:
                env.v[t.id] = v
        elif t.t == 'Attribute':
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif t.t == 'Subscript':
            o = self.ev(t.value, env)
            self.setitem(o, t.slice, v, env)
        elif t.t in ('Tuple', 'List'):
            if hasattr(v, 'sym_unpack'):
                xs = v.sym_unpack(self, len(t.elts))
            else:
                xs = list(self.iterate(v))
            if len(xs) != len(t.elts):
                raise self.exc('ValueError', 'unpack')
            for a, b in zip(t.elts, xs):
                self.assign(a, b, env)
        else:
            raise Unsupported('assign to %s' % t.t)

    def delete(self, t, env):
        if t.t == 'Name':
            if t.id not in env.v:
                raise self.exc('NameError', t.id)
            del env.v[t.id]
        elif t.t == 'Attribute':
            o = self.ev(t.value, env)
            if isinstance(o, O):
                if t.attr not in o.a:
                    raise self.exc('AttributeError', t.attr)
                del o.a[t.attr]
            else:
                raise Unsupported('del attribute')
        elif t.t == 'Subscript':
            o = self.ev(t.value, env)
            builtins2.delitem(self, o, self.ev_slice(t.slice, env))
        else:
            raise Unsupported('del')

    def ev_slice(self, s, env):
        if s.t == 'Index':
            return self.ev(s.value, env)
        if s.t == 'Slice':
            return slice(None if s.lower is None else self.ev(s.lower, env),
                         None if s.upper is None else self.ev(s.upper, env),
                         None if s.step is None else self.ev(s.step, env))
        if isinstance(s, N) and s.t not in ('ExtSlice', 'Ellipsis'):
            return self.ev(s, env)
        raise Unsupported('slice')

    def setitem(self, o, sl, v, env):
        builtins2.setitem(self, o, self.ev_slice(sl, env), v)

    def augassign(self, s, env):
        t = s.target
        if t.t == 'Name':
            cur = self.name(t.id, env)
            v = self.aug(s.op.t, cur, self.ev(s.value, env))
            self.assign(t, v, env)
        elif t.t == 'Attribute':
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.aug(s.op.t, cur, self.ev(s.value, env))
            self.setattr(o, t.attr, v)
        elif t.t == 'Subscript':
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            cur = builtins2.getitem(self, o, k)
            v = self.aug(s.op.t, cur, self.ev(s.value, env))
            builtins2.setitem(self, o, k, v)
        else:
            raise Unsupported('augassign')
        return None

    def aug(self, op, a, b):
        if isinstance(a, L) and op == 'Add':
            a.v.extend(self.iterate(b))
            return a
        return builtins2.binop(self, op, a, b)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        t = e.t
        m = EV.get(t)
        if m is None:
            raise Unsupported('expression %s at %s:%d' % (t, e.file, e.line))
        return m(self, e, env)

    def e_name(self, e, env):
        id = e.id
        if id == 'None':
            return None
        if id == 'True':
            return True
        if id == 'False':
            return False
        return self.name(id, env)

    def e_num(self, e, env):
        return e.n

    def e_str(self, e, env):
        s = e.s
        if isinstance(s, S):
            return s
        return cs(s)

    def e_attr(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_call(self, e, env):
        # short-circuit and, or, locals() etc are not special-cased
        if e.func.t == 'Name' and e.func.id == 'super' and 'super' not in env.v:
            a = [self.ev(x, env) for x in e.args]
            return SuperV(a[0], a[1])
        f = self.ev(e.func, env)
        args = [self.ev(x, env) for x in e.args]
        kw = {}
        for k in e.keywords:
            kw[k.arg] = self.ev(k.value, env)
        if e.starargs is not None:
            sa = self.ev(e.starargs, env)
            if hasattr(sa, 'sym_star'):
                return sa.sym_star(self, f, args, kw)
            args.extend(self.iterate(sa))
        if e.f.get('kwargs') is not None:
            d = self.ev(e.kwargs, env)
            for k, (a, b) in d.d.items():
                kw[a.text()] = b
        if isinstance(f, B) and f.name in ('locals', 'globals', 'eval'):
            raise Unsupported(f.name)
        return self.call(f, args, kw)

    def e_boolop(self, e, env):
        isand = e.op.t == 'And'
        v = None
        vals = e.values
        for i, x in enumerate(vals):
            v = self.ev(x, env)
            if i == len(vals) - 1:
                return v
            tv = self.truth(v)
            tv = hardsimp(tv)
            if type(tv) is not bool:
                if isinstance(v, z3.BoolRef) and all(simple_expr(y) for y in vals[i + 1:]):
                    # no side effects: combine without forking when the rest is boolean
                    r = self.try_merge(isand, tv, vals[i + 1:], env)
                    if r is not None:
                        return r
                elif isinstance(v, z3.BoolRef):
                    r = self.spec_merge(isand, tv, vals[i + 1:], env)
                    if r is not None:
                        return r
                tv = self.branch(tv)
            if isand and not tv:
                return v
            if not isand and tv:
                return v
        return v

    def try_merge(self, isand, first, rest, env):
        acc = [first]
        nd = len(self.dec)
        for y in rest:
            if not self.quiet_ok(y, env):
                return None
            w = self.ev(y, env)
            if not isbool(w):
                return None
            acc.append(w)
        return And(*acc) if isand else Or(*acc)

    def spec_merge(self, isand, first, rest, env):
        """Combine operands that call side-effect free expression functions
        (character-class predicates): they are evaluated speculatively; when
        that would fork, raise or give something other than a bool, the
        caller falls back to deciding the operands one after the other."""
        for y in rest:
            if not self.pure_expr(y, env):
                return None
        acc = [first]
        self.nofork += 1
        try:
            for y in rest:
                w = self.ev(y, env)
                if not isbool(w):
                    return None
                acc.append(w)
        except (NoFork, PyExc):
            return None
        finally:
            self.nofork -= 1
        return And(*acc) if isand else Or(*acc)

    def pure_expr(self, n, env):
        t = n.t
        if t in ('Name', 'Num', 'Str'):
            return True
        if t == 'Attribute':
            return n.value.t == 'Name'
        if t == 'Compare':
            return self.pure_expr(n.left, env) and all(self.pure_expr(x, env) for x in n.comparators)
        if t == 'BoolOp':
            return all(self.pure_expr(x, env) for x in n.values)
        if t == 'UnaryOp':
            return self.pure_expr(n.operand, env)
        if t in ('Tuple', 'List'):
            return all(self.pure_expr(x, env) for x in n.elts)
        if t == 'BinOp':
            return n.op.t in ('Add', 'Sub') and self.pure_expr(n.left, env) and self.pure_expr(n.right, env)
        if t == 'Call':
            if n.keywords or n.starargs is not None or n.f.get('kwargs') is not None:
                return False
            if n.func.t != 'Name' or not all(self.pure_expr(x, env) for x in n.args):
                return False
            try:
                f = self.name(n.func.id, env)
            except PyExc:
                return False
            return self.pure_fn(f)
        return False

    def pure_fn(self, f):
        if isinstance(f, B):
            return f.name in ('ord', 'len')
        if not isinstance(f, F) or f.key in self.cfg['modular'] or f.mod == 'xpy' or f.clo:
            return False
        k = self.purefn.get(f.key)
        if k is None:
            self.purefn[f.key] = False      # recursive functions are not
            node = f.node
            k = not isinstance(node, tuple) and node is not None and node.t == 'FunctionDef' and \
                node.args.vararg is None and node.args.kwarg is None and \
                self.pure_body(node.body, Env(f.mod, None, assigned_names(node) | set(a.f.get('id') for a in node.args.args), f))
            self.purefn[f.key] = k
        return k

    def pure_body(self, body, env):
        for s in body:
            if s.t == 'Return':
                if s.value is not None and not self.pure_expr(s.value, env):
                    return False
            elif s.t == 'If':
                if not (self.pure_expr(s.test, env) and self.pure_body(s.body, env) and self.pure_body(s.orelse, env)):
                    return False
            elif not (s.t == 'Pass' or s.t == 'Expr' and s.value.t == 'Str'):
                return False
        return True

    def quiet_ok(self, n, env):
        """Check that a simple_expr only touches numbers/bools/strings of
        known shape, so that evaluating it cannot fork or raise."""
        if n.t == 'Num' or n.t == 'Str':
            return True
        if n.t == 'Name':
            if n.id in ('None', 'True', 'False'):
                return True
            try:
                v = self.name(n.id, env)
            except PyExc:
                return False
            return v is None or isnum(v) or isinstance(v, (S, C, XC, Mod))
        if n.t == 'Attribute':
            try:
                o = self.name(n.value.id, env)
            except PyExc:
                return False
            if isinstance(o, O):
                return n.attr in o.a and (o.a[n.attr] is None or isnum(o.a[n.attr]) or isinstance(o.a[n.attr], S))
            if isinstance(o, Mod):
                return n.attr in o.d
            if isinstance(o, C):
                return n.attr in o.lazy
            return False
        if n.t == 'Compare':
            if not all(self.quiet_ok(x, env) for x in [n.left] + n.comparators):
                return False
            for op, c in zip(n.ops, n.comparators):
                if op.t in ('In', 'NotIn') and c.t == 'Str':
                    x = self.ev(n.left, env)
                    if not (isinstance(x, S) and len(x.c) == 1):
                        return False
            return True
        if n.t == 'BoolOp':
            return all(self.quiet_ok(x, env) for x in n.values) and all(x.t in ('Compare', 'BoolOp') for x in n.values)
        if n.t == 'UnaryOp':
            return self.quiet_ok(n.operand, env)
        if n.t in ('Tuple', 'List'):
            return all(self.quiet_ok(x, env) for x in n.elts)
        if n.t == 'BinOp':
            if not (self.quiet_ok(n.left, env) and self.quiet_ok(n.right, env)):
                return False
            a = self.ev(n.left, env)
            b = self.ev(n.right, env)
            return isint(a) and isint(b)
        return False

    def e_binop(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return builtins2.binop(self, e.op.t, a, b)

    def e_unary(self, e, env):
        v = self.ev(e.operand, env)
        op = e.op.t
        if op == 'Not':
            return Not(self.truth(v))
        if op == 'USub':
            if isnum(v):
                return -toint(v)
            if type(v) is float:
                return -v
            if isinstance(v, FP):
                return FP(z3.fpNeg(v.e))
            if isinstance(v, O):
                m = self.lookup_special(v, '__neg__')
                if m is not None:
                    return self.call(m, [])
            if isinstance(v, BigF):
                return BigF(-v.i, v.k)
            if isinstance(v, QuoF):
                return FP(z3.fpNeg(builtins2.fp(self, v)))
            raise self.exc('TypeError', 'bad operand for unary -')
        if op == 'UAdd':
            return toint(v) if isnum(v) else v
        if op == 'Invert':
            return -toint(v) - 1
        raise Unsupported(op)

    def e_compare(self, e, env):
        left = self.ev(e.left, env)
        n = len(e.ops)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, env)
            v = builtins2.compare(self, op.t, left, right)
            if n == 1:
                return v
            if i == n - 1:
                if isbool(v) and isbool(res):
                    return And(res, v)
                return v
            tv = self.truth(v)
            if isbool(v) and all(simple_expr(x) for x in e.comparators[i + 1:]):
                res = And(res, v)
            elif not self.branch(tv):
                return v
            left = right
        return res

    def e_subscript(self, e, env):
        o = self.ev(e.value, env)
        return builtins2.getitem(self, o, self.ev_slice(e.slice, env))

    def e_tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_list(self, e, env):
        return L([self.ev(x, env) for x in e.elts])

    def e_set(self, e, env):
        s = SetV()
        for x in e.elts:
            builtins2.set_add(self, s, self.ev(x, env))
        return s

    def e_dict(self, e, env):
        d = D()
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env)
            builtins2.dict_set(self, d, self.ev(k, env), vv)
        return d

    def e_lambda(self, e, env):
        return F(e, '<lambda>', env.mod, [self.ev(d, env) for d in e.args.defaults], env, (e.file, e.line, '<lambda>'))

    def e_ifexp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        c = hardsimp(c)
        if type(c) is not bool and simple_expr(e.body) and simple_expr(e.orelse) \
                and self.quiet_ok(e.body, env) and self.quiet_ok(e.orelse, env):
            a = self.ev(e.body, env)
            b = self.ev(e.orelse, env)
            if isint(a) and isint(b):
                return z3.If(c, toz(a), toz(b))
            if isbool(a) and isbool(b):
                return z3.If(c, z3b(a), z3b(b))
        if self.branch(c):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def comp(self, gens, i, env, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.ev(g.iter, env)
        for x in self.iterate(it):
            self.assign(g.target, x, env)
            ok = True
            for c in g.ifs:
                if not self.test(self.ev(c, env)):
                    ok = False
                    break
            if ok:
                self.comp(gens, i + 1, env, emit)

    def e_listcomp(self, e, env):
        if len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, env)
            if hasattr(it, 'sym_map'):
                return it.sym_map(self, e, env)
        out = []
        self.comp(e.generators, 0, env, lambda: out.append(self.ev(e.elt, env)))
        return L(out)

    def e_genexp(self, e, env):
        # evaluated eagerly in a child scope (its element expressions are pure in pyslet)
        en = Env(env.mod, env)
        out = []
        self.comp(e.generators, 0, en, lambda: out.append(self.ev(e.elt, en)))
        return Gen(iter(out))

    def e_setcomp(self, e, env):
        s = SetV()
        self.comp(e.generators, 0, env, lambda: builtins2.set_add(self, s, self.ev(e.elt, env)))
        return s

    def e_dictcomp(self, e, env):
        d = D()
        self.comp(e.generators, 0, env, lambda: builtins2.dict_set(self, d, self.ev(e.key, env), self.ev(e.value, env)))
        return d

    def e_repr(self, e, env):
        return builtins2.repr_(self, self.ev(e.value, env))


def toz(v):
    if type(v) is bool:
        return z3.IntVal(int(v))
    if type(v) is int:
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return toint(v)
    return v


EV = {
    'Name': Interp.e_name, 'Num': Interp.e_num, 'Str': Interp.e_str, 'Attribute': Interp.e_attr,
    'Call': Interp.e_call, 'BoolOp': Interp.e_boolop, 'BinOp': Interp.e_binop, 'UnaryOp': Interp.e_unary,
    'Compare': Interp.e_compare, 'Subscript': Interp.e_subscript, 'Tuple': Interp.e_tuple,
    'List': Interp.e_list, 'Dict': Interp.e_dict, 'Lambda': Interp.e_lambda, 'IfExp': Interp.e_ifexp,
    'ListComp': Interp.e_listcomp, 'GeneratorExp': Interp.e_genexp, 'Repr': Interp.e_repr,
    'Set': Interp.e_set, 'SetComp': Interp.e_setcomp, 'DictComp': Interp.e_dictcomp,
}
