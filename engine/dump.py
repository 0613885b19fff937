# Runs under Jython (the interpreter that runs pyslet).  Imports the contract
# module, which imports the real /repo modules, and writes, as JSON,
#   * the ASTs of the named source files as Jython's own parser sees them, and
#   * a snapshot of the module globals: constants, functions (by file and
#     line), classes with their MRO and dictionaries, and plain instances.
# usage: dump.py OUT.json contract_module
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/opt/vp/runner')
import compat
compat.install()
import ast, json, types, os

OUT, CMOD = sys.argv[1], sys.argv[2]
__import__(CMOD)
cmod = sys.modules[CMOD]


def srcfile(m):
    f = getattr(m, '__file__', None)
    if not f:
        return None
    for e in ('$py.class', '.pyc', '.pyo'):
        if f.endswith(e):
            f = f[:-len(e)] + '.py'
    return os.path.abspath(f)


def enc_ast(n):
    if isinstance(n, ast.AST):
        d = [n.__class__.__name__, getattr(n, 'lineno', 0)]
        f = {}
        for k in n._fields:
            f[k] = enc_ast(getattr(n, k))
        d.append(f)
        return d
    elif isinstance(n, (list, tuple)) or n.__class__.__name__ == 'AstList':
        return {'l': [enc_ast(x) for x in n]}
    elif isinstance(n, unicode):
        return {'u': [ord(c) for c in n]}
    elif isinstance(n, str):
        return {'s': n} if all(ord(c) < 128 for c in n) else {'b': [ord(c) for c in n]}
    elif isinstance(n, bool) or n is None:
        return n
    elif isinstance(n, (int, long)):
        return {'i': str(n), 'L': isinstance(n, long)}
    elif isinstance(n, float):
        return {'f': repr(n)}
    else:
        return {'o': repr(n)}


memo = {}
heap = []
keep = []
MAXLEN = 4000


def ident(f):
    return f.startswith('pyslet') or f == CMOD or f.startswith('contracts') or f in ('xpy', 'speclib')


def enc(v, depth=0):
    if v is None or isinstance(v, bool):
        return v
    t = type(v)
    if t is int or t is long:
        return {'t': 'i', 'v': str(v)}
    if t is float:
        return {'t': 'f', 'v': repr(v)}
    if t is str:
        if len(v) > 20000:
            return {'t': 'opaque', 'v': 'long str'}
        return {'t': 's', 'v': [ord(c) for c in v]}
    if t is unicode:
        if len(v) > 20000:
            return {'t': 'opaque', 'v': 'long unicode'}
        try:
            return {'t': 'u', 'v': [ord(c) for c in v]}
        except ValueError:
            return {'t': 'opaque', 'v': 'lone surrogate'}
    k = id(v)
    if k in memo:
        return {'t': 'ref', 'v': memo[k]}
    if t is tuple and depth < 40:
        return {'t': 'tuple', 'v': [enc(x, depth + 1) for x in v]}
    idx = len(heap)
    memo[k] = idx
    keep.append(v)
    heap.append(None)
    heap[idx] = enc2(v, t, depth + 1)
    return {'t': 'ref', 'v': idx}


def enc2(v, t, depth):
    if depth > 200:
        return {'t': 'opaque', 'v': 'deep'}
    if t is tuple:
        return {'t': 'opaque', 'v': 'deep tuple'}
    if t is list:
        if len(v) > MAXLEN:
            return {'t': 'opaque', 'v': 'long list'}
        return {'t': 'list', 'v': [enc(x, depth) for x in v]}
    if t is dict:
        if len(v) > MAXLEN:
            return {'t': 'opaque', 'v': 'long dict'}
        return {'t': 'dict', 'v': [[enc(a, depth), enc(b, depth)] for a, b in v.items()]}
    if t is set or t is frozenset:
        return {'t': 'set', 'v': [enc(a, depth) for a in v]}
    if t is types.ModuleType or (isinstance(v, types.ModuleType)):
        name = v.__name__
        if ident(name):
            d = {}
            for a, b in v.__dict__.items():
                if a in ('__builtins__', '__doc__'):
                    continue
                d[a] = enc(b, depth)
            return {'t': 'mod', 'name': name, 'file': srcfile(v), 'd': d}
        return {'t': 'xmod', 'name': name}
    if isinstance(v, types.FunctionType):
        c = v.func_code
        clo = None
        if v.func_closure:
            clo = []
            try:
                for nm, cell in zip(c.co_freevars, v.func_closure):
                    clo.append([nm, enc(cell.cell_contents, depth)])
            except Exception:
                clo = None
        return {'t': 'fn', 'name': c.co_name, 'fname': v.__name__, 'file': c.co_filename,
                'line': c.co_firstlineno, 'mod': v.__module__,
                'defaults': [enc(x, depth) for x in (v.func_defaults or ())],
                'clo': clo,
                'globals': v.__module__}
    if isinstance(v, types.MethodType):
        return {'t': 'method', 'f': enc(v.im_func, depth), 'self': enc(v.im_self, depth),
                'cls': enc(v.im_class, depth)}
    if isinstance(v, staticmethod):
        return {'t': 'static', 'f': enc(v.__get__(1), depth)}
    if isinstance(v, classmethod):
        return {'t': 'classm', 'f': enc(v.__get__(None, object).im_func, depth)}
    if isinstance(v, property):
        return {'t': 'prop', 'get': enc(v.fget, depth), 'set': enc(v.fset, depth)}
    if isinstance(v, type) and sys.modules.get(v.__name__) is v:
        # a module of Python's library that Jython implements in Java
        return {'t': 'xmod', 'name': v.__name__}
    if isinstance(v, (type, types.ClassType)):
        m = getattr(v, '__module__', None)
        if m and ident(m):
            if isinstance(v, types.ClassType):
                import inspect
                mro = inspect.getmro(v)
                old = True
            else:
                mro = v.__mro__
                old = False
            d = {}
            for a in list(v.__dict__.keys()):
                if a in ('__dict__', '__weakref__', '__doc__'):
                    continue
                d[a] = enc(v.__dict__[a], depth)
            return {'t': 'cls', 'name': v.__name__, 'mod': m, 'old': old,
                    'mro': [enc(x, depth) for x in mro], 'bases': [enc(x, depth) for x in v.__bases__], 'd': d}
        return {'t': 'xcls', 'name': v.__name__, 'mod': m,
                'mro': [x.__name__ for x in getattr(v, '__mro__', (v,))]}
    if isinstance(v, types.BuiltinFunctionType) or t.__name__ in ('builtin_function_or_method',):
        return {'t': 'bfn', 'name': v.__name__, 'mod': getattr(v, '__module__', None)}
    if t.__name__ in ('PyReflectedFunction', 'reflectedfunction', 'BuiltinFunctions', 'MathFunctions'):
        return {'t': 'bfn', 'name': v.__name__, 'mod': None}
    m = getattr(t, '__module__', None)
    if isinstance(v, types.InstanceType):
        if ident(v.__class__.__module__):
            return {'t': 'obj', 'cls': enc(v.__class__, depth),
                    'd': dict((a, enc(b, depth)) for a, b in v.__dict__.items())}
        return {'t': 'opaque', 'v': repr(v.__class__)}
    if m and ident(m):
        d = {}
        for a, b in getattr(v, '__dict__', {}).items():
            d[a] = enc(b, depth)
        r = {'t': 'obj', 'cls': enc(t, depth), 'd': d}
        if isinstance(v, dict):
            r['items'] = [[enc(a, depth), enc(b, depth)] for a, b in v.items()]
        if isinstance(v, list):
            r['items'] = [enc(a, depth) for a in v]
        if isinstance(v, (str, unicode)):
            r['str'] = [ord(c) for c in v]
        return r
    nm = getattr(v, '__name__', None)
    return {'t': 'opaque', 'v': t.__name__, 'n': nm if isinstance(nm, str) else None}


sys.setrecursionlimit(100000)
root = enc(cmod)
for _m in [m for m in ('xpy', 'speclib') if m in sys.modules] + list(cmod.MODULES):
    enc(sys.modules[_m])
asts = {}
for f in set([h['file'] for h in heap if h and h.get('t') == 'mod' and h['file']]):
    want = [srcfile(sys.modules[m]) for m in list(cmod.MODULES) + ['speclib', 'xpy'] if m in sys.modules] + [srcfile(cmod)]
    extra = getattr(cmod, 'EXTRA_FILES', [])
    if f in want or f in extra:
        asts[f] = enc_ast(ast.parse(open(f).read().replace('\r\n', '\n')))
out = {'root': root, 'heap': heap, 'asts': asts}
fo = open(OUT, 'w')
json.dump(out, fo)
fo.close()
print 'heap', len(heap), 'files', len(asts)
