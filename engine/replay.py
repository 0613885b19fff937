# Runs under Jython: executes contract units natively, against the real code.
# usage: replay.py contract_module JOBS.json OUT.json
# jobs: {"replay": [{"unit":, "inputs": [...], "choices": [...]}], "search": [{"unit":, "seconds":, "seed":}]}
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/opt/vp/runner')
import compat
compat.install()
import json, random, time, traceback, struct
CMOD, JOBS, OUT = sys.argv[1:4]
__import__(CMOD)
import xpy
UNITS = dict((u['name'], u) for u in xpy.LEMMAS)


def build(j, T):
    if j is None or j is True or j is False:
        return j
    if 'm' in j:
        return Made(T, [build(x, t) for x, t in zip(j['m'], T[2])])
    if 'x' in j:
        # not expressible: constants/objects come from the type
        return const(T)
    if 'i' in j:
        return int(j['i'])
    if 'f' in j:
        if j['f'] in ('nan', 'inf', '-inf'):
            return float(j['f'])
        return float.fromhex(j['f'])
    if 's' in j:
        return ''.join(chr(c) for c in j['s'])
    if 'u' in j:
        return u''.join(uchr(c) for c in j['u'])
    if 't' in j:
        ts = T[1] if T is not None and T[0] == 'Tuple' else [None] * len(j['t'])
        return tuple(build(x, t) for x, t in zip(j['t'], ts))
    if 'l' in j:
        return [build(x, T[1] if T is not None and T[0] in ('List', 'Seq') else None) for x in j['l']]
    if 'c' in j:
        return getattr(sys.modules[j['c'][0]], j['c'][1])
    raise ValueError(repr(j))


def uchr(c):
    return unichr(c)


def const(T):
    return T[1]


class Made(object):
    """The arguments of a constructed input (built just before the run)."""
    def __init__(self, T, args):
        self.T = T
        self.args = args


def unmade(v):
    if isinstance(v, Made):
        return v.T[1](*[unmade(x) for x in v.args])
    if isinstance(v, tuple):
        return tuple(unmade(x) for x in v)
    if isinstance(v, list):
        return [unmade(x) for x in v]
    return v


def enc(v):
    if isinstance(v, Made):
        return {'m': [enc(x) for x in v.args]}
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (int, long)):
        return {'i': str(v)}
    if isinstance(v, float):
        if v != v:
            return {'f': 'nan'}
        if v in (float('inf'), float('-inf')):
            return {'f': 'inf' if v > 0 else '-inf'}
        return {'f': v.hex()}
    if isinstance(v, str):
        return {'s': [ord(c) for c in v]}
    if isinstance(v, unicode):
        return {'u': [ord(c) for c in v]}
    if isinstance(v, tuple):
        return {'t': [enc(x) for x in v]}
    if isinstance(v, list):
        return {'l': [enc(x) for x in v]}
    if isinstance(v, type) or hasattr(v, '__bases__'):
        return {'c': [v.__module__, v.__name__]}
    return {'x': repr(v)}


def gen(R, T):
    k = T[0]
    if k == 'Int':
        lo, hi = T[1], T[2]
        z = R.random()
        if z < 0.45:
            c = [0, 1, -1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 23, 24, 28, 29, 30, 31, 53, 59, 60, 99, 100, 127, 128, 255, 256, 365, 366, 399, 400,
                 -128, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649,
                 9223372036854775807, -9223372036854775808, 9223372036854775808, -9223372036854775809]
            if lo is not None:
                c += [lo, lo + 1] * 6
            if hi is not None:
                c += [hi, hi - 1] * 6
            c = [x for x in c if (lo is None or x >= lo) and (hi is None or x <= hi)]
            return R.choice(c)
        if z < 0.75:
            a, b = -20, 20
            if lo is not None and lo > a:
                a, b = lo, lo + 40
            if hi is not None and hi < b:
                b = hi
                if a > b:
                    a = max(lo, b - 40) if lo is not None else b - 40
            return R.randint(a, b)
        a = -10 ** 12 if lo is None else lo
        b = 10 ** 12 if hi is None else hi
        return R.randint(a, b)
    if k == 'Bool':
        return R.random() < 0.5
    if k == 'Float':
        while True:
            z = R.random()
            if z < 0.3:
                v = R.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 3.0, 1e-7, 1e300, 1e-300, 5e-324, 1.7976931348623157e308,
                              float('nan'), float('inf'), float('-inf'), 2147483648.0, 2147483647.5, 0.1, 0.3])
            elif z < 0.7:
                v = R.randint(-40, 40) / R.choice([1.0, 2.0, 4.0, 10.0, 100.0])
            else:
                v = struct.unpack('>d', struct.pack('>Q', R.getrandbits(64)))[0]
            if T[1] and (v != v or v in (float('inf'), float('-inf'))):
                continue
            return v
    if k == 'Make':
        return Made(T, [gen(R, t) for t in T[2]])
    if k == 'Const':
        return T[1]
    if k == 'OneOf':
        return R.choice(T[1])
    if k == 'Union':
        return gen(R, R.choice(T[1]))
    if k == 'Opt':
        return None if R.random() < 0.3 else gen(R, T[1])
    if k == 'Tuple':
        return tuple(gen(R, t) for t in T[1])
    if k == 'List':
        return [gen(R, T[1]) for i in range(R.randint(T[2], T[3]))]
    if k == 'Seq':
        return [gen(R, T[1]) for i in range(R.choice([0, 1, 2, 2, 3, 3, 4, 5, 8]))]
    if k == 'Str':
        n = R.randint(T[2], T[3])
        out = []
        small = [r for r in T[4] if r[1] - r[0] < 2000]
        pool = 'aAbfFgGzZ019%=&;,:/?#.-+_ "\\\'()<>@\t\r\nTPWYDHMS'
        pool = [ord(c) for c in pool if [1 for a, b in T[4] if a <= ord(c) <= b]]
        sub = [R.choice(pool) for i in range(3)] if pool else []
        for i in range(n):
            z = R.random()
            if sub and z < 0.35:
                out.append(R.choice(sub))
            elif pool and z < 0.7:
                out.append(R.choice(pool))
            else:
                a, b = R.choice(T[4])
                w = R.random()
                out.append(a if w < 0.2 else b if w < 0.4 else R.randint(a, b))
        if T[1] == 's':
            return ''.join(chr(c) for c in out)
        return u''.join(unichr(c) for c in out)
    raise ValueError(k)


def run(u, inputs, chooser):
    """returns (status, label, log)  status: ok, skip, failed, exception"""
    del xpy.LOG[:]
    xpy.CHOOSER[0] = chooser
    xpy.CURRENT[0] = u['name']
    try:
        inputs = [unmade(x) for x in inputs]
        u['fn'](*inputs)
    except xpy.Skip:
        return 'skip', None, None
    except xpy.Failed as e:
        return 'failed', str(e), None
    except Exception as e:
        try:
            m = '%s: %s' % (e.__class__.__name__, unicode(e).encode('ascii', 'replace'))
        except Exception:
            m = e.__class__.__name__
        return 'exception', 'no-exception', m + '\n' + traceback.format_exc()[-1500:]
    return 'ok', None, None


def main():
    jobs = json.load(open(JOBS))
    res = {'replay': [], 'search': []}
    for j in jobs.get('replay', []):
        u = UNITS[j['unit']]
        try:
            xpy.CURRENT[0] = u['name']
            if not j['inputs'] and u['types']:
                raise ValueError('no inputs')
            inputs = [build(x, T) for x, T in zip(j['inputs'], u['types'])]
            inputs += [gen(random.Random(1), T) for T in u['types'][len(inputs):]]
            ch = list(j.get('choices', []))
        except Exception as e:
            res['replay'].append({'status': 'unbuildable', 'why': repr(e)})
            continue

        def chooser(T):
            if not ch:
                raise xpy.Skip()
            return build(ch.pop(0), T)
        st, label, log = run(u, inputs, chooser)
        res['replay'].append({'status': st, 'label': label, 'log': log, 'repr': repr(inputs)[:2000]})
    for j in jobs.get('search', []):
        u = UNITS[j['unit']]
        R = random.Random(j['seed'])
        t0 = time.time()
        n = 0
        ok = 0
        found = None
        while time.time() - t0 < j['seconds']:
            n += 1
            try:
                inputs = [gen(R, T) for T in u['types']]
            except Exception as e:
                found = None
                break
            ej = [enc(x) for x in inputs]
            used = []

            def chooser(T):
                v = gen(R, T)
                used.append(enc(v))
                return unmade(v)
            st, label, log = run(u, inputs, chooser)
            if st == 'ok':
                ok += 1
            if st in ('failed', 'exception'):
                found = {'status': st, 'label': label, 'log': log, 'inputs': ej, 'choices': used, 'repr': repr(ej)[:2000]}
                break
        res['search'].append({'unit': j['unit'], 'tried': n, 'passed': ok, 'found': found})
    fo = open(OUT, 'w')
    json.dump(res, fo)
    fo.close()


if __name__ == '__main__':
    main()
