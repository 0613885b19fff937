"""Driver: decides one property.

  verify.py PROPERTY_ID [--tier quick|thorough] [--only unit,...] [--trace]
"""
import sys, os, json, time, subprocess, traceback, multiprocessing, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from sym import *
import interp, builtins2, types2

REPO = os.environ.get('VERIF_REPO', '/repo')
JY = '/opt/vp/runner/jython.sh'
WORK = os.path.join(VERIF, 'evidence', 'work')
PROPS = json.load(open(os.path.join(VERIF, 'engine', 'props.json')))


def jython(args, timeout=600):
    env = dict(os.environ)
    env['JYTHONPATH'] = REPO + '/pyslet:' + VERIF + '/contracts'
    p = subprocess.run([JY] + args, env=env, cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


class Unit(object):
    def __init__(self, desc):
        self.desc = desc
        self.functions = set()
        self.solver_time = 0.0
        self.queries = 0
        self.ob = {}            # label -> [hits, simplify, z3, fallback, covered]
        self.fails = []
        self.undecided = []
        self.paths = 0
        self.dead = 0
        self.used_contracts = set()
        self.loops = set()
        self.opaque = set()

    def rec(self, label):
        r = self.ob.get(label)
        if r is None:
            r = self.ob[label] = [0, 0, 0, 0, 0]
        return r

    def requires(self, I, c):
        I.assume(hardsimp(I.truth(c)))

    def ensures(self, I, c, label):
        c = hardsimp(I.truth(c))
        self.prove(I, c, label)

    def prove(self, I, c, label):
        r = self.rec(label)
        r[0] += 1
        if not r[4]:
            if I.check() == z3.sat:
                r[4] = 1
        if c is True:
            r[1] += 1
            return
        if c is False:
            neg = []
        else:
            neg = [z3.Not(c)]
        I.solver.set('timeout', I.cfg.get('ob_timeout', 20000))
        st = I.check(*neg)
        I.solver.set('timeout', I.cfg.get('branch_timeout', 10000))
        if st == z3.unsat:
            if neg:
                r[2] += 1
                I.assume(c)
                return
            # the path itself is infeasible
            r[1] += 1
            raise PathEnd()
        if st == z3.sat:
            m = I.solver.model()
            self.fail(I, label, m, 'postcondition false')
            raise PathEnd()
        # unknown: other strategies
        st, m = fallback(I, neg, self)
        if st == 'unsat':
            r[3] += 1
            if neg:
                I.assume(c)
                return
            raise PathEnd()
        if st == 'sat' and m is not None:
            self.fail(I, label, m, 'postcondition false')
        else:
            self.undecide(I, label, 'solver gave no answer (%s)' % I.solver.reason_unknown())
        raise PathEnd()

    def fail(self, I, label, m, why, exc=None):
        ins = [types2.concrete(v, m, I) for n, T, v in I.inputs if not n.startswith('~')]
        ch = [types2.concrete(v, m, I) for n, T, v in I.inputs if n.startswith('~')]
        k = sum(1 for f in self.fails if f['label'] == label)
        if k < 12:
            self.fails.append({'unit': self.desc['name'], 'label': label, 'why': why, 'inputs': ins, 'choices': ch, 'exc': exc})

    def undecide(self, I, label, why):
        ins = ch = None
        if len(self.undecided) < 8:
            try:
                if I.check() == z3.sat:
                    m = I.solver.model()
                    ins = [types2.concrete(v, m, I) for n, T, v in I.inputs if not n.startswith('~')]
                    ch = [types2.concrete(v, m, I) for n, T, v in I.inputs if n.startswith('~')]
            except Exception:
                pass
            self.undecided.append({'unit': self.desc['name'], 'label': label, 'why': why, 'inputs': ins, 'choices': ch})


def fallback(I, neg, unit):
    t = time.time()
    try:
        for tac, seed in (('default', 7), ('qflia', 1)):
            s = z3.SolverFor('QF_LIA') if tac == 'qflia' else z3.Solver()
            s.set('timeout', I.cfg.get('fb_timeout', 30000))
            if tac == 'default':
                s.set('random_seed', seed)
                s.set('arith.solver', 6)
            for p in I.pc:
                s.add(z3b(p))
            for n in neg:
                s.add(n)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            unit.queries += 1
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
        # cvc5
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % I.cfg.get('fb_timeout', 30000), '-'], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            if p.stdout.strip().startswith(b'unsat'):
                return 'unsat', None
        except (OSError, subprocess.SubprocessError):
            pass
        return 'unknown', None
    finally:
        unit.solver_time += time.time() - t


SNAP = None
UNITS = None
CFG = {}


def exc_text(I, o):
    m = o.cls.name
    a = o.a.get('args')
    if isinstance(a, tuple) and a and isinstance(a[0], S) and a[0].conc():
        m += ': ' + a[0].text()
    return m


def run_path(desc, unit, prefix, cfg):
    I = interp.Interp(SNAP, prefix, unit, cfg)
    unit.paths += 1
    if desc['target'] is not None:
        I.unit_selfkeys = (desc['target'].key,)
    try:
        args = []
        for n, T in zip(desc['args'], desc['types']):
            v = types2.mk(I, T, n)
            args.append(v)
            I.inputs.append((n, T, v))
        I.started = True
        if desc['kind'] == 'contract':
            I.proving.add(desc['target'].key)
        I.call_fn(desc['fn'], args, {})
        # normal end of a path: nothing raised
        r = unit.rec('no-exception')
        r[0] += 1
        r[1] += 1
        r[4] = 1
    except PathEnd:
        unit.dead += 1
    except PyExc as e:
        st = I.check()
        if st == z3.sat:
            unit.rec('no-exception')[0] += 1
            if not I.started and getattr(e, 'made', None) is not None:
                k = len(I.inputs)
                if e.made[0] is desc['types'][k]:
                    # building an input raised: the other inputs do not matter
                    I.inputs.append((desc['args'][k], e.made[0], types2.Unbuilt(e.made[1])))
            unit.fail(I, 'no-exception', I.solver.model(), 'uncaught exception', exc_text(I, e.obj))
        elif st == z3.unsat:
            pass
        else:
            unit.undecide(I, 'no-exception', 'uncaught %s, path feasibility unknown' % exc_text(I, e.obj))
    except Unsupported as e:
        if I.check() != z3.unsat:
            unit.undecide(I, 'reach', 'outside the verified subset: %s' % e)
    except PathLimit as e:
        unit.undecide(I, 'reach', 'path limit: %s' % e)
    except SymbolicKey as e:
        unit.undecide(I, 'reach', 'symbolic dictionary key')
    except RecursionError:
        unit.undecide(I, 'reach', 'recursion')
    except z3.Z3Exception as e:
        unit.undecide(I, 'reach', 'z3: %s' % e)
    except (AttributeError, TypeError, KeyError, IndexError, AssertionError, NameError, ValueError) as e:
        if os.environ.get('PYVC_TRACE'):
            traceback.print_exc()
        unit.undecide(I, 'reach', 'verifier error: %s' % traceback.format_exc()[-600:])
    return I.newpref


def work(task):
    i, prefixes, budget = task
    desc = UNITS[i]
    unit = Unit(desc)
    cfg = dict(CFG)
    cfg.update(desc['opts'])
    t0 = time.time()
    stack = list(prefixes)
    while stack:
        p = stack.pop()
        stack.extend(run_path(desc, unit, p, cfg))
        if time.time() - t0 > budget:
            break
        if len(unit.undecided) >= 8 or len(unit.fails) >= 60:
            stack = []
    if interp.COV:
        with open(os.path.join(os.environ['PYVC_COV'], '%d' % os.getpid()), 'a') as f:
            for x in interp.COV:
                f.write('%s %s\n' % x)
        interp.COV.clear()
    return i, stack, {'functions': sorted(unit.functions), 'solver_time': unit.solver_time, 'queries': unit.queries, 'ob': unit.ob,
                      'fails': unit.fails, 'undecided': unit.undecided, 'paths': unit.paths, 'dead': unit.dead,
                      'used_contracts': sorted(unit.used_contracts), 'loops': sorted(unit.loops),
                      'time': time.time() - t0}


def load(cmod, trace=False):
    global SNAP, UNITS, CFG
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, '%s.%d.dump.json' % (cmod, os.getpid()))
    rc, txt = jython([os.path.join(HERE, 'dump.py'), out, cmod])
    if rc != 0 or not os.path.exists(out):
        return txt
    data = json.load(open(out))
    os.unlink(out)
    SNAP = Snapshot(data)
    SNAP.root_txt = txt
    temp = {}
    root = SNAP.dec(data['root'], temp)
    xm = SNAP.dec({'t': 'ref', 'v': SNAP.modbyname['xpy']}, temp)
    units = SNAP.dec(xm.d['LEMMAS'], temp).v
    UNITS = []
    for u in units:
        g = lambda k: u.d[keyof(cs(k))][1]
        has = lambda k: keyof(cs(k)) in u.d
        opts = {}
        for k, (a, b) in g('opts').d.items():
            opts[a.text()] = b.text() if isinstance(b, S) else ([x for x in b.v] if isinstance(b, L) else b)
        UNITS.append({'kind': g('kind').text(), 'name': g('name').text(), 'fn': g('fn'), 'args': [x.text() for x in g('args')],
                      'types': [types2.tt(x) for x in g('types')], 'opts': opts, 'target': g('target') if has('target') else None})
    CFG = {'modular': {}, 'loops': {}}
    return None


def setup_modular():
    """Units name the contracts they rely on in _use=['c_name', ...]."""
    byname = {u['name']: u for u in UNITS}
    for u in UNITS:
        use = u['opts'].pop('use', None)
        if use:
            m = {}
            for nm in use:
                nm = nm.text() if isinstance(nm, S) else nm
                c = byname[nm]
                m[c['target'].key] = make_use(c)
            u['opts']['modular'] = m


def make_use(c):
    import usemode
    return usemode.handler(c)


def explore(only=None, deadline=None, procs=8):
    res = {}
    idx = [i for i, u in enumerate(UNITS) if only is None or u['name'] in only]
    for i in idx:
        res[i] = {'functions': set(), 'solver_time': 0.0, 'queries': 0, 'ob': {}, 'fails': [], 'undecided': [], 'paths': 0, 'dead': 0,
                  'used_contracts': set(), 'time': 0.0, 'loops': set(), 'pending': 0}
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(procs, maxtasksperchild=200)
    q = multiprocessing.Queue()
    import queue
    rq = queue.Queue()
    pend = 0

    def put(i, prefs, budget):
        nonlocal pend
        pend += 1
        res[i]['pending'] += 1
        pool.apply_async(work, ((i, prefs, budget),), callback=rq.put, error_callback=lambda e, i=i: rq.put((i, [], e)))
    for i in idx:
        put(i, [[]], 1.0)
    stop = False
    while pend:
        try:
            i, left, r = rq.get(timeout=5 if deadline is None else max(0.1, min(5, deadline - time.time())))
        except queue.Empty:
            if deadline is not None and time.time() > deadline:
                stop = True
                break
            continue
        pend -= 1
        R = res[i]
        R['pending'] -= 1
        if isinstance(r, BaseException):
            R['undecided'].append({'unit': UNITS[i]['name'], 'label': 'reach', 'why': 'worker: %r' % r, 'inputs': None, 'choices': None})
            continue
        R['functions'].update(r['functions'])
        R['used_contracts'].update(r['used_contracts'])
        R['loops'].update(r['loops'])
        for k in ('solver_time', 'queries', 'paths', 'dead', 'time'):
            R[k] += r[k]
        for lab, v in r['ob'].items():
            o = R['ob'].setdefault(lab, [0, 0, 0, 0, 0])
            for k in range(4):
                o[k] += v[k]
            o[4] = max(o[4], v[4])
        R['fails'].extend(r['fails'])
        R['undecided'].extend(r['undecided'])
        if len(R['fails']) > 100 or len(R['undecided']) > 24:
            left = []
        if left:
            # split the leftover work
            n = max(1, min(len(left), 8))
            for k in range(n):
                part = left[k::n]
                if part:
                    put(i, part, 4.0)
        if deadline is not None and time.time() > deadline:
            stop = True
            break
    pool.terminate()
    if stop:
        for i in idx:
            if res[i]['pending']:
                res[i]['undecided'].append({'unit': UNITS[i]['name'], 'label': 'reach', 'why': 'time limit with paths unexplored', 'inputs': None, 'choices': None})
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    a = sys.argv[2:]
    verbose = False
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--only':
            only = set(a.pop(0).split(','))
        elif x == '-v':
            verbose = True
    prop = PROPS.get(pid) or {'module': pid, 'level': 'other'}    # (self-tests)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ['PYVC_TIER'] = tier
    total_limit = prop.get('limit', 780) if tier == 'quick' else prop.get('limit_thorough', 3000)
    total_limit = int(os.environ.get('PYVC_LIMIT', total_limit))
    violations = []         # (unit, label, replay dict, replayed?)
    err = None
    try:
        err = load(prop['module'])
    except subprocess.TimeoutExpired:
        err = 'import timed out'
    if err is not None:
        # the contract module could not be loaded: the code it refers to is gone or does not import
        rep = {'property': pid, 'obligation': 'load', 'reason': 'contract module does not load against the current tree', 'output': err[-6000:]}
        return finish(pid, prop, tier, seed, t0, {}, [('load', rep, False)], [], only)
    setup_modular()
    res = explore(only, t0 + total_limit)
    names = {i: UNITS[i]['name'] for i in res}
    jobs = {'replay': [], 'search': []}
    meta = []
    bad_units = {}
    for i, R in res.items():
        labs = {}
        for f in R['fails']:
            labs.setdefault(f['label'], []).append(f)
        for l, fs in labs.items():
            for f in fs[:12]:
                jobs['replay'].append({'unit': names[i], 'inputs': f['inputs'], 'choices': f['choices']})
                meta.append((i, f))
        for u in R['undecided'][:8]:
            if u['inputs'] is not None:
                jobs['replay'].append({'unit': names[i], 'inputs': u['inputs'], 'choices': u['choices']})
                meta.append((i, u))
        # vacuity
        if not R['fails'] and not R['undecided']:
            real = [l for l in R['ob'] if l != 'no-exception' and R['ob'][l][4]]
            if not real:
                R['undecided'].append({'unit': names[i], 'label': 'vacuous', 'why': 'no obligation was reached on a feasible path', 'inputs': None, 'choices': None})
        for l, o in R['ob'].items():
            if not o[4] and o[0] and not R['fails'] and not R['undecided']:
                R['undecided'].append({'unit': names[i], 'label': l, 'why': 'obligation only met on infeasible paths', 'inputs': None, 'choices': None})
        exp = UNITS[i]['opts'].get('labels')
        if R['fails'] or R['undecided']:
            bad_units[i] = True
    replays = []
    if bad_units:
        for i in bad_units:
            jobs['search'].append({'unit': names[i], 'seconds': max(3, min(25, 120 // len(bad_units))), 'seed': seed})
        rr = run_jobs(prop, pid, {'replay': jobs['replay'], 'search': []})
        hit = set()
        for (i, f), r in zip(meta, rr['replay']):
            if r['status'] in ('failed', 'exception'):
                f['replayed'] = r
                hit.add(i)
                replays.append((i, f, r))
        srch = [j for j, i in zip(jobs['search'], bad_units) if i not in hit]
        if srch:
            r2 = run_jobs(prop, pid, {'replay': [], 'search': srch})
            for s in r2['search']:
                if s['found']:
                    i = [k for k in names if names[k] == s['unit']][0]
                    f = {'unit': s['unit'], 'label': s['found']['label'], 'why': 'failing input found by search after an obligation failed',
                         'inputs': s['found']['inputs'], 'choices': s['found']['choices'], 'exc': s['found']['log']}
                    replays.append((i, f, s['found']))
                    hit.add(i)
        for i in bad_units:
            fl = [(f, r) for k, f, r in replays if k == i]
            R = res[i]
            if fl:
                seen = set()
                for f, r in fl:
                    if r['label'] in seen:
                        continue
                    seen.add(r['label'])
                    violations.append((names[i], {'property': pid, 'unit': names[i], 'obligation': r['label'], 'inputs': f['inputs'], 'choices': f['choices'],
                                                  'inputs_repr': r.get('repr'), 'native_result': r['status'], 'log': r.get('log'), 'verifier': f.get('why'),
                                                  'exception': f.get('exc'), 'module': prop['module'],
                                                  'how_to_rerun': 'engine/rerun.sh <this file>'}, True))
            else:
                f = (R['fails'] + R['undecided'])[0]
                violations.append((names[i], {'property': pid, 'unit': names[i], 'obligation': f['label'], 'reason': f['why'], 'exception': f.get('exc'),
                                              'inputs': f['inputs'], 'choices': f['choices'], 'module': prop['module'],
                                              'all': [{'label': x['label'], 'why': x['why'], 'exc': x.get('exc'), 'inputs': x['inputs']} for x in (R['fails'] + R['undecided'])[:20]]}, False))
    return finish(pid, prop, tier, seed, t0, res, violations, names, only, verbose)


def run_jobs(prop, pid, jobs):
    jf = os.path.join(WORK, '%s.%d.jobs.json' % (pid, os.getpid()))
    of = jf + '.out'
    json.dump(jobs, open(jf, 'w'))
    secs = sum(j['seconds'] for j in jobs['search']) + 120
    try:
        rc, txt = jython([os.path.join(HERE, 'replay.py'), prop['module'], jf, of], timeout=secs)
        r = json.load(open(of))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        # a hang or crash of the real code while replaying: replay one at a time
        r = {'replay': [], 'search': []}
        if len(jobs['replay']) + len(jobs['search']) > 1:
            for j in jobs['replay'][:6]:
                r['replay'].extend(run_jobs(prop, pid, {'replay': [j], 'search': []})['replay'])
            for j in jobs['search'][:3]:
                r['search'].extend(run_jobs(prop, pid, {'replay': [], 'search': [j]})['search'])
        else:
            if jobs['replay']:
                r['replay'].append({'status': 'timeout', 'label': None, 'log': 'the real code did not finish'})
            if jobs['search']:
                r['search'].append({'unit': jobs['search'][0]['unit'], 'tried': 0, 'passed': 0, 'found': None})
    for f in (jf, of):
        if os.path.exists(f):
            os.unlink(f)
    return r


def finish(pid, prop, tier, seed, t0, res, violations, names, only, verbose=False):
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [k for k in known['findings'] if k['property'] == pid and k.get('status') != 'fixed']
    tot = [0, 0, 0, 0]
    funcs = set()
    labels = {}
    st = 0.0
    qs = 0
    paths = 0
    contracts = set()
    loops = set()
    units = []
    for i, R in res.items():
        funcs |= R['functions']
        contracts |= R['used_contracts']
        loops |= R['loops']
        st += R['solver_time']
        qs += R['queries']
        paths += R['paths']
        h = [sum(o[k] for o in R['ob'].values()) for k in range(4)]
        for k in range(4):
            tot[k] += h[k]
        units.append({'unit': names[i], 'kind': UNITS[i]['kind'], 'paths': R['paths'], 'obligations': h[0], 'discharged': h[1] + h[2] + h[3],
                      'labels': {l: o[0] for l, o in sorted(R['ob'].items())},
                      'cpu_s': round(R['time'], 2), 'bounded': UNITS[i]['opts'].get('bounded')})
        if verbose:
            print('%-40s paths %5d dead %5d ob %5d (simp %d z3 %d fb %d) q %d cpu %.1fs fails %d undec %d' % (
                names[i], R['paths'], R['dead'], h[0], h[1], h[2], h[3], R['queries'], R['time'], len(R['fails']), len(R['undecided'])))
            for f in R['fails'][:int(os.environ.get('PYVC_SHOW', 4))]:
                print('   FAIL', f['label'], f['why'], f.get('exc'), json.dumps(f['inputs'])[:400])
            for f in R['undecided'][:int(os.environ.get('PYVC_SHOW', 4))]:
                print('   UNDEC', f['label'], f['why'], json.dumps(f['inputs'])[:300])
            if verbose and os.environ.get('PYVC_LABELS'):
                print('   ', R['ob'])
    out = []
    nviol = 0
    known_hit = []
    for n, (unit, rep, replayed) in enumerate(violations):
        kf = None
        for k in known:
            if k['unit'] == unit and (k.get('obligation') in (None, rep.get('obligation'))) and replayed:
                kf = k
        if kf is not None:
            known_hit.append(kf)
            line = 'KNOWN-FINDING: property=%s %s' % (pid, kf['what'])
            if line not in out:
                out.append(line)
            continue
        nviol += 1
        h = hashlib.sha1(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, 'evidence', 'replay-%s-%s-%s.json' % (pid, unit, h))
        json.dump(rep, open(path, 'w'), indent=1)
        out.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if replayed else ' no-failing-input-found'))
    if only is None:
        bounded = [u['unit'] + ': ' + str(u['bounded']) for u in units if u['bounded']]
        ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': prop['level'],
              'coverage': {'obligations': tot[0], 'discharged': tot[1] + tot[2] + tot[3],
                           'checker_cmd': 'engine/check.sh %s %s' % (pid, tier),
                           'trusted_base': prop.get('trusted', []) + TRUSTED,
                           'discharged_by': {'simplifier': tot[1], 'z3': tot[2], 'z3-other-strategy-or-cvc5': tot[3]},
                           'solver_time_s': round(st, 2), 'solver_queries': qs, 'paths': paths,
                           'functions_under_contract': sorted(funcs), 'n_functions': len(funcs),
                           'modular_contracts_used': sorted(contracts), 'loops_with_invariants': sorted(loops),
                           'units': units, 'bounded': bounded, 'known_findings': [k['what'] for k in known_hit]},
              'assumptions': prop.get('assumptions', []) + ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
        if prop.get('explanation'):
            ev['coverage']['explanation'] = prop['explanation']
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in out:
        print(l)
    print('%s %s: %d units, %d obligations, %d discharged, %d functions, %d paths, solver %.1fs, wall %.1fs' % (
        pid, 'OK' if not nviol else 'FAILED', len(res), tot[0], tot[1] + tot[2] + tot[3], len(funcs), paths, st, time.time() - t0))
    sys.stdout.flush()
    return 1 if nviol else 0


TRUSTED = ["z3 and cvc5", "engine/*.py: the Python 2 semantics of the verification-condition generator (cross-checked against Jython by engine/selftest)",
           "Jython's parser and import machinery (the verified AST is the one Jython parses from /repo on this run)"]
ASSUME = ["Python 2.7 (Jython) int/long treated as unbounded mathematical integers unless the property speaks about machine ranges",
          "no concurrent mutation; locks are not modelled", "no monkey patching of the modules after import",
          "memory and recursion limits are not modelled"]

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
    os._exit(rc) if False else sys.exit(rc)
