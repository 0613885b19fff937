"""Use of a proved contract at a call site (the callee's body is not looked at)."""
from sym import *
import types2


def bind(I, c, f, args, kw):
    """arguments by the parameter names of the real function; parameters the
    contract does not mention must have their default value"""
    node = f.node
    if isinstance(node, tuple) or node is None:
        raise Unsupported('no source of a function used by contract')
    params = []
    for i, a in enumerate(node.args.args):
        if a.t != 'Name':
            raise Unsupported('parameters of a function used by contract')
        params.append(a.id)
    if node.args.vararg is not None or node.args.kwarg is not None:
        raise Unsupported('parameters of a function used by contract')
    names = list(c['args'])
    if params[:len(names)] == names and not kw and len(args) == len(names):
        return list(args)
    import interp
    env = interp.Env(f.mod)
    I.bind_args(f, node, env, args, kw)
    nd = [I.snap.dec(v, I.temp) if isinstance(v, dict) else v for v in (f.defaults or [])]
    for i, p in enumerate(params):
        if p not in names:
            j = i - (len(params) - len(nd))
            if j < 0 or not (env.v[p] is nd[j] or (type(env.v[p]) in (int, bool) and env.v[p] == nd[j])):
                raise Unsupported('parameter %s is outside the contract %s' % (p, c['name']))
    return [env.v[n] for n in names]


def handler(c):
    def use(I, f, args, kw):
        I.unit.used_contracts.add(c['name'])
        nargs = bind(I, c, f, list(args), kw)
        memo = None
        if c['opts'].get('pure'):
            # a pure function of immutable arguments: equal arguments, equal results
            memo = (c['name'],) + tuple(id(a) if not isinstance(a, int) else ('i', a) for a in nargs)
            if memo in I.purememo:
                return I.purememo[memo][0]
        saved = I.use_mode
        I.use_mode = {'c': c, 'res': None, 'done': False}
        try:
            I.call_fn(c['fn'], nargs, {})
            if memo is not None:
                res = I.use_mode['res']
                if isnum(res) and all(isnum(a) for a in nargs):
                    # equal scalar arguments, equal results
                    for k, (r2, args2) in I.purememo.items():
                        if k[0] == c['name'] and len(args2) == len(nargs):
                            same = And(*[hardsimp(toint(x) == toint(y)) for x, y in zip(args2, nargs)])
                            if same is not False:
                                I.assume(Or(Not(same), hardsimp(toint(res) == toint(r2))))
                I.purememo[memo] = (res, nargs)
            return I.use_mode['res']
        finally:
            I.use_mode = saved
    return use
