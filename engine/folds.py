"""Loops whose iterations rewrite whole ciphertexts: extracted mechanically as functions of their own.

A loop of a scheme's evaluator that calls KeySwitcher.Rotate is turned into the function <Evaluator>.rotate#step: one
iteration (condition, body, post statement) over the free variables of the loop, found by their roles in the call
X.ksw.Rotate(A.., k, rks, B..): the evaluator X, the two ciphertexts, the key set, the amount k, and the one other integer
variable that the loop assigns. In the same way a loop of the key generator that calls GenRotationKey becomes
KeyGenerator.defaults#step. The function is verified like any other, and the loop itself runs by the contract of its
iterate (specs12). A loop that does not have this shape is left alone."""
import copy


def walk(x, fn):
    if isinstance(x, dict):
        fn(x)
        for v in x.values():
            walk(v, fn)
    elif isinstance(x, list):
        for v in x:
            walk(v, fn)


def base(x):
    while isinstance(x, dict) and x.get('k') in ('field', 'paren', 'star'):
        x = x['x']
    return x if isinstance(x, dict) and x.get('k') == 'var' else None


def calls_of(x, fn):
    out = []
    walk(x, lambda y: out.append(y) if y.get('k') == 'call' and isinstance(y.get('fn'), dict) and y['fn'].get('k') == 'method' and y['fn'].get('fn') == fn else None)
    return out


KINDS = [
    # callee, where the loop is looked for, name of the step, roles of the variables in the call, results
    ('mkrlwe.KeySwitcher.Rotate', ('mkckks.Evaluator.', 'mkbfv.Evaluator.'), 'rotate#step', lambda c: [base(c['args'][0]), None, base(c['args'][2]), base(c['args'][3]), base(c['args'][1])], 4),
    ('mkrlwe.KeyGenerator.GenRotationKey', ('mkrlwe.KeyGenerator.',), 'defaults#step', lambda c: [base(c['args'][1]), 'rkset', base(c['args'][0])], 2),
]


def extract(funcs):
    for callee, where, step, roles, amount in KINDS:
        out = {}
        for name in sorted(funcs):
            f = funcs[name]
            if not f.get('body') or not name.startswith(where):
                continue
            loops = []

            def see(x):
                if x.get('k') == 'for':
                    calls = calls_of(x, callee)
                    if calls:
                        loops.append((x, calls))
            walk(f['body'], see)
            if len(loops) != 1 or len(loops[0][1]) != 1:
                continue
            s, (call,) = loops[0]
            n = name.rsplit('.', 1)[0] + '.' + step
            g = synth(f, s, call, n, roles(call), amount)
            if g is not None:
                out.setdefault(n, []).append((g, s))
        for n, gs in out.items():
            if len(gs) == 1:
                g, s = gs[0]
                funcs[n] = g
                s['fold'] = n


def synth(f, s, call, step, roles, amount):
    """the function of one iteration: receiver, variables in the order of their roles (None: the one other integer that the
    loop assigns, 'rkset': the one variable of that type)"""
    ev, k = base(call['fn']['x']), roles[amount]
    if ev is None or k is None or not s.get('c'):
        return None
    bad, assigned, used, local = [], {}, {}, set()

    def see(x):
        t = x.get('k')
        if t in ('branch', 'break', 'continue', 'goto', 'labeled', 'return', 'defer', 'go', 'unsupported', 'funclit'):
            bad.append(t)
        if t == 'var':
            if x.get('def'):
                local.add(x['id'])
            used[x['id']] = x
        if t == 'assign':
            for l in x['l']:
                if l.get('k') == 'var' and not l.get('def'):
                    assigned[l['id']] = l
        if t == 'opassign' and x['l'].get('k') == 'var':
            assigned[x['l']['id']] = x['l']
    for part in ('c', 'body', 'post'):
        walk(s.get(part), see)
    out = [v for v in assigned.values() if v['id'] not in local]
    rest = [v for v in out if v['id'] != k['id']]
    for i, r in enumerate(roles):
        if r is None and len(rest) == 1 and None in roles:
            roles[i] = rest[0]
        elif r == 'rkset':
            c = [v for v in used.values() if v.get('t') == '*mkrlwe.RotationKeySet' and v['id'] not in local]
            roles[i] = c[0] if len(c) == 1 else None
    if bad or any(r is None for r in roles) or any(v['t'] != 'int' for v in out) or k['id'] not in assigned:
        return None
    ids = [r['id'] for r in roles]
    if len(set(ids + [ev['id']])) != len(ids) + 1 or set(used) - local - set(ids) - {ev['id']} or set(v['id'] for v in out) - set(ids):
        return None
    var = lambda v: {'k': 'var', 'id': v['id'], 't': v['t'], 'line': s.get('line')}
    res = [r for r in roles if r['t'] == 'int']
    ret = lambda: {'k': 'return', 'line': s.get('line'), 'r': [var(r) for r in res]}
    c = copy.deepcopy(s['c'])
    body = [{'k': 'if', 'line': s.get('line'), 'init': None, 'c': {'k': 'un', 'op': '!', 'x': c, 't': 'bool', 'line': s.get('line')}, 'then': [ret()]}]
    body += copy.deepcopy(s['body'])
    if s.get('post'):
        body.append(copy.deepcopy(s['post']))
    body.append(ret())
    return {'name': step, 'pkg': f['pkg'], 'file': f['file'], 'line': s.get('line', f['line']), 'endline': f['endline'], 'variadic': False,
            'recv': {'id': ev['id'], 'ptr': True, 't': ev['t']}, 'body': body,
            'params': [{'id': v['id'], 'n': 'v%d' % i, 't': v['t']} for i, v in enumerate(roles)],
            'results': [{'id': '', 'n': '', 't': 'int'} for r in res], 'roles': ids, 'assigned': [r['id'] for r in res]}
