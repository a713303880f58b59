"""Hash-consed terms, canonical polynomials over scalar and vector atoms, booleans.

A polynomial ('p') is a finite sum of  coef * SUM_{binders} mono * NTT^d(product of vector atoms).
Scalars use d == SC.  All constructors normalise, so that syntactic identity (same object) is the
first equality test; `nf_mod(p, q)` additionally quotients by the modulus q.
"""
from itertools import permutations

SC = -99
_tab = {}


class T:
    __slots__ = ('op', 'args', 'id', 'mb', '_fv')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mb(args):
    m = 0
    for a in args:
        if isinstance(a, T):
            if a.mb > m:
                m = a.mb
        elif isinstance(a, tuple):
            k = _mb(a)
            if k > m:
                m = k
    return m


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._fv = None
        m = _mb(args)
        if op == 'bv':
            m = max(m, args[0])
        t.mb = m
        _tab[k] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
NIL = mk('nil')
_fresh = [0]


def fresh(sort, hint='x'):
    _fresh[0] += 1
    return mk('var', '%s!%d' % (hint, _fresh[0]), sort)


def var(name, sort='I'):
    return mk('var', name, sort)


# ---------------------------------------------------------------- free variables / substitution
_EMPTY = frozenset()


def fv(t):
    r = t._fv
    if r is not None:
        return r
    op = t.op
    if op in ('var', 'bv'):
        r = frozenset((t,))
    elif op == 'p':
        s = set()
        for (key, c) in t.args[0]:
            s |= _keyfv(key)
        r = frozenset(s)
    elif op in ('lam', 'ex', 'mu'):
        r = fv(t.args[1]) - {t.args[0]}
    else:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= fv(a)
            elif isinstance(a, tuple):
                s |= _tfv(a)
        r = frozenset(s) if s else _EMPTY
    t._fv = r
    return r


def _tfv(tp):
    s = set()
    for a in tp:
        if isinstance(a, T):
            s |= fv(a)
        elif isinstance(a, tuple):
            s |= _tfv(a)
    return s


def _keyfv(key):
    bs, mono, d, va = key
    s = set()
    for a, e in mono:
        s |= fv(a)
    for a in va:
        s |= fv(a)
    for b in bs:
        s.discard(b)
    return s


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo, frozenset(m))


def _subst(t, m, memo, dom):
    if t in m:
        return m[t]
    if not (fv(t) & dom):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'p':
        acc = {}
        for (key, c) in t.args[0]:
            bs, mono, d, va = key
            if bs:
                fr = [fresh(b.args[1], 'b') for b in bs]
                ren = dict(zip(bs, fr))
                mono = tuple((subst(a, ren), e) for a, e in mono)
                va = tuple(subst(a, ren) for a in va)
            q = {((), (), d, ()): c}
            for a, e in mono:
                if fv(a) & dom:
                    q = pd_mul(q, pd_pow(to_pd(subst(a, m)), e, a))
                else:
                    q = pd_mul(q, {((), ((a, e),), SC, ()): 1})
            # vector atoms
            for a in va:
                a2 = subst(a, m) if (fv(a) & dom) else a
                q = pd_conv(q, vatom_pd(a2, d), d)
            if bs:
                q = pd_sum(q, fr)
            pd_addto(acc, q)
        r = from_pd(acc)
    elif op in ('lam', 'ex', 'mu'):
        x = fresh(t.args[0].args[1], 'l')
        b = subst(subst(t.args[1], {t.args[0]: x}), m)
        r = close(op, x, b)
    else:
        r = rebuild(op, tuple(_subst_arg(a, m, memo, dom) for a in t.args))
    memo[t] = r
    return r


def _subst_arg(a, m, memo, dom):
    if isinstance(a, T):
        return _subst(a, m, memo, dom)
    if isinstance(a, tuple):
        return tuple(_subst_arg(b, m, memo, dom) for b in a)
    return a


def close(op, x, body):
    idx = body.mb + 1
    b = mk('bv', idx, x.args[1])
    return mk(op, b, subst(body, {x: b}))


def lam(x, body):
    return close('lam', x, body)


def least(t, cond):
    """the least t >= 0 at which cond fails"""
    return mk('least', lam(t, cond))


def least_facts(n):
    c = n.args[0]
    return [ge(n, ZERO), not_(apply_lam(c, n)), implies(ge(n, ONE), apply_lam(c, sub(n, ONE)))]


def rec(step, init, t):
    """step(t-1)(... step(0)(init))"""
    if is_const(t) == 0:
        return init
    return mk('rec', step, init, t)


def apply_lam(l, a):
    return subst(l.args[1], {l.args[0]: a})


BUILD = {'rec': rec}


def rebuild(op, args):
    f = BUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# ---------------------------------------------------------------- polynomials (dict form "pd")
KEY0 = ((), (), SC, ())


def to_pd(t):
    if isinstance(t, int):
        return {KEY0: t} if t else {}
    if t.op == 'p':
        return dict(t.args[0])
    return {((), ((t, 1),), SC, ()): 1}


def _sk(kc):
    bs, mono, d, va = kc[0]
    return (len(bs), tuple(b.id for b in bs), d, tuple(a.id for a in va), tuple((a.id, e) for a, e in mono))


def from_pd(pd):
    items = [(k, c) for k, c in pd.items() if c != 0]
    if len(items) == 1:
        (k, c) = items[0]
        bs, mono, d, va = k
        if c == 1 and not bs and d == SC and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    items.sort(key=_sk)
    return mk('p', tuple(items))


def num(n):
    return from_pd({KEY0: n})


ZERO = num(0)
ONE = num(1)


def is_const(t):
    if t.op == 'p':
        if not t.args[0]:
            return 0
        if len(t.args[0]) == 1 and t.args[0][0][0] == KEY0:
            return t.args[0][0][1]
    return None


def pd_addto(acc, pd, c=1):
    for k, v in pd.items():
        n = acc.get(k, 0) + c * v
        if n:
            acc[k] = n
        elif k in acc:
            del acc[k]
    return acc


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if a.op == 'ind':
            n = 1
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def _mono_contra(mono):
    """detect ind(b) * ind(c) with b, c equalities of the same term to different constants"""
    eqs = {}
    lin = {}
    for a, e in mono:
        if a.op == 'ind' and a.args[0].op in ('eq0', 'le0') and a.args[0].args[0].op == 'p':
            # equalities / bounds on one linear form with different constants
            p = a.args[0].args[0].args[0]
            if len(p) <= 3:
                c = 0
                r = []
                for k, v in p:
                    if k == KEY0:
                        c = v
                    else:
                        r.append((k, v))
                sg = 1
                if r and r[0][1] < 0:
                    sg = -1
                r = tuple((k, sg * v) for k, v in r)
                c *= sg
                lo, hi = lin.get(r, (None, None))
                if a.args[0].op == 'eq0':
                    l2 = h2 = -c
                elif sg == 1:
                    l2, h2 = None, -c
                else:
                    l2, h2 = -c, None
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
                if h2 is not None and (hi is None or h2 < hi):
                    hi = h2
                if lo is not None and hi is not None and lo > hi:
                    return True
                lin[r] = (lo, hi)
        if a.op == 'ind' and a.args[0].op == 'eqs':
            x, y = a.args[0].args
            if y.op == 'str':
                if x in eqs and eqs[x] is not y:
                    return True
                eqs[x] = y
    return False


def _open(key):
    bs, mono, d, va = key
    if not bs:
        return [], mono, d, va
    fr = [fresh(b.args[1], 'b') for b in bs]
    ren = dict(zip(bs, fr))
    mono = tuple((subst(a, ren), e) for a, e in mono)
    va = tuple(subst(a, ren) for a in va)
    return fr, mono, d, va


def pd_mul(p1, p2):
    """scalar*scalar, scalar*vector, or pointwise product of two vectors in the NTT domain"""
    acc = {}
    for k1, c1 in p1.items():
        for k2, c2 in p2.items():
            _kmul(acc, k1, k2, c1 * c2, None)
    return acc


def pd_conv(p1, p2, d):
    acc = {}
    for k1, c1 in p1.items():
        for k2, c2 in p2.items():
            _kmul(acc, k1, k2, c1 * c2, d)
    return acc


def _kmul(acc, k1, k2, c, conv):
    if k1[0] or k2[0]:
        f1, m1, d1, v1 = _open(k1)
        f2, m2, d2, v2 = _open(k2)
        tmp = {}
        _kmul(tmp, ((), tuple(sorted(m1, key=lambda x: x[0].id)), d1, v1), ((), tuple(sorted(m2, key=lambda x: x[0].id)), d2, v2), c, conv)
        pd_addto(acc, pd_sum(tmp, f1 + f2))
        return
    d1, v1 = k1[2], k1[3]
    d2, v2 = k2[2], k2[3]
    mono = mono_mul(k1[1], k2[1])
    if len(mono) > 1 and _mono_contra(mono):
        return
    if d1 == SC or (conv is None and not v1 and False):
        d, v = d2, v2
    elif d2 == SC:
        d, v = d1, v1
    elif conv is not None:
        if (v1 and d1 != conv and v2) or (v2 and d2 != conv and v1):
            raise ValueError('mixed domains in product')
        d = conv
        v = tuple(sorted(v1 + v2, key=lambda a: a.id))
    elif d1 == d2 and d1 == 1:
        d = 1
        v = tuple(sorted(v1 + v2, key=lambda a: a.id))
    elif d1 == 0 and len(v1) == 1 and v1[0].op == 'onesv':
        d, v = d2, v2
    elif d2 == 0 and len(v2) == 1 and v2[0].op == 'onesv':
        d, v = d1, v1
    else:
        a1 = from_pd({((), (), d1, v1): 1})
        a2 = from_pd({((), (), d2, v2): 1})
        d = 0
        v = (pw_build(a1, a2),)
    k = ((), mono, d, v)
    n = acc.get(k, 0) + c
    if n:
        acc[k] = n
    else:
        acc.pop(k, None)


def pw_build(*fs):
    """coefficient-wise product of vectors in different domains (associative, commutative)"""
    out = []
    for a in fs:
        x = _pw_factor(a)
        out += x if x else [a]
    return mk('pw', *sorted(out, key=lambda a: a.id))


def _pw_factor(a):
    if a.op == 'pw':
        return list(a.args)
    if a.op == 'p' and len(a.args[0]) == 1:
        (k, c), = a.args[0]
        if c == 1 and not k[0] and not k[1] and k[2] == 0 and len(k[3]) == 1 and k[3][0].op == 'pw':
            return list(k[3][0].args)
    return None


def pd_pow(p, e, atom=None):
    if e == 1:
        return p
    if e < 0:
        t = from_pd(p)
        if t.op == 'p':
            # inverse of a single monomial
            if len(p) == 1:
                (k, c), = p.items()
                if c == 1 and not k[0] and k[2] == SC:
                    return {((), tuple((a, x * e) for a, x in k[1]), SC, ()): 1}
            t = mk('polyatom', t)
        return {((), ((t, e),), SC, ()): 1}
    r = {KEY0: 1}
    for _ in range(e):
        r = pd_mul(r, p)
    return r


def pd_sum(pd, fvars):
    """sum over the fresh variables `fvars` (ranges are indicator factors of the monomials)"""
    acc = {}
    for k, c in pd.items():
        if k[0]:
            f2, m2, d2, v2 = _open(k)
            pd_addto(acc, _close_key(list(fvars) + f2, m2, d2, v2), c)
        else:
            pd_addto(acc, _close_key(list(fvars), k[1], k[2], k[3]), c)
    return acc


def _close_key(vs, mono, d, va):
    # delta elimination
    for v in vs:
        for a, e in mono:
            if a.op == 'ind' and v in fv(a):
                s = solve_eq(a.args[0], v)
                if s is not None:
                    rest = tuple(x for x in mono if x[0] is not a)
                    q = {((), rest, d, va): 1}
                    if d == SC:
                        q = {((), rest, SC, ()): 1}
                    t = subst(from_pd(q), {v: s})
                    return pd_sum(to_pd(t), [x for x in vs if x is not v])
    used = set()
    for a, e in mono:
        used |= fv(a)
    for a in va:
        used |= fv(a)
    vs = [v for v in vs if v in used]
    if not vs:
        return {((), tuple(sorted(mono, key=lambda x: x[0].id)), d, va): 1}
    base = 0
    for a, e in mono:
        base = max(base, a.mb)
    for a in va:
        base = max(base, a.mb)
    best = None
    perms = permutations(vs) if len(vs) <= 4 else [tuple(sorted(vs, key=lambda v: v.id))]
    for pm in perms:
        bs = tuple(mk('bv', base + 1 + i, v.args[1]) for i, v in enumerate(pm))
        ren = dict(zip(pm, bs))
        m2 = tuple(sorted(((subst(a, ren), e) for a, e in mono), key=lambda x: x[0].id))
        v2 = tuple(sorted((subst(a, ren) for a in va), key=lambda x: x.id))
        k = (bs, m2, d, v2)
        s = _sk((k, 1))
        if best is None or s < best[0]:
            best = (s, k)
    return {best[1]: 1}


def solve_eq(b, v):
    """if boolean b is an equality determining v, the value of v"""
    if b.op == 'eq0':
        pd = to_pd(b.args[0])
        k = ((), ((v, 1),), SC, ())
        c = pd.get(k)
        if c in (1, -1):
            rest = {x: -y * c for x, y in pd.items() if x != k}
            r = from_pd(rest)
            if v not in fv(r):
                return r
    elif b.op in ('eqs', 'eqr'):
        x, y = b.args
        if x is v and v not in fv(y):
            return y
        if y is v and v not in fv(x):
            return x
    return None


def vatom_pd(a, d):
    """polynomial for vector atom a transformed by NTT^d (a may have become a polynomial)"""
    if a.op == 'p':
        acc = {}
        for (k, c) in a.args[0]:
            bs, mono, dd, va = k
            if dd == SC:
                raise ValueError('scalar where vector expected')
            acc[(bs, mono, dd + d, va)] = c
        return acc
    return {((), (), d, (a,)): 1}


# scalar API
def add(*ts):
    acc = {}
    for t in ts:
        pd_addto(acc, to_pd(t))
    return from_pd(acc)


def sub(a, b):
    acc = to_pd(a)
    pd_addto(acc, to_pd(b), -1)
    return from_pd(acc)


def neg(a):
    return from_pd({k: -c for k, c in to_pd(a).items()})


def mul(*ts):
    r = {KEY0: 1}
    for t in ts:
        r = pd_mul(r, to_pd(t))
    return from_pd(r)


def power(t, e):
    return from_pd(pd_pow(to_pd(t), e))


def I(n):
    return n if isinstance(n, T) else num(n)


def vec(a, d=0):
    """the vector polynomial of vector atom a in domain d"""
    return from_pd(vatom_pd(a, d))


def vconst(d=0):
    return from_pd({((), (), d, ()): 1})


def shift(v, k):
    """NTT^k of a vector polynomial"""
    acc = {}
    for key, c in to_pd(v).items():
        bs, mono, d, va = key
        if d == SC:
            raise ValueError('shift of scalar %r' % (v,))
        acc[(bs, mono, d + k, va)] = acc.get((bs, mono, d + k, va), 0) + c
    return from_pd(acc)


def vmul(a, b):
    return from_pd(pd_mul(to_pd(a), to_pd(b)))


def is_vec(t):
    return t.op == 'p' and any(k[2] != SC for k, c in t.args[0])


def Sum(v, body):
    """sum over variable v (range = indicators inside body)"""
    return from_pd(pd_sum(to_pd(body), [v]))


def vmap_atoms(v, f):
    """apply multiplicative linear map f on vector atoms (f: atom,d -> vector polynomial in domain 0)"""
    acc = {}
    for key, c in to_pd(v).items():
        fr, mono, d, va = _open(key)
        q = {((), mono, d, ()): c}
        for a in va:
            q = pd_conv(q, {(k[0], k[1], d, k[3]): cc for k, cc in to_pd(f(a)).items()}, d)
        if fr:
            q = pd_sum(q, fr)
        pd_addto(acc, q)
    return from_pd(acc)


# ---------------------------------------------------------------- booleans
def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def le0(p):
    c = is_const(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    pd = to_pd(p)
    if any(k[2] != SC for k in pd):
        raise ValueError('le0 of vector')
    g = 0
    for k, v in pd.items():
        if k != KEY0:
            g = gcd(g, v)
    if g > 1:
        c0 = pd.get(KEY0, 0)
        pd = {k: v // g for k, v in pd.items() if k != KEY0}
        c1 = -((-c0) // g)  # ceil
        if c1:
            pd[KEY0] = c1
        p = from_pd(pd)
    return mk('le0', p)


def le(a, b):
    return le0(sub(I(a), I(b)))


def lt(a, b):
    return le0(add(sub(I(a), I(b)), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq0(p):
    c = is_const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    pd = to_pd(p)
    if p.op == 'p':
        first = p.args[0][0] if p.args[0][0][0] != KEY0 else p.args[0][-1]
        if first[0] == KEY0:
            first = p.args[0][1]
        if first[1] < 0:
            p = neg(p)
            pd = to_pd(p)
    g = 0
    for k, v in pd.items():
        if k != KEY0:
            g = gcd(g, v)
    if g > 1:
        if pd.get(KEY0, 0) % g:
            return FALSE
        p = from_pd({k: v // g for k, v in pd.items()})
    return mk('eq0', p)


def eq(a, b):
    return eq0(sub(I(a), I(b)))


def string(s):
    return mk('str', s)


def eqs(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'ite':
        return or_(and_(a.args[0], eqs(a.args[1], b)), and_(not_(a.args[0]), eqs(a.args[2], b)))
    if b.op == 'ite':
        return eqs(b, a)
    if a.op == 'str' or (b.op != 'str' and b.id < a.id):
        a, b = b, a
    return mk('eqs', a, b)


def distinct_refs(a, b):
    """syntactically certainly distinct reference terms"""
    if a is b:
        return False
    ca, cb = a.op, b.op
    cons = ('new', 'root', 'ptr', 'nil', 'f', 'e', 'mv', 'map', 'arr', 'varcell', 'view')
    if ca in cons and cb in cons:
        if ca != cb:
            return True
        if ca in ('root',):
            return a.args != b.args
        if ca == 'f':
            return a.args[1] != b.args[1] or distinct_refs(a.args[0], b.args[0])
        if ca in ('ptr', 'map', 'arr'):
            return distinct_refs(a.args[0], b.args[0])
        if ca == 'new':
            return a.args[0] != b.args[0]
        if ca in ('e', 'mv'):
            if distinct_refs(a.args[0], b.args[0]):
                return True
            x, y = a.args[1], b.args[1]
            if x.op == 'str' and y.op == 'str' and x is not y:
                return True
            if x.op != 'str' and y.op != 'str' and x.op != 'var':
                c = None
                try:
                    c = is_const(sub(x, y))
                except Exception:
                    pass
                if c:
                    return True
    return False


def eqr(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return or_(and_(a.args[0], eqr(a.args[1], b)), and_(not_(a.args[0]), eqr(a.args[2], b)))
    if b.op == 'ite':
        return eqr(b, a)
    if distinct_refs(a, b):
        return FALSE
    cons = ('new', 'ptr', 'f', 'e', 'mv', 'map', 'arr')
    if a.op in cons and a.op == b.op:
        if a.op in ('f', 'ptr', 'map', 'arr'):
            return eqr(a.args[0], b.args[0])
        if a.op in ('e', 'mv'):
            kx = eqs if (a.args[1].op in ('str',) or b.args[1].op == 'str' or (a.args[1].op == 'var' and a.args[1].args[1] == 'S')) else eq
            return and_(eqr(a.args[0], b.args[0]), kx(a.args[1], b.args[1]))
        if a.op == 'new':
            r = TRUE
            for x, y in zip(a.args[1], b.args[1]):
                r = and_(r, geneq(x, y))
            return r
    if b.id < a.id:
        a, b = b, a
    return mk('eqr', a, b)


def sort_of(t):
    op = t.op
    if op == 'var' or op == 'bv':
        return t.args[1]
    if op == 'str':
        return 'S'
    if op in ('p', 'len', 'red', 'at', 'div', 'mod', 'ind', 'card', 'q', 'cnt', 'ini', 'qinv', 'modinv', 'modexp', 'bitlen', 'f2i', 'lev', 'slen', 'off', 'gal', 'ptmod', 'plogslots', 'prodl', 'prange', 'prodr', 'halfq', 'pow2', 'log2', 'least'):
        return 'I'
    if op in ('true', 'false', 'and', 'or', 'not', 'le0', 'eq0', 'eqs', 'eqr', 'in', 'ex', 'flt', 'fle', 'feq', 'bini', 'isnil', 'typeis', 'scmp'):
        return 'B'
    if op in ('sini', 'scat'):
        return 'S'
    if op == 'ite':
        return sort_of(t.args[1])
    if op in ('new', 'root', 'ptr', 'nil', 'f', 'e', 'mv', 'map', 'arr', 'varcell', 'view'):
        return 'R'
    if op in ('fc', 'fini', 'i2f') or op.startswith('f.'):
        return 'F'
    if op == 'pre':
        return t.args[2]
    if op == 'last':
        return t.args[2]
    if op == 'rec':
        return sort_of(t.args[1])
    return '?'


def geneq(a, b):
    if a is b:
        return TRUE
    s = sort_of(a)
    if s == '?':
        s = sort_of(b)
    if s == 'S':
        return eqs(a, b)
    if s == 'R':
        return eqr(a, b)
    if s == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if s == 'F':
        return feq(a, b)
    if s == 'I':
        return eq(a, b)
    return mk('eqr', *sorted((a, b), key=lambda x: x.id))


def not_(b):
    op = b.op
    if op == 'true':
        return FALSE
    if op == 'false':
        return TRUE
    if op == 'not':
        return b.args[0]
    if op == 'le0':
        return le0(sub(ONE, b.args[0]))
    if op == 'and':
        return or_(*[not_(x) for x in b.args])
    if op == 'or':
        return and_(*[not_(x) for x in b.args])
    if op == 'flt':
        return mk('fle', b.args[1], b.args[0])
    if op == 'fle':
        return mk('flt', b.args[1], b.args[0])
    if op == 'ite':
        return ite(b.args[0], not_(b.args[1]), not_(b.args[2]))
    return mk('not', b)


def and_(*bs):
    s = []
    seen = set()
    for b in bs:
        xs = b.args if b.op == 'and' else (b,)
        for x in xs:
            if x is TRUE or x in seen:
                continue
            if x is FALSE:
                return FALSE
            if not_(x) in seen:
                return FALSE
            seen.add(x)
            s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk('and', *s)


def or_(*bs):
    s = []
    seen = set()
    for b in bs:
        xs = b.args if b.op == 'or' else (b,)
        for x in xs:
            if x is FALSE or x in seen:
                continue
            if x is TRUE:
                return TRUE
            if not_(x) in seen:
                return TRUE
            seen.add(x)
            s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    # absorption: a or (a and b) = a
    keep = []
    for x in s:
        if x.op == 'and' and any(y in seen for y in x.args):
            continue
        keep.append(x)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda x: x.id)
    return mk('or', *keep)


def implies(a, b):
    return or_(not_(a), b)


def ind(b):
    op = b.op
    if op == 'true':
        return ONE
    if op == 'false':
        return ZERO
    if op == 'and':
        r = ONE
        for x in b.args:
            r = mul(r, ind(x))
        return r
    if op == 'or':
        r = ONE
        for x in b.args:
            r = mul(r, sub(ONE, ind(x)))
        return sub(ONE, r)
    if op == 'not':
        return sub(ONE, mk('ind', b.args[0]))
    if op == 'le0':
        n = not_(b)
        # canonical polarity
        if n.op == 'le0' and n.id < b.id:
            return sub(ONE, mk('ind', n))
        if n.op == 'le0':
            pass
        return mk('ind', b)
    if op == 'fle':
        return sub(ONE, mk('ind', mk('flt', b.args[1], b.args[0])))
    if op == 'ite':
        c = ind(b.args[0])
        return add(mul(c, ind(b.args[1])), mul(sub(ONE, c), ind(b.args[2])))
    return mk('ind', b)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    s = sort_of(a)
    if s == '?':
        s = sort_of(b)
    if s == 'I':
        ic = ind(c)
        return add(mul(ic, a), mul(sub(ONE, ic), b))
    if s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'slc' and b.op == 'slc':
        if a.args[0] is b.args[0]:
            return mk('slc', a.args[0], ite(c, a.args[1], b.args[1]), ite(c, a.args[2], b.args[2]))
    if a.op == 'st' and b.op == 'st':
        return mk('st', a.args[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    if c.op == 'not' or (c.op == 'le0' and not_(c).id < c.id):
        return mk('ite', not_(c), b, a)
    return mk('ite', c, a, b)


# floats (treated as real arithmetic, uninterpreted beyond the listed rules)
def fconst(s):
    from fractions import Fraction
    return mk('fc', repr(float(Fraction(s) if isinstance(s, str) else s)))


def feq(a, b):
    if a is b:
        return TRUE
    if a.op == 'fc' and b.op == 'fc':
        return TRUE if float(a.args[0]) == float(b.args[0]) else FALSE
    if b.id < a.id:
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        if y.op == 'f.trunc' and y.args[0] is x and x.op != 'fc':
            # zero is its own integer part
            return or_(feq(x, mk('fc', '0.0')), mk('feq', a, b))
    return mk('feq', a, b)


def flt(a, b):
    if a is b:
        return FALSE
    if a.op == 'fc' and b.op == 'fc':
        return TRUE if float(a.args[0]) < float(b.args[0]) else FALSE
    return mk('flt', a, b)


def fle(a, b):
    if a is b:
        return TRUE
    if a.op == 'fc' and b.op == 'fc':
        return TRUE if float(a.args[0]) <= float(b.args[0]) else FALSE
    return mk('fle', a, b)


def divi(a, b):
    """floor division of integers"""
    a, b = I(a), I(b)
    ca, cb = is_const(a), is_const(b)
    if cb is not None and cb > 0:
        if ca is not None:
            return num(ca // cb)
        if cb == 1:
            return a
        pd = to_pd(a)
        hi = {k: v // cb for k, v in pd.items() if v % cb == 0 and v // cb}
        if hi:
            lo = {k: v for k, v in pd.items() if v % cb}
            if not lo:
                return from_pd(hi)
            if all(k == KEY0 for k in lo):
                return add(from_pd(hi), num(lo[KEY0] // cb))
            return add(from_pd(hi), divi(from_pd(lo), b))
    if ca == 0:
        return ZERO
    if a is b:
        return ONE
    return mk('div', a, b)


def modi(a, b):
    a, b = I(a), I(b)
    ca, cb = is_const(a), is_const(b)
    if cb is not None and cb > 0:
        if ca is not None:
            return num(ca % cb)
        if cb == 1:
            return ZERO
        pd = to_pd(a)
        lo = {k: v % cb for k, v in pd.items() if v % cb}
        a2 = from_pd(lo)
        if is_const(a2) is not None:
            return num(is_const(a2) % cb)
        return mk('mod', a2, b)
    if a is b:
        return ZERO
    pb = to_pd(b)
    if cb is None and len(pb) == 1:
        (m, c), = pb.items()
        pa = to_pd(a)
        if m in pa and pa[m] % c == 0:
            a = from_pd({k: v for k, v in pa.items() if k != m})
    if a.op == 'mod' and a.args[1] is b:
        return a
    if cb is None and a.op == 'p':
        lead = [c for k, c in a.args[0] if k != KEY0]
        if lead and lead[0] < 0:
            # (-1 - x) mod b = b - 1 - x mod b
            return sub(sub(b, ONE), modi(sub(neg(a), ONE), b))
    return mk('mod', a, b)


BUILD.update({
    'le0': le0, 'eq0': eq0, 'eqs': eqs, 'eqr': eqr, 'not': not_, 'and': and_, 'or': or_, 'ite': ite, 'ind': ind,
    'flt': flt, 'fle': fle, 'feq': feq, 'div': divi, 'mod': modi,
})


# ---------------------------------------------------------------- reduction modulo q
def vred(v, q, lazy=0):
    """integer vector (reduced representative, or lazily reduced) congruent to v modulo q"""
    v = nf_mod(v, q)
    if not to_pd(v):
        return v
    pd = to_pd(v)
    if len(pd) == 1:
        (k, c), = pd.items()
        if c == 1 and not k[0] and not k[1] and k[2] == 0 and len(k[3]) == 1:
            a = k[3][0]
            if a.op == 'vred' and a.args[1] is q and not a.args[2]:
                return v
    return vec(mk('vred', v, q, lazy))


def red(p, q):
    p = nf_mod(p, q)
    if is_const(p) == 0:
        return ZERO
    # element-wise reduction of elements of one and the same index: an element of the reduced vector
    if p.op in ('p', 'at'):
        idx = None
        acc = {}
        for k, c in to_pd(p).items():
            a = [x for x, e in k[1] if x.op == 'at']
            if k[0] or len(a) != 1 or any(e != 1 for x, e in k[1] if x.op == 'at') or (idx is not None and a[0].args[1] is not idx):
                break
            idx = a[0].args[1]
            if any(idx in fv(x) or (x.op != 'ind' and fv(idx) & fv(x)) for x, e in k[1] if x is not a[0]):
                break
            x = a[0].args[0]
            x = x if x.op == 'p' else vec(x)
            pd_addto(acc, pd_mul({((), tuple(y for y in k[1] if y[0] is not a[0]), SC, ()): c}, to_pd(x)))
        else:
            v = vred(from_pd(acc), q)
            r = {}
            for k, c in to_pd(v).items():
                if k[0] or k[1] or k[2] != 0 or len(k[3]) != 1:
                    break
                pd_addto(r, {((), ((mk('at', k[3][0], idx), 1),), SC, ()): c})
            else:
                return from_pd(r)
    return mk('red', p, q)


def lz(p, q):
    """some word congruent to p modulo q (lazily reduced)"""
    return mk('lz', nf_mod(p, q), q)


BUILD['lz'] = lz
BUILD['vred'] = lambda v, q, lz: vred(v, q, lz)
BUILD['red'] = red
BUILD['pw'] = pw_build


def at_build(v, w):
    if v.op == 'p':
        pd = to_pd(v)
        if len(pd) == 1:
            (k, c), = pd.items()
            if c == 1 and not k[0] and not k[1] and k[2] == 0 and len(k[3]) == 1:
                v = k[3][0]
    return mk('at', v, w)


BUILD['at'] = at_build
_nfmemo = {}
WORD = mk('var', 'RM', 'I')


def cancel_inverses(mono):
    """modulo 2^64, the inverse of an odd number times that number is 1"""
    m = dict(mono)
    hit = False
    for a, e in mono:
        if a.op == 'qinv':
            x = a.args[0]
            n = min(e, m.get(x, 0))
            if n > 0:
                hit = True
                m[a] -= n
                m[x] -= n
    if not hit:
        return None
    return tuple((a, m[a]) for a, e in mono if m[a])



def pw_nf(a, q):
    """the product with reduced factors normalised, or None if nothing changes"""
    fs = [x if x.op == 'p' else vec(x) for x in a.args]
    ns = [nf_mod(x, q) for x in fs]
    if all(x is y for x, y in zip(fs, ns)):
        return None
    r = ns[0]
    for x in ns[1:]:
        r = vmul(r, x)
    return r


def nf_mod(p, q):
    """normal form modulo q: strip inner reductions modulo the same q and multiples of q"""
    k0 = (p, q)
    r = _nfmemo.get(k0)
    if r is not None:
        return r
    changed = False
    acc = {}
    for key, c in to_pd(p).items():
        bs, mono, d, va = key
        hit = False
        drop = False
        if any(a is q and e < 0 for a, e in mono):
            # a quotient by q: not a residue class modulo q, nothing inside it may be reduced
            n = acc.get(key, 0) + c
            if n:
                acc[key] = n
            else:
                acc.pop(key, None)
            continue
        if q is WORD and any(a.op == 'qinv' for a, e in mono):
            m2 = cancel_inverses(mono)
            if m2 is not None:
                changed = True
                pd_addto(acc, to_pd(nf_mod(from_pd({(bs, m2, d, va): c}), q)))
                continue
        for a, e in mono:
            if a is q and e > 0:
                drop = True
                break
            if a.op in ('red', 'lz') and a.args[1] is q:
                hit = True
        if drop:
            changed = True
            continue
        for a in va:
            if a.op == 'vred' and a.args[1] is q or a.op == 'pw' and len(va) == 1 and pw_nf(a, q) is not None:
                hit = True
        if not hit:
            # bound modulus index: ('q', ring, j) with j bound never equals an outer q
            n = acc.get(key, 0) + c
            if n:
                acc[key] = n
            else:
                acc.pop(key, None)
            continue
        changed = True
        fr, mono, d, va = _open(key)
        x = {((), (), d, ()): c}
        for a, e in mono:
            if a.op in ('red', 'lz') and a.args[1] is q:
                x = pd_mul(x, pd_pow(to_pd(nf_mod(a.args[0], q)), e))
            else:
                x = pd_mul(x, {((), ((a, e),), SC, ()): 1})
        for a in va:
            if a.op == 'pw' and len(va) == 1:
                x = pd_conv(x, {(k[0], k[1], k[2] + d, k[3]): cc for k, cc in to_pd(pw_nf(a, q)).items()}, d)
            elif a.op == 'vred' and a.args[1] is q:
                inner = nf_mod(a.args[0], q)
                x = pd_conv(x, {(k[0], k[1], k[2] + d, k[3]): cc for k, cc in to_pd(inner).items()}, d) if len(va) == 1 else _convmul(x, inner, d, va)
            else:
                x = pd_conv(x, {((), (), d, (a,)): 1}, d)
        if fr:
            x = pd_sum(x, fr)
        pd_addto(acc, x)
    r = from_pd(acc) if changed else p
    if changed and q is WORD:
        r = nf_mod(r, q)
    _nfmemo[k0] = r
    return r


def _convmul(x, inner, d, va):
    # product of several vector atoms in domain d where one is itself a vector polynomial
    pd = to_pd(inner)
    if all(k[2] == 0 for k in pd):
        return pd_conv(x, {(k[0], k[1], d, k[3]): cc for k, cc in pd.items()}, d)
    return pd_conv(x, {((), (), d, (mk('opq', inner),)): 1}, d)


def fix_single_shift(pd):
    return pd


# pd_conv with a shifted single atom must keep the shifted domain
_old_conv = pd_conv


def pd_conv(p1, p2, d):  # noqa: F811
    acc = {}
    for k1, c1 in p1.items():
        for k2, c2 in p2.items():
            dd = d
            if not k1[3] and k2[2] != SC:
                dd = k2[2]
            _kmul(acc, k1, k2, c1 * c2, dd)
    return acc


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op = t.op
    if op in ('var', 'bv'):
        return ('%s' % t.args[0]) if op == 'var' else 'b%d' % t.args[0]
    if op == 'p':
        if not t.args[0]:
            return '0'
        out = []
        for (bs, mono, d, va), c in t.args[0]:
            s = []
            for a, e in mono:
                s.append(show(a) + ('' if e == 1 else '^%d' % e))
            if va or d != SC:
                v = '*'.join(show(a) for a in va) or '1v'
                s.append(v if d == 0 else 'NTT%s(%s)' % ('' if d == 1 else '^%d' % d, v))
            body = '.'.join(s)
            if c != 1 or not body:
                body = ('%d' % c) + ('.' + body if body else '')
            if bs:
                body = 'SUM[%s](%s)' % (','.join(show(b) for b in bs), body)
            out.append(body)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'str':
        return repr(t.args[0])
    if op == 'f':
        return '%s.%s' % (show(t.args[0]), t.args[1])
    if op == 'e':
        return '%s[%s]' % (show(t.args[0]), show(t.args[1]))
    if op == 'mv':
        return '%s{%s}' % (show(t.args[0]), show(t.args[1]))
    if op in ('ptr', 'map', 'arr'):
        return show(t.args[0]) + {'ptr': '^', 'map': '', 'arr': ''}[op]
    if op == 'root':
        return '$' + t.args[0]
    if op == 'le0':
        pd = to_pd(t.args[0])
        l = {k: c for k, c in pd.items() if c > 0}
        r = {k: -c for k, c in pd.items() if c < 0}
        return '%s<=%s' % (show(from_pd(l)), show(from_pd(r)))
    if op == 'eq0':
        return '%s==0' % show(t.args[0])
    if op == 'ind':
        return '[%s]' % show(t.args[0])
    if op == 'vred':
        return '{%s}' % show(t.args[0])
    if op == 'lam':
        return '\\%s.%s' % (show(t.args[0]), show(t.args[1]))

    def sa(a):
        if isinstance(a, T):
            return show(a)
        if isinstance(a, tuple):
            return '(' + ','.join(sa(x) for x in a) + ')'
        return str(a)
    return '%s(%s)' % (op, ','.join(sa(a) for a in t.args)) if t.args else op
