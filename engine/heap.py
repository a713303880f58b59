"""Symbolic memory: a persistent log of (quantified, guarded) updates over structural addresses."""
from terms import *
from smt import Ctx


class Unsupported(Exception):
    pass


class Upd:
    """forall qv. guard => mem[addr] := val"""
    __slots__ = ('qv', 'guard', 'addr', 'val', 'loop', 'W', 'beta', 'rng', 'head', 'earlier', 'where', 'known')

    def __init__(self, qv, guard, addr, val, where=None):
        self.qv = tuple(qv)
        self.guard = guard
        self.addr = addr
        self.val = val
        self.loop = None
        self.where = where
        self.known = ()
        self.head = head(addr) if addr is not None else None


class Node:
    __slots__ = ('parent', 'upd', 'depth')

    def __init__(self, parent, upd):
        self.parent = parent
        self.upd = upd
        self.depth = parent.depth + 1 if parent else 0


ROOT = Node(None, None)


def head(a):
    """cheap discrimination key of an address"""
    if a.op == 'f':
        return ('f', a.args[1])
    return (a.op,)


def f(a, name):
    return mk('f', a, name)


def e(arr, i):
    return mk('e', arr, I(i))


def C(arr):
    return mk('C', arr)


def root(n):
    return mk('root', n)


def slc(arr, off, ln):
    return mk('slc', arr, I(off), I(ln))


# -------------------------------------------------------------- unification of address patterns
STRUCT = ('f', 'e', 'mv', 'dom', 'C', 'ptr', 'map', 'arr', 'len', 'new', 'varcell', 'iptr', 'ini', 'sub')


def _pow2_of(t):
    """x when t is 2^x (written as c * pow2(y) with c a power of two)"""
    pd = to_pd(t)
    if len(pd) != 1:
        return None
    (k, c), = pd.items()
    if k[0] or k[2] != SC or len(k[1]) != 1 or k[1][0][1] != 1 or k[1][0][0].op != 'pow2' or c < 1 or c & (c - 1):
        return None
    return add(k[1][0][0].args[0], num(c.bit_length() - 1))


def log2(a):
    x = _pow2_of(a)
    if x is not None:
        return x
    n = is_const(a)
    if n is not None and n > 0 and n & (n - 1) == 0:
        return num(n.bit_length() - 1)
    return mk('log2', a)


def may_meet(a, b):
    """False if the two addresses differ whatever the values in them"""
    return _uni(a, b, frozenset(), [], [])


def unify(P, A, qv, entails=None, guard=None):
    """None if P(qv) can never equal A, else (binding, condition)"""
    if qv:
        fa = fv(A)
        clash = [q for q in qv if q in fa]
        if clash:
            ren = {q: mk('var', str(q.args[0]) + "'", q.args[1]) for q in clash}
            for q in ren.values():
                if q in fa:
                    ren = {q: fresh(q.args[1], 'u') for q in clash}
                    break
            back = {v: k for k, v in ren.items()}
            r = unify(subst(P, ren), A, [ren.get(q, q) for q in qv], entails, subst(guard, ren) if guard is not None else None)
            if r is None:
                return None
            return {back.get(k, k): v for k, v in r[0].items()}, r[1]
    eqs_ = []
    idx = []
    if not _uni(P, A, frozenset(qv), eqs_, idx):
        return None
    b = {}
    unb = list(qv)
    # direct string / reference bindings
    conds = []
    for p, a in eqs_:
        if p in unb:
            if p in b:
                conds.append(geneq(b[p], a))
            else:
                b[p] = a
        else:
            conds.append((p, a))
    pend = list(idx)
    progress = True
    while progress and pend:
        progress = False
        rest = []
        for p, a in pend:
            p2 = subst(p, b) if b else p
            us = [q for q in unb if q not in b and q in fv(p2)]
            if not us:
                conds.append(eq(p2, a))
                progress = True
                continue
            if len(us) == 1:
                q = us[0]
                pd = to_pd(p2)
                k = ((), ((q, 1),), SC, ())
                c = pd.get(k)
                r = from_pd({x: y for x, y in pd.items() if x != k})
                if c is not None and q not in fv(r):
                    if c in (1, -1):
                        b[q] = sub(a, r) if c == 1 else sub(r, a)
                    else:
                        d = sub(a, r)
                        b[q] = divi(d, num(c)) if c > 0 else divi(neg(d), num(-c))
                        conds.append(eq(mul(num(c), b[q]), d))
                    progress = True
                    continue
                pw = _pow2_of(p2)
                if pw is not None:
                    # inverse of the (injective) power of two
                    lg = log2(a)
                    conds.append((ge(lg, ZERO), TRUE))
                    conds.append((eq(mk('pow2', lg) if lg.op == 'log2' else a, a), TRUE))
                    rest.append((pw, lg))
                    progress = True
                    continue
                # symbolic coefficient  K*q + r
                lin = {}
                ok = True
                for key, cc in pd.items():
                    m = dict(key[1])
                    if q in m and not key[0] and key[2] == SC:
                        if m[q] != 1:
                            ok = False
                            break
                        m2 = tuple((x, e2) for x, e2 in key[1] if x is not q)
                        lin[((), m2, SC, ())] = cc
                    elif any(q in fv(x) for x, e2 in key[1]):
                        ok = False
                        break
                if ok and lin:
                    K = from_pd(lin)
                    r = subst(p2, {q: ZERO})
                    d = sub(a, r)
                    b[q] = divi(d, K)
                    conds.append(eq(mul(K, b[q]), d))
                    progress = True
                    continue
            rest.append((p, a))
        pend = rest
        if pend and not progress:
            # K*x + y with 0 <= y < K
            p, a = pend[0]
            p2 = subst(p, b)
            us = [q for q in unb if q not in b and q in fv(p2)]
            if len(us) == 2 and entails is not None:
                for x, y in ((us[0], us[1]), (us[1], us[0])):
                    pd = to_pd(p2)
                    ky = ((), ((y, 1),), SC, ())
                    if pd.get(ky) != 1:
                        continue
                    lin, rr, ok = {}, {}, True
                    for key, cc in pd.items():
                        if key == ky:
                            continue
                        m = dict(key[1])
                        if x in m and m[x] == 1:
                            lin[((), tuple(z for z in key[1] if z[0] is not x), SC, ())] = cc
                        elif any(x in fv(z) or y in fv(z) for z, e2 in key[1]):
                            ok = False
                        else:
                            rr[key] = cc
                    if not ok or not lin:
                        continue
                    K = from_pd(lin)
                    if x in fv(K) or y in fv(K):
                        continue
                    if guard is not None and entails([guard], and_(ge(y, ZERO), lt(y, K))):
                        d = sub(a, from_pd(rr))
                        b[x] = divi(d, K)
                        b[y] = modi(d, K)
                        pend = pend[1:]
                        progress = True
                        break
    out = TRUE
    for q in unb:
        if q not in b:
            b[q] = None
    sb = {k: v for k, v in b.items() if v is not None}
    for c in conds:
        if isinstance(c, tuple):
            c = geneq(subst(c[0], sb), c[1])
        out = and_(out, c)
    for p, a in pend:
        out = and_(out, eq(subst(p, sb), a))
    if out is FALSE:
        return None
    return b, out


def _uni(P, A, qs, eqs_, idx):
    if P is A and not (fv(P) & qs):
        return True
    if P in qs:
        if sort_of(P) == 'I':
            idx.append((P, A))
        else:
            eqs_.append((P, A))
        return True
    if P.op in STRUCT and A.op in STRUCT:
        if P.op != A.op:
            return False
        op = P.op
        if op == 'new':
            if P.args[0] != A.args[0] or len(P.args[1]) != len(A.args[1]):
                return False
            for x, y in zip(P.args[1], A.args[1]):
                if not _uarg(x, y, qs, eqs_, idx):
                    return False
            return True
        if op == 'f':
            if P.args[1] != A.args[1]:
                return False
            return _uni(P.args[0], A.args[0], qs, eqs_, idx)
        if op == 'varcell':
            return P.args == A.args
        if op in ('e', 'mv', 'dom', 'sub'):
            if not _uni(P.args[0], A.args[0], qs, eqs_, idx):
                return False
            return _uarg(P.args[1], A.args[1], qs, eqs_, idx)
        return _uni(P.args[0], A.args[0], qs, eqs_, idx)
    if (P.op == 'root' or P is NIL) and (A.op == 'root' or A is NIL):
        return P is A
    if (P.op in ('root', 'nil') and A.op in STRUCT) or (A.op in ('root', 'nil') and P.op in STRUCT):
        return False
    if A.op == 'havocref' or P.op == 'havocref':
        raise Unsupported('access through an unknown reference')
    c = geneq(P, A)
    if c is FALSE:
        return False
    eqs_.append((P, A))
    return True


def _uarg(x, y, qs, eqs_, idx):
    sx = sort_of(x)
    if sx == 'S' or sort_of(y) == 'S':
        if x.op == 'str' and y.op == 'str':
            return x is y
        eqs_.append((x, y))
        return True
    if sx == 'R':
        return _uni(x, y, qs, eqs_, idx)
    if not (fv(x) & qs):
        c = eq(x, y)
        if c is FALSE:
            return False
    idx.append((x, y))
    return True


def find_ite(a):
    """first ite reference inside an address"""
    if a.op == 'ite':
        return a
    for x in a.args:
        if isinstance(x, T) and x.op in ('ite',) + STRUCT:
            if a.op in ('e', 'mv', 'dom', 'sub') and x is a.args[1]:
                continue
            r = find_ite(x)
            if r is not None:
                return r
    return None


def replace(a, x, y):
    if a is x:
        return y
    return rebuild(a.op, tuple(replace(z, x, y) if isinstance(z, T) and z.op in ('ite',) + STRUCT else z for z in a.args))
