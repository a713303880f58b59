"""Ciphertexts as slot vectors: the functions of package cnn are verified against the functional contracts of the evaluator.

Every function of the evaluator used here returns a fresh ciphertext and leaves its operands alone (C18), so inside such a
proof a *Ciphertext is identified with the vector it encrypts: sums, slotwise products and rotations of vectors. That these
functions evaluate the operation they are named after is what C03, C05, C07, C09 and C15 state and prove; here their callers
are checked against that. A hoisted form is the hoisted form of one vector, and the hoisted operations demand the hoisted
form of the operand they are given (the precondition of C09). No other function may touch a ciphertext."""
from terms import *
from heap import *
import lattigo
from exec import Unsupported

CT, HC, PT = '*mkckks.Ciphertext', '*mkrlwe.HoistedCiphertext', '*ckks.Plaintext'


def prod2(a, b):
    return from_pd(pd_conv(to_pd(a), to_pd(b), 0))


def rot(v, k):
    return lattigo.aut(mk('gal', k, 0), v)


def value(p):
    """the vector a ciphertext pointer stands for"""
    if p is NIL:
        raise Unsupported('nil ciphertext')
    if p.op == 'p':
        return p
    if p.op == 'pre':
        return vec(p)
    if p.op == 'ite':
        return add(vscale(ind(p.args[0]), value(p.args[1])), vscale(ind(not_(p.args[0])), value(p.args[2])))
    if p.op in ('root', 'rini', 'ini', 'f', 'e', 'ptr', 'varcell', 'sub'):
        return vec(mk('slots', p))
    raise Unsupported('ciphertext %s' % show(p)[:80])


def vscale(c, v):
    from loops import vscale as vs
    return vs(c, v)


def install(ex, hoisted, fn):
    """contracts of the evaluator on slot vectors; hoisted: parameters that hold the hoisted form of another parameter"""
    ex.abstract = True
    ex.nilpre = {}
    ex.ctvars = ctvars(fn)

    def nn(st, p, node):
        """a nil operand panics: the first iteration's value of a variable that is nil before the loop"""
        c = ex.isnil(p)
        if c is not FALSE:
            ex.panic_if(st, c, 'nil pointer', node)

    def val(st, p, node):
        nn(st, p, node)
        return value(p)

    def hval(h):
        if h.op == 'hoistedv':
            return h.args[0]
        if h.op in ('root', 'ini', 'rini', 'f', 'e', 'ptr', 'sub'):
            m = {root(a): root(b) for a, b in hoisted.items()}
            g = subst_roots(h, m)
            if g is not h:
                return value(g)
        return None

    def hoistcheck(ex, st, op, h, node):
        if h is NIL:
            return
        v = hval(h)
        if v is None or v is not value(op):
            ok = v is not None and to_pd(sub(v, value(op))) == {}
            if not ok:
                ex.panic_if(st, TRUE, 'precondition: the hoisted form belongs to the operand', node)

    C = {}

    def c(name):
        def d(fn):
            def g(ex, st, r, a, n):
                ex.used_specs.add(name)        # its detailed contract is discharged in the same run
                return fn(ex, st, r, a, n)
            C[name] = g
            return g
        return d

    @c('mkckks.Evaluator.AddNew')
    def _(ex, st, r, a, n):
        return add(val(st, a[0], n), val(st, a[1], n))

    @c('mkckks.Evaluator.SubNew')
    def _(ex, st, r, a, n):
        return sub(val(st, a[0], n), val(st, a[1], n))

    @c('mkckks.Evaluator.MulRelinNew')
    def _(ex, st, r, a, n):
        return prod2(val(st, a[0], n), val(st, a[1], n))

    @c('mkckks.Evaluator.MulRelinHoistedNew')
    def _(ex, st, r, a, n):
        x, y = val(st, a[0], n), val(st, a[1], n)
        hoistcheck(ex, st, a[0], a[2], n)
        hoistcheck(ex, st, a[1], a[3], n)
        return prod2(x, y)

    @c('mkckks.Evaluator.MulPtxtNew')
    def _(ex, st, r, a, n):
        return prod2(val(st, a[0], n), vec(mk('slots', a[1])))

    @c('mkckks.Evaluator.RotateNew')
    def _(ex, st, r, a, n):
        return rot(val(st, a[0], n), a[1])

    @c('mkckks.Evaluator.RotateHoistedNew')
    def _(ex, st, r, a, n):
        x = val(st, a[0], n)
        hoistcheck(ex, st, a[0], a[2], n)
        return rot(x, a[1])

    @c('mkckks.Evaluator.HoistedForm')
    def _(ex, st, r, a, n):
        return mk('hoistedv', val(st, a[0], n))

    @c('mkckks.Ciphertext.CopyNew')
    def _(ex, st, r, a, n):
        return val(st, r, n)

    for k in list(ex.contracts):
        if k.split('.')[0] in ('mkckks', 'mkrlwe', 'mkbfv'):
            del ex.contracts[k]
    for k in ex.d.funcs:
        if k.split('.')[0] in ('mkckks', 'mkrlwe', 'mkbfv'):
            ex.contracts[k] = refuse(k)
    ex.contracts.update(C)


def isnil(ex, v):
    """a variable that is nil before a loop is nil in its first iteration, until it is assigned"""
    mono = None
    pd = to_pd(v)
    if len(pd) == 1:
        ((fr, mono, d, va), c), = pd.items()
        if c == 1 and not fr and not mono and len(va) == 1 and va[0] in ex.nilpre:
            return first(ex, va[0])
    if any(a in ex.nilpre for a in pre_atoms(v)):
        # chosen by a branch: nil where the chosen value is
        cs = [a for k in pd for a, e in k[1] if a.op == 'ind']
        if cs:
            c = cs[0].args[0]
            from loops import replace_atoms
            t, e = replace_atoms(v, {cs[0]: ONE}), replace_atoms(v, {cs[0]: ZERO})
            return or_(and_(c, isnil(ex, t)), and_(not_(c), isnil(ex, e)))
    return FALSE


def first(ex, a):
    prim = ex.prims.get(a.args[0])
    return eq(ex.nilpre[a], prim[1] if prim else ZERO)


def from_zero(v):
    """sums that start at a small constant, restated as sums from zero minus their first terms"""
    acc = {}
    for (bs, mono, d, va), c in to_pd(v).items():
        lo = None
        if len(bs) == 1:
            b = bs[0]
            for a, e in mono:
                if a.op == 'ind' and a.args[0].op == 'le0':
                    m = dict(to_pd(a.args[0].args[0]))
                    k = m.pop(KEY0, 0)
                    if 0 < k <= 4 and e == 1 and len(m) == 1 and list(m.values()) == [-1] and list(m)[0][1] == ((b, 1),):
                        lo, hit = k, a
        if lo is None:
            acc[(bs, mono, d, va)] = acc.get((bs, mono, d, va), 0) + c
            continue
        x = fresh('I', 's')
        rest = from_pd({((), tuple((subst(a, {b: x}), e) for a, e in mono if a is not hit), d, tuple(subst(a, {b: x}) for a in va)): c})
        from loops import vscale as vs
        pd_addto(acc, to_pd(Sum(x, vs(ind(ge(x, ZERO)), rest))))
        for k in range(lo):
            pd_addto(acc, to_pd(neg(subst(rest, {x: num(k)}))))
    return from_pd(acc)


def refuse(k):
    def c(ex, st, r, a, n):
        raise Unsupported('%s has no contract on slot vectors' % k)
    return c


def ctvars(fn):
    out = set()

    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'var' and x.get('t') == CT:
                out.add(x['id'])
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(fn)
    for r in fn['results']:
        if r['t'] == CT:
            out.add(r['id'])
    return out


def pre_atoms(p):
    out, seen = set(), set()

    def w(t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                for x in t:
                    w(x)
            return
        if t in seen:
            return
        seen.add(t)
        if t.op == 'pre':
            out.add(t)
        for x in t.args:
            w(x)
    w(p)
    return out


def subst_roots(t, m):
    from loops import replace_atoms
    return replace_atoms(t, m)
