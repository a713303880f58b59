"""Contracts of the BFV key switcher and product (mkbfv)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM, prod
import lattigo
from specs import S0, level, ids
from specs2 import each, havoc_poly
from specs3 import havoc_limbs
from specs4 import exists
from specs5 import dig, nfq, Ssum, moddown, ep, swk, poly_digits, party_sum, ntt_of, lvl_ok, DIVIDES, NILV, scratch
from specs6 import call, union
from specs8 import MAXL, bfv_ct, bfv_new
from specs9 import lifted, limb_under


def rdigits(s, p):
    """the 2 beta digits, in the evaluation domain, of a polynomial over R = Q QMul"""
    limb = p if callable(p) else p.limb

    def inr(x):
        with s.under(ge(x, ZERO), lt(x, nR)):
            return limb(x)
    return lambda i: shift(dig(i, sub(nR, ONE), nfq(inr, True)), 1)


def rpair(s, p):
    """digits as the two gadget vectors written by DecomposeBFV"""
    d = rdigits(s, p)
    return (lambda i, part, x: d(i)), (lambda i, part, x: d(add(i, BETA)))


def swk_scratch(s, o, R=False):
    """contents of a pool gadget vector are unspecified"""
    i, j = s.v('I', 'i'), s.v('I', 'j')
    for part, cnt in (('Q', nR if R else nQ), ('P', nP)):
        g = and_(ge(i, ZERO), lt(i, BETAR if R else BETA), ge(j, ZERO), lt(j, cnt))
        t = s.ex.site(s.node, s.tag())
        with s.under(g):
            a = o.Value.at(i).fld(part).limbaddr(j)
            s.wr(a, vec(mk('hv', t.args[0], t.args[1] + (i, j))), '#C', (i, j), g)


def pool(s, ks, *ns):
    for n in ns:
        swk_scratch(s, ks.fld('swkPool%d' % n))


def decompose_bfv(s, p, ad1, ad2, qv=(), guard=TRUE):
    d1, d2 = rpair(s, p)
    i = s.v('I', 'i')
    g = and_(guard, ge(i, ZERO), lt(i, BETA))
    for ad, d in ((ad1, d1), (ad2, d2)):
        for part, fm, n in (('Q', 'Q', nQ), ('P', 'P', nP)):
            with s.under(g):
                q = ad.Value.at(i).fld(part)
            each(s, q, fm, n, lambda j, m: d(i, part, j), tuple(qv) + (i,), g)


@spec('mkbfv.KeySwitcher.DecomposeBFV', 'C12', lazy=('a1',), modes=[{'R': ['a1']}], requires=lambda s: DIVIDES + [eq(s.args[0].v, MAXL), eq(s.args[1].Coeffs.len, nR)])
def _(s):
    lv, p, ad1, ad2 = s.args
    decompose_bfv(s, p, ad1, ad2)
    swk_scratch(s, s.recv.swkRPPool, True)


def ep2(s, d1, b1, d2, b2, j, q):
    """external product with a pair of gadget vectors"""
    v = lambda part: lambda x: shift(Ssum(s, BETA, lambda i: mul(iRM, add(vmul(b1(i, part, x), d1(i, part, x)), vmul(b2(i, part, x), d2(i, part, x))))), -1)
    return moddown(s, v('Q'), v('P'), j, q)


@spec('mkbfv.KeySwitcher.ExternalProductBFV', 'C12', 'C06', modes=[{'R': ['a1']}],
      requires=lambda s: DIVIDES + [eq(s.args[0].v, MAXL), eq(s.args[1].Coeffs.len, nR), eq(s.args[4].Coeffs.len, nQ)])
def _(s):
    lv, p, b1, b2, c = s.args
    d1, d2 = rpair(s, p)
    each(s, c, 'Q', nQ, lambda j, q: ep2(s, d1, swk(b1), d2, swk(b2), j, q))
    swk_scratch(s, s.recv.swkRPPool, True)
    pool(s, s.recv, 1, 2)
    base_scratch(s, s.recv, 1)


def base_scratch(s, ks, *ns):
    r = s.recv
    s.recv = ks.KeySwitcher
    scratch(s, *ns)
    s.recv = r


@spec('mkbfv.KeySwitcher.ExternalProductBFVHoisted', 'C12', 'C06', requires=lambda s: DIVIDES + [eq(s.args[0].v, MAXL), eq(s.args[5].Coeffs.len, nQ)])
def _(s):
    lv, h1, h2, b1, b2, c = s.args
    each(s, c, 'Q', nQ, lambda j, q: ep2(s, swk(h1), swk(b1), swk(h2), swk(b2), j, q))
    base_scratch(s, s.recv, 1)


def quantized(s, x):
    """Q-residues of floor(t X / QMul), x(j) the evaluation-domain residues of X over R"""
    t = TMOD
    tx = lambda off: lambda j: mul(t, shift(inside(s, x, j, nQ, off), -1))
    up = lifted('M', sub(nQ, ONE), tx(nQ))
    return lambda j, q: mul(power(prod('M', sub(nQ, ONE)), -1), sub(tx(ZERO)(j), up))


def inside(s, x, j, n, off):
    with s.under(ge(j, ZERO), lt(j, n)):
        return x(add(j, off))


def values(c):
    return lambda k: (lambda j: c.Value.key(k).limb(j))


def bfv_relinearized(s, ks, a, b, rlk, out, dga, dgb, la=None, lb=None):
    la, lb = la or values(a), lb or values(b)
    lv = level(out)
    for c in (a, b):
        k = s.v('S')
        s.panics(exists(k, and_(ids(c, k), not_(rlk.Value.has(k)))), 'must refuse a missing key')

    def key(k, h, i):
        return swk(rlk.Value.key(k).Value.at(num(h)).Value.at(num(i)))

    def gad(c, h, i, dg):
        def r(ii, part, x):
            def t(k):
                with s.under(rlk.Value.has(k)):
                    return vmul(key(k, h, i)(ii, part, x), dg(k)[h](ii, part, x))
            return party_sum(s, c, t)
        return r
    X = [gad(a, h, 1, dga) for h in (0, 1)]
    Y = [gad(b, h, 0, dgb) for h in (0, 1)]

    def z(k):
        return poly_digits(s, lv, lambda x: ep2(s, dga(k)[0], Y[0], dga(k)[1], Y[1], x, mk('q', 'Q', x)))

    def cross(p, q):
        return lambda j: vmul(shift(p(j), 1), shift(q(j), 1))

    def c0(j, q):
        def t(k):
            with s.under(rlk.Value.has(k)):
                return ep(s, lv, z(k), key(k, 0, 2), j, q)
        return add(quantized(s, cross(la(S0), lb(S0)))(j, q), party_sum(s, a, t))
    each(s, out.Value.key(S0), 'Q', nQ, c0)
    u = swk(ks.Parameters.CRS.key(num(-1)))
    k = s.v('S')
    for ina, inb in ((True, True), (True, False), (False, True)):
        g = and_(ids(out, k), ids(a, k) if ina else not_(ids(a, k)), ids(b, k) if inb else not_(ids(b, k)))
        with s.under(g):
            p = out.Value.key(k)

            def x(j):
                r = ZERO
                if inb:
                    r = add(r, cross(la(S0), lb(k))(j))
                if ina:
                    r = add(r, cross(lb(S0), la(k))(j))
                return r

            def ck(j, q):
                r = quantized(s, x)(j, q)
                if inb:
                    r = add(r, ep2(s, dgb(k)[0], X[0], dgb(k)[1], X[1], j, q))
                if ina:
                    r = add(r, ep(s, lv, z(k), u, j, q))
                return r
        each(s, p, 'Q', nQ, ck, (k,), g)


def bfv_mul_scratch(s, ks):
    pool(s, ks, 1, 2, 3, 4, 5, 6)
    swk_scratch(s, ks.swkRPPool, True)
    for n in ('polyQPool1', 'polyQPool2'):
        havoc_poly(s, ks.fld(n), nQ)
    for n in range(1, 5):
        havoc_poly(s, ks.fld('polyRPool%d' % n), nR)
    quantize_scratch(s, ks.conv)
    base_scratch(s, ks, 'inv', 0, 1, 'q0', 'w1')


def quantize_scratch(s, conv):
    havoc_poly(s, conv.polypoolR, nR)
    havoc_poly(s, conv.polypoolQ, nQ)
    havoc_poly(s, conv.polypoolQMul, nM)
    havoc_poly(s, conv.convQQMul.polypoolQ, nQ)


def bfv_mul_pre(s):
    a, b, out = s.args[0], s.args[1], s.args[-1]
    k = fresh('S', 'k')
    return DIVIDES + [ForAll(k, a.Value.has(k), out.Value.has(k)), ForAll(k, b.Value.has(k), out.Value.has(k)), ForAll(k, out.Value.has(k), or_(a.Value.has(k), b.Value.has(k)))] + \
        [c.Value.has(S0) for c in (a, b, out)] + [eq(level(out), MAXL)]


def rdg(s, c):
    """digits of the components of a ciphertext over R"""
    def r(k):
        with s.under(ids(c, k)):
            return rpair(s, c.Value.key(k))
    return r


@spec('mkbfv.KeySwitcher.MulAndRelinBFV', 'C06', requires=bfv_mul_pre, modes=[{'R': ['a0', 'a1']}, {'name': 'op1=op0', 'alias': {'a1': 'a0'}, 'R': ['a0', 'a1']}])
def _(s):
    a, b, rlk, out = s.args
    bfv_relinearized(s, s.recv, a, b, rlk, out, rdg(s, a), rdg(s, b))
    bfv_mul_scratch(s, s.recv)


def bfv_hoist_pre(s):
    r = bfv_mul_pre(s)
    for c, hs in ((s.args[0], s.args[2:4]), (s.args[1], s.args[4:6])):
        for h in hs:
            if h.v is not NIL:
                k = fresh('S', 'k')
                r.append(ForAll(k, c.Value.has(k), or_(eqs(k, S0), h.Value.has(k))))
    return r


NIL2 = lambda *n: {'a%d' % i: NILV for i in n}


@spec('mkbfv.KeySwitcher.MulAndRelinBFVHoisted', 'C06', 'C09', lazy=('a0', 'a1'), requires=bfv_hoist_pre,
      modes=[{'R': ['a0', 'a1']}, {'name': 'op0Hoisted=nil', 'values': NIL2(2, 3), 'R': ['a0', 'a1']}, {'name': 'op1Hoisted=nil', 'values': NIL2(4, 5), 'R': ['a0', 'a1']},
             {'name': 'no hoisting', 'values': NIL2(2, 3, 4, 5), 'R': ['a0', 'a1']},
             {'name': 'same operands', 'alias': {'a1': 'a0'}, 'R': ['a0']}, {'name': 'same operands, no hoisting', 'alias': {'a1': 'a0'}, 'values': NIL2(2, 3, 4, 5), 'R': ['a0']}])
def _(s):
    a, b, ha1, ha2, hb1, hb2, rlk, out = s.args

    def dg(c, h1, h2):
        if h1.v is NIL:
            return rdg(s, c)

        def r(k):
            with s.under(ids(c, k)):
                return swk(h1.Value.key(k)), swk(h2.Value.key(k))
        return r
    bfv_relinearized(s, s.recv, a, b, rlk, out, dg(a, ha1, ha2), dg(b, hb1, hb2))
    bfv_mul_scratch(s, s.recv)


# ------------------------------------------------------------------ the product of the scheme
def halves(s, j, low, high):
    """residue j over R, from those modulo Q and those modulo QMul"""
    c = lt(j, nQ)
    d = s.ex.decide(s.st, c)
    if d is not None:
        return low(j) if d else high(sub(j, nQ))
    with s.under(c):
        x = low(j)
    with s.under(not_(c)):
        y = high(sub(j, nQ))
    return ite(c, x, y)


def lift_r(s, ct):
    """components of the first operand, lifted to R: their own residues, and those of the lift modulo QMul"""
    def of(k):
        up = lifted('Q', sub(nQ, ONE), limb_under(s, ct.Value.key(k)))
        return lambda j: halves(s, j, lambda x: ct.Value.key(k).limb(x), lambda x: vred(up, mk('q', 'M', x), 1))
    return of


def scale_r(s, ct):
    """components of the second operand times QMul / Q, rounded down"""
    def of(k):
        low = lifted('Q', sub(nQ, ONE), lambda j: mul(var('prodM'), limb_under(s, ct.Value.key(k))(j)))
        m = lambda j: vred(neg(mul(power(prod('Q', sub(nQ, ONE)), -1), low)), mk('q', 'M', j))
        up = lifted('M', sub(nQ, ONE), m)
        return lambda j: halves(s, j, lambda x: vred(up, mk('q', 'Q', x), 1), m)
    return of


def rlk_pools(s, rlk, n, c):
    """the pools hold the operands over R and their digits afterwards; contents unspecified"""
    k, j = s.v('S'), s.v('I', 'j')
    g = and_(c.Value.has(k), ge(j, ZERO), lt(j, nR))
    t = s.ex.site(s.node, s.tag())
    with s.under(g):
        w = rlk.fld('PolyRPool%d' % (n + 1)).key(k).limbaddr(j)
        s.wr(w, vec(mk('hv', t.args[0], t.args[1] + (k, j))), '#C', (k, j), g)
    for h in (1, 2):
        pool = rlk.fld('HoistPool%d' % h).at(num(n))
        k, i, j = s.v('S'), s.v('I', 'i'), s.v('I', 'j')
        for part, cnt in (('Q', nQ), ('P', nP)):
            g = and_(ids(c, k), ge(i, ZERO), lt(i, BETA), ge(j, ZERO), lt(j, cnt))
            t = s.ex.site(s.node, s.tag())
            with s.under(g):
                w = pool.Value.key(k).Value.at(i).fld(part).limbaddr(j)
                s.wr(w, vec(mk('hv', t.args[0], t.args[1] + (k, i, j))), '#C', (k, i, j), g)


def rescale_scratch(s, conv):
    havoc_poly(s, conv.polypoolQ, nQ)
    havoc_poly(s, conv.polypoolQMul, nM)
    havoc_poly(s, conv.convQQMul.polypoolP, nM)


@spec('mkbfv.Evaluator.MulRelinNew', 'C06', 'C18', modes=[{}, {'name': 'square', 'alias': {'a1': 'a0'}}],
      requires=lambda s: DIVIDES + bfv_ct(s.args[0], s.args[1]) + [s.args[2].PolyRPool1.has(S0), s.args[2].PolyRPool2.has(S0)])
def _(s):
    a, b, rlk = s.args
    out = bfv_new(s, union(a, b))
    for n, c in ((0, a), (1, b)):
        k = s.v('S')
        s.panics(exists(k, and_(c.Value.has(k), not_(rlk.fld('PolyRPool%d' % (n + 1)).has(k)))), 'must refuse a missing key')
        for h in (1, 2):
            k = s.v('S')
            s.panics(exists(k, and_(ids(c, k), not_(rlk.fld('HoistPool%d' % h).at(num(n)).Value.has(k)))), 'must refuse a missing key')
    la, lb = lift_r(s, a), scale_r(s, b)
    dg = lambda l: lambda k: rpair(s, l(k))
    bfv_relinearized(s, s.recv.ksw, a, b, rlk, out, dg(la), dg(lb), la, lb)
    bfv_mul_scratch(s, s.recv.ksw)
    rlk_pools(s, rlk, 0, a)
    rlk_pools(s, rlk, 1, b)
    rescale_scratch(s, s.recv.conv)
    return out
