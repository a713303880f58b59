"""Contracts of gadget decomposition, external product, relinearization, rotation and conjugation (mkrlwe)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM, prod
import lattigo
from specs import S0, swk_new, is_R, level, level_at, ids, newidset, ct_copy_new, poly_copy, copy_poly_new, polyqp_into, ct_new, sub_ids
from specs2 import each, fams, havoc_poly, havoc_qp, copy_limbs, permuted
from specs3 import minlev, truncate, havoc_limbs
from specs4 import exists
from terms import lam, close


def dig(b, lv, fn, fm='Q'):
    """digit b of the polynomial with residues fn(x), x <= lv: the integer polynomial in [0, prod of group b)"""
    x = fresh('I', 'x')
    w = and_(ge(x, mul(b, al)), lt(x, mul(add(b, ONE), al)), le(x, lv))
    return vec(mk('dig', b, lam(x, mul(ind(w), fn(x)))))


def coef(a, j):
    """residue j of a in the coefficient domain"""
    return ite(a.IsNTT.v, shift(a.limb(j), -1), a.limb(j))


def nfq(fn, R=False):
    def g(x):
        ps = lattigo.parts('R' if R else 'Q', x)
        if len(ps) == 1:
            return nf_mod(fn(x), ps[0][1])
        return ite(ps[0][0], nf_mod(fn(x), ps[0][1]), nf_mod(fn(x), ps[1][1]))
    return g


def Ssum(s, n, fn):
    """sum over 0 <= i < n"""
    i = s.v('I', 'i')
    with s.under(ge(i, ZERO), lt(i, n)):
        t = fn(i)
    return Sum(i, mul(ind(and_(ge(i, ZERO), lt(i, n))), t))


def moddown(s, valQ, valP, j, q):
    """P^-1 (valQ(j) - the integer with residues valP)"""
    x = fresh('I', 'x')
    with s.under(ge(x, ZERO), lt(x, nP)):
        px = nf_mod(valP(x), mk('q', 'P', x))
    up = vec(mk('lift', 'P', sub(nP, ONE), lam(x, px)))
    return mul(power(prod('P', sub(nP, ONE)), -1), sub(valQ(j), up))


def ep(s, lv, digit, bg, j, q):
    """residue j of the external product of the polynomial with digits digit(i, part, x) and the gadget vector bg(i, part, x) (Montgomery form)"""
    n = beta_of(lv)
    v = lambda part: lambda x: shift(Ssum(s, n, lambda i: mul(iRM, vmul(bg(i, part, x), digit(i, part, x)))), -1)
    return moddown(s, v('Q'), v('P'), j, q)


def swk(o):
    return lambda i, part, x: o.Value.at(i).fld(part).limb(x)


def digits_of(s, a, lv):
    """digits of polynomial a in the evaluation domain"""
    def inr(x):
        with s.under(ge(x, ZERO), le(x, lv)):
            return coef(a, x)
    return lambda i, part, x: shift(dig(i, lv, nfq(inr)), 1)


def within(s, lv, *ps):
    for p in ps:
        s.panics(and_(ge(lv, ZERO), ge(lv, p.Coeffs.len)))


DIVIDES = [eq(nQ, mul(al, BETA)), eq(BETAR, mul(num(2), BETA))]      # alpha divides the number of primes of Q


def over_R(s):
    return s.ex.inR(s.recv.v)


def dec_pre(s):
    lq, lp, a, b, g, p0, q1, p1 = s.args
    r = [eq(a.v, al), eq(g.v, GAMMA), ge(b.v, ZERO), lt(lq.v, nQ), lt(lp.v, nP)]
    if not over_R(s):
        return r + [lt(b.v, beta_of(lq.v))]
    # BFV: digits of an element over R = Q QMul, extended to Q and P only
    return r + DIVIDES + [eq(lq.v, sub(nQ, ONE)), lt(b.v, mul(num(2), BETA)), eq(p0.Coeffs.len, nR), eq(q1.Coeffs.len, nR)]


DECMODES = [{}, {'name': 'over R', 'R': ['recv', 'a5', 'a6']}]


def split(s, sh):
    """both parts of digit b; over R the residues of the group beyond Q are left unspecified"""
    lq, lp, a, b, g, p0, q1, p1 = s.args
    within(s, lq.v, p0, q1)
    within(s, lp.v, p1)
    R = over_R(s)
    n = sub(nR, ONE) if R else lq.v

    def inr(x):
        with s.under(ge(x, ZERO), le(x, n)):
            return p0.limb(x)
    d = shift(dig(b.v, n, nfq(inr, R)), sh)
    each(s, q1, 'Q', add(lq.v, ONE), lambda j, q: d, lazy=1 - sh)
    each(s, p1, 'P', add(lp.v, ONE), lambda j, q: d, lazy=1 - sh)
    if R:
        havoc_limbs(s, q1, nQ, nR)


@spec('mkrlwe.Decomposer.DecomposeAndSplit', 'C12', requires=dec_pre, modes=DECMODES)
def _(s):
    split(s, 0)


decompose_and_split = SPECS['mkrlwe.Decomposer.DecomposeAndSplit']


@spec('mkrlwe.KeySwitcher.DecomposeSingleNTT', 'C12', requires=dec_pre, modes=DECMODES)
def _(s):
    split(s, 1)


def lvl_ok(s, lv, *ps):
    return [ge(lv, ZERO), lt(lv, nQ)] + [lt(lv, p.Coeffs.len) for p in ps]


def scratch(s, *names):
    R = False
    for n in names:
        if n == 'inv':
            havoc_poly(s, s.recv.PoolInvNTT, nQ)
        elif isinstance(n, int):
            o = s.recv.Pool.at(n)
            havoc_poly(s, o.Q, nQ)
            havoc_poly(s, o.P, nP)
        elif n[0] == 'q':
            havoc_poly(s, s.recv.polyQPool.at(int(n[1:])), nQ)
        else:
            w = s.recv.fld('swkPool' + n[1:])
            i, j = s.v('I', 'i'), s.v('I', 'j')
            for part, cnt in (('Q', nQ), ('P', nP)):
                g = and_(ge(i, ZERO), lt(i, BETA), ge(j, ZERO), lt(j, cnt))
                t = s.ex.site(s.node, s.tag())
                with s.under(g):
                    a = w.Value.at(i).fld(part).limbaddr(j)
                    s.wr(a, vec(mk('hv', t.args[0], t.args[1] + (i, j))), '#C', (i, j), g)


def decompose(s, lv, a, ad, qv=(), guard=TRUE):
    """gadget vector ad := digits of a at level lv"""
    dg = digits_of(s, a, lv)
    i = s.v('I', 'i')
    g = and_(guard, ge(i, ZERO), lt(i, beta_of(lv)))
    for part, fm, n in (('Q', 'Q', add(lv, ONE)), ('P', 'P', nP)):
        with s.under(g):
            p = ad.Value.at(i).fld(part)
        each(s, p, fm, n, lambda j, q: dg(i, part, j), tuple(qv) + (i,), g)


@spec('mkrlwe.KeySwitcher.Decompose', 'C12', requires=lambda s: lvl_ok(s, s.args[0].v, s.args[1]))
def _(s):
    lq, a, ad = s.args
    decompose(s, lq.v, a, ad)
    scratch(s, 'inv')


@spec('mkrlwe.KeySwitcher.ExternalProduct', 'C12', modes=[{}, {'name': 'c=a', 'alias': {'a3': 'a1'}}], requires=lambda s: lvl_ok(s, s.args[0].v, s.args[1], s.args[3]))
def _(s):
    lq, a, bg, c = s.args
    dg = digits_of(s, a, lq.v)
    each(s, c, 'Q', add(lq.v, ONE), lambda j, q: ep(s, lq.v, dg, swk(bg), j, q))
    scratch(s, 'inv', 0, 1)


@spec('mkrlwe.KeySwitcher.ExternalProductHoisted', 'C12', 'C09', requires=lambda s: lvl_ok(s, s.args[0].v, s.args[3]))
def _(s):
    lq, a, bg, c = s.args
    each(s, c, 'Q', add(lq.v, ONE), lambda j, q: ep(s, lq.v, swk(a), swk(bg), j, q))
    scratch(s, 1)


def s_world(o):
    return o.s.ex


def ntt_of(ct):
    if s_world(ct).scratch_ct(ct.v):
        return FALSE
    if ct.v.op == 'new':
        return ct.Value.key(S0).IsNTT.v
    return mk('bini', f(ct.v, '#ntt'))


def same_ids(a, b):
    k = fresh('S', 'k')
    return [ForAll(k, a.Value.has(k), b.Value.has(k)), ForAll(k, b.Value.has(k), a.Value.has(k)), a.Value.has(S0), b.Value.has(S0)]


CONJ = mk('gal', ZERO, 1)


def keyswitch_pre(s):
    ct, out = s.args[0], s.args[-1]
    return same_ids(ct, out) + [not_(ntt_of(ct)), not_(ntt_of(out)), not_(s.recv.polyQPool.at(0).IsNTT.v)]


def party_sum(s, ct, fn):
    k = s.v('S')
    with s.under(ids(ct, k)):
        t = fn(k)
    return Sum(k, mul(ind(ids(ct, k)), t))


def poly_digits(s, lv, fn):
    """digits of the polynomial with coefficient-domain residues fn(x)"""
    def inr(x):
        with s.under(ge(x, ZERO), le(x, lv)):
            return fn(x)
    return lambda i, part, x: shift(dig(i, lv, nfq(inr)), 1)


@spec('mkrlwe.KeySwitcher.Conjugate', 'C08', requires=keyswitch_pre)
def _(s):
    ct, ks, out = s.args
    lv = level(out)
    s.panics(lt(level(ct), lv), 'must refuse')
    k = s.v('S')
    s.panics(exists(k, and_(ids(ct, k), not_(ks.Value.has(k)))), 'must refuse a missing key')
    au = lambda k: (lambda x: lattigo.aut(CONJ, ct.Value.key(k).limb(x)))
    a = s.recv.Parameters.CRS.key(num(-2))

    def c0(j, q):
        def t(k):
            with s.under(ks.Value.has(k)):
                return ep(s, lv, poly_digits(s, lv, au(k)), swk(ks.Value.key(k).Value), j, q)
        return add(au(S0)(j), party_sum(s, ct, t))
    each(s, out.Value.key(S0), 'Q', add(lv, ONE), c0)
    k = s.v('S')
    g = ids(ct, k)
    with s.under(g):
        p = out.Value.key(k)
    each(s, p, 'Q', add(lv, ONE), lambda j, q: ep(s, lv, poly_digits(s, lv, au(k)), swk(a), j, q), (k,), g)
    scratch(s, 'inv', 0, 1, 'q0')


def rotate(s, ksw, ct, rot, rks, out, dg, guard=TRUE):
    """out_0 = phi(c_0 + sum_id c_id x rk_id), out_id = phi(c_id x CRS[k]), where k is the rotation index modulo N/2"""
    lv = level(out)
    s.panics(lt(level(ct), lv), 'must refuse')
    k = s.v('S')
    n2 = divi(N, num(2))
    r = ite(lt(rot, ZERO), modi(rot, n2), rot)
    g = mk('gal', r, 0)
    s.panics(exists(k, and_(ids(ct, k), not_(rks.Value.has(k)))), 'must refuse a missing key')
    s.panics(exists(k, and_(ids(ct, k), not_(rks.Value.key(k).has(r)))), 'must refuse a missing key')
    a = ksw.Parameters.CRS.key(r)
    s.panics(exists(k, and_(ids(ct, k), not_(ksw.Parameters.CRS.has(r)))))

    def c0(j, q):
        def t(k):
            with s.under(and_(rks.Value.has(k), rks.Value.key(k).has(r))):
                return ep(s, lv, dg(k, lv), swk(rks.Value.key(k).key(r).Value), j, q)
        return lattigo.aut(g, add(ct.Value.key(S0).limb(j), party_sum(s, ct, t)))
    each(s, out.Value.key(S0), 'Q', add(lv, ONE), c0, (), guard)
    k = s.v('S')
    gd = and_(guard, ids(ct, k))
    with s.under(gd):
        p = out.Value.key(k)

    def ck(j, q):
        return lattigo.aut(g, ep(s, lv, dg(k, lv), swk(a), j, q))
    each(s, p, 'Q', add(lv, ONE), ck, (k,), gd)


@spec('mkrlwe.KeySwitcher.Rotate', 'C07', 'C09', requires=keyswitch_pre, modes=[{}, {'name': 'ctOut=ctIn', 'alias': {'a3': 'a0'}}])
def _(s):
    ct, rot, rks, out = s.args
    rotate(s, s.recv, ct, rot.v, rks, out, lambda k, lv: digits_of(s, ct.Value.key(k), lv))
    scratch(s, 'inv', 0, 1, 'q0')


def hoisted_pre(s):
    ct, h = s.args[0], s.args[2]
    k = fresh('S', 'k')
    return keyswitch_pre(s) + [ForAll(k, ct.Value.has(k), or_(eqs(k, S0), h.Value.has(k)))]


@spec('mkrlwe.KeySwitcher.RotateHoisted', 'C09', requires=hoisted_pre, modes=[{}, {'name': 'ctOut=ctIn', 'alias': {'a4': 'a0'}}])
def _(s):
    ct, rot, h, rks, out = s.args
    rotate(s, s.recv, ct, rot.v, rks, out, lambda k, lv: swk(h.Value.key(k)))
    scratch(s, 1, 'q0')


def mul_pre(s):
    a, b, out = s.args[0], s.args[1], s.args[-1]
    k = fresh('S', 'k')
    return [ForAll(k, a.Value.has(k), out.Value.has(k)), ForAll(k, b.Value.has(k), out.Value.has(k)), ForAll(k, out.Value.has(k), or_(a.Value.has(k), b.Value.has(k)))] + \
        [c.Value.has(S0) for c in (a, b, out)] + [not_(ntt_of(c)) for c in (a, b, out)]


def relinearized(s, a, b, rlk, out, dga, dgb, u, rkd=1, extra=None):
    """out = a*b: out_0 = a_0 b_0 + sum_i (c_i x y) x v_i, out_i = a_0 b_i + a_i b_0 + b_i x X + (a_i x Y) x u
    with the gadget vectors X = sum_i D(a_i) d_i and Y = sum_i D(b_i) b_i"""
    lv = level(out)
    s.panics(lt(level(a), lv), 'must refuse')
    for c in (a, b):
        k = s.v('S')
        s.panics(exists(k, and_(ids(c, k), not_(rlk.Value.has(k)))), 'must refuse a missing key')
    s.panics(lt(level(b), lv), 'must refuse')

    def key(k, i):
        return swk(rlk.Value.key(k).Value.at(num(i)))

    def X(i, part, x):
        def t(k):
            with s.under(rlk.Value.has(k)):
                return vmul(key(k, 1)(i, part, x), dga(k)(i, part, x))
        return party_sum(s, a, t)

    def Y(i, part, x):
        def t(k):
            with s.under(rlk.Value.has(k)):
                return vmul(key(k, 0)(i, part, x), dgb(k)(i, part, x))
        return party_sum(s, b, t)

    def z(k):
        return poly_digits(s, lv, lambda x: ep(s, lv, dga(k), Y, x, mk('q', 'Q', x)))

    def prod2(p, q_, j):
        return vmul(shift(p.limb(j), 1), shift(q_.limb(j), 1))

    def c0(j, q):
        def t(k):
            with s.under(rlk.Value.has(k)):
                return ep(s, lv, z(k), key(k, 2), j, q)
        return add(shift(prod2(a.Value.key(S0), b.Value.key(S0), j), -1), party_sum(s, a, t))
    each(s, out.Value.key(S0), 'Q', add(lv, ONE), c0)
    k = s.v('S')
    g = ids(out, k)
    with s.under(g):
        p = out.Value.key(k)

    def ck(j, q):
        x = ZERO
        with s.under(ids(a, k)):
            x = add(x, mul(ind(ids(a, k)), add(shift(prod2(b.Value.key(S0), a.Value.key(k), j), -1), ep(s, lv, z(k), swk(u), j, q))))
        with s.under(ids(b, k)):
            x = add(x, mul(ind(ids(b, k)), add(shift(prod2(a.Value.key(S0), b.Value.key(k), j), -1), ep(s, lv, dgb(k), X, j, q))))
        return x
    each(s, p, 'Q', add(lv, ONE), ck, (k,), g)


@spec('mkrlwe.KeySwitcher.MulAndRelin', 'C05', requires=mul_pre, modes=[{}, {'name': 'op1=op0', 'alias': {'a1': 'a0'}}])
def _(s):
    a, b, rlk, out = s.args
    lv = level(out)
    relinearized(s, a, b, rlk, out, lambda k: digits_of(s, a.Value.key(k), lv), lambda k: digits_of(s, b.Value.key(k), lv), s.recv.Parameters.CRS.key(num(-1)))
    scratch(s, 'inv', 0, 1, 'q0', 'q1', 'q2', 'w1', 'w2', 'w3')


NILV = lambda ex, st, p: NIL


def hoist_pre(s):
    r = mul_pre(s)
    for c, h in ((s.args[0], s.args[2]), (s.args[1], s.args[3])):
        if h.v is not NIL:
            k = fresh('S', 'k')
            r.append(ForAll(k, c.Value.has(k), or_(eqs(k, S0), h.Value.has(k))))
    return r


@spec('mkrlwe.KeySwitcher.MulAndRelinHoisted', 'C05', 'C09', requires=hoist_pre,
      modes=[{}, {'name': 'op0Hoisted=nil', 'values': {'a2': NILV}}, {'name': 'op1Hoisted=nil', 'values': {'a3': NILV}}, {'name': 'no hoisting', 'values': {'a2': NILV, 'a3': NILV}},
             {'name': 'square', 'alias': {'a1': 'a0', 'a3': 'a2'}}, {'name': 'square, two forms', 'alias': {'a1': 'a0'}},
             {'name': 'square, op0Hoisted=nil', 'alias': {'a1': 'a0'}, 'values': {'a2': NILV}}, {'name': 'square, op1Hoisted=nil', 'alias': {'a1': 'a0'}, 'values': {'a3': NILV}},
             {'name': 'square, no hoisting', 'alias': {'a1': 'a0'}, 'values': {'a2': NILV, 'a3': NILV}}])
def _(s):
    a, b, ha, hb, rlk, out = s.args
    lv = level(out)

    def dg(c, h):
        return lambda k: digits_of(s, c.Value.key(k), lv) if h.v is NIL else swk(h.Value.key(k))
    relinearized(s, a, b, rlk, out, dg(a, ha), dg(b, hb), s.recv.Parameters.CRS.key(num(-1)))
    scratch(s, 'inv', 0, 1, 'q0', 'q1', 'q2', 'w1', 'w2', 'w3')
