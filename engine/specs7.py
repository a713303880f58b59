"""Contracts of the CKKS scheme, second part: products, rotations, hoisting (mkckks)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, level, ids, hoisted_new, sub_ids
from specs2 import each, havoc_poly
from specs3 import minlev, havoc_limbs
from specs4 import exists
from specs5 import ntt_of, same_ids, rotate, relinearized, scratch, digits_of, swk, ep, NILV, CONJ, poly_digits, party_sum, decompose
from specs6 import ckks_new, ckks_copy, rescale, coef_domain, union, call, raw_each


def like(s, ct, scale):
    return ckks_new(s, lambda k: ct.Value.has(k), level(ct), scale)


@spec('mkckks.Evaluator.RescaleNew', 'C14', 'C18', requires=lambda s: coef_domain(s.args[0].Ciphertext))
def _(s):
    out = like(s, s.args[0], s.args[0].Scale)
    e = rescale(s, s.recv, s.args[0], out, s.args[1].v)
    return out, e


@spec('mkckks.Evaluator.ConjugateNew', 'C08', 'C18', requires=lambda s: coef_domain(s.args[0].Ciphertext))
def _(s):
    out = like(s, s.args[0], s.args[0].Scale)
    call(s, 'mkrlwe.KeySwitcher.Conjugate', s.args[0].Ciphertext, s.args[1], out.Ciphertext, recv=s.recv.ksw)
    return out


@spec('mkckks.Evaluator.HoistedForm', 'C09', 'C18', requires=lambda s: [])
def _(s):
    ct = s.args[0]
    r = hoisted_new(s)
    k = s.v('S')
    g = ids(ct, k)
    with s.under(g):
        w = swk_new(s, k, qv=(k,), guard=g)
        r.Value.put(k, w, (k,), g)
        decompose(s, level(ct), ct.Value.key(k), w, (k,), g)
    havoc_poly(s, s.recv.ksw.PoolInvNTT, nQ)
    return r


def ksw_scratch(s, *names):
    """scratch of the evaluator's key switcher"""
    r = s.recv
    s.recv = r.ksw
    scratch(s, *names)
    s.recv = r


def hoisted_for(ct, h):
    k = fresh('S', 'k')
    return [ForAll(k, ct.Value.has(k), or_(eqs(k, S0), h.Value.has(k)))]


def normal(rot):
    return modi(rot, divi(N, num(2)))


@spec('mkckks.Evaluator.RotateHoistedNew', 'C09', 'C18', requires=lambda s: coef_domain(s.args[0].Ciphertext) + hoisted_for(s.args[0], s.args[2]))
def _(s):
    ct, rot, h, rks = s.args
    out = like(s, ct, ct.Scale)
    r = normal(rot.v)
    z = eq(r, ZERO)
    k = s.v('S')
    g = and_(ct.Value.has(k), z)
    with s.under(g):
        raw_each(s, out.Value.key(k), add(level(ct), ONE), lambda j, q: ct.Value.key(k).limb(j), (k,), g)
    with s.under(not_(z)):
        s.panics(not_(s.recv.params.Parameters.CRS.has(r)), 'must refuse an amount without key')
        rotate(s, s.recv.ksw, ct, r, rks, out, lambda k, lv: swk(h.Value.key(k)), not_(z))
        ksw_scratch(s, 1, 'q0')
    return out


# ------------------------------------------------------------------ products (C05, C15)
def rescale_product(s, out):
    """the error of an unneeded rescaling is dropped"""
    rescale(s, s.recv, out, out, s.recv.params.scale.v)


def product(s, a, b, rlk, dga, dgb):
    lv = minlev(s, level(a), level(b))
    out = ckks_new(s, union(a, b), lv, X.fop('f.*', a.Scale.v, b.Scale.v))
    relinearized(s, a, b, rlk, out, dga, dgb, s.recv.ksw.Parameters.CRS.key(num(-1)))
    rescale_product(s, out)
    ksw_scratch(s, 'inv', 0, 1, 'q0', 'q1', 'q2', 'w1', 'w2', 'w3')
    return out


def has0(*cts):
    return [c.Value.has(S0) for c in cts]


def mrh_pre(s):
    a, b, ha, hb = s.args[:4]
    r = coef_domain(a.Ciphertext, b.Ciphertext)
    for c, h in ((a, ha), (b, hb)):
        if h.v is not NIL:
            r += hoisted_for(c, h)
    return r


@spec('mkckks.Evaluator.MulRelinHoistedNew', 'C05', 'C09', 'C18', requires=mrh_pre,
      modes=[{}, {'name': 'op0Hoisted=nil', 'values': {'a2': NILV}}, {'name': 'op1Hoisted=nil', 'values': {'a3': NILV}}, {'name': 'no hoisting', 'values': {'a2': NILV, 'a3': NILV}},
             {'name': 'square', 'alias': {'a1': 'a0', 'a3': 'a2'}}, {'name': 'square, two forms', 'alias': {'a1': 'a0'}},
             {'name': 'square, op0Hoisted=nil', 'alias': {'a1': 'a0'}, 'values': {'a2': NILV}}, {'name': 'square, op1Hoisted=nil', 'alias': {'a1': 'a0'}, 'values': {'a3': NILV}},
             {'name': 'square, no hoisting', 'alias': {'a1': 'a0'}, 'values': {'a2': NILV, 'a3': NILV}}])
def _(s):
    a, b, ha, hb, rlk = s.args
    lv = minlev(s, level(a), level(b))

    def dg(c, h):
        return lambda k: digits_of(s, c.Value.key(k), lv) if h.v is NIL else swk(h.Value.key(k))
    return product(s, a, b, rlk, dg(a, ha), dg(b, hb))


@spec('mkckks.Evaluator.MulPtxtNew', 'C15', 'C18', requires=lambda s: coef_domain(s.args[0].Ciphertext) + [lt(level(s.args[0]), s.args[1].Value.Coeffs.len)])
def _(s):
    ct, pt = s.args
    lv = level(ct)
    out = like(s, ct, X.fop('f.*', ct.Scale.v, pt.Scale.v))
    w = lambda j: ite(pt.Value.IsNTT.v, pt.Value.limb(j), shift(pt.Value.limb(j), 1))
    k = s.v('S')
    g = ct.Value.has(k)
    with s.under(g):
        p, a = out.Value.key(k), ct.Value.key(k)
    each(s, p, 'Q', add(lv, ONE), lambda j, q: shift(vmul(w(j), shift(a.limb(j), 1)), -1), (k,), g)
    rescale_product(s, out)
    havoc_limbs(s, s.recv.polyQPool, ZERO, add(lv, ONE), (), TRUE)
    return out


def mr_pre(s):
    a, b, rlk = s.args
    r = coef_domain(a.Ciphertext, b.Ciphertext)
    return r


def mulrelin_pool(s, a, b, rlk):
    """the pools hold the digits of the operands afterwards; contents unspecified"""
    for n, c in ((0, a), (1, b)):
        if n and b.v is a.v:
            continue
        pool = rlk.HoistPool.at(num(n))
        k, i, j = s.v('S'), s.v('I', 'i'), s.v('I', 'j')
        for part, cnt in (('Q', nQ), ('P', nP)):
            g = and_(ids(c, k), ge(i, ZERO), lt(i, BETA), ge(j, ZERO), lt(j, cnt))
            t = s.ex.site(s.node, s.tag())
            with s.under(g):
                w = pool.Value.key(k).Value.at(i).fld(part).limbaddr(j)
                s.wr(w, vec(mk('hv', t.args[0], t.args[1] + (k, i, j))), '#C', (k, i, j), g)


@spec('mkckks.Evaluator.MulRelinNew', 'C05', 'C18', requires=mr_pre, modes=[{}, {'name': 'square', 'alias': {'a1': 'a0'}}])
def _(s):
    a, b, rlk = s.args

    def dg(c):
        return lambda k: digits_of(s, c.Value.key(k), level(c))
    for n, c in ((0, a), (1, b)):
        k = s.v('S')
        s.panics(exists(k, and_(ids(c, k), not_(rlk.HoistPool.at(num(0 if b.v is a.v else n)).Value.has(k)))), 'must refuse a missing key')
    out = product(s, a, b, rlk, dg(a), dg(b))
    mulrelin_pool(s, a, b, rlk)
    return out
