"""Rotation by any amount (C07): RotateNew of both schemes, with the loop over the binary digits of the amount."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N
import lattigo
from specs import S0, level, ids, sub_ids
from specs2 import each, havoc_poly
from specs4 import exists
from specs5 import same_ids, ntt_of, scratch
from specs6 import call, coef_domain, raw_each
from specs7 import like, normal, ksw_scratch
from specs8 import bfv_new, bfv_copy, bfv_ct, MAXL
from specs6 import ckks_copy

TWO = num(2)
HALF = divi(N, TWO)


def odd(x):
    return not_(eq(modi(x, TWO), ZERO))


def bit(s, r, i):
    return odd(divi(r, s.ex.pow2(i)))


def rotation(ksw):
    """the loop rotates by 2^i for every binary digit i of the amount: contract of one iteration, and of the iterate"""
    def step_pre(s):
        tmp, r, rks, out, k = s.args
        ksk = ksw(s)
        busy = gt(r.v, ZERO)
        return (same_ids(tmp, out) + coef_domain(tmp.Ciphertext, out.Ciphertext) + [eq(level(tmp), level(out)), ge(r.v, ZERO), not_(ksk.polyQPool.at(0).IsNTT.v)]
                # k = 2^i with i < log2(N) - 1: kept by the iteration, since k' = 2 k, r' = r div 2 and k r < N/2
                + [or_(not_(busy), and_(gt(k.v, ZERO), lt(k.v, HALF), ksk.Parameters.CRS.has(k.v)))])

    def step(s):
        tmp, r, rks, out, k = s.args
        busy, rot = gt(r.v, ZERO), odd(r.v)
        call(s, 'mkrlwe.KeySwitcher.Rotate', tmp.Ciphertext, k, rks, out.Ciphertext, recv=ksw(s), guard=and_(busy, rot))
        call(s, 'mkrlwe.Ciphertext.Copy', out.Ciphertext, recv=tmp.Ciphertext, guard=and_(busy, rot))
        return ite(busy, divi(r.v, TWO), r.v), ite(busy, mul(TWO, k.v), k.v)

    def whole_pre(s):
        tmp, r, rks, out, k = s.args
        return same_ids(tmp, out) + coef_domain(tmp.Ciphertext, out.Ciphertext) + [eq(level(tmp), level(out)), ge(r.v, ZERO), lt(r.v, HALF), eq(k.v, ONE), not_(ksw(s).polyQPool.at(0).IsNTT.v)]

    def whole(s):
        tmp, r, rks, out, k = s.args
        ran = gt(r.v, ZERO)
        i, d = s.v('I', 'i'), s.v('S', 'k')
        p = s.ex.pow2(i)
        s.panics(exists(i, exists(d, and_(ge(i, ZERO), lt(i, logN), bit(s, r.v, i), ids(tmp, d), not_(rks.Value.has(d))))), 'must refuse a missing key')
        s.panics(exists(i, exists(d, and_(ge(i, ZERO), lt(i, logN), bit(s, r.v, i), ids(tmp, d), not_(rks.Value.key(d).has(p))))), 'must refuse a missing key')
        lv = level(out)
        c, x = s.v('S', 'c'), s.v('I', 'x')
        with s.under(and_(tmp.Value.has(c), ge(x, ZERO), le(x, lv))):
            src = lam(c, lam(x, tmp.Value.key(c).limb(x)))
        with s.under(ran):
            for ct in (out, tmp):
                k = s.v('S')
                g = and_(ran, tmp.Value.has(k))
                with s.under(g):
                    raw_each(s, ct.Value.key(k), add(lv, ONE), lambda j, q: vec(mk('rotated', src, lv, r.v, rks.v, k, j)), (k,), g)
            me, s.recv = s.recv, ksw(s)
            scratch(s, 'inv', 0, 1, 'q0')
            s.recv = me
        return ZERO, mk('I?', r.v)
    return step_pre, step, whole_pre, whole


for pkg, ksw in (('mkckks', lambda s: s.recv.ksw), ('mkbfv', lambda s: s.recv.ksw.KeySwitcher)):
    p1, e1, p2, e2 = rotation(ksw)
    spec(pkg + '.Evaluator.rotate#step', 'C07', requires=p1)(e1)
    iterate(pkg + '.Evaluator.rotate#step', requires=p2)(e2)


def rotate_new(s, out, tmp, ksw, fold):
    ct, rot, rks = s.args
    r = normal(rot.v)
    z = eq(r, ZERO)
    k = s.v('S')
    g = and_(ct.Value.has(k), z)
    with s.under(g):
        raw_each(s, out.Value.key(k), add(level(ct), ONE), lambda j, q: ct.Value.key(k).limb(j), (k,), g)
    hit = and_(not_(z), ksw.Parameters.CRS.has(r))
    call(s, 'mkrlwe.KeySwitcher.Rotate', ct.Ciphertext, O(s, r, 'int'), rks, out.Ciphertext, recv=ksw, guard=hit)
    many = and_(not_(z), not_(ksw.Parameters.CRS.has(r)))
    call(s, fold, tmp(), O(s, r, 'int'), rks, out, O(s, ONE, 'int'), recv=s.recv, guard=many, specs=ITERATES)
    return out


@spec('mkckks.Evaluator.RotateNew', 'C07', 'C18', requires=lambda s: coef_domain(s.args[0].Ciphertext))
def _(s):
    return rotate_new(s, like(s, s.args[0], s.args[0].Scale), lambda: ckks_copy(s, s.args[0]), s.recv.ksw, 'mkckks.Evaluator.rotate#step')


@spec('mkbfv.Evaluator.RotateNew', 'C07', 'C18', requires=lambda s: bfv_ct(s.args[0]))
def _(s):
    return rotate_new(s, bfv_new(s, lambda k: s.args[0].Value.has(k)), lambda: bfv_copy(s, s.args[0]), s.recv.ksw.KeySwitcher, 'mkbfv.Evaluator.rotate#step')


# ------------------------------------------------------------------ default rotation keys (C11)
@spec('mkrlwe.KeyGenerator.defaults#step', 'C11', requires=lambda s: [gt(s.args[2].v, ZERO), or_(ge(s.args[2].v, HALF), s.recv.params.CRS.has(s.args[2].v)), not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    sk, keys, k = s.args
    busy = lt(k.v, HALF)
    rk = call(s, 'mkrlwe.KeyGenerator.GenRotationKey', k, sk, recv=s.recv, guard=busy)
    call(s, 'mkrlwe.RotationKeySet.AddRotationKey', rk, recv=keys, guard=busy)
    return ite(busy, mul(TWO, k.v), k.v)


def all_defaults(s, sk, keys):
    """keys of the amounts 1, 2, 4, ... below N/2: the iterate of defaults#step from amount 1"""
    s.wr(f(keys.v, '#defaults'), mk('defaults', sk.v), '#any')
    havoc_poly(s, s.recv.poolQ, nR if s.ex.inR(s.recv.v) else nQ)


@iterate('mkrlwe.KeyGenerator.defaults#step', requires=lambda s: [eq(s.args[2].v, ONE), not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    all_defaults(s, s.args[0], s.args[1])
    return mk('I?', s.args[2].v)


@spec('mkrlwe.KeyGenerator.GenDefaultRotationKeys', 'C11', opaque=True, requires=lambda s: [not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    all_defaults(s, *s.args)
