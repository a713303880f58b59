"""Contracts of the BFV keys, parameters and key generation (mkbfv)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, hoisted_new
from specs2 import each, digits, errs, gadget, havoc_poly, havoc_qp
from specs5 import DIVIDES
from specs6 import call


# ------------------------------------------------------------------ key containers (C16)
def rlk_new(s, id_):
    r = s.new('mkbfv.RelinearizationKey')
    for h in (0, 1):
        k = s.new('mkrlwe.RelinearizationKey')
        for i in range(3):
            s.wr(H.e(f(k.v, 'Value'), num(i)), swk_new(s).v, '*mkrlwe.SwitchingKey')
        k.set('ID', id_)
        s.wr(H.e(f(r.v, 'Value'), num(h)), k.v, '*mkrlwe.RelinearizationKey')
    r.set('ID', id_)
    return r


@spec('mkbfv.NewRelinearizationKey', 'C16', 'C11')
def _(s):
    return rlk_new(s, s.args[1])


@spec('mkbfv.NewRelinearizationKeyKeySet', 'C16')
def _(s):
    r = s.new('mkbfv.RelinearizationKeySet')
    r.set('Value', s.newmap('map[string]*mkbfv.RelinearizationKey'))
    r.set('params', s.args[0])
    for n in ('PolyRPool1', 'PolyRPool2'):
        m = s.newmap('map[string]*ring.Poly')
        m.put(S0, s.poly(nR))
        r.set(n, m)
    for n in ('HoistPool1', 'HoistPool2'):
        for i in (0, 1):
            s.wr(H.e(f(r.v, n), num(i)), hoisted_new(s).v, '*mkrlwe.HoistedCiphertext')
    return r


@spec('mkbfv.RelinearizationKeySet.AddRelinearizationKey', 'C16', requires=lambda s: [not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    k = s.args[0].ID.v
    s.recv.Value.put(k, s.args[0])
    for n in ('PolyRPool1', 'PolyRPool2'):
        s.recv.fld(n).put(k, s.poly(nR))
    for n in ('HoistPool1', 'HoistPool2'):
        for i in (0, 1):
            s.recv.fld(n).at(i).Value.put(k, swk_new(s))


@spec('mkbfv.RelinearizationKeySet.DelRelinearizationKey', 'C16')
def _(s):
    s.recv.Value.drop(s.args[0].v)


@spec('mkbfv.RelinearizationKeySet.GetRelinearizationKey', 'C16')
def _(s):
    k = s.args[0].v
    s.panics(not_(s.recv.Value.has(k)), 'must refuse unknown id')
    return s.recv.Value.key(k)


# ------------------------------------------------------------------ parameters (C17)
@spec('mkbfv.Parameters.RingQMul', 'C17')
def _(s):
    return s.recv.ringQMul


@spec('mkbfv.Parameters.RingT', 'C17')
def _(s):
    return s.recv.ringT


@spec('mkbfv.Parameters.RingR', 'C17')
def _(s):
    return root('ringR')


@spec('mkbfv.Parameters.T', 'C17')
def _(s):
    return TMOD


# ------------------------------------------------------------------ relinearization keys (C11)
QQ = mul(var('prodQ'), var('prodM'))


def bfv_gadget(fm):
    """floor(P t G_i / QMul) with G_i the CRT idempotent (modulo Q QMul) of group i of alpha primes of the chain"""
    def g(i):
        d = lattigo.prod_primes(fm, mul(i, al), sub(mul(add(i, ONE), al), ONE))
        rest = divi(QQ, d)
        return divi(mul(var('prodT'), var('prodP'), rest, mk('modinv', rest, d)), var('prodM'))
    return g


GAD = bfv_gadget('Q'), bfv_gadget('M')


@spec('mkbfv.KeyGenerator.GenBFVSwitchingKey', 'C11', requires=lambda s: DIVIDES)
def _(s):
    sk = s.args[0].SecretKey.Value
    for h in (0, 1):
        e = errs(s)
        digits(s, s.args[1 + h], False, lambda i, j, q, n: add(e(i), mul(GAD[h](i), sk.fld(n).limb(j))))


@spec('mkbfv.KeyGenerator.GenRelinearizationKey', 'C11', modes=[{}, {'name': 'sk=r', 'alias': {'a1': 'a0'}}], requires=lambda s: DIVIDES)
def _(s):
    # b_h = -s a_h + e, d_h = s g_h - r a_h + e, v = -(s u + r g) + e
    sk, r = s.args[0].SecretKey.Value, s.args[1].SecretKey.Value
    crs = s.recv.params.Parameters.CRS
    k = rlk_new(s, s.args[0].ID)
    e_b, e_d, e_v = (errs(s), errs(s)), (errs(s), errs(s)), errs(s)
    prodm = lambda x, y: mul(iRM, vmul(x, y))
    for h, c in ((0, 0), (1, -3)):
        a = crs.key(num(c))
        key = k.Value.at(h)
        digits(s, key.Value.at(0), False, lambda i, j, q, n: sub(e_b[h](i), prodm(a.Value.at(i).fld(n).limb(j), sk.fld(n).limb(j))))
        digits(s, key.Value.at(1), False, lambda i, j, q, n: add(e_d[h](i), mul(GAD[h](i), sk.fld(n).limb(j)), neg(prodm(a.Value.at(i).fld(n).limb(j), r.fld(n).limb(j)))))
    u = crs.key(num(-1))
    digits(s, k.Value.at(0).Value.at(2), False, lambda i, j, q, n: neg(add(e_v(i), mul(gadget(i, j, n), r.fld(n).limb(j)), prodm(u.Value.at(i).fld(n).limb(j), sk.fld(n).limb(j)))))
    havoc_poly(s, s.recv.KeyGenerator.poolQ, nQ)
    return k
