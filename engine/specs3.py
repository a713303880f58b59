"""Contracts of encryption and decryption."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, is_R, level, level_at, ids, newidset, ct_copy_new, poly_copy, copy_poly_new, polyqp_into, ct_new, sub_ids
from specs2 import each, fams, havoc_poly, havoc_qp, GAUSS, fdraw, sampler_new, copy_limbs


def minlev(s, a, b):
    return s.ex.minmax(s.st, a, b, True)


def havoc_limbs(s, p, lo, hi, qv=(), guard=TRUE):
    """contents of limbs lo..hi-1 of p are unspecified afterwards"""
    j = s.v('I', 'j')
    g = and_(guard, ge(j, lo), lt(j, hi))
    t = s.ex.site(s.node, s.tag())
    with s.under(g):
        s.wr(p.limbaddr(j), vec(mk('hv', t.args[0], t.args[1] + tuple(qv) + (j,))), '#C', tuple(qv) + (j,), g)


def truncate(s, p, n, qv=(), guard=TRUE):
    with s.under(guard):
        c = p.Coeffs.v
        p.set('Coeffs', slc(c.args[0], c.args[1], n), qv, guard)


TERN = (fconst(0.5),)


def enc_pre(s):
    pt, pk, ct = s.args
    return [ct.Value.has(S0), ct.Value.has(pk.ID.v), not_(eqs(pk.ID.v, S0))]


def encrypt(s, enc, m, pk, comp, flags=None):
    """comp: map id -> polynomial.  ct0 = u*pk0 + e0 + m, ct_id = u*pk1 + e1 for one fresh ternary u and fresh e0, e1"""
    idv = pk.ID.v
    c0, c1 = comp.key(S0), comp.key(idv)
    lv = minlev(s, sub(m.Coeffs.len, ONE), sub(c0.Coeffs.len, ONE))
    u = vec(fdraw(s, 'ternary', TERN))
    e0, e1 = vec(fdraw(s, 'gauss', GAUSS)), vec(fdraw(s, 'gauss', GAUSS))
    ntt, mntt = c0.IsNTT.v, m.IsNTT.v
    n = add(lv, ONE)
    old0, old1 = c0.Coeffs.len, c1.Coeffs.len
    pkv = pk.PublicKey.Value
    # what the components hold in the evaluation domain, and in the coefficient domain
    for c, i, e in ((c1, 1, e1), (c0, 0, e0)):
        ev = lambda j, q: vmul(shift(u, 1), pkv.at(i).Q.limb(j))

        def val(j, q):
            x = ite(ntt, add(ev(j, q), shift(e, 1)), add(shift(ev(j, q), -1), e))
            if i == 0:
                mj = m.limb(j)
                x = add(x, ite(ntt, ite(mntt, mj, shift(mj, 1)), ite(mntt, shift(mj, -1), mj)))
            return x
        each(s, c, 'Q', n, val)
        havoc_limbs(s, c, n, old0 if i == 0 else old1)
    c1.set('IsNTT', ntt)
    truncate(s, c0, n)
    truncate(s, c1, n)
    havoc_limbs(s, enc.poolQ.at(0), ZERO, nQ)


@spec('mkrlwe.Encryptor.Encrypt', 'C01', 'C18', requires=enc_pre)
def _(s):
    pt, pk, ct = s.args
    encrypt(s, s.recv.encryptorBase, pt.Value, pk, ct.Value)


@spec('mkrlwe.NewEncryptor', 'C01')
def _(s):
    r = s.new('mkrlwe.Encryptor')
    b = r.encryptorBase
    R = is_R(s.args[0])
    a = f(r.v, 'encryptorBase')
    wr = lambda n, v, t: s.wr(f(a, n), v.v if isinstance(v, O) else v, t)
    wr('params', s.args[0], 'mkrlwe.Parameters')
    wr('ringQ', root('ringQ'), '*ring.Ring')
    wr('ringP', root('ringP'), '*ring.Ring')
    s.wr(H.e(f(a, 'poolQ'), ZERO), s.poly(nQ).v, '*ring.Poly')
    for i in range(3):
        s.wr(H.e(f(a, 'poolP'), num(i)), s.poly(nP).v, '*ring.Poly')
    wr('gaussianSampler', sampler_new(s, 'Gaussian', 'gauss', 'ringQ', GAUSS), '*ring.GaussianSampler')
    wr('ternarySampler', sampler_new(s, 'Ternary', 'ternary', 'ringQ', (fconst(0.5), FALSE)), '*ring.TernarySampler')
    wr('uniformSampler', sampler_new(s, 'Uniform', 'uniform', 'ringQ', ()), '*ring.UniformSampler')
    return r


# =========================================================== C02: decryption
@spec('mkrlwe.NewDecryptor', 'C02')
def _(s):
    r = s.new('mkrlwe.Decryptor')
    r.set('params', s.args[0])
    r.set('ringQ', root('ringQ'))
    r.set('pool', s.poly(nQ))
    return r


def share(c, sk, ntt, j):
    """c * s under prime j (in the domain of c), s in Montgomery form"""
    x = c.limb(j)
    sj = sk.SecretKey.Value.Q.limb(j)
    return ite(ntt, mul(iRM, vmul(x, sj)), shift(mul(iRM, vmul(shift(x, 1), sj)), -1))


@spec('mkrlwe.Decryptor.PartialDecrypt', 'C02', requires=lambda s: [s.args[0].Value.has(S0), s.args[0].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    ct, sk = s.args
    c0, c1 = ct.Value.key(S0), ct.Value.key(sk.ID.v)
    n = c0.Coeffs.len
    ntt = c1.IsNTT.v
    x0 = c0
    each(s, c0, 'Q', n, lambda j, q: add(c0.limb(j), share(c1, sk, ntt, j)))
    havoc_limbs(s, c1, ZERO, n)
    ct.Value.drop(sk.ID.v)
