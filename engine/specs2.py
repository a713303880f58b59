"""Contracts of parameters, key generation, encryption and decryption (mkrlwe)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, is_R, level, level_at, ids, newidset, ct_copy_new, poly_copy, copy_poly_new, polyqp_into


def fams(R):
    return (('Q', 'R' if R else 'Q', nR if R else nQ), ('P', 'P', nP))


def each(s, dst, fm, n, fn, qv=(), guard=TRUE, lo=ZERO, lazy=0):
    """limb j of dst := fn(j, q_j) mod q_j for lo <= j < n"""
    j = s.v('I', 'j')
    for g, q in lattigo.parts(fm, j):
        gg = and_(guard, ge(j, lo), lt(j, n), g)
        with s.under(gg):
            if g is not TRUE and s.ex.ctx.inconsistent(s.st.pc):
                continue
            s.wr(dst.limbaddr(j), vred(nf_mod(fn(j, q), q), q, lazy), '#C', tuple(qv) + (j,), gg)


def havoc_poly(s, p, n):
    """the contents of scratch polynomial p are unspecified afterwards"""
    j = s.v('I', 'j')
    g = and_(ge(j, ZERO), lt(j, n))
    t = s.ex.site(s.node, s.tag())
    with s.under(g):
        a = p.limbaddr(j)
        s.wr(a, vec(mk('hv', t.args[0], t.args[1] + (j,))), '#C', (j,), g)


def havoc_qp(s, o):
    """o: PolyQP"""
    R = s.ex.inR(o.v if o.v.op != 'st' else o.Q.v)
    havoc_poly(s, o.Q, nR if R else nQ)
    havoc_poly(s, o.P, nP)


def fdraw(s, kind, ps, *idx):
    a = s.ex.site(s.node, s.tag())
    return mk('draw', kind, ps, a.args[0], a.args[1] + tuple(idx))


GAUSS = (SIGMA, mk('f2i', X.fop('f.*', fconst(6), SIGMA)))


# =========================================================== C17: parameters and reference string
@spec('mkrlwe.Parameters.Alpha', 'C17')
def _(s):
    return al


@spec('mkrlwe.Parameters.Gamma', 'C17')
def _(s):
    return s.recv.gamma


@spec('mkrlwe.Parameters.Beta', 'C17', requires=lambda s: [ge(s.args[0].v, num(-1))])
def _(s):
    # the least number of groups of alpha primes that covers levelQ+1 primes
    return divi(add(s.args[0].v, al), al)


def crs_vector(s, R, *idx, qv=(), guard=TRUE):
    sw = swk_new(s, *idx, qv=qv, guard=guard, R=R)
    i = s.v('I', 'i')
    nq = nR if R else nQ
    g = and_(guard, ge(i, ZERO), lt(i, divi(add(nq, sub(al, ONE)), al)))
    for n, fm, cnt in fams(R):
        t = s.tag()
        with s.under(g):
            e_ = O(s, s.ex.load(s.st, f(H.e(sw.Value.v.args[0], i), n), '*ring.Poly'), '*ring.Poly')
            a = s.ex.site(s.node, t)
            each(s, e_, fm, cnt, lambda j, q: mul(RM, vec(mk('draw', 'uniform', (fm,), a.args[0], a.args[1] + tuple(idx) + (i, j)))), tuple(qv) + (i,), g)
    return sw


@spec('mkrlwe.Parameters.AddCRS', 'C17')
def _(s):
    R = is_R(s.recv)
    s.recv.CRS.put(s.args[0].v, crs_vector(s, R))


DEFAULT_IDX = (0, -1, -2, -3, -4)


@spec('mkrlwe.NewParameters', 'C17', modes=[{'values': {'a1': lambda ex, st, p: GAMMA}}, {'name': 'over R', 'values': {'a0': lambda ex, st, p: PRMR, 'a1': lambda ex, st, p: GAMMA}}])
def _(s):
    R = isRP(s.args[0].v)
    m = s.newmap('map[int]*mkrlwe.SwitchingKey')
    for c in DEFAULT_IDX:
        m.put(num(c), crs_vector(s, R))
    i = s.v('I', 'r')
    g = and_(ge(i, ZERO), lt(i, sub(logN, ONE)))
    k = s.ex.pow2(i)
    m.put(k, crs_vector(s, R, i, qv=(i,), guard=g), (i,), g)
    return mk('st', 'mkrlwe.Parameters', (('Parameters', s.args[0].v), ('CRS', m.v), ('gamma', s.args[1].v)))


# =========================================================== C10: secret and public keys
@spec('mkrlwe.NewKeyGenerator', 'C10')
def _(s):
    r = s.new('mkrlwe.KeyGenerator')
    R = is_R(s.args[0])
    r.set('params', s.args[0])
    r.set('poolQ', s.poly(nR if R else nQ))
    polyqp_into(s, f(r.v, 'poolQP'), R)
    for n, t, kind, rg, ps in (('gaussianSamplerQ', 'Gaussian', 'gauss', 'ringR' if R else 'ringQ', GAUSS), ('uniformSamplerQ', 'Uniform', 'uniform', 'ringR' if R else 'ringQ', ()),
                               ('uniformSamplerP', 'Uniform', 'uniform', 'ringP', ())):
        r.set(n, sampler_new(s, t, kind, rg, ps))
    return r


def sampler_new(s, t, kind, rg, ps):
    x = s.new('ring.%sSampler' % t)
    s.wr(f(x.v, '#kind'), string(kind), 'string')
    s.wr(f(x.v, '#ring'), root(rg), '*ring.Ring')
    for i, p in enumerate(ps):
        s.wr(f(x.v, '#p%d' % i), p, '#any')
    return x


def secret(s, R, idv, kind, ps):
    """fresh secret key: one small polynomial from the given distribution, NTT + Montgomery form under every prime"""
    r = s.new('mkrlwe.SecretKey')
    polyqp_into(s, f(f(r.v, 'SecretKey'), 'Value'), R)
    r.set('ID', idv)
    d = fdraw(s, kind, ps)
    for n, fm, cnt in fams(R):
        each(s, r.SecretKey.Value.fld(n), fm, cnt, lambda j, q: mul(RM, shift(vec(d), 1)))
    return r


def kgR(s):
    return is_R(s.recv.params)


@spec('mkrlwe.KeyGenerator.GenSecretKey', 'C10')
def _(s):
    return secret(s, kgR(s), s.args[0], 'ternary', (fconst(0.5),))


@spec('mkrlwe.KeyGenerator.GenSecretKeyGaussian', 'C10')
def _(s):
    return secret(s, kgR(s), s.args[0], 'gauss', GAUSS)


@spec('mkrlwe.KeyGenerator.GenSecretKeyWithDistrib', 'C10')
def _(s):
    return secret(s, kgR(s), s.args[1], 'ternary', (s.args[0].v,))


@spec('mkrlwe.KeyGenerator.GenSecretKeySparse', 'C10')
def _(s):
    return secret(s, kgR(s), s.args[1], 'sparse', (s.args[0].v,))


def public(s, sk, R):
    r = s.new('mkrlwe.PublicKey')
    for i in (0, 1):
        polyqp_into(s, H.e(f(f(r.v, 'PublicKey'), 'Value'), num(i)), R)
    r.set('ID', sk.ID)
    d = fdraw(s, 'gauss', GAUSS)
    a = s.recv.params.CRS.key(ZERO).Value.at(0)
    for n, fm, cnt in fams(R):
        # pk1 = a, pk0 = e - a*s
        sv = sk.SecretKey.Value.fld(n)
        copy_limbs(s, r.PublicKey.Value.at(1).fld(n), a.fld(n), cnt)
        each(s, r.PublicKey.Value.at(0).fld(n), fm, cnt, lambda j, q: sub(shift(vec(d), 1), mul(iRM, vmul(a.fld(n).limb(j), sv.limb(j)))))
    return r


def copy_limbs(s, dst, src, n, qv=(), guard=TRUE, lo=ZERO):
    j = s.v('I', 'j')
    g = and_(guard, ge(j, lo), lt(j, n))
    with s.under(g):
        s.wr(dst.limbaddr(j), src.limb(j), '#C', tuple(qv) + (j,), g)


@spec('mkrlwe.KeyGenerator.GenPublicKey', 'C10')
def _(s):
    return public(s, s.args[0], kgR(s))


@spec('mkrlwe.KeyGenerator.GenKeyPair', 'C10')
def _(s):
    sk = secret(s, kgR(s), s.args[0], 'ternary', (fconst(0.5),))
    return sk, public(s, sk, kgR(s))


@spec('mkrlwe.KeyGenerator.GenGaussianError', 'C11')
def _(s):
    d = fdraw(s, 'gauss', GAUSS)
    for n, fm, cnt in fams(kgR(s)):
        each(s, s.args[0].fld(n), fm, cnt, lambda j, q: shift(vec(d), 1))


# =========================================================== C11: evaluation keys
def digits(s, swk, R, fn):
    """entry i of the gadget vector swk := fn(i, j, q, part, family) in Montgomery form"""
    i = s.v('I', 'i')
    nq = nR if R else nQ
    g = and_(ge(i, ZERO), lt(i, divi(add(nq, sub(al, ONE)), al)))
    for n, fm, cnt in fams(R):
        with s.under(g):
            p = swk.Value.at(i).fld(n)
        each(s, p, fm, cnt, lambda j, q: fn(i, j, q, n), (i,), g)


def gadget(i, j, n):
    """P under the primes of group i, zero under the others (and modulo P)"""
    if n == 'P':
        return ZERO
    return mul(var('prodP'), ind(and_(ge(j, mul(i, al)), lt(j, mul(add(i, ONE), al)))))


@spec('mkrlwe.KeyGenerator.GenSwitchingKey', 'C11')
def _(s):
    R = kgR(s)
    t = s.ex.site(s.node, s.tag())
    e_ = lambda i: vec(mk('draw', 'gauss', GAUSS, t.args[0], t.args[1] + (i,)))
    sk = s.args[0].SecretKey.Value
    digits(s, s.args[1], R, lambda i, j, q, n: add(mul(RM, shift(e_(i), 1)), mul(gadget(i, j, n), sk.fld(n).limb(j))))
    havoc_poly(s, s.recv.poolQ, nR if R else nQ)


def errs(s):
    t = s.ex.site(s.node, s.tag())
    return lambda i: mul(RM, shift(vec(mk('draw', 'gauss', GAUSS, t.args[0], t.args[1] + (i,))), 1))


@spec('mkrlwe.KeyGenerator.GenRelinearizationKey', 'C11', modes=[{}, {'name': 'sk=r', 'alias': {'a1': 'a0'}}])
def _(s):
    R = kgR(s)
    sk, r = s.args[0].SecretKey.Value, s.args[1].SecretKey.Value
    k = s.new('mkrlwe.RelinearizationKey')
    for i in range(3):
        s.wr(H.e(f(k.v, 'Value'), num(i)), swk_new(s, R=R).v, '*mkrlwe.SwitchingKey')
    k.set('ID', s.args[0].ID)
    a, u = s.recv.params.CRS.key(ZERO), s.recv.params.CRS.key(num(-1))
    e1, e2, e3 = errs(s), errs(s), errs(s)
    prodm = lambda x, y: mul(iRM, vmul(x, y))
    digits(s, k.Value.at(0), R, lambda i, j, q, n: sub(e1(i), prodm(a.Value.at(i).fld(n).limb(j), sk.fld(n).limb(j))))
    digits(s, k.Value.at(1), R, lambda i, j, q, n: add(e2(i), mul(gadget(i, j, n), sk.fld(n).limb(j)), neg(prodm(a.Value.at(i).fld(n).limb(j), r.fld(n).limb(j)))))
    digits(s, k.Value.at(2), R, lambda i, j, q, n: neg(add(e3(i), mul(gadget(i, j, n), r.fld(n).limb(j)), prodm(u.Value.at(i).fld(n).limb(j), sk.fld(n).limb(j)))))
    havoc_poly(s, s.recv.poolQ, nR if R else nQ)
    havoc_qp(s, s.recv.poolQP)
    return k


def permuted(g, v):
    """image under the automorphism g of a polynomial given in the evaluation domain"""
    return lattigo.permntt(g, v)


def rotation_key(s, sk, k, R):
    rk = s.new('mkrlwe.RotationKey')
    rk.set('Value', swk_new(s, R=R))
    rk.set('RotIdx', k)
    rk.set('ID', sk.ID)
    a = s.recv.params.CRS.key(k)
    e1 = errs(s)
    sv = sk.SecretKey.Value
    gi = mk('gal', neg(k), 0)
    digits(s, rk.fld('Value'), R, lambda i, j, q, n: add(e1(i), mul(gadget(i, j, n), sv.fld(n).limb(j)),
                                                     neg(mul(iRM, vmul(a.Value.at(i).fld(n).limb(j), permuted(gi, sv.fld(n).limb(j)))))))
    havoc_poly(s, s.recv.poolQ, nR if R else nQ)
    return rk


@spec('mkrlwe.KeyGenerator.GenRotationKey', 'C11')
def _(s):
    R = kgR(s)
    rot = s.args[0].v
    k = ite(lt(rot, ZERO), modi(rot, divi(N, num(2))), rot)
    s.panics(not_(s.recv.params.CRS.has(k)), 'must refuse a rotation without reference')
    return rotation_key(s, s.args[1], k, R)


@spec('mkrlwe.KeyGenerator.GenConjugationKey', 'C11')
def _(s):
    R = kgR(s)
    sk = s.args[0]
    ck = s.new('mkrlwe.ConjugationKey')
    ck.set('Value', swk_new(s, R=R))
    ck.set('ID', sk.ID)
    a = s.recv.params.CRS.key(num(-2))
    e1 = errs(s)
    sv = sk.SecretKey.Value
    cj = mk('gal', ZERO, 1)
    digits(s, ck.fld('Value'), R, lambda i, j, q, n: add(e1(i), mul(gadget(i, j, n), permuted(cj, sv.fld(n).limb(j))), neg(mul(iRM, vmul(a.Value.at(i).fld(n).limb(j), sv.fld(n).limb(j))))))
    havoc_poly(s, s.recv.poolQ, nR if R else nQ)
    return ck
