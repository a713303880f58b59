"""Contracts of the scheme-level containers, encryptors and decryptors."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM, contract, limb, coeffs
import lattigo
from specs import S0, swk_new, is_R, level, level_at, ids, newidset, ct_copy_new, ct_new, poly_copy, copy_poly_new, sub_ids
from specs2 import each, fams, havoc_poly, havoc_qp, GAUSS, fdraw, secret, public, kgR, rotation_key
from specs3 import encrypt, enc_pre, share, truncate, minlev, havoc_limbs, TERN
from terms import close


def exists(x, c):
    return close('ex', x, c)


@spec('mkrlwe.KeyGenerator.GenKeyPairSparse', 'C10')
def _(s):
    sk = secret(s, kgR(s), s.args[1], 'sparse', (s.args[0].v,))
    return sk, public(s, sk, kgR(s))


# ------------------------------------------------------------------ C02
@spec('mkrlwe.Decryptor.Decrypt', 'C02', 'C18')
def _(s):
    ct, sks, pt = s.args
    lv = minlev(s, level(ct), sub(pt.Value.Coeffs.len, ONE))
    k = s.v('S')
    # every party of the ciphertext must be covered
    s.panics(exists(k, and_(ids(ct, k), not_(sks.Value.has(k)))), 'must refuse a missing key')
    old = pt.Value.Coeffs.len
    ntt = ct.Value.key(S0).IsNTT.v
    k = s.v('S')

    def val(j, q):
        with s.under(and_(ids(ct, k), sks.Value.has(k))):
            t = share(ct.Value.key(k), sks.Value.key(k), ntt, j)
        return add(ct.Value.key(S0).limb(j), Sum(k, mul(ind(and_(ids(ct, k), sks.Value.has(k))), t)))
    each(s, pt.Value, 'Q', add(lv, ONE), val)
    truncate(s, pt.Value, add(lv, ONE))
