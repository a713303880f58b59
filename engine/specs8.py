"""Contracts of the BFV scheme (mkbfv): containers, encryption, decryption, addition, rotation, conjugation."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, is_R, level, ids, newidset, ct_copy_new, ct_new, hoisted_new, copy_poly_new
from specs2 import each, havoc_poly
from specs3 import encrypt, share, havoc_limbs
from specs4 import exists
from specs5 import ntt_of, same_ids, rotate, scratch, digits_of
from specs6 import call, new_plaintext, phase, union, raw_each, coef_domain, scratch_value
from specs7 import ksw_scratch, normal

MAXL = sub(nQ, ONE)


def full(*cts):
    """BFV ciphertexts live at the full level"""
    return [eq(level(c), MAXL) for c in cts]


def bfv_ct(*cts):
    return full(*cts) + coef_domain(*[c.Ciphertext for c in cts])


# ------------------------------------------------------------------ containers (C19)
def bfv_new(s, cond, ntt=None):
    r = s.new('mkbfv.Ciphertext')
    r.set('Ciphertext', ct_new(s, cond, MAXL, ntt))
    return r


@spec('mkbfv.NewCiphertext', 'C19')
def _(s):
    return bfv_new(s, lambda k: s.args[1].Value.has(k))


@spec('mkbfv.NewCiphertextNTT', 'C19')
def _(s):
    return bfv_new(s, lambda k: s.args[1].Value.has(k), TRUE)


def bfv_copy(s, ct):
    r = s.new('mkbfv.Ciphertext')
    r.set('Ciphertext', ct_copy_new(s, ct.Ciphertext))
    return r


@spec('mkbfv.Ciphertext.CopyNew', 'C19', 'C18')
def _(s):
    return bfv_copy(s, s.recv)


@spec('mkbfv.NewMessage', 'C19')
def _(s):
    r = s.new('mkbfv.Message')
    r.set('Value', s.newslice('[]int64', N))
    return r


@spec('mkbfv.Message.Slots', 'C19')
def _(s):
    return s.recv.Value.len


# ------------------------------------------------------------------ encryption and decryption (C01, C02)
BENCODER = mk('iface', '#bfvEncoder', mk('encoder', 'bfv', TMOD))


def bfv_plaintext(s):
    r = s.new('bfv.Plaintext')
    q = s.new('rlwe.Plaintext')
    q.set('Value', s.poly(nQ))
    r.set('Plaintext', q)
    return r


@spec('mkbfv.NewEncryptor', 'C01')
def _(s):
    p = s.args[0]
    r = s.new('mkbfv.Encryptor')
    r.set('Encryptor', call(s, 'mkrlwe.NewEncryptor', p.Parameters))
    r.set('encoder', BENCODER)
    r.set('params', p)
    r.set('ptxtPool', bfv_plaintext(s))
    return r


@spec('mkbfv.NewDecryptor', 'C02')
def _(s):
    p = s.args[0]
    r = s.new('mkbfv.Decryptor')
    r.set('Decryptor', call(s, 'mkrlwe.NewDecryptor', p.Parameters))
    r.set('encoder', BENCODER)
    r.set('params', p)
    r.set('ptxtPool', bfv_plaintext(s))
    return r


ENC = dict(requires=lambda s: [s.args[2].Value.has(S0), s.args[2].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])


@spec('mkbfv.Encryptor.EncryptPtxt', 'C01', 'C18', **ENC)
def _(s):
    pt, pk, ct = s.args
    encrypt(s, s.recv.Encryptor.encryptorBase, pt.Value, pk, ct.Value)


def bfv_enc(s, enc, msg, pk, ct):
    s.panics(gt(msg.Value.len, N), 'must refuse too many values')
    t = mk('bfvencoded', lattigo.elements(s.ex, s.st, msg.Value.v, 'int64'), msg.Value.len)
    each(s, enc.ptxtPool.Value, 'Q', nQ, lambda j, q: vec(t))
    encrypt(s, enc.Encryptor.encryptorBase, enc.ptxtPool.Value, pk, ct.Value)
    havoc_limbs(s, enc.ptxtPool.Value, ZERO, nQ)


@spec('mkbfv.Encryptor.EncryptMsg', 'C01', 'C18', **ENC)
def _(s):
    bfv_enc(s, s.recv, *s.args)


@spec('mkbfv.Encryptor.EncryptMsgNew', 'C01', 'C18', requires=lambda s: [not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    msg, pk = s.args
    ct = bfv_new(s, lambda k: eqs(k, pk.ID.v))
    bfv_enc(s, s.recv, msg, pk, ct)
    return ct


@spec('mkbfv.Decryptor.PartialDecrypt', 'C02', requires=lambda s: [s.args[0].Value.has(S0), s.args[0].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    call(s, 'mkrlwe.Decryptor.PartialDecrypt', s.args[0].Ciphertext, s.args[1], recv=s.recv.Decryptor)


@spec('mkbfv.Decryptor.Decrypt', 'C02', 'C18', requires=lambda s: bfv_ct(s.args[0]))
def _(s):
    ct, sks = s.args
    k = s.v('S')
    s.panics(exists(k, and_(ids(ct, k), not_(sks.Value.has(k)))), 'must refuse a missing key')
    p = s.poly(nQ)
    each(s, p, 'Q', nQ, lambda j, q: phase(s, ct, sks, j))
    s.recv.ptxtPool.set('Value', scratch_value(s))
    msg = s.new('mkbfv.Message')
    v = s.newslice('[]int64', N)
    x = var('Jx', 'I')
    with s.under(ge(x, ZERO), lt(x, nQ)):
        fx = lam(x, nf_mod(p.limb(x), mk('q', 'Q', x)))
    i = s.v('I', 'i')
    g = and_(ge(i, ZERO), lt(i, N))
    s.wr(H.e(v.v.args[0], i), mk('bfvdecoded', i, fx, nQ), 'int64', (i,), g)
    msg.set('Value', v)
    return msg


# ------------------------------------------------------------------ addition and subtraction (C04)
def bfv_binary(s, sign):
    a, b = s.args
    out = bfv_new(s, union(a, b))
    k = s.v('S')
    g = out.Value.has(k)
    with s.under(g):
        p = out.Value.key(k)
        x, y = (lambda j: a.Value.key(k).limb(j)), (lambda j: b.Value.key(k).limb(j))
    ha, hb = a.Value.has(k), b.Value.has(k)
    each(s, p, 'Q', nQ, lambda j, q: add(x(j), mul(num(sign), y(j))), (k,), and_(g, ha, hb))
    raw_each(s, p, nQ, lambda j, q: x(j), (k,), and_(g, ha, not_(hb)))
    if sign > 0:
        raw_each(s, p, nQ, lambda j, q: y(j), (k,), and_(g, not_(ha), hb))
    else:
        each(s, p, 'Q', nQ, lambda j, q: neg(y(j)), (k,), and_(g, not_(ha), hb))
    return out


BIN = dict(modes=[{}, {'name': 'op1=op0', 'alias': {'a1': 'a0'}}], requires=lambda s: bfv_ct(s.args[0], s.args[1]))


@spec('mkbfv.Evaluator.AddNew', 'C04', 'C18', **BIN)
def _(s):
    return bfv_binary(s, 1)


@spec('mkbfv.Evaluator.SubNew', 'C04', 'C18', **BIN)
def _(s):
    return bfv_binary(s, -1)


# ------------------------------------------------------------------ conjugation (C08)
@spec('mkbfv.Evaluator.ConjugateNew', 'C08', 'C18', requires=lambda s: bfv_ct(s.args[0]))
def _(s):
    out = bfv_new(s, lambda k: s.args[0].Value.has(k))
    call(s, 'mkrlwe.KeySwitcher.Conjugate', s.args[0].Ciphertext, s.args[1], out.Ciphertext, recv=s.recv.ksw.KeySwitcher)
    return out
