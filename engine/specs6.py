"""Contracts of the CKKS scheme (mkckks)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM
import lattigo
from specs import S0, swk_new, is_R, level, level_at, ids, newidset, ct_copy_new, ct_new, poly_copy, copy_poly_new, sub_ids, hoisted_new
from specs2 import each, fams, havoc_poly, havoc_qp
from specs3 import encrypt, share, truncate, minlev, havoc_limbs
from specs4 import exists
from specs5 import ntt_of, same_ids, rotate, relinearized, scratch, digits_of, swk, ep, NILV, CONJ


# ------------------------------------------------------------------ parameters (C17)
def slots(s):
    return s.ex.pow2(LOGSLOTS)


@spec('mkckks.Parameters.Scale', 'C17')
def _(s):
    return s.recv.scale


@spec('mkckks.Parameters.LogSlots', 'C17')
def _(s):
    return s.recv.logSlots


@spec('mkckks.Parameters.Slots', 'C17')
def _(s):
    return s.ex.pow2(s.recv.logSlots.v)


# ------------------------------------------------------------------ containers (C19)
def ckks_new(s, cond, lvl, scale):
    r = s.new('mkckks.Ciphertext')
    r.set('Ciphertext', ct_new(s, cond, lvl))
    r.set('Scale', scale)
    return r


@spec('mkckks.NewCiphertext', 'C19', requires=lambda s: [ge(s.args[2].v, ZERO)])
def _(s):
    return ckks_new(s, lambda k: s.args[1].Value.has(k), s.args[2].v, s.args[3])


@spec('mkckks.Ciphertext.ScalingFactor', 'C19')
def _(s):
    return s.recv.Scale


@spec('mkckks.Ciphertext.SetScalingFactor', 'C19')
def _(s):
    s.recv.set('Scale', s.args[0])


def ckks_copy(s, ct):
    r = s.new('mkckks.Ciphertext')
    r.set('Ciphertext', ct_copy_new(s, ct.Ciphertext))
    r.set('Scale', ct.Scale)
    return r


@spec('mkckks.Ciphertext.CopyNew', 'C19', 'C18')
def _(s):
    return ckks_copy(s, s.recv)


@spec('mkckks.NewMessage', 'C19')
def _(s):
    r = s.new('mkckks.Message')
    r.set('Value', s.newslice('[]complex128', s.ex.pow2(s.args[0].logSlots.v)))
    return r


@spec('mkckks.Message.Slots', 'C19')
def _(s):
    return s.recv.Value.len


# ------------------------------------------------------------------ construction, encryption, decryption (C01, C02)
def new_plaintext(s, ntt, scale, lvl):
    """fresh zero plaintext"""
    r = s.new('ckks.Plaintext')
    q = s.new('rlwe.Plaintext')
    p = s.poly(add(lvl, ONE))
    q.set('Value', p)
    p.set('IsNTT', ntt)
    r.set('Plaintext', q)
    r.set('Scale', scale)
    return r


def ckks_prm(s, p):
    return mk('st', 'ckks.Parameters', (('Parameters', p.Parameters.Parameters.v), ('logSlots', p.logSlots.v), ('scale', p.scale.v)))


ENCODER = mk('iface', '#ckksEncoder', mk('encoder', 'ckks'))


@spec('mkckks.NewEncryptor', 'C01')
def _(s):
    p = s.args[0]
    r = s.new('mkckks.Encryptor')
    r.set('Encryptor', call(s, 'mkrlwe.NewEncryptor', p.Parameters))
    r.set('encoder', ENCODER)
    r.set('params', p)
    r.set('ckksParams', ckks_prm(s, p))
    r.set('ptxtPool', new_plaintext(s, TRUE, p.scale, sub(nQ, ONE)))
    return r


def call(s, name, *args, recv=None, guard=TRUE, specs=SPECS):
    """the effect of another function's contract (where guard holds)"""
    fn = s.ex.d.funcs[name]
    sp = specs[name]
    s2 = S(s.ex, s.st, s.node, recv.v if isinstance(recv, O) else recv, [a.v if isinstance(a, O) else a for a in args], fn)
    s2.tag = s.tag
    if recv is not None:
        s2.recv = O(s2, recv.v, recv.t) if isinstance(recv, O) else s2.recv
    s2.gall = and_(s.gall, guard)
    with s.under(guard):
        return sp.effect(s2)


@spec('mkckks.Encryptor.EncryptPtxt', 'C01', 'C18', requires=lambda s: [s.args[2].Value.has(S0), s.args[2].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    pt, pk, ct = s.args
    encrypt(s, s.recv.Encryptor.encryptorBase, pt.Value, pk, ct.Value)
    ct.set('Scale', pt.Scale)


def encode(s, p, n, vals, scale, ls):
    """the polynomial p of n residues := the encoding of vals"""
    e_ = lattigo.elements(s.ex, s.st, vals.v, 'complex128')
    t = mk('encoded', e_, vals.len, scale, ls)
    each(s, p, 'Q', n, lambda j, q: vec(t))
    p.set('IsNTT', FALSE)


def scratch_value(s):
    t = s.ex.site(s.node, s.tag())
    return mk('hv', t.args[0], t.args[1])


def scratch_plaintext(s, p):
    """the encoder's plaintext is scratch: its contents and form are unspecified afterwards"""
    havoc_limbs(s, p, ZERO, nQ)
    p.set('IsNTT', scratch_value(s))


def enc_msg(s, enc, msg, pk, ct):
    ls = enc.params.logSlots.v
    s.panics(gt(msg.Value.len, s.ex.pow2(ls)), 'must refuse too many values')
    encode(s, enc.ptxtPool.Value, nQ, msg.Value, enc.ptxtPool.Scale.v, ls)
    encrypt(s, enc.Encryptor.encryptorBase, enc.ptxtPool.Value, pk, ct.Value)
    scratch_plaintext(s, enc.ptxtPool.Value)
    ct.set('Scale', enc.ptxtPool.Scale)


@spec('mkckks.Encryptor.EncryptMsg', 'C01', 'C18', requires=lambda s: [s.args[2].Value.has(S0), s.args[2].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    enc_msg(s, s.recv, *s.args)


@spec('mkckks.Encryptor.EncryptMsgNew', 'C01', 'C18', requires=lambda s: [not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    msg, pk = s.args
    ct = ckks_new(s, lambda k: eqs(k, pk.ID.v), sub(nQ, ONE), s.recv.params.scale)
    enc_msg(s, s.recv, msg, pk, ct)
    return ct


@spec('mkckks.Encryptor.EncodeMsgNew', 'C01', 'C18')
def _(s):
    msg = s.args[0]
    ls = s.recv.params.logSlots.v
    s.panics(gt(msg.Value.len, s.ex.pow2(ls)), 'must refuse too many values')
    r = new_plaintext(s, FALSE, s.recv.params.scale, sub(nQ, ONE))
    encode(s, r.Value, nQ, msg.Value, s.recv.params.scale.v, ls)
    return r


@spec('mkckks.NewDecryptor', 'C02')
def _(s):
    p = s.args[0]
    r = s.new('mkckks.Decryptor')
    r.set('Decryptor', call(s, 'mkrlwe.NewDecryptor', p.Parameters))
    r.set('encoder', ENCODER)
    r.set('params', p)
    r.set('ptxtPool', new_plaintext(s, FALSE, p.scale, sub(nQ, ONE)))
    return r


@spec('mkckks.Decryptor.PartialDecrypt', 'C02', requires=lambda s: [s.args[0].Value.has(S0), s.args[0].Value.has(s.args[1].ID.v), not_(eqs(s.args[1].ID.v, S0))])
def _(s):
    call(s, 'mkrlwe.Decryptor.PartialDecrypt', s.args[0].Ciphertext, s.args[1], recv=s.recv.Decryptor)


def phase(s, ct, sks, j):
    """c_0 + sum of c_k s_k over the parties of ct, in the domain of ct"""
    k = s.v('S')
    ntt = ct.Value.key(S0).IsNTT.v
    g = and_(ids(ct, k), sks.Value.has(k))
    with s.under(g):
        t = share(ct.Value.key(k), sks.Value.key(k), ntt, j)
    return add(ct.Value.key(S0).limb(j), Sum(k, mul(ind(g), t)))


@spec('mkckks.Decryptor.Decrypt', 'C02', 'C18', requires=lambda s: [not_(ntt_of(s.args[0].Ciphertext))])
def _(s):
    ct, sks = s.args
    k = s.v('S')
    s.panics(exists(k, and_(ids(ct, k), not_(sks.Value.has(k)))), 'must refuse a missing key')
    lvl = level(ct)
    pt = s.new('rlwe.Plaintext')
    p = s.poly(add(lvl, ONE))
    pt.set('Value', p)
    each(s, p, 'Q', add(lvl, ONE), lambda j, q: phase(s, ct, sks, j))
    s.recv.ptxtPool.set('Plaintext', scratch_value(s))
    s.recv.ptxtPool.set('Scale', scratch_value(s))
    return decoded(s, pt.Value, ct.Scale.v, s.recv.params.logSlots.v)


def decoded(s, p, scale, ls):
    msg = s.new('mkckks.Message')
    fx, n = lattigo.coefficient_residues(s.ex, s.st, p.v, s.node)
    i = s.v('I', 'i')
    ln = s.ex.pow2(ls)
    v = s.newslice('[]complex128', ln)
    g = and_(ge(i, ZERO), lt(i, ln))
    s.wr(H.e(v.v.args[0], i), mk('decoded', i, fx, n, scale, ls), 'complex128', (i,), g)
    msg.set('Value', v)
    return msg


# ------------------------------------------------------------------ constants (C15)
def const_parts(v):
    """(real, imaginary) parts of a constant as floats, for the supported dynamic types"""
    if v.op != 'iface':
        return None
    t, x = v.args
    z = fconst(0)
    if t == 'complex128':
        return mk('f.real', x), mk('f.imag', x)
    if t == 'float64':
        return x, z
    if t in ('int', 'int64', 'uint64'):
        return mk('i2f', x), z
    return z, z


def konst(t, sort):
    return {'name': t, 'values': {'a1': lambda ex, st, p: mk('iface', t, var('konst', sort))}}


KONSTS = [konst('float64', 'F'), konst('int', 'I'), konst('int64', 'I'), konst('uint64', 'I'), konst('complex128', 'F'), konst('string', 'S')]


def trunc(x):
    return x if x.op in ('f.floor', 'i2f') else mk('f.trunc', x)


def const_scale(s, lvl, v):
    """one for integers, the top prime for constants with a fractional part"""
    if v.args[0] not in ('complex128', 'float64'):
        return fconst(1)
    re, im = const_parts(v)
    c = FALSE
    for x in (re, im):
        if x.op != 'fc':
            c = or_(c, and_(not_(feq(x, fconst(0))), not_(feq(x, trunc(x)))))
    return ite(c, mk('i2f', mk('q', 'Q', lvl)), fconst(1))


@spec('mkckks.Evaluator.getConstAndScale', 'C15', modes=KONSTS, requires=lambda s: [ge(s.args[0].v, ZERO), lt(s.args[0].v, nQ)])
def _(s):
    lvl, v = s.args[0].v, s.args[1].v
    re, im = const_parts(v)
    return re, im, const_scale(s, lvl, v)


def scaled(v, n):
    """n*v rounded to the nearest integer"""
    m = lambda x, q: red(x, q) if q.op == 'q' else modi(x, q)
    return lambda q: ite(flt(v, fconst(0)), sub(q, m(mk('ftrunc', X.fop('f.+', X.fop('f.*', X.fop('f.-', fconst(0), n), v), fconst('0.5'))), q)),
                         m(mk('ftrunc', X.fop('f.+', X.fop('f.*', n, v), fconst('0.5'))), q))


@spec('mkckks.scaleUpExact', 'C15', modes=[{'values': {'a2': lambda ex, st, p: mk('q', 'Q', var('qidx'))}}], requires=lambda s: [ge(s.args[2].v, ONE)])
def _(s):
    v, n, q = s.args
    return scaled(v.v, n.v)(q.v)


def const_poly(s, lvl, scale, v):
    """residues of the constant polynomial re + im X^(N/2), scaled and rounded"""
    re, im = const_parts(v)

    def k(x):
        def g(q):
            if x.op == 'fc' and float(x.args[0]) == 0:
                return ZERO
            return ite(feq(x, fconst(0)), ZERO, nf_mod(scaled(x, scale)(q), q))
        return g
    return k(re), k(im)


def times(s, a, re, im, j, q):
    x = a.limb(j)
    return add(mul(re(q), x), mul(im(q), lattigo.mulxh(nf_mod(x, q))))


def mult_const(s, ev, ct, v, out):
    lv = minlev(s, level(ct), level(out))
    sc = const_scale(s, lv, v)
    re, im = const_poly(s, lv, sc, v)
    k = s.v('S')
    g = ct.Value.has(k)
    with s.under(g):
        p = out.Value.key(k)
        src = ct.Value.key(k)
    each(s, p, 'Q', add(lv, ONE), lambda j, q: times(s, src, re, im, j, q), (k,), g)
    out.set('Scale', X.fop('f.*', ct.Scale.v, sc))


def mc_modes():
    r = []
    for m in KONSTS[:5]:
        r.append(m)
        r.append(dict(m, name=m['name'] + ' in place', alias={'a2': 'a0'}))
    return r


@spec('mkckks.Evaluator.MultByConst', 'C15', 'C18', modes=mc_modes(), requires=lambda s: sub_ids(s, s.args[0], s.args[2]) + [not_(ntt_of(s.args[0].Ciphertext)), not_(ntt_of(s.args[2].Ciphertext))])
def _(s):
    ct, v, out = s.args
    mult_const(s, s.recv, ct, v.v, out)


# ------------------------------------------------------------------ addition and subtraction (C03)
def maxscale(x, y):
    if x is y:
        return x
    x, y = sorted((x, y))
    return ite(fle(x, y), y, x)


def union(a, b):
    return lambda k: or_(ids(a, k), ids(b, k))


def factor(x, y):
    """(condition, factor) by which an operand of scale x is brought up to scale y"""
    if x is y:
        return FALSE, None
    r = mk('f.floor', X.fop('f./', y, x))
    return and_(flt(x, y), flt(fconst(1), r)), r


def bring(s, ct, k, c, r):
    """(unreduced, reduced) limb j of part k of ct, multiplied by the factor r when c holds"""
    def raw(j, q):
        x = ct.Value.key(k).limb(j)
        if r is None:
            return x, x
        m = nf_mod(scaled(r, fconst(1))(q), q)
        y = ite(feq(r, fconst(0)), ZERO, mul(m, x))
        return ite(c, vred(nf_mod(y, q), q), x), ite(c, y, x)
    return raw


def raw_each(s, dst, n, fn, qv=(), guard=TRUE):
    """limb j of dst := fn(j, q_j), as it is"""
    j = s.v('I', 'j')
    for g, q in lattigo.parts('Q', j):
        gg = and_(guard, ge(j, ZERO), lt(j, n), g)
        with s.under(gg):
            s.wr(dst.limbaddr(j), fn(j, q), '#C', tuple(qv) + (j,), gg)


def use_pool(s, a, b, conds):
    """the scratch ciphertext holds a part for every party afterwards; contents unspecified"""
    pool = s.recv.ctxtPool
    u = union(a, b)
    call(s, 'mkrlwe.Ciphertext.PadCiphertext', newidset(s, u), recv=pool)
    for ct, c in conds:
        if c is FALSE:
            continue
        k = s.v('S')
        g = and_(ct.Value.has(k), c)
        with s.under(g):
            p = pool.Value.key(k)
        havoc_limbs(s, p, ZERO, add(level(ct), ONE), (k,), g)


def binary(s, sign):
    a, b = s.args
    sa, sb = a.Scale.v, b.Scale.v
    lv = minlev(s, level(a), level(b))
    out = ckks_new(s, union(a, b), lv, maxscale(sa, sb))
    ca, ra = factor(sa, sb)
    cb, rb = factor(sb, sa)
    k = s.v('S')
    g = out.Value.has(k)
    with s.under(g):
        p = out.Value.key(k)
    va, vb = bring(s, a, k, ca, ra), bring(s, b, k, cb, rb)
    n = add(lv, ONE)
    ha, hb = a.Value.has(k), b.Value.has(k)
    each(s, p, 'Q', n, lambda j, q: add(va(j, q)[1], mul(num(sign), vb(j, q)[1])), (k,), and_(g, ha, hb))
    raw_each(s, p, n, lambda j, q: va(j, q)[0], (k,), and_(g, ha, not_(hb)))
    if sign > 0:
        raw_each(s, p, n, lambda j, q: vb(j, q)[0], (k,), and_(g, not_(ha), hb))
    else:
        each(s, p, 'Q', n, lambda j, q: neg(vb(j, q)[1]), (k,), and_(g, not_(ha), hb))
    use_pool(s, a, b, ((a, ca), (b, cb)))
    return out


def coef_domain(*cts):
    return [not_(ntt_of(c)) for c in cts]


BIN = dict(modes=[{}, {'name': 'op1=op0', 'alias': {'a1': 'a0'}}], requires=lambda s: coef_domain(s.args[0].Ciphertext, s.args[1].Ciphertext))


@spec('mkckks.Evaluator.AddNew', 'C03', 'C18', **BIN)
def _(s):
    return binary(s, 1)


@spec('mkckks.Evaluator.SubNew', 'C03', 'C18', **BIN)
def _(s):
    return binary(s, -1)


# ------------------------------------------------------------------ levels and rescaling (C14)
def drop(s, ct, lv, n):
    """all parts of ct lose their last n residues"""
    k = s.v('S')
    g = ct.Value.has(k)
    with s.under(g):
        truncate(s, ct.Value.key(k), add(lv, ONE, neg(n)), (k,), g)


def can_drop(ct, n):
    return [ge(n, ZERO), le(n, level(ct))]


@spec('mkckks.Evaluator.DropLevel', 'C14', requires=lambda s: can_drop(s.args[0], s.args[1].v))
def _(s):
    drop(s, s.args[0], level(s.args[0]), s.args[1].v)


@spec('mkckks.Evaluator.DropLevelNew', 'C14', 'C18', requires=lambda s: can_drop(s.args[0], s.args[1].v))
def _(s):
    r = ckks_copy(s, s.args[0])
    drop(s, r, level(s.args[0]), s.args[1].v)
    return r


def rescaled(s, s0, lvl, minscale):
    """(number of divisions, scale afterwards): as long as the level is positive and the scale stays at least half the minimum"""
    t, x, y = fresh('I', 't'), fresh('F', 'x'), fresh('I', 'u')
    q = lambda t: mk('i2f', mk('q', 'Q', sub(lvl, t)))
    step = lam(y, lam(x, X.fop('f./', x, q(y))))
    at = lambda n: rec(step, s0, n)
    nb = least(t, and_(ge(sub(lvl, t), ONE), fle(X.fop('f./', minscale, fconst(2)), X.fop('f./', at(t), q(t)))))
    return nb, at(nb)


def rescale(s, ev, src, dst, minscale):
    """dst := src rescaled; the result is an error if the request is invalid"""
    lv = level(src)
    bad = or_(fle(minscale, fconst(0)), feq(src.Scale.v, fconst(0)), eq(lv, ZERO))
    nb, sc = rescaled(s, src.Scale.v, lv, minscale)
    same = src.v is dst.v
    div = and_(not_(bad), ge(nb, ONE))
    k = s.v('S')
    g = and_(dst.Value.has(k), div)
    with s.under(g):
        p, a = dst.Value.key(k), src.Value.key(k)
        lim = lambda x: a.limb(x)
        pre = s.st.fork()

        def limb_of(x):
            return nf_mod(a.limb(x), mk('q', 'Q', x))
    each(s, p, 'Q', add(lv, ONE, neg(nb)), lambda j, q: lattigo.drm('Q', lv, nb, limb_of, j), (k,), g)
    if same:
        havoc_limbs(s, p, add(lv, ONE, neg(nb)), add(lv, ONE), (k,), g)
    truncate(s, p, add(lv, ONE, neg(nb)), (k,), g)
    g2 = and_(div, ge(nb, num(2)))
    with s.under(g2):
        havoc_limbs(s, ev.polyQPool, ZERO, lv, (), g2)
    if not same:
        with s.under(not_(bad), eq(nb, ZERO)):
            k = s.v('S')
            g = and_(src.Value.has(k), not_(bad), eq(nb, ZERO))
            with s.under(g):
                raw_each(s, dst.Value.key(k), add(lv, ONE), lambda j, q: src.Value.key(k).limb(j), (k,), g)
    with s.under(not_(bad)):
        dst.set('Scale', sc, (), not_(bad))
    return ite(bad, lattigo.ERROR, NIL)


@spec('mkckks.Evaluator.Rescale', 'C14', 'C18', modes=[{'name': 'in place', 'alias': {'a2': 'a0'}}, {'name': 'apart'}],
      requires=lambda s: same_ids(s.args[0], s.args[2]) + coef_domain(s.args[0].Ciphertext, s.args[2].Ciphertext) + [eq(level(s.args[0]), level(s.args[2]))])
def _(s):
    return rescale(s, s.recv, s.args[0], s.args[2], s.args[1].v)
