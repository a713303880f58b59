"""The contracts: one per function of the repository, property by property."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N

S0 = string('0')


# =========================================================== C16: id sets and key collections
@spec('mkrlwe.IDSet.Has', 'C16')
def _(s):
    return s.recv.Value.has(s.args[0].v)


@spec('mkrlwe.IDSet.Add', 'C16')
def _(s):
    k = s.args[0].v
    s.panics(eqs(k, S0), 'must refuse id "0"')
    s.recv.Value.put(k, None)


@spec('mkrlwe.IDSet.Remove', 'C16')
def _(s):
    s.recv.Value.drop(s.args[0].v)


@spec('mkrlwe.IDSet.Size', 'C16')
def _(s):
    return s.recv.Value.card()


def newidset(s, cond):
    """fresh IDSet holding exactly the ids k with cond(k)"""
    r = s.new('mkrlwe.IDSet')
    m = s.newmap('map[string]struct{}')
    r.set('Value', m)
    if cond is not None:
        k = s.v('S')
        m.put(k, None, (k,), cond(k))
    return r


@spec('mkrlwe.NewIDSet', 'C16')
def _(s):
    return newidset(s, None)


@spec('mkrlwe.IDSet.CopyNew', 'C16')
def _(s):
    return newidset(s, lambda k: s.recv.Value.has(k))


@spec('mkrlwe.IDSet.Intersection', 'C16', modes=[{}, {'name': 's2=s', 'alias': {'a0': 'recv'}}])
def _(s):
    return newidset(s, lambda k: and_(s.recv.Value.has(k), s.args[0].Value.has(k)))


@spec('mkrlwe.IDSet.Union', 'C16', modes=[{}, {'name': 's2=s', 'alias': {'a0': 'recv'}}])
def _(s):
    return newidset(s, lambda k: or_(s.recv.Value.has(k), s.args[0].Value.has(k)))


# ----------------------------------------------------------- collections
def collection(setname, keyname, new, add, rem, get, prefix='mkrlwe.'):
    full = prefix + setname

    @spec(prefix + new, 'C16')
    def _new(s):
        r = s.new(full)
        r.set('Value', s.newmap('map[string]*mkrlwe.' + keyname))
        return r

    if add:
        @spec('%s.%s' % (full, add), 'C16', requires=lambda s: [not_(eqs(s.args[0].ID.v, S0))])
        def _add(s):
            s.recv.Value.put(s.args[0].ID.v, s.args[0])

    @spec('%s.%s' % (full, rem), 'C16')
    def _rem(s):
        s.recv.Value.drop(s.args[0].v)

    @spec('%s.%s' % (full, get), 'C16')
    def _get(s):
        k = s.args[0].v
        s.panics(not_(s.recv.Value.has(k)), 'must refuse unknown id')
        return s.recv.Value.key(k)


collection('SecretKeySet', 'SecretKey', 'NewSecretKeySet', 'AddSecretKey', 'DelSecretKey', 'GetSecretKey')
collection('PublicKeySet', 'PublicKey', 'NewPublicKeyKeySet', 'AddPublicKey', 'DelPublicKey', 'GetPublicKey')
collection('ConjugationKeySet', 'ConjugationKey', 'NewConjugationKeySet', 'AddConjugationKey', 'DelConjugationKey', 'GetConjugationKey')


@spec('mkrlwe.NewRotationKeySet', 'C16')
def _(s):
    r = s.new('mkrlwe.RotationKeySet')
    r.set('Value', s.newmap('map[string]map[uint]*mkrlwe.RotationKey'))
    return r


@spec('mkrlwe.RotationKeySet.AddRotationKey', 'C16', requires=lambda s: [not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    k, i = s.args[0].ID.v, s.args[0].RotIdx.v
    has = s.recv.Value.has(k)
    old = s.recv.Value.key(k)
    m = s.newmap('map[uint]*mkrlwe.RotationKey')
    s.recv.Value.put(k, m, (), not_(has))
    old.put(i, s.args[0], (), has)
    m.put(i, s.args[0], (), not_(has))


@spec('mkrlwe.RotationKeySet.DelRotationKey', 'C16')
def _(s):
    k, i = s.args[0].v, s.args[1].v
    s.recv.Value.key(k).drop(i, (), s.recv.Value.has(k))


@spec('mkrlwe.RotationKeySet.GetRotationKey', 'C16')
def _(s):
    k, i = s.args[0].v, s.args[1].v
    s.panics(not_(s.recv.Value.has(k)), 'must refuse unknown id')
    s.panics(not_(s.recv.Value.key(k).has(i)), 'must refuse unknown rotation index')
    return s.recv.Value.key(k).key(i)


# ----------------------------------------------------------- key containers
def swk_new(s, *idx, qv=(), guard=TRUE, R=False):
    """fresh zero gadget vector: beta pairs of zero polynomials over the full chains"""
    sw = s.new('mkrlwe.SwitchingKey', *idx)
    nq = nR if R else nQ
    beta = divi(add(nq, sub(al, ONE)), al)
    vs = s.newslice('[]rlwe.PolyQP', beta, *idx)
    s.wr(f(sw.v, 'Value'), vs.v, '[]rlwe.PolyQP', tuple(qv), guard)
    i = s.v('I', 'i')
    g = and_(guard, ge(i, ZERO), lt(i, beta))
    for n, lim in (('Q', nq), ('P', nP)):
        p = s.poly(lim, *(tuple(idx) + (i,)), qv=tuple(qv) + (i,), guard=g)
        s.wr(f(H.e(vs.v.args[0], i), n), p.v, '*ring.Poly', tuple(qv) + (i,), g)
    return sw


def polyqp_into(s, addr, R=False):
    for n, lim in (('Q', nR if R else nQ), ('P', nP)):
        s.wr(f(addr, n), s.poly(lim).v, '*ring.Poly')


@spec('mkrlwe.NewSwitchingKey', 'C16', 'C11', modes=[{}, {'name': 'over R', 'R': ['a0']}])
def _(s):
    return swk_new(s, R=is_R(s.args[0]))


def is_R(params):
    return isRP(params.Parameters.v if params.t != 'rlwe.Parameters' else params.v)


@spec('mkrlwe.NewSecretKey', 'C16', 'C10')
def _(s):
    r = s.new('mkrlwe.SecretKey')
    polyqp_into(s, f(f(r.v, 'SecretKey'), 'Value'), is_R(s.args[0]))
    r.set('ID', s.args[1])
    return r


@spec('mkrlwe.NewPublicKey', 'C16', 'C10')
def _(s):
    r = s.new('mkrlwe.PublicKey')
    for i in (0, 1):
        polyqp_into(s, H.e(f(f(r.v, 'PublicKey'), 'Value'), num(i)), is_R(s.args[0]))
    r.set('ID', s.args[1])
    return r


@spec('mkrlwe.NewRelinearizationKey', 'C16', 'C11')
def _(s):
    r = s.new('mkrlwe.RelinearizationKey')
    for i in range(3):
        s.wr(H.e(f(r.v, 'Value'), num(i)), swk_new(s, R=is_R(s.args[0])).v, '*mkrlwe.SwitchingKey')
    r.set('ID', s.args[1])
    return r


@spec('mkrlwe.NewRotationKey', 'C16', 'C11')
def _(s):
    r = s.new('mkrlwe.RotationKey')
    r.set('Value', swk_new(s, R=is_R(s.args[0])))
    r.set('RotIdx', s.args[1])
    r.set('ID', s.args[2])
    return r


@spec('mkrlwe.NewConjugationKey', 'C16', 'C11')
def _(s):
    r = s.new('mkrlwe.ConjugationKey')
    r.set('Value', swk_new(s, R=is_R(s.args[0])))
    r.set('ID', s.args[1])
    return r


@spec('mkrlwe.NewHoistedCiphertext', 'C19')
def hoisted_new(s):
    r = s.new('mkrlwe.HoistedCiphertext')
    r.set('Value', s.newmap('map[string]*mkrlwe.SwitchingKey'))
    return r


@spec('mkrlwe.NewRelinearizationKeyKeySet', 'C16')
def _(s):
    r = s.new('mkrlwe.RelinearizationKeySet')
    r.set('Value', s.newmap('map[string]*mkrlwe.RelinearizationKey'))
    for i in (0, 1):
        s.wr(H.e(f(r.v, 'HoistPool'), num(i)), hoisted_new(s).v, '*mkrlwe.HoistedCiphertext')
    r.set('params', s.args[0])
    return r


@spec('mkrlwe.RelinearizationKeySet.AddRelinearizationKey', 'C16', requires=lambda s: [not_(eqs(s.args[0].ID.v, S0))])
def _(s):
    k = s.args[0].ID.v
    s.recv.Value.put(k, s.args[0])
    for i in (0, 1):
        s.recv.HoistPool.at(i).Value.put(k, swk_new(s, R=is_R(s.recv.params)))


@spec('mkrlwe.RelinearizationKeySet.DelRelinearizationKey', 'C16')
def _(s):
    s.recv.Value.drop(s.args[0].v)


@spec('mkrlwe.RelinearizationKeySet.GetRelinearizationKey', 'C16')
def _(s):
    k = s.args[0].v
    s.panics(not_(s.recv.Value.has(k)), 'must refuse unknown id')
    return s.recv.Value.key(k)


# =========================================================== C19: ciphertext containers
def ct_polys(s, m, cond, level, ntt=None, flagof=None):
    """put a fresh zero polynomial of the given level under every id k with cond(k)"""
    k = s.v('S')
    g = cond(k)
    p = s.poly(add(level, ONE), k, qv=(k,), guard=g)
    if ntt is not None and ntt is not FALSE:
        s.wr(f(p.v, 'IsNTT'), ntt, 'bool', (k,), g)
    m.put(k, p, (k,), g)
    return k, g, p


def ct_new(s, cond, level, ntt=None, at=()):
    r = s.new('mkrlwe.Ciphertext')
    m = s.newmap('map[string]*ring.Poly')
    r.set('Value', m)
    ct_polys(s, m, lambda k: or_(eqs(k, S0), cond(k)), level, ntt)
    return r


def lv(s, i):
    return [ge(s.args[i].v, ZERO)]


@spec('mkrlwe.NewCiphertext', 'C19', requires=lambda s: lv(s, 2))
def _(s):
    return ct_new(s, lambda k: s.args[1].Value.has(k), s.args[2].v)


@spec('mkrlwe.NewCiphertextNTT', 'C19', requires=lambda s: lv(s, 2))
def _(s):
    return ct_new(s, lambda k: s.args[1].Value.has(k), s.args[2].v, TRUE)


def ids(ct, k):
    """k is a party of ciphertext ct"""
    return and_(ct.Value.has(k), not_(eqs(k, S0)))


@spec('mkrlwe.Ciphertext.IDSet', 'C19')
def _(s):
    return newidset(s, lambda k: ids(s.recv, k))


def level(ct):
    return sub(ct.Value.key(S0).Coeffs.len, ONE)


@spec('mkrlwe.Ciphertext.Level', 'C19')
def _(s):
    return level(s.recv)


@spec('mkrlwe.Ciphertext.El', 'C19')
def _(s):
    return s.recv


def poly_copy(s, dst, src, qv, guard, lo=ZERO, hi=None):
    """contents of the limbs lo..hi of src into dst"""
    j = s.v('I', 'j')
    n = src.Coeffs.len if hi is None else hi
    g = and_(guard, ge(j, lo), lt(j, n))
    with s.under(g):
        s.wr(dst.limbaddr(j), src.limb(j), '#C', tuple(qv) + (j,), g)


def copy_poly_new(s, src, *idx, qv=(), guard=TRUE):
    p = s.poly(src.Coeffs.len, *idx, qv=qv, guard=guard)
    poly_copy(s, p, src, qv, guard)
    for n in ('IsNTT', 'IsMForm'):
        s.wr(f(p.v, n), src.fld(n).v, 'bool', tuple(qv), guard)
    return p


def ct_copy_new(s, ct):
    r = s.new('mkrlwe.Ciphertext')
    m = s.newmap('map[string]*ring.Poly')
    r.set('Value', m)
    k = s.v('S')
    g = ct.Value.has(k)
    with s.under(g):
        p = copy_poly_new(s, ct.Value.key(k), k, qv=(k,), guard=g)
    m.put(k, p, (k,), g)
    return r


@spec('mkrlwe.Ciphertext.CopyNew', 'C19', 'C18')
def _(s):
    return ct_copy_new(s, s.recv)


@spec('mkrlwe.Ciphertext.Copy', 'C19', requires=lambda s: sub_ids(s, s.args[0], s.recv))
def _(s):
    k = s.v('S')
    src, dst = s.args[0], s.recv
    g = src.Value.has(k)
    with s.under(g):
        m = s.ex.minmax(s.st, level_at(src, k), level_at(dst, k), True)
        poly_copy(s, dst.Value.key(k), src.Value.key(k), (k,), g, hi=add(m, ONE))
    for n in ('IsNTT', 'IsMForm'):
        s.wr(f(dst.Value.key(k).v, n), src.Value.key(k).fld(n).v, 'bool', (k,), g)


def level_at(ct, k):
    return sub(ct.Value.key(k).Coeffs.len, ONE)


def sub_ids(s, a, b):
    k = fresh('S', 'k')
    return [ForAll(k, a.Value.has(k), b.Value.has(k))]


@spec('mkrlwe.Ciphertext.PadCiphertext', 'C19')
def _(s):
    new = lambda k: and_(s.args[0].Value.has(k), not_(s.recv.Value.has(k)))
    ct_polys(s, s.recv.Value, new, level(s.recv), s.recv.Value.key(S0).IsNTT.v)
