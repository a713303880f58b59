"""Constructors of evaluators, key switchers, generators and parameter sets: every buffer is allocated once, with its own
storage and the full length, and every component is built from the rings of the parameter set."""
from verify import *
from world import *
import lattigo
import specs9
from specs9 import F
from specs import *
from specs2 import *
from specs3 import havoc_limbs
from specs6 import call, ckks_prm

LRING = {False: 'ringQ', True: 'ringR'}


def lib_switcher(s, prm, R):
    """the library's key switcher over the same rings"""
    k = s.new('rlwe.KeySwitcher')
    pc = s.new('rlwe.Parameters')
    s.wr(pc.v, prm, 'rlwe.Parameters')
    k.set('Parameters', pc)
    for n, t in (('Baseconverter', 'ring.FastBasisExtender'), ('Decomposer', 'ring.Decomposer')):
        c = s.new(t)
        s.wr(f(c.v, '#ringQ'), root(LRING[R]), '*ring.Ring')
        s.wr(f(c.v, '#ringP'), root('ringP'), '*ring.Ring')
        k.set(n, c)
    b = s.new('rlwe.keySwitcherBuffer')
    k.set('keySwitcherBuffer', b)
    for i in range(6):
        polyqp_into(s, H.e(f(b.v, 'Pool'), num(i)), R)
    b.set('PoolInvNTT', s.poly(nR if R else nQ))
    n = var('rlwebeta')
    d = s.newslice('[]rlwe.PolyQP', n)
    b.set('PoolDecompQP', d)
    i = s.v('I', 'i')
    g = and_(ge(i, ZERO), lt(i, n))
    for fn, lim in (('Q', nR if R else nQ), ('P', nP)):
        s.wr(f(H.e(d.v.args[0], i), fn), s.poly(lim, i, qv=(i,), guard=g).v, '*ring.Poly', (i,), g)
    return k


@spec('mkrlwe.NewKeySwitcher', 'C12', 'C08', modes=[{}, {'name': 'over R', 'R': ['a0']}])
def _(s):
    p = s.args[0]
    R = is_R(p)
    r = s.new('mkrlwe.KeySwitcher')
    r.set('KeySwitcher', s.ex.load(s.st, lib_switcher(s, p.Parameters.v, R).v, 'rlwe.KeySwitcher'))
    r.set('Parameters', p)
    r.set('Decomposer', call(s, 'mkrlwe.NewDecomposer', O(s, root(LRING[R]), '*ring.Ring'), O(s, root('ringP'), '*ring.Ring'), GAMMA))
    for i in range(3):
        s.wr(H.e(f(r.v, 'polyQPool'), num(i)), s.poly(nR if R else nQ).v, '*ring.Poly')
    for n in ('swkPool1', 'swkPool2', 'swkPool3'):
        r.set(n, swk_new(s, R=R))
    return r


@spec('mkckks.NewEvaluator', 'C08', 'C03')
def _(s):
    p = s.args[0]
    r = s.new('mkckks.Evaluator')
    r.set('params', p)
    r.set('ksw', call(s, 'mkrlwe.NewKeySwitcher', p.Parameters))
    r.set('ctxtPool', call(s, 'mkrlwe.NewCiphertext', p.Parameters, call(s, 'mkrlwe.NewIDSet'), sub(nQ, ONE)))
    q = s.poly(nQ)
    q.set('IsNTT', TRUE)
    r.set('polyQPool', q)
    return r


@spec('mkckks.NewKeyGenerator', 'C10')
def _(s):
    return call(s, 'mkrlwe.NewKeyGenerator', s.args[0].Parameters)


@spec('mkbfv.Parameters.RingQMulP', 'C12')
def _(s):
    r = s.new('rlwe.RingQP')
    r.set('RingQ', root('ringM'))
    r.set('RingP', root('ringP'))
    return r


@spec('mkbfv.Parameters.RingRP', 'C12')
def _(s):
    r = s.new('rlwe.RingQP')
    r.set('RingQ', root('ringR'))
    r.set('RingP', root('ringP'))
    return r


def bfv_conv(s):
    return call(s, 'mkbfv.NewFastBasisExtender', *[O(s, root(x), '*ring.Ring') for x in ('ringP', 'ringQ', 'ringM', 'ringR')])


@spec('mkbfv.NewKeyGenerator', 'C10')
def _(s):
    p = s.args[0]
    r = s.new('mkbfv.KeyGenerator')
    r.set('params', p)
    r.set('KeyGenerator', call(s, 'mkrlwe.NewKeyGenerator', p.Parameters))
    r.set('baseconv', bfv_conv(s))
    return r


@spec('mkbfv.NewKeySwitcher', 'C12', 'C06')
def _(s):
    p = s.args[0]
    r = s.new('mkbfv.KeySwitcher')
    r.set('KeySwitcher', call(s, 'mkrlwe.NewKeySwitcher', p.Parameters))
    r.set('kswRP', call(s, 'mkrlwe.NewKeySwitcher', p.paramsRP))
    r.set('params', p)
    r.set('conv', bfv_conv(s))
    r.set('swkRPPool', swk_new(s, R=True))
    for i in range(1, 7):
        r.set('swkPool%d' % i, swk_new(s, R=False))
    for i in (1, 2):
        r.set('polyQPool%d' % i, s.poly(nQ))
    for i in (1, 2, 3, 4):
        r.set('polyRPool%d' % i, s.poly(nR))
    return r


@spec('mkbfv.NewEvaluator', 'C05', 'C06')
def _(s):
    p = s.args[0]
    r = s.new('mkbfv.Evaluator')
    r.set('params', p)
    r.set('ksw', call(s, 'mkbfv.NewKeySwitcher', p))
    r.set('conv', bfv_conv(s))
    return r


# ------------------------------------------------------------------ copies of keys
OR_NIL = [{}, {'name': 'nil', 'values': {'recv': lambda ex, st, p: NIL}}]


@spec('mkrlwe.SecretKey.CopyNew', 'C16', modes=OR_NIL)
def _(s):
    if s.recv.v is NIL:
        return NIL
    r = s.new('mkrlwe.SecretKey')
    for n in ('Q', 'P'):
        s.wr(f(f(f(r.v, 'SecretKey'), 'Value'), n), copy_poly_new(s, s.recv.SecretKey.Value.fld(n)).v, '*ring.Poly')
    r.set('ID', s.recv.ID)
    return r


@spec('mkrlwe.PublicKey.CopyNew', 'C16', modes=OR_NIL)
def _(s):
    if s.recv.v is NIL:
        return NIL
    r = s.new('mkrlwe.PublicKey')
    for i in (0, 1):
        for n in ('Q', 'P'):
            s.wr(f(H.e(f(f(r.v, 'PublicKey'), 'Value'), num(i)), n), copy_poly_new(s, s.recv.PublicKey.Value.at(i).fld(n)).v, '*ring.Poly')
    r.set('ID', s.recv.ID)
    return r


# ------------------------------------------------------------------ parameter sets
@spec('mkckks.NewParameters', 'C17')
def _(s):
    p = s.args[0]
    return mk('st', 'mkckks.Parameters', (('Parameters', call(s, 'mkrlwe.NewParameters', O(s, p.Parameters.v, 'rlwe.Parameters'), GAMMA)),
                                          ('logSlots', p.logSlots.v), ('scale', p.scale.v)))


# the library's constructors on the primes of a valid parameter set
def family_of(ex, st, node, v, fn):
    s = S(ex, st, node, None, [], fn)
    o = O(s, v, '[]uint64')
    if is_const(ex.slen(v)) == 1 and o.at(0).v is TMOD:
        return 'T', ONE
    a, off, n = specs9.modulus_prefix(s, o)
    if off is not ZERO:
        raise Unsupported('primes %s' % show(v))
    return a, n


@lattigo.contract('ring.NewRing')
def newring(ex, st, r, a, node):
    fm, n = family_of(ex, st, node, a[1], ex.d.funcs['mkbfv.NewParametersFromLiteral'])
    for x, y in ((a[0], N), (n, ONE if fm == 'T' else lattigo.count(fm))):
        d = ex.decide(st, eq(x, y))
        if d is None:
            raise Unsupported('ring of degree %s over %s primes' % (show(a[0]), show(n)))
        if d is False:
            return mk('tup', root('other ring'), NIL)
    return mk('tup', root('ring' + fm), NIL)


@lattigo.contract('rlwe.NewParametersFromLiteral')
def newrlwe(ex, st, r, a, node):
    g = lambda n, t: ex.getfield(st, a[0], n, t)
    fn = ex.d.funcs['mkbfv.NewParametersFromLiteral']
    (q, nq), (p, np) = (family_of(ex, st, node, g(n, '[]uint64'), fn) for n in ('Q', 'P'))
    if not ex.entails(st, and_(eq(nq, lattigo.count(q)), eq(np, lattigo.count(p)))):
        raise Unsupported('parameters over some primes only')
    same = p == 'P' and q in ('Q', 'R') and ex.entails(st, and_(eq(g('LogN', 'int'), logN), feq(g('Sigma', 'float64'), SIGMA)))
    return mk('tup', mk('prm', q) if same else mk('prm', q + p + '?'), NIL)


def literal(ex, st, p):
    vs = {'LogN': logN, 'Sigma': SIGMA, 'T': TMOD}
    for n, r, c in (('Q', 'ringQ', nQ), ('QMul', 'ringM', nM), ('P', 'ringP', nP)):
        vs[n] = slc(mk('arr', f(root(r), 'Modulus')), ZERO, c)
    fs = ex.d.fields('mkbfv.ParametersLiteral')
    return mk('st', 'mkbfv.ParametersLiteral', tuple((x['n'], vs[x['n']] if x['n'] in vs else NIL) for x in fs))


@spec('mkbfv.NewParametersFromLiteral', 'C17', modes=[{'values': {'a0': literal}}])
def _(s):
    new = lambda v: call(s, 'mkrlwe.NewParameters', O(s, v, 'rlwe.Parameters'), GAMMA)
    return mk('st', 'mkbfv.Parameters', (('Parameters', new(PRM)), ('paramsRP', new(PRMR)), ('ringT', root('ringT')), ('ringQMul', root('ringM'))))


# ------------------------------------------------------------------ the remaining conversions
@spec('mkrlwe.FastBasisExtender.ModDownQPtoQNTT', 'C13', requires=specs9.lv_pre(0, 1), modes=specs9.in_place('a4', 'a2'))
def _(s):
    lq, lp, pq, pp, out = s.args
    specs9.within(s, lq.v, pq, out)
    specs9.within(s, lp.v, pp)
    up = shift(specs9.lifted(F(s), lp.v, lambda x: shift(specs9.limbs_of(s, pp, lp.v)(x), -1)), 1)
    each(s, out, 'Q', add(lq.v, ONE), lambda j, q: mul(power(lattigo.prod(F(s), lp.v), -1), sub(pq.limb(j), up)))
    each(s, pp, F(s), add(lp.v, ONE), lambda j, q: shift(pp.limb(j), -1), lazy=1)
    havoc_limbs(s, s.recv.polypoolQ, ZERO, add(lq.v, ONE), (), TRUE)


@spec('mkrlwe.FastBasisExtender.ShallowCopy', 'C13', modes=OR_NIL + [{'name': 'Q and P', 'second': 'P'}])
def _(s):
    # the tables are shared, the scratch polynomials are not
    if s.recv.v is NIL:
        return NIL
    r = s.new('mkrlwe.FastBasisExtender')
    for n in ('ringQ', 'ringP', 'paramsQtoP', 'paramsPtoQ', 'modDownparamsQtoP', 'modDownparamsPtoQ'):
        r.set(n, s.recv.fld(n))
    r.set('polypoolQ', s.poly(nQ))
    r.set('polypoolP', s.poly(lattigo.count(F(s))))
    return r
