"""Contracts of RNS basis extension and modulus switching (mkrlwe and mkbfv basis extenders)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM, prod
import lattigo
from specs2 import each, havoc_poly
from specs3 import havoc_limbs
from specs6 import call, raw_each


def table_of(params):
    """the conversion table a modupParams value is, by its constructor's contract"""
    v = params.v
    if v.op == 'st':
        a = dict(v.args[1])['qoverqiinvqi']
        if a.op == 'slc' and a.args[0].op == 'arr' and a.args[0].args[0].op == 'f' and a.args[0].args[0].args[0].op == 'sub':
            k = a.args[0].args[0].args[0].args[1]
            if k.op == 'bep' and all(x is table_field(k, n) for n, x in v.args[1]):
                return k
    raise Unsupported('conversion table ' + show(v))


def lifted(fm, lvl, fn):
    """the integer (between 0 and the product of the primes) with residues fn(x), x <= lvl, of family fm"""
    x = fresh('I', 'x')
    return vec(mk('lift', fm, lvl, lam(x, nf_mod(fn(x), mk('q', fm, x)))))


@spec('mkrlwe.modUpExact', 'C13', 'C12')
def _(s):
    p1, p2, rQ, rP, params = s.args
    k = table_of(params)
    a, b = lattigo.fam(rQ.v), lattigo.fam(rP.v)
    n = s.ex.slen(p1.v)
    ok = and_(eq(k.args[2], n), eq(k.args[1], ZERO), le(s.ex.slen(p2.v), k.args[4]))
    if k.args[0] != a or k.args[3] != b or s.ex.decide(s.st, ok) is not True:
        s.panics(TRUE, 'must be given the table of its bases')
    s.panics(le(n, ZERO))
    up = lifted(a, sub(n, ONE), lambda x: src(s, p1, x, n))
    j = s.v('I', 'j')
    g = and_(ge(j, ZERO), lt(j, s.ex.slen(p2.v)))
    with s.under(g):
        o = H.C(lattigo.limb(s.ex, s.st, p2.v, j))
    s.wr(o, vred(up, mk('q', b, j), 1), '#C', (j,), g)


def src(s, p1, x, n):
    with s.under(ge(x, ZERO), lt(x, n)):
        return lattigo.content(s.ex, s.st, lattigo.limb(s.ex, s.st, p1.v, x))


def limbs_of(s, p, lv):
    def g(x):
        with s.under(ge(x, ZERO), le(x, lv)):
            return p.limb(x)
    return g


def F(s):
    """the other basis of the extender: the primes of QMul (as many as those of Q), or those of P (any number)"""
    return s.ex.second


EXTENDS = [{}, {'name': 'Q and P', 'second': 'P'}]


def in_place(a, b):
    return EXTENDS + [{'name': 'in place', 'alias': {a: b}}, {'name': 'Q and P, in place', 'second': 'P', 'alias': {a: b}}]


def lv_pre(q, p):
    """levels within the two bases"""
    return lambda s: [c for i, n in ((q, nQ), (p, lattigo.count(F(s)))) for c in (ge(s.args[i].v, ZERO), lt(s.args[i].v, n))]


def within(s, lv, *ps):
    for p in ps:
        s.panics(gt(add(lv, ONE), p.Coeffs.len))


@spec('mkrlwe.FastBasisExtender.ModUpQtoP', 'C13', requires=lv_pre(0, 1), modes=EXTENDS)
def _(s):
    lq, lp, pq, pp = s.args
    within(s, lq.v, pq)
    within(s, lp.v, pp)
    up = lifted('Q', lq.v, limbs_of(s, pq, lq.v))
    each(s, pp, F(s), add(lp.v, ONE), lambda j, q: up, lazy=1)


@spec('mkrlwe.FastBasisExtender.ModUpPtoQ', 'C13', lazy=('a2',), requires=lv_pre(1, 0), modes=EXTENDS)
def _(s):
    lp, lq, pp, pq = s.args
    within(s, lp.v, pp)
    within(s, lq.v, pq)
    up = lifted(F(s), lp.v, limbs_of(s, pp, lp.v))
    each(s, pq, 'Q', add(lq.v, ONE), lambda j, q: up, lazy=1)


@spec('mkrlwe.FastBasisExtender.ModDownQPtoQ', 'C13', requires=lv_pre(0, 1), modes=in_place('a4', 'a2'))
def _(s):
    lq, lp, pq, pp, out = s.args
    within(s, lq.v, pq, out)
    within(s, lp.v, pp)
    up = lifted(F(s), lp.v, limbs_of(s, pp, lp.v))
    each(s, out, 'Q', add(lq.v, ONE), lambda j, q: mul(power(prod(F(s), lp.v), -1), sub(pq.limb(j), up)))
    havoc_limbs(s, s.recv.polypoolQ, ZERO, add(lq.v, ONE), (), TRUE)


@spec('mkrlwe.FastBasisExtender.ModDownQPtoP', 'C13', requires=lv_pre(0, 1), modes=in_place('a4', 'a3'))
def _(s):
    lq, lp, pq, pp, out = s.args
    within(s, lp.v, pp, out)
    within(s, lq.v, pq)
    up = lifted('Q', lq.v, limbs_of(s, pq, lq.v))
    each(s, out, F(s), add(lp.v, ONE), lambda j, q: mul(power(prod('Q', lq.v), -1), sub(pp.limb(j), up)))
    havoc_limbs(s, s.recv.polypoolP, ZERO, add(lp.v, ONE), (), TRUE)


# ------------------------------------------------------------------ the BFV basis extender
def last(s):
    return sub(nQ, ONE)


def full_q(s, *ps):
    """polynomials over the whole of Q"""
    return [eq(p.Coeffs.len, nQ) for p in ps]


def full_r(s, *ps):
    return [eq(p.Coeffs.len, nR) for p in ps]


def halves_of(p):
    """residues of a polynomial over R: those modulo Q and those modulo QMul"""
    return (lambda x: p.limb(x)), (lambda x: p.limb(add(x, nQ)))


def raw_limb(s, dst, j, v, g):
    with s.under(g):
        a = dst.limbaddr(j)
    s.wr(a, v, '#C', (j,), g)


def limb_under(s, p, off=ZERO, n=nQ):
    def r(x):
        with s.under(ge(x, ZERO), lt(x, n)):
            return p.limb(add(x, off))
    return r


@spec('mkbfv.FastBasisExtender.ModUpQtoR', 'C13', modes=[{'R': ['a1']}], requires=lambda s: full_q(s, s.args[0]) + full_r(s, s.args[1]))
def _(s):
    pq, pr = s.args
    up = lifted('Q', last(s), limb_under(s, pq))
    j = s.v('I', 'j')
    g = and_(ge(j, ZERO), lt(j, nQ))
    with s.under(g):
        a, b, v = pr.limbaddr(j), pr.limbaddr(add(j, nQ)), pq.limb(j)
    s.wr(a, v, '#C', (j,), g)
    s.wr(b, vred(up, mk('q', 'M', j), 1), '#C', (j,), g)
    havoc_poly(s, s.recv.polypoolQMul, nM)


@spec('mkbfv.FastBasisExtender.Quantize', 'C13', modes=[{'R': ['a0']}], requires=lambda s: full_r(s, s.args[0]) + full_q(s, s.args[1]))
def _(s):
    # Q-residues of (t x - [t x mod QMul]) / QMul
    pr, pq, t = s.args
    tx = lambda off: lambda x: mul(t.v, shift(limb_under(s, pr, off)(x), -1))
    up = lifted('M', last(s), tx(nQ))
    x = tx(ZERO)
    each(s, pq, 'Q', nQ, lambda j, q: mul(power(prod('M', last(s)), -1), sub(x(j), up)))
    havoc_poly(s, s.recv.polypoolR, nR)
    havoc_poly(s, s.recv.polypoolQ, nQ)
    havoc_poly(s, s.recv.polypoolQMul, nM)
    havoc_poly(s, s.recv.convQQMul.polypoolQ, nQ)


@spec('mkbfv.FastBasisExtender.Rescale', 'C13', modes=[{'R': ['a1']}], requires=lambda s: full_q(s, s.args[0]) + full_r(s, s.args[1]))
def _(s):
    # residues over R of (QMul x - [QMul x mod Q]) / Q: those modulo QMul are -[QMul x mod Q] / Q
    pq, pr = s.args
    x = limb_under(s, pq)
    low = lifted('Q', last(s), lambda j: mul(var('prodM'), x(j)))
    m = lambda j: vred(neg(mul(power(prod('Q', last(s)), -1), low)), mk('q', 'M', j))
    up = lifted('M', last(s), m)
    j = s.v('I', 'j')
    g = and_(ge(j, ZERO), lt(j, nQ))
    with s.under(g):
        a, b = pr.limbaddr(j), pr.limbaddr(add(j, nQ))
    s.wr(a, vred(up, mk('q', 'Q', j), 1), '#C', (j,), g)
    s.wr(b, m(j), '#C', (j,), g)
    havoc_poly(s, s.recv.polypoolQ, nQ)
    havoc_poly(s, s.recv.polypoolQMul, nM)
    havoc_poly(s, s.recv.convQQMul.polypoolP, nM)


# ------------------------------------------------------------------ tables and constructors
def primes_of(fm, j):
    """prime j of a family made of several"""
    n, out, c = ZERO, [], TRUE
    ys = {'R': 'QM', 'QP': 'QP', 'RP': 'QMP'}[fm]
    for y in ys:
        g = ge(j, n)
        m = add(n, lattigo.count(y))
        out.append((and_(g, lt(j, m)) if y != ys[-1] else g, mk('q', y, sub(j, n))))
        n = m
    return out


def modulus_prefix(s, o):
    """(family, first prime, number of primes) of a slice of a ring's moduli"""
    v = o.v
    if v.op == 'slc' and v.args[0].op == 'arr' and v.args[0].args[0].op == 'f' and v.args[0].args[0].args[1] == 'Modulus':
        r = v.args[0].args[0].args[0]
        if r.op == 'root':
            return lattigo.fam(r), v.args[1], s.ex.slen(v)
    # any other slice: recognised by its elements
    i = fresh('I', 'i')
    with s.under(ge(i, ZERO), lt(i, s.ex.slen(v))):
        x = o.at(i).v
        for fm in ('Q', 'P', 'M', 'R', 'QP', 'RP'):
            if x.op == 'p' and len(to_pd(x)) == 1:
                (k, c), = to_pd(x).items()
                if c == 1 and not k[0] and not k[3] and len(k[1]) == 1 and k[1][0][1] == 1:
                    x = k[1][0][0]
            if x.op == 'q' and x.args[0] == fm and i not in fv(sub(x.args[1], i)):
                return fm, sub(x.args[1], i), s.ex.slen(v)
        offs = sorted({sub(y.args[1], i) for k in to_pd(x) for y, _ in k[1] if y.op == 'q' and y.args[0] == 'Q'}) if x.op == 'p' else []
        for off in offs:
            for fm in ('R', 'QP', 'RP'):
                if i not in fv(off) and all(s.ex.decide(s.st, implies(c, eq(x, q))) for c, q in primes_of(fm, add(i, off))):
                    return fm, off, s.ex.slen(v)
    raise Unsupported('moduli ' + show(v))


@spec('mkrlwe.basisextenderparameters', 'C12', 'C13')
def _(s):
    a, off, n = modulus_prefix(s, s.args[0])
    b, off2, m = modulus_prefix(s, s.args[1])
    if is_const(off2) != 0:
        raise Unsupported('offset target basis')
    k = mk('bep', a, off, n, b, m)
    return mk('st', 'mkrlwe.modupParams', tuple((x['n'], table_field(k, x['n'])) for x in s.ex.d.fields('mkrlwe.modupParams')))


BASES = [{'values': {'a0': lambda ex, st, p: root('ringQ'), 'a1': lambda ex, st, p: root('ringM')}},
         {'name': 'Q and P', 'second': 'P', 'values': {'a0': lambda ex, st, p: root('ringQ'), 'a1': lambda ex, st, p: root('ringP')}}]


@spec('mkrlwe.genModDownParams', 'C13', modes=BASES)
def _(s):
    rq, rp = s.args
    a, b = lattigo.fam(rq.v), lattigo.fam(rp.v)
    na, nb = lattigo.count(a), lattigo.count(b)
    out = s.newslice('[][]uint64', nb)
    i, j = s.v('I', 'i'), s.v('I', 'j')
    row = s.ex.site(s.node, s.tag())
    row = lambda j: mk('new', row0.args[0], row0.args[1] + (j,))
    row0 = s.ex.site(s.node, s.tag())
    g = and_(ge(j, ZERO), lt(j, nb))
    s.wr(H.e(out.v.args[0], j), slc(row(j), ZERO, na), '[]uint64', (j,), g)
    s.wr(H.e(row(j), i), red(mul(RM, power(prod(b, j), -1)), mk('q', a, i)), 'uint64', (j, i), and_(g, ge(i, ZERO), lt(i, na)))
    return out


@spec('mkrlwe.NewFastBasisExtender', 'C13', modes=BASES)
def _(s):
    rq, rp = s.args
    a, b = lattigo.fam(rq.v), lattigo.fam(rp.v)
    na, nb = lattigo.count(a), lattigo.count(b)
    r = s.new('mkrlwe.FastBasisExtender')
    r.set('ringQ', rq)
    r.set('ringP', rp)
    for n, x, y, nx, ny in (('paramsQtoP', a, b, na, nb), ('paramsPtoQ', b, a, nb, na)):
        t = s.newslice('[]mkrlwe.modupParams', nx)
        i = s.v('I', 'i')
        g = and_(ge(i, ZERO), lt(i, nx))
        k = mk('bep', x, ZERO, add(i, ONE), y, ny)
        for fl in s.ex.d.fields('mkrlwe.modupParams'):
            s.wr(f(H.e(t.v.args[0], i), fl['n']), table_field(k, fl['n']), fl['t'], (i,), g)
        r.set(n, t)
    r.set('modDownparamsPtoQ', call(s, 'mkrlwe.genModDownParams', rq, rp))
    r.set('modDownparamsQtoP', call(s, 'mkrlwe.genModDownParams', rp, rq))
    r.set('polypoolQ', s.poly(na))
    r.set('polypoolP', s.poly(nb))
    return r


@spec('mkbfv.NewFastBasisExtender', 'C13', modes=[{'values': {'a%d' % i: (lambda n: lambda ex, st, p: root(n))(n) for i, n in enumerate(('ringP', 'ringQ', 'ringM', 'ringR'))}}])
def _(s):
    rp, rq, rm, rr = s.args
    r = s.new('mkbfv.FastBasisExtender')
    for n, v in (('ringP', rp), ('ringQ', rq), ('ringQMul', rm), ('ringR', rr)):
        r.set(n, v)
    r.set('convQQMul', call(s, 'mkrlwe.NewFastBasisExtender', rq, rm))
    r.set('polypoolQ', s.poly(nQ))
    r.set('polypoolQMul', s.poly(nM))
    r.set('polypoolR', s.poly(nR))
    p = s.poly(nQ)
    each(s, p, 'Q', nQ, lambda j, q: mul(RM, var('prodM'), vec(mk('onesv'))))
    r.set('mFormQMul', p)
    return r

modup = SPECS['mkrlwe.modUpExact']
bep = SPECS['mkrlwe.basisextenderparameters']
