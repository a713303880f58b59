"""Contracts of the word-level kernels of basis extension and digit decomposition (mkrlwe)."""
from verify import *
from world import *
from lattigo import nQ, nP, nM, N, iRM, RM, prod
import lattigo
from terms import lz, rec
from exec import fop
import specs5
from specs3 import havoc_limbs
import specs9
from world import cofactor, source_prime, source_product, table_field, bep_inverse, bep_cofactor, bep_multiple, target_prime, groups, group_size, digit_table

LANES = 8
QI = mk('q', 'Q', var('qidx'))


def lane(s, p, i):
    """address of element i of the array a pointer refers to"""
    return s.ex.arr_elem(p.v, I(i))


def word(s, p, i):
    return s.ex.rd(s.st, lane(s, p, i), 'uint64')


def wsum(s, n, fn):
    i = s.v('I', 'i')
    with s.under(ge(i, ZERO), lt(i, n)):
        t = fn(i)
    return Sum(i, mul(ind(and_(ge(i, ZERO), lt(i, n))), t))


def multsum_pre(s):
    n, pj, qinv, vt, qo = [a.v for a in s.args[10:15]]
    r = [ge(n, ZERO), le(n, num(32)), le(n, s.ex.slen(qo)), eq(qinv, mk('qinv', pj))]
    for l in range(LANES):
        v = word(s, s.args[1], l)
        r += [ge(v, ZERO), lt(v, s.ex.slen(vt))]
    return r


@spec('mkrlwe.multSum', 'C12', 'C13', requires=multsum_pre,
      modes=[{'values': {'a11': lambda ex, st, p: QI, 'a12': lambda ex, st, p: mk('qinv', QI)}}])
def _(s):
    # res[l] = (sum_i y_l[i] c[i]) / R + vtimes[v[l]]  modulo pj
    res, v = s.args[:2]
    n, pj, qinv, vt, qo = s.args[10:15]
    out = []
    for l in range(LANES):
        y = s.args[2 + l]
        t = wsum(s, n.v, lambda i: mul(word(s, y, i), qo.at(i).v))
        out.append(lz(add(mul(iRM, t), vt.at(word(s, v, l)).v), pj.v))
    for l in range(LANES):
        s.wr(lane(s, res, l), out[l], 'uint64')


def rns_pre(s):
    n, x = s.args[0].v, s.args[1].v
    p, Q, QInv, inv = s.args[2], s.args[12], s.args[13], s.args[14]
    i = s.v('I', 'pre')
    r = [ge(n, ZERO), le(n, num(32)), ge(x, ZERO), le(add(x, num(LANES)), N)] + [le(n, a.len) for a in (p, Q, QInv, inv)]
    with s.under(ge(i, ZERO), lt(i, n)):
        r.append(implies(and_(ge(i, ZERO), lt(i, n)), eq(QInv.at(i).v, mk('qinv', Q.at(i).v))))
    return r


def MODULI(ex, st, p):
    return slc(mk('arr', f(root('ringQ'), 'Modulus')), ZERO, nQ)


def INVERSES(ex, st, p):
    return slc(mk('arr', f(root('ringQ'), 'MredParams')), ZERO, nQ)


@spec('mkrlwe.reconstructRNS', 'C13', requires=rns_pre, modes=[{'values': {'a12': MODULI, 'a13': INVERSES}}])
def _(s):
    # y_l[i] = [p_i[x+l] (Q/q_i)^-1] mod q_i, v[l] = floor(sum_i y_l[i] / q_i)
    n, x = s.args[0].v, s.args[1].v
    p, v = s.args[2], s.args[3]
    Q, inv = s.args[12], s.args[14]
    i = s.v('I', 'i')
    g = and_(ge(i, ZERO), lt(i, n))
    out = []
    for l in range(LANES):
        def y(i, l=l):
            return red(mul(iRM, p.at(i).at(add(x, num(l))).v, inv.at(i).v), Q.at(i).v)
        with s.under(g):
            t = y(i)
        out.append((t, fsum(n, y, lambda i: Q.at(i).v, s)))
    for l in range(LANES):
        s.wr(lane(s, s.args[4 + l], i), out[l][0], 'uint64', (i,), g)
        s.wr(lane(s, v, l), out[l][1], 'uint64')


def fsum(n, y, q, s):
    """integer part of the floating-point sum of y(i)/q(i), i < n"""
    i, x = fresh('I', 't'), fresh('F', 'x')
    with s.under(ge(i, ZERO), lt(i, n)):
        t = fop('f./', mk('i2f', y(i)), mk('i2f', q(i)))
    return mk('f2i', ite(ge(n, ONE), rec(lam(i, lam(x, fop('f.+', x, t))), fconst(0), n), fconst(0)))


# ------------------------------------------------------------------ basis extension, by its definition
def crt_value(s, k, src, j, q):
    """coefficient of the integer with residues src(i) modulo the primes of table k, lifted to modulus q"""
    p = lambda i: source_prime(s.ex, s.st, k, i)
    y = lambda i: red(mul(src(i), power(cofactor(k, i), -1)), p(i))
    n = k.args[2]
    v = fsum(n, y, p, s)
    return lz(sub(wsum(s, n, lambda i: mul(y(i), cofactor(k, i))), mul(v, source_product(k))), q)


def TABLE(a, b):
    return lambda ex, st, p: table(ex, mk('bep', a, ZERO, ex.slen(ex.load(st, root('a0'), '[][]uint64')), b, lattigo.count(b)))


def table(ex, k):
    return mk('st', 'mkrlwe.modupParams', tuple((x['n'], table_field(k, x['n'])) for x in ex.d.fields('mkrlwe.modupParams')))


def ring(n):
    return lambda ex, st, p: root('ring' + n)


def modup_own(s):
    p1, p2, rQ, rP, params = s.args
    k = specs9.table_of(params)
    b = lattigo.fam(rP.v)
    n = s.ex.slen(p1.v)
    j, w = s.v('I', 'j'), fresh('I', 'w')
    g = and_(ge(j, ZERO), lt(j, s.ex.slen(p2.v)))
    with s.under(g):
        o = H.C(lattigo.limb(s.ex, s.st, p2.v, j))
        def src(i):
            return p1.at(i).at(w).v
        with s.under(ge(w, ZERO), lt(w, N)):
            val = crt_value(s, k, src, j, mk('q', b, j))
    s.wr(o, vec(mk('lamv', lam(w, val))), '#C', (j,), g)


def modup_facts(s):
    p1, p2 = s.args[:2]
    return [ge(s.ex.slen(p1.v), ONE), le(s.ex.slen(p1.v), num(32)), le(s.ex.slen(p1.v), lattigo.count(lattigo.fam(s.args[2].v))), le(s.ex.slen(p2.v), lattigo.count(lattigo.fam(s.args[3].v))), eq(modi(N, num(LANES)), ZERO)]


specs9.modup.own = modup_own
specs9.modup.trusted = None
specs9.modup.modes = [{'name': n, 'values': {'a2': ring(a), 'a3': ring(b), 'a4': TABLE(a, b)}, 'facts': modup_facts} for n, a, b in (('', 'Q', 'M'), ('QMul to Q', 'M', 'Q'), ('Q to P', 'Q', 'P'), ('P to Q', 'P', 'Q'))]


# ------------------------------------------------------------------ conversion tables
def bep_own(s):
    a, off, n = specs9.modulus_prefix(s, s.args[0])
    b, _, m = specs9.modulus_prefix(s, s.args[1])
    k = mk('bep', a, off, n, b, m)
    i, j, v = s.v('I', 'i'), s.v('I', 'j'), s.v('I', 'v')
    gi, gj = and_(ge(i, ZERO), lt(i, n)), and_(ge(j, ZERO), lt(j, m))
    gv = and_(ge(v, ZERO), le(v, n))
    with s.under(gj):
        q = target_prime(s.ex, s.st, k, j)
    with s.under(gi):
        qi = bep_inverse(s.ex, s.st, k, i)
    inv, cof, mul_ = s.newslice('[]uint64', n), s.newslice('[][]uint64', m), s.newslice('[][]uint64', m)
    s.wr(H.e(inv.v.args[0], i), qi, 'uint64', (i,), gi)
    for t, ln, x, g, val in ((cof, n, i, gi, bep_cofactor(k, i, q)), (mul_, add(n, ONE), v, gv, bep_multiple(k, v, q))):
        r0 = s.ex.site(s.node, s.tag())
        row = mk('new', r0.args[0], r0.args[1] + (j,))
        s.wr(H.e(t.v.args[0], j), slc(row, ZERO, ln), '[]uint64', (j,), gj)
        s.wr(H.e(row, x), val, 'uint64', (j, x), and_(gj, g))
    return mk('st', 'mkrlwe.modupParams', (('qoverqiinvqi', inv.v), ('qoverqimodp', cof.v), ('vtimesqmodp', mul_.v)))


def bep_facts(s):
    return [ge(s.ex.slen(s.args[0].v), ONE), ge(s.ex.slen(s.args[1].v), ONE)]


def SOME(name, count):
    def g(ex, st, p):
        lo, n = var('first'), var('many')
        return slc(mk('arr', f(root('ring' + name), 'Modulus')), lo, n)
    return g


def ALL(name, count):
    return lambda ex, st, p: slc(mk('arr', f(root('ring' + name), 'Modulus')), ZERO, count)


specs9.bep.own = bep_own
specs9.bep.trusted = None
def QP(ex, st, p):
    """the moduli of Q followed by those of P"""
    return slc(mk('arr', f(mk('sub', root('bep'), 'QP'), 'moduli')), ZERO, add(nQ, nP))


specs9.bep.modes = [
    {'name': 'M to Q', 'values': {'a0': SOME('M', nM), 'a1': ALL('Q', nQ)}, 'facts': lambda s: bep_facts(s) + [ge(var('first'), ZERO), le(add(var('first'), var('many')), nM)]},
    {'name': 'Q to QP', 'values': {'a0': SOME('Q', nQ), 'a1': QP}, 'facts': lambda s: bep_facts(s) + [ge(var('first'), ZERO), le(add(var('first'), var('many')), nQ)]},
    {'name': 'P to Q', 'values': {'a0': SOME('P', nP), 'a1': ALL('Q', nQ)}, 'facts': lambda s: bep_facts(s) + [ge(var('first'), ZERO), le(add(var('first'), var('many')), nP)]},
    {'name': 'Q to P', 'values': {'a0': SOME('Q', nQ), 'a1': ALL('P', nP)}, 'facts': lambda s: bep_facts(s) + [ge(var('first'), ZERO), le(add(var('first'), var('many')), nQ)]},
    {'values': {'a0': SOME('Q', nQ), 'a1': ALL('M', nM)}, 'facts': lambda s: bep_facts(s) + [ge(var('first'), ZERO), le(add(var('first'), var('many')), nQ)]}]


# ------------------------------------------------------------------ digit decomposition
@spec('mkrlwe.NewDecomposer', 'C12', modes=[{'values': {'a0': lambda ex, st, p: root('ringQ'), 'a1': lambda ex, st, p: root('ringP'), 'a2': lambda ex, st, p: GAMMA}},
                                            {'name': 'over R', 'values': {'a0': lambda ex, st, p: root('ringR'), 'a1': lambda ex, st, p: root('ringP'), 'a2': lambda ex, st, p: GAMMA}}])
def _(s):
    rq, rp, g = s.args
    a = lattigo.fam(rq.v)
    na = lattigo.count(a)
    r = s.new('mkrlwe.Decomposer')
    r.set('ringQ', rq)
    r.set('ringP', rp)
    l, i, j = s.v('I', 'l'), s.v('I', 'i'), s.v('I', 'j')
    gl = and_(ge(l, ZERO), lt(l, sub(nP, ONE)))
    gi = and_(gl, ge(i, ZERO), lt(i, groups(na, l)))
    gj = and_(gi, ge(j, ZERO), lt(j, sub(group_size(na, l, i), ONE)))
    t = s.newslice('[][][]mkrlwe.modupParams', sub(nP, ONE))
    row = s.ex.site(s.node, s.tag()).args[0]
    row2 = s.ex.site(s.node, s.tag()).args[0]
    s.wr(H.e(t.v.args[0], l), slc(mk('new', row, (l,)), ZERO, groups(na, l)), '[][]mkrlwe.modupParams', (l,), gl)
    s.wr(H.e(mk('new', row, (l,)), i), slc(mk('new', row2, (l, i)), ZERO, sub(group_size(na, l, i), ONE)), '[]mkrlwe.modupParams', (l, i), gi)
    k = digit_table(a, l, i, j)
    for fl in s.ex.d.fields('mkrlwe.modupParams'):
        s.wr(f(H.e(mk('new', row2, (l, i)), j), fl['n']), table_field(k, fl['n']), fl['t'], (l, i, j), gj)
    r.set('modUpParams', t)
    return r


def split_own(s):
    lq, lp, a, b, g, p0, q1, p1 = s.args
    specs5.within(s, lq.v, p0, q1)
    specs5.within(s, lp.v, p1)
    R = specs5.over_R(s)
    first = mul(b.v, al)
    c = gt(lq.v, sub(mul(al, add(b.v, ONE)), ONE))       # a digit before the last one at this level
    n = al if s.ex.decide(s.st, c) else add(modi(lq.v, al), ONE)       # primes of the digit
    fm = 'R' if R else 'Q'
    k = digit_table(fm, sub(mul(GAMMA, al), num(2)), b.v, sub(n, num(2)))
    one = eq(n, ONE)
    for p, f2, off, top in ((q1, 'Q', ZERO, lq.v), (p1, 'P', lattigo.count(fm), lp.v)):
        j, w = s.v('I', 'j'), fresh('I', 'w')
        g = and_(ge(j, ZERO), le(j, top))
        with s.under(g):
            o = p.limbaddr(j)
            with s.under(one):
                c1 = p0.limb(first)
            with s.under(not_(one), ge(w, ZERO), lt(w, N)):
                val = crt_value(s, k, lambda i: p0.Coeffs.at(add(first, i)).at(w).v, j, mk('q', f2, j))
        if R and f2 == 'Q':
            # limbs of QMul are left unspecified by the contract
            havoc_limbs(s, q1, nQ, nR)
        s.wr(o, c1, '#C', (j,), and_(g, one))
        s.wr(o, vec(mk('lamv', lam(w, val))), '#C', (j,), and_(g, not_(one)))


def split_facts(s):
    # the degree is a multiple of the eight lanes, digits fit the arrays of 32 words
    return [eq(modi(N, num(LANES)), ZERO), ge(N, num(LANES)), le(al, num(32)), ge(al, ONE), eq(nP, mul(num(2), al)), ge(s.args[0].v, ZERO), ge(s.args[1].v, ZERO)]


def split_lemmas(s, half):
    lq, b = s.args[0].v, s.args[3].v
    lo, m = mul(b, al), modi(lq, al)
    pos = [ge(al, ONE), ge(b, ZERO)]
    twice = mul(num(2), BETA)
    r = [(ge(lo, ZERO), pos)]
    if half is not None:
        whole = pos + [eq(nQ, mul(al, BETA))]
        r += [(eq(m, sub(al, ONE)), whole + [eq(lq, sub(nQ, ONE))]), (eq(modi(nR, al), ZERO), whole),
              lt(b, divi(sub(add(nR, al), ONE), al))]
    if half == 0:
        r += [(le(mul(al, add(b, ONE)), nQ), whole + [lt(b, BETA)])]
    elif half == 1:
        r += [(ge(lo, nQ), whole + [ge(b, BETA)]), (le(mul(al, add(b, ONE)), nR), whole + [lt(b, twice)])]
    if half != 1:
        level = pos + [ge(lq, ZERO), lt(b, beta_of(lq))]
        if half == 0:
            r += [lt(b, beta_of(lq))]
        r += [(le(lo, lq), level), (or_(ge(lq, add(lo, al)), eq(divi(lq, al), b)), pos + [le(lo, lq)]), or_(ge(lq, add(lo, al)), eq(m, sub(lq, lo)))]
    if half is None:
        r += [(lt(b, divi(sub(add(nQ, al), ONE), al)), level + [lt(lq, nQ)])]
    return r

specs5.decompose_and_split.own = split_own
specs5.decompose_and_split.trusted = None


def case(full, half=None):
    def facts(s):
        b = s.args[3].v
        c = ge(s.args[0].v, mul(al, add(b, ONE)))
        return split_facts(s) + [c if full else not_(c)] + ([lt(b, BETA)] if half == 0 else [ge(b, BETA)] if half == 1 else [])
    return {'facts': facts, 'lemmas': lambda s: split_lemmas(s, half)}


ARGS = {'a2': lambda ex, st, p: al, 'a4': lambda ex, st, p: GAMMA}
specs5.decompose_and_split.modes = [{'name': n, 'values': ARGS, **case(n == 'full digit')} for n in ('full digit', 'last digit')] + [
    {'name': 'over R, ' + n, 'values': ARGS, 'R': ['recv', 'a5', 'a6'], **case(full, half)}
    for n, full, half in (('digit of Q', True, 0), ('last digit of Q', False, 0), ('digit of QMul', False, 1))]
