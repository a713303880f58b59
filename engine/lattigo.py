"""Assumed contracts of lattigo's ring, sampler and big-integer operations (the dependency's interface).
Each entry is conformance-tested against the real library by the replay harness."""
from terms import *
from heap import *
import heap as H
import exec as X

N = var('N')
nQ, nP = var('nQ'), var('nP')
nM = nQ                  # Q and QMul have the same length (NewParametersFromLiteral refuses anything else)
RM = var('RM')           # Montgomery radix 2^64
COUNT = {'Q': nQ, 'P': nP, 'M': nM, 'T': ONE}
CONTRACTS = {}
USED = set()


def contract(*names):
    def d(fn):
        for n in names:
            def g(ex, st, recv, args, node, fn=fn, n=n):
                USED.add(n)
                return fn(ex, st, recv, args, node)
            CONTRACTS[n] = g
        return fn
    return d


def fam(r):
    if r.op == 'root' and r.args[0].startswith('ring'):
        return r.args[0][4:]
    raise Unsupported('unknown ring ' + show(r))


def parts(fm, j):
    """list of (guard, modulus term)"""
    if fm in ('R',):
        return [(lt(j, nQ), mk('q', 'Q', j)), (ge(j, nQ), mk('q', 'M', sub(j, nQ)))]
    if fm == 'T':
        return [(TRUE, mk('q', 'T', ZERO))]
    return [(TRUE, mk('q', fm, j))]


def count(fm):
    return add(nQ, nM) if fm == 'R' else COUNT[fm]


def qvar(ex, node, tag=''):
    return var('J%s#%s%s' % (ex.frames[-1].path, node['nid'], tag), 'I')


def coeffs(ex, st, p):
    return ex.load(st, f(p, 'Coeffs'), '[][]uint64')


def limb(ex, st, sl, j):
    if sl.op == 'ite':
        d = ex.decide(st, sl.args[0])
        if d is not None:
            return limb(ex, st, sl.args[1] if d else sl.args[2], j)
        s1, s2 = st.fork(), st.fork()
        s1.branch(sl.args[0])
        s2.branch(not_(sl.args[0]))
        return ite(sl.args[0], limb(ex, s1, sl.args[1], j), limb(ex, s2, sl.args[2], j))
    v = ex.load(st, H.e(sl.args[0], add(sl.args[1], j)), '[]uint64')
    return slice_arr(v)


def slice_arr(v):
    if v.op == 'ite':
        return ite(v.args[0], slice_arr(v.args[1]), slice_arr(v.args[2]))
    if v.op != 'slc':
        raise Unsupported('limb ' + show(v))
    if is_const(v.args[1]) != 0:
        raise Unsupported('offset limb')
    return v.args[0]


def content(ex, st, arr):
    return ex.rd(st, H.C(arr), '#C')


OVER = 8        # the primes are below 2^61: a word holds less than 8 times the modulus


def lazily(ex, v, q):
    """how lazily v is reduced modulo q: its residues are below (k + 1) q; OVER: they may have overflown the word"""
    return max([a.args[2] if a.op == 'vred' and a.args[1] is q else 1 if a.op == 'cont' and ex.lazy_operand(a.args[0]) else 0 for k in to_pd(v) for a in k[3]] or [0])


def limbwise(ex, st, fm, level, out, ins, fn, node, tag='', lazy=0, lo=None, sums=(), subs=(), prods=(), limit=OVER - 1):
    """forall 0<=j<=level: limb j of out := fn(j, q_j, contents of the inputs) reduced modulo q_j;
    operands `sums` are added (the result, below (lazy + 1) q for reduced operands, is only as reduced as they are),
    operands `subs` are subtracted from a multiple of the modulus (they must be reduced), the product of operands `prods`
    must stay below the modulus times the radix, no operand may be less reduced than `limit`"""
    polys = [out] + [p for p in ins if p is not None]
    cs = []
    for p in polys:
        p = ex.nonnil(st, p, node)
        s = coeffs(ex, st, p)
        cs.append(s)
        ex.panic_if(st, and_(ge(level, ZERO), ge(level, ex.slen(s))), 'limb index out of range', node)
    ex.panic_if(st, and_(ge(level, ZERO), ge(level, count(fm))), 'modulus index out of range', node)
    j = qvar(ex, node, tag)
    base = and_(ge(j, ZERO) if lo is None else ge(j, lo), le(j, level))
    writes = []
    for g, q in parts(fm, j):
        s2 = st.fork()
        gg = and_(base, g)
        s2.branch(gg)
        if g is not TRUE and ex.ctx.inconsistent(s2.pc):
            continue
        oarr = limb(ex, s2, cs[0], j)
        raw = [content(ex, s2, limb(ex, s2, c, j)) for c in cs[1:]]
        vals = [nf_mod(x, q) for x in raw]
        v = fn(j, q, *vals)
        k = [lazily(ex, x, q) for x in raw]
        lz = min(OVER, lazy + sum(k[i] for i in sums))
        if any(k[i] for i in subs) or any(x > limit for x in k) or len(prods) == 2 and (k[prods[0]] + 1) * (k[prods[1]] + 1) > OVER:
            v = vec(mk('opq', v))
        writes.append((H.C(oarr), vred(v, q, lz), gg))
    for a, v, gg in writes:
        ex.wr(st, a, v, '#C', (j,), gg)


# ------------------------------------------------------------------ ring arithmetic
def _bin(name, formula, lazy=0, acc=False, sums=(), subs=()):
    prods = (0, 1) if 'Montgomery' in name else ()

    def lv(ex, st, r, a, node):
        ins = [a[1], a[2]] + ([a[3]] if acc else [])
        limbwise(ex, st, fam(r), a[0], a[3], ins, lambda j, q, *v: formula(*v), node, lazy=lazy, sums=sums, subs=subs, prods=prods)
    contract('ring.Ring.%sLvl' % name)(lv)

    def nl(ex, st, r, a, node):
        n = minlevel(ex, st, r, a[:3])
        ins = [a[0], a[1]] + ([a[2]] if acc else [])
        limbwise(ex, st, fam(r), n, a[2], ins, lambda j, q, *v: formula(*v), node, lazy=lazy, sums=sums, subs=subs, prods=prods)
    contract('ring.Ring.%s' % name)(nl)


def _un(name, formula, lazy=0, full=False, subs=(), limit=OVER - 1):
    def lv(ex, st, r, a, node):
        limbwise(ex, st, fam(r), a[0], a[2], [a[1]], lambda j, q, *v: formula(*v), node, lazy=lazy, subs=subs, limit=limit)
    contract('ring.Ring.%sLvl' % name)(lv)

    def nl(ex, st, r, a, node):
        n = sub(count(fam(r)), ONE) if full else minlevel(ex, st, r, a[:2])
        limbwise(ex, st, fam(r), n, a[1], [a[0]], lambda j, q, *v: formula(*v), node, lazy=lazy, subs=subs, limit=limit)
    contract('ring.Ring.%s' % name)(nl)


def minlevel(ex, st, r, ps):
    n = sub(count(fam(r)), ONE)
    for p in ps:
        n = ex.minmax(st, n, sub(ex.slen(coeffs(ex, st, p)), ONE), True)
    return n


iRM = power(RM, -1)
_bin('Add', lambda a, b: add(a, b), sums=(0, 1))
_bin('AddNoMod', lambda a, b: add(a, b), lazy=1, sums=(0, 1))
_bin('Sub', lambda a, b: sub(a, b), sums=(0,), subs=(1,))
_bin('SubNoMod', lambda a, b: sub(a, b), lazy=1, sums=(0,), subs=(1,))
_bin('MulCoeffs', lambda a, b: vmul(a, b))
_bin('MulCoeffsConstant', lambda a, b: vmul(a, b), lazy=1)
_bin('MulCoeffsAndAdd', lambda a, b, c: add(c, vmul(a, b)), acc=True, sums=(2,))
_bin('MulCoeffsMontgomery', lambda a, b: mul(iRM, vmul(a, b)))
_bin('MulCoeffsMontgomeryConstant', lambda a, b: mul(iRM, vmul(a, b)), lazy=1)
_bin('MulCoeffsMontgomeryAndAdd', lambda a, b, c: add(c, mul(iRM, vmul(a, b))), acc=True, sums=(2,))
_bin('MulCoeffsMontgomeryAndAddNoMod', lambda a, b, c: add(c, mul(iRM, vmul(a, b))), acc=True, lazy=1, sums=(2,))
_bin('MulCoeffsMontgomeryConstantAndAddNoMod', lambda a, b, c: add(c, mul(iRM, vmul(a, b))), acc=True, lazy=2, sums=(2,))
_bin('MulCoeffsMontgomeryAndSub', lambda a, b, c: sub(c, mul(iRM, vmul(a, b))), acc=True, sums=(2,))
_bin('MulCoeffsMontgomeryAndSubNoMod', lambda a, b, c: sub(c, mul(iRM, vmul(a, b))), acc=True, lazy=1, sums=(2,))
_un('Neg', lambda a: neg(a), subs=(0,))
_un('Reduce', lambda a: a)
_un('ReduceConstant', lambda a: a, lazy=1)
_un('MForm', lambda a: mul(RM, a))
_un('InvMForm', lambda a: mul(iRM, a))
_un('NTT', lambda a: shift(a, 1), full=True)
_un('NTTLazy', lambda a: shift(a, 1), lazy=1, full=True)
_un('InvNTT', lambda a: shift(a, -1), full=True, limit=1)
_un('InvNTTLazy', lambda a: shift(a, -1), lazy=1, full=True, limit=1)


@contract('ring.NTTLazy', 'ring.NTT', 'ring.InvNTT', 'ring.InvNTTLazy')
def ntt_limb(ex, st, r, a, node):
    name = node['fn']['name']
    src, dst = slice_arr(a[0]), slice_arr(a[1])
    q = a[4]
    for x in a:
        if x.op == 'q':
            q = x
            break
    else:
        raise Unsupported('NTT with unknown modulus')
    inv = 'Inv' in name
    psi, tw = a[3].args[0] if a[3].op == 'slc' else NIL, mk('arr', mk('sub', root('NttPsiInv' if inv else 'NttPsi'), q))
    if psi is not tw or not any(x is mk('qinv', q) for x in a):
        if psi.op != 'arr' or psi.args[0].op != 'sub':
            raise Unsupported('NTT with unknown constants')
        # constants of another prime, or of the other direction
        ex.wr(st, H.C(dst), vec(mk('badntt', psi, content(ex, st, src))), '#C')
        return
    v = content(ex, st, src)
    bad = lazily(ex, v, q) > (1 if inv else OVER - 1)
    v = nf_mod(v, q)
    v = vec(mk('opq', v)) if bad else v
    ex.wr(st, H.C(dst), vred(shift(v, -1 if 'Inv' in name else 1), q, 1 if 'Lazy' in name else 0), '#C')


@contract('ring.Ring.MulScalar')
def mulscalar(ex, st, r, a, node):
    n = minlevel(ex, st, r, [a[0], a[2]])
    limbwise(ex, st, fam(r), n, a[2], [a[0]], lambda j, q, v: mul(nf_mod(a[1], q), v), node)


@contract('ring.Ring.MulScalarLvl')
def mulscalarlvl(ex, st, r, a, node):
    limbwise(ex, st, fam(r), a[0], a[3], [a[1]], lambda j, q, v: mul(nf_mod(a[2], q), v), node)


@contract('ring.Ring.MulScalarBigint')
def mulscalarbig(ex, st, r, a, node):
    b = big(ex, st, a[1])
    n = minlevel(ex, st, r, [a[0], a[2]])
    limbwise(ex, st, fam(r), n, a[2], [a[0]], lambda j, q, v: mul(b, v), node)


@contract('ring.Ring.MulScalarBigintLvl')
def mulscalarbiglvl(ex, st, r, a, node):
    b = big(ex, st, a[2])
    limbwise(ex, st, fam(r), a[0], a[3], [a[1]], lambda j, q, v: mul(b, v), node)


@contract('ring.Ring.AddScalar', 'ring.Ring.SubScalar')
def addscalar(ex, st, r, a, node):
    n = sub(count(fam(r)), ONE)
    s = 1 if node['fn']['fn'].endswith('AddScalar') else -1
    limbwise(ex, st, fam(r), n, a[2], [a[0]], lambda j, q, v: add(v, mul(num(s), a[1], vec(mk('onesv')))), node)


@contract('ring.Ring.AddScalarBigint', 'ring.Ring.SubScalarBigint')
def addscalarbig(ex, st, r, a, node):
    n = sub(count(fam(r)), ONE)
    b = big(ex, st, a[1])
    s = 1 if 'Add' in node['fn']['fn'] else -1
    limbwise(ex, st, fam(r), n, a[2], [a[0]], lambda j, q, v: add(v, mul(num(s), b, vec(mk('onesv')))), node)


# ------------------------------------------------------------------ scalars
def modarg(args):
    for x in args:
        if x.op == 'q':
            return x
    raise Unsupported('scalar reduction with unknown modulus: ' + ', '.join(show(x) for x in args))


def aux_of(ex, st, aux, q, kind):
    """whether aux is the precomputed constant of modulus q that a scalar reduction needs"""
    if kind == 'm':
        w = mk('qinv', q)
        return aux is w or ex.decide(st, eq(aux, w)) is True
    return aux is slc(mk('arr', mk('sub', root('bredp'), q)), ZERO, num(2)) or (
        aux.op == 'slc' and aux.args[0].op == 'arr' and aux.args[0].args[0].op == 'sub' and aux.args[0].args[0].args[0] is root('bredp')
        and ex.decide(st, eq(aux.args[0].args[0].args[1], q)) is True)


def misused(a):
    """what a reduction gives with the constants of another modulus: unspecified"""
    return mk('modexp', *a)


def multiples(p, q, cont=1):
    """(lo, hi): bounds of p as multiples of q when its terms are known to be reduced; None if they are not;
    cont is the bound (in multiples of q) of residues given to the function"""
    lo = hi = 0
    for (bs, mono, d, va), c in to_pd(p).items():
        if bs or d != SC or va or len(mono) != 1 or mono[0][1] != 1:
            return None
        x = mono[0][0]
        if x is q:
            lo, hi = lo + c, hi + c
            continue
        if x.op == 'red' and x.args[1] is q:
            n = 1
        elif x.op == 'at' and x.args[0].op == 'vred' and x.args[0].args[1] is q:
            n = 2 if x.args[0].args[2] else 1
        elif x.op == 'at' and x.args[0].op == 'cont':
            n = cont
        else:
            return None
        if c > 0:
            hi += c * n
        else:
            lo += c * n
    return lo, hi


def wraps(x, q):
    """whether the unsigned expression x may be negative (residues below 2q are allowed as inputs)"""
    b = multiples(x, q, 2)
    return b is not None and b[0] < 0


def reduced(node, p, q):
    # the constant-time variants leave a value below twice the modulus
    return lz(p, q) if node['fn'].get('fn', node['fn'].get('name', '')).endswith('Constant') else red(p, q)


@contract('ring.MRed', 'ring.MRedConstant')
def mred(ex, st, r, a, node):
    if not aux_of(ex, st, a[3], a[2], 'm') or wraps(a[0], a[2]) or wraps(a[1], a[2]):
        return misused(a)
    return reduced(node, mul(iRM, nf_mod(a[0], a[2]), nf_mod(a[1], a[2])), a[2])


@contract('ring.BRed', 'ring.BRedConstant')
def bred(ex, st, r, a, node):
    if not aux_of(ex, st, a[3], a[2], 'b'):
        return misused(a)
    return reduced(node, mul(nf_mod(a[0], a[2]), nf_mod(a[1], a[2])), a[2])


@contract('ring.CRed')
def cred(ex, st, r, a, node):
    # one conditional subtraction: the argument must be below 2q
    b = multiples(a[0], a[1])
    if b is not None and (b[0] < 0 or b[1] > 2):
        return misused(a)
    return red(a[0], a[1])


@contract('ring.BRedAdd', 'ring.BRedAddConstant')
def bredadd(ex, st, r, a, node):
    if not aux_of(ex, st, a[2], a[1], 'b'):
        return misused(a)
    return reduced(node, a[0], a[1])


@contract('ring.MForm', 'ring.MFormConstant')
def mform(ex, st, r, a, node):
    if not aux_of(ex, st, a[2], a[1], 'b'):
        return misused(a)
    return reduced(node, mul(RM, a[0]), a[1])


@contract('ring.InvMForm', 'ring.InvMFormConstant')
def invmform(ex, st, r, a, node):
    if not aux_of(ex, st, a[2], a[1], 'm'):
        return misused(a)
    return reduced(node, mul(iRM, a[0]), a[1])


@contract('ring.ModExp')
def modexp(ex, st, r, a, node):
    x, e_, q = a
    if e_ is sub(q, num(2)):
        return red(power(nf_mod(x, q), -1), q)
    return red(mk('modexp', nf_mod(x, q), e_), q)


@contract('ring.ModexpMontgomery')
def modexpm(ex, st, r, a, node):
    x, e_, q = a[0], a[1], a[2]
    if not aux_of(ex, st, a[3], q, 'm') or not aux_of(ex, st, a[4], q, 'b'):
        return misused(a)
    y = mul(iRM, nf_mod(x, q))
    if e_ is sub(q, num(2)):
        return red(mul(RM, power(y, -1)), q)
    return red(mul(RM, mk('modexp', y, e_)), q)


# ------------------------------------------------------------------ 128-bit arithmetic: RM is the word size 2^64
def as_word(x):
    """the machine word of an unsigned expression"""
    c = is_const(x)
    if c is not None and c >= 0:
        return x
    pd = to_pd(x)
    if len(pd) == 1:
        (k, c), = pd.items()
        if c == 1 and not k[0] and k[2] == SC and len(k[1]) == 1 and k[1][0][1] == 1:
            return x
    return red(x, RM)


def high(x):
    return mul(iRM, sub(x, red(x, RM)))


@contract('bits.Mul64')
def mul64(ex, st, r, a, node):
    x = mul(as_word(a[0]), as_word(a[1]))
    return mk('tup', high(x), red(x, RM))


@contract('bits.Add64')
def add64(ex, st, r, a, node):
    x = add(as_word(a[0]), as_word(a[1]), a[2])
    return mk('tup', red(x, RM), high(x))


@contract('ring.BRedParams')
def bredparams(ex, st, r, a, node):
    return slc(mk('arr', mk('sub', root('bredp'), a[0])), ZERO, num(2))


@contract('ring.MRedParams')
def mredparams(ex, st, r, a, node):
    return mk('qinv', a[0])


@contract('utils.MinInt', 'utils.MinUint64')
def minint(ex, st, r, a, node):
    return ex.minmax(st, a[0], a[1], True)


@contract('utils.MaxInt', 'utils.MaxUint64')
def maxint(ex, st, r, a, node):
    return ex.minmax(st, a[0], a[1], False)


@contract('utils.MaxFloat64', 'math.Max')
def maxf(ex, st, r, a, node):
    if a[0] is a[1]:
        return a[0]
    d = ex.decide(st, fle(a[0], a[1]))
    if d is not None:
        return a[1] if d else a[0]
    x, y = sorted(a)
    return ite(fle(x, y), y, x)


@contract('utils.MinFloat64', 'math.Min')
def minf(ex, st, r, a, node):
    if a[0] is a[1]:
        return a[0]
    x, y = sorted(a)
    return ite(fle(x, y), x, y)


@contract('math.Ceil')
def ceil(ex, st, r, a, node):
    x = a[0]
    if x.op == 'f./':
        n, d = x.args
        n = n.args[0] if n.op == 'i2f' else num(int(float(n.args[0]))) if n.op == 'fc' and float(n.args[0]) == int(float(n.args[0])) else None
        d = d.args[0] if d.op == 'i2f' else num(int(float(d.args[0]))) if d.op == 'fc' and float(d.args[0]) == int(float(d.args[0])) else None
        if n is not None and d is not None:
            return mk('i2f', divi(sub(add(n, d), ONE), d))
    if x.op == 'fc':
        import math
        return fconst(math.ceil(float(x.args[0])))
    return mk('f.ceil', x)


@contract('math.Floor')
def floor(ex, st, r, a, node):
    x = a[0]
    if x.op == 'f./' and x.args[0].op == 'i2f' and x.args[1].op == 'i2f':
        return mk('i2f', divi(x.args[0].args[0], x.args[1].args[0]))
    return mk('f.floor', x)


@contract('math.Log2', 'math.Sqrt', 'math.Abs', 'math.Round', 'math.Trunc', 'math.Log')
def mathf(ex, st, r, a, node):
    x = a[0]
    nm = node['fn']['name'].split('.')[1]
    if x.op == 'fc':
        import math
        return fconst({'Log2': math.log2, 'Sqrt': math.sqrt, 'Abs': abs, 'Trunc': math.trunc, 'Log': math.log}.get(nm, lambda y: math.copysign(math.floor(abs(y) + 0.5), y))(float(x.args[0])))
    if nm in ('Trunc', 'Round') and x.op in ('f.floor', 'f.ceil', 'f.trunc', 'i2f'):
        return x
    return mk('f.' + nm.lower(), x)


@contract('math.Pow')
def mathpow(ex, st, r, a, node):
    return mk('f.pow', a[0], a[1])


@contract('bits.Len64')
def len64(ex, st, r, a, node):
    x = a[0]
    if x is N:
        return add(var('logN'), ONE)
    if x is sub(N, ONE):
        return var('logN')
    return mk('bitlen', x)


ERROR = mk('iface', '*errors.errorString', root('error'))     # which error it is does not matter


@contract('errors.New', 'fmt.Errorf')
def errnew(ex, st, r, a, node):
    return ERROR


@contract('fmt.Println', 'fmt.Printf', 'fmt.Print')
def fmtp(ex, st, r, a, node):
    return mk('tup', ZERO, NIL)


@contract('fmt.Sprintf', 'fmt.Sprint')
def fmts(ex, st, r, a, node):
    return mk('sini', ex.site(node))


# ------------------------------------------------------------------ big integers
def big(ex, st, p):
    p = ex.nonnil(st, p, {'line': 0})
    return ex.rd(st, f(p, '#big'), 'int')


def setbig(ex, st, p, v):
    ex.wr(st, f(p, '#big'), v, 'int')
    return p


def newbig(ex, st, node, v):
    return setbig(ex, st, ex.site(node, 'big'), v)


contract('ring.NewUint')(lambda ex, st, r, a, n: newbig(ex, st, n, a[0]))
contract('big.NewInt', 'ring.NewInt')(lambda ex, st, r, a, n: newbig(ex, st, n, a[0]))
contract('big.Int.SetUint64', 'big.Int.SetInt64')(lambda ex, st, r, a, n: setbig(ex, st, r, a[0]))
contract('big.Int.Set')(lambda ex, st, r, a, n: setbig(ex, st, r, big(ex, st, a[0])))
contract('big.Int.Mul')(lambda ex, st, r, a, n: setbig(ex, st, r, mul(big(ex, st, a[0]), big(ex, st, a[1]))))
contract('big.Int.Add')(lambda ex, st, r, a, n: setbig(ex, st, r, add(big(ex, st, a[0]), big(ex, st, a[1]))))
contract('big.Int.Sub')(lambda ex, st, r, a, n: setbig(ex, st, r, sub(big(ex, st, a[0]), big(ex, st, a[1]))))
contract('big.Int.Neg')(lambda ex, st, r, a, n: setbig(ex, st, r, neg(big(ex, st, a[0]))))
contract('big.Int.Uint64', 'big.Int.Int64')(lambda ex, st, r, a, n: big(ex, st, r))


def exact_div(x, y):
    """x / y when y visibly divides x"""
    yd = to_pd(y)
    if len(yd) == 1:
        (k, c), = yd.items()
        inv = {((), tuple((t, -e_) for t, e_ in k[1]), SC, ()): 1}
        if c == 1 and k[2] == SC and not k[0]:
            z = pd_mul(to_pd(x), inv)
            if all(e_ > 0 for kk in z for t, e_ in kk[1]):
                return from_pd(z)
    return None


@contract('big.Int.Div', 'big.Int.Quo')
def bigdiv(ex, st, r, a, n):
    x, y = big(ex, st, a[0]), big(ex, st, a[1])
    z = exact_div(x, y)
    return setbig(ex, st, r, z if z is not None else divi(x, y))


@contract('big.Int.Mod')
def bigmod(ex, st, r, a, n):
    x, y = big(ex, st, a[0]), big(ex, st, a[1])
    return setbig(ex, st, r, red(x, y) if y.op == 'q' else modi(x, y))


@contract('big.Int.ModInverse')
def bigmodinv(ex, st, r, a, n):
    x, y = big(ex, st, a[0]), big(ex, st, a[1])
    return setbig(ex, st, r, mk('modinv', x, y))


@contract('big.Int.Cmp')
def bigcmp(ex, st, r, a, n):
    x, y = big(ex, st, r), big(ex, st, a[0])
    return ite(lt(x, y), num(-1), ite(eq(x, y), ZERO, ONE))


@contract('big.Int.Exp')
def bigexp(ex, st, r, a, n):
    x, y = big(ex, st, a[0]), big(ex, st, a[1])
    m = big(ex, st, a[2])
    return setbig(ex, st, r, mk('modexp', x, y) if m is not None else x)


# ------------------------------------------------------------------ samplers
def sampler(kind):
    def c(ex, st, r, a, node):
        s = ex.site(node)
        ex.wr(st, f(s, '#kind'), string('keyed ' + kind if keyed(a[0]) else kind), 'string')
        ring = a[1]
        ex.wr(st, f(s, '#ring'), ring, '*ring.Ring')
        for i, x in enumerate(a[2:]):
            ex.wr(st, f(s, '#p%d' % i), x, '#any')
        return s
    return c


contract('ring.NewGaussianSampler')(sampler('gauss'))
contract('ring.NewTernarySampler')(sampler('ternary'))
contract('ring.NewTernarySamplerSparse')(sampler('sparse'))
contract('ring.NewUniformSampler')(sampler('uniform'))


def attr(ex, st, s, n, t):
    return ex.rd(st, f(s, n), t)


def distr(ex, st, s):
    """description of the distribution a sampler draws from: (kind, parameters, montgomery form?)"""
    k = attr(ex, st, s, '#kind', 'string')
    if k.op != 'str':
        raise Unsupported('sampler of unknown kind ' + show(s))
    k = k.args[0]
    if k == 'gauss':
        return k, (attr(ex, st, s, '#p0', '#any'), attr(ex, st, s, '#p1', '#any')), FALSE
    if k in ('ternary', 'sparse'):
        return k, (attr(ex, st, s, '#p0', '#any'),), attr(ex, st, s, '#p1', '#any')
    return k, (), FALSE


def draw(ex, node, kind, ps, extra=()):
    """a fresh draw: identified by the program point and the enclosing iterations"""
    s = ex.site(node, 'draw')
    ex.draws.append(s)
    return mk('draw', kind, ps, s.args[0], s.args[1] + tuple(extra))


def sample(ex, st, s, level, pol, node, acc):
    s = ex.nonnil(st, s, node)
    kind, ps, mont = distr(ex, st, s)
    ring = attr(ex, st, s, '#ring', '*ring.Ring')
    fm = fam(ring)
    if mont is not FALSE and mont is not TRUE:
        raise Unsupported('montgomery flag of sampler')
    sc = RM if mont is TRUE else ONE
    if level is None:
        level = sub(ex.slen(coeffs(ex, st, pol)), ONE)
        if kind in ('uniform', 'ternary', 'sparse', 'gauss'):
            level = sub(count(fm), ONE)
    if kind == 'uniform':
        fn = lambda j, q, *v: vec(draw(ex, node, 'uniform', (fm,), (j,)))
    else:
        d = draw(ex, node, kind, ps)
        fn = lambda j, q, *v: add(*(list(v) + [mul(sc, vec(d))]))
    limbwise(ex, st, fm, level, pol, [pol] if acc else [], fn, node)


for _c in ('Gaussian', 'Ternary', 'Uniform'):
    contract('ring.%sSampler.Read' % _c)(lambda ex, st, r, a, n: sample(ex, st, r, None, a[0], n, False))
    contract('ring.%sSampler.ReadLvl' % _c)(lambda ex, st, r, a, n: sample(ex, st, r, a[0], a[1], n, False))
contract('ring.Sampler.Read')(lambda ex, st, r, a, n: sample(ex, st, r.args[1] if r.op == 'iface' else r, None, a[0], n, False))
contract('ring.GaussianSampler.ReadAndAddLvl')(lambda ex, st, r, a, n: sample(ex, st, r, a[0], a[1], n, True))
contract('ring.GaussianSampler.ReadAndAdd')(lambda ex, st, r, a, n: sample(ex, st, r, None, a[0], n, True))


@contract('utils.NewPRNG')
def newprng(ex, st, r, a, node):
    s = ex.site(node)
    return mk('tup', s, NIL)


@contract('utils.NewKeyedPRNG')
def newkprng(ex, st, r, a, node):
    # every generator with that key yields the same stream: nothing drawn from it is fresh
    return mk('tup', mk('sub', root('keyedprng'), ex.site(node)), NIL)


def keyed(x):
    while x.op == 'iface':
        x = x.args[1]
    return x.op == 'sub' and x.args[0] is root('keyedprng')


# ------------------------------------------------------------------ small-norm extension
def small_atom(v, q):
    """v (content of limb 0) reduced from one small integer polynomial that does not depend on the modulus"""
    v = nf_mod(v, q)
    for key, c in to_pd(v).items():
        if key[0] or key[2] != 0 or len(key[3]) != 1:
            return None
        if any(contains_mod(a) for a, e_ in key[1]):
            return None
        if key[3][0].op != 'draw' or key[3][0].args[0] == 'uniform':
            return None
        if key[1]:
            return None
    return v


def contains_mod(a):
    return a is RM or a.op in ('q', 'red')


@contract('rlwe.RingQP.ExtendBasisSmallNormAndCenter')
def extsmall(ex, st, r, a, node):
    pin, lvlP, outQ, outP = a
    q0 = mk('q', 'Q', ZERO)
    cin = coeffs(ex, st, pin)
    v = content(ex, st, limb(ex, st, cin, ZERO))
    sm = small_atom(v, q0)
    if sm is None:
        sm = vec(mk('center', nf_mod(v, q0)))
    ringQ, ringP = root('ringQ'), root('ringP')
    if pin is not outQ and outQ is not NIL:
        n = sub(ex.slen(cin), ONE)
        limbwise(ex, st, 'Q', n, outQ, [pin], lambda j, q, x: x, node, tag='c')
    limbwise(ex, st, 'P', lvlP, outP, [], lambda j, q: sm, node)


# ------------------------------------------------------------------ automorphisms
HALF = divi(N, num(2))


def gcomp(g, h):
    """composition of Galois elements, as exponents of the generator plus conjugation bit"""
    return mk('gal', gnorm(add(g.args[0], h.args[0])), (g.args[1] + h.args[1]) % 2)


def gnorm(k):
    pd = to_pd(k)
    return k


def aut(g, v):
    """ring automorphism on a vector polynomial (coefficient-domain meaning)"""
    acc = {}
    for key, c in to_pd(v).items():
        import terms
        fr, mono, d, va = terms._open(key)
        if d == 0 and len(va) >= 1:
            pr = {((), tuple(sorted(mono, key=lambda x: x[0].id)), 0, ()): c}
            for x in va:
                pr = pd_conv(pr, to_pd(autatom(g, x)), 0)
        elif not va:
            pr = {((), tuple(sorted(mono, key=lambda x: x[0].id)), d, ()): c}
        elif len(va) == 1 and False:
            pr = {}
        else:
            inner = from_pd({((), (), d, va): 1})
            pr = pd_mul({((), tuple(sorted(mono, key=lambda x: x[0].id)), SC, ()): c}, to_pd(autopq(g, inner)))
        if fr:
            pr = pd_sum(pr, fr)
        pd_addto(acc, pr)
    return from_pd(acc)


def autopq(g, inner):
    return vec(mk('aut', g, inner))


def autatom(g, x):
    if is_id(g):
        return vec(x)
    if x.op == 'aut':
        h = x.args[0]
        g2 = gcomp(g, h)
        inner = x.args[1]
        if is_id(g2):
            return inner if inner.op == 'p' else vec(inner)
        if inner.op == 'p':
            return vec(mk('aut', g2, inner))
        return vec(mk('aut', g2, inner))
    if x.op == 'vred':
        return vec(mk('vred', aut(g, x.args[0]), x.args[1], x.args[2]))
    return vec(mk('aut', g, x))


def _aut_build(g, x):
    if x.op == 'p':
        return aut(g, x)
    r = autatom(g, x)
    (k, c), = to_pd(r).items()
    if len(k[3]) == 1 and k[2] == 0 and c == 1 and not k[1]:
        return k[3][0]
    return r


BUILD['aut'] = _aut_build


def is_id(g):
    if g.args[1]:
        return False
    k = g.args[0]
    if is_const(k) == 0:
        return True
    return False


def gal_of(t):
    """decode an integer Galois element"""
    if t.op == 'gal':
        return t
    if is_const(t) == 1:
        return mk('gal', ZERO, 0)
    raise Unsupported('unknown Galois element ' + show(t))


contract('rlwe.Parameters.GaloisElementForColumnRotationBy')(lambda ex, st, r, a, n: mk('gal', a[0], 0))
contract('rlwe.Parameters.GaloisElementForRowRotation')(lambda ex, st, r, a, n: mk('gal', ZERO, 1))


@contract('rlwe.Parameters.InverseGaloisElement')
def invgal(ex, st, r, a, n):
    g = gal_of(a[0])
    return mk('gal', neg(g.args[0]), g.args[1])


@contract('ring.PermuteNTTIndex')
def permidx(ex, st, r, a, node):
    g = gal_of(a[0])
    return slc(mk('arr', mk('sub', root('permidx'), g)), ZERO, a[1])


def idx_gal(s):
    a = s.args[0]
    if a.op == 'arr' and a.args[0].op == 'sub' and a.args[0].args[0] is root('permidx'):
        return a.args[0].args[1]
    raise Unsupported('unknown permutation index ' + show(s))


def permntt(g, v):
    return shift(aut(g, shift(v, -1)), 1)


def fam_of_poly(ex, st, p):
    """which modulus family a polynomial of unknown ring lives in (by its provenance)"""
    return None


@contract('rlwe.RingQP.PermuteNTTWithIndexLvl')
def permqp(ex, st, r, a, node):
    lq, lp, p1, idx, p2 = a
    g = idx_gal(idx)
    q1, pp1 = ex.getfield(st, p1, 'Q', None), ex.getfield(st, p1, 'P', None)
    q2, pp2 = ex.getfield(st, p2, 'Q', None), ex.getfield(st, p2, 'P', None)
    limbwise(ex, st, 'Q', lq, q2, [q1], lambda j, q, v: permntt(g, v), node, 'Q')
    limbwise(ex, st, 'P', lp, pp2, [pp1], lambda j, q, v: permntt(g, v), node, 'P')


@contract('ring.PermuteNTTWithIndexLvl')
def permlvl(ex, st, r, a, node):
    level, p1, idx, p2 = a
    g = idx_gal(idx)
    fm = ex.poly_family(st, p1) or ex.poly_family(st, p2)
    if fm is None:
        raise Unsupported('automorphism on polynomial of unknown ring ' + show(p1))
    limbwise(ex, st, fm, level, p2, [p1], lambda j, q, v: permntt(g, v), node)


@contract('ring.Ring.Permute')
def permute(ex, st, r, a, node):
    pin, gen, pout = a
    g = gal_of(gen)
    # iterates over all moduli of the ring
    limbwise(ex, st, fam(r), sub(count(fam(r)), ONE), pout, [pin], lambda j, q, v: aut(g, v), node)


# ------------------------------------------------------------------ rescaling
@contract('ring.Ring.DivRoundByLastModulusLvl')
def divround(ex, st, r, a, node):
    level, p0, p1 = a
    divround1(ex, st, r, level, p0, p1, node, '')


def divround1(ex, st, r, level, p0, p1, node, tag):
    """p1_i := (p0_i - lift(p0_level)) / q_level, and the top limb of p0 is left shifted by half"""
    fm = fam(r)
    ex.panic_if(st, lt(level, ZERO), 'modulus index out of range', node)
    c0 = coeffs(ex, st, p0)
    ex.panic_if(st, ge(level, ex.slen(c0)), 'limb index out of range', node)
    ql = mk('q', fm, level)
    top = nf_mod(content(ex, st, limb(ex, st, c0, level)), ql)
    ro = mk('rnd', top, ql)     # centred representative of the top residue
    iq = power(ql, -1)
    limbwise(ex, st, fm, sub(level, ONE), p1, [p0], lambda j, q, v: mul(iq, sub(v, vec(ro))), node, tag)
    ex.wr(st, H.C(limb(ex, st, c0, level)), vred(add(top, mul(mk('halfq', ql), vec(mk('onesv')))), ql), '#C')


def drm(fm, level, nb, src, j):
    """residue j of the polynomial with residues src(0..level) divided, with rounding, by its last nb primes in turn"""
    x = var('Jd', 'I')
    return vec(mk('drm', fm, level, nb, lam(x, src(x)), j))


@contract('ring.Ring.DivRoundByLastModulusManyLvl')
def divround_many(ex, st, r, a, node):
    level, nb, p0, pool, p1 = a
    fm = fam(r)
    ex.panic_if(st, and_(ge(nb, ONE), or_(lt(level, ZERO), gt(nb, add(level, ONE)))), 'modulus index out of range', node)
    c0 = coeffs(ex, st, p0)
    ex.panic_if(st, and_(ge(nb, ONE), ge(level, ex.slen(c0))), 'limb index out of range', node)
    cp = coeffs(ex, st, pool)
    ex.panic_if(st, and_(gt(nb, ONE), gt(level, ex.slen(cp))), 'limb index out of range', node)
    d = ex.decide(st, ge(nb, ONE))
    if d is False:
        ex.panic_if(st, lt(nb, ZERO), 'negative number of divisions', node)
        if p0 is not p1:
            limbwise(ex, st, fm, level, p1, [p0], lambda j, q, v: v, node)
        return
    if d is None:
        raise Unsupported('division by an unknown number of primes')
    pre = st.fork()

    def src(x):
        s2 = pre.fork()
        s2.branch(and_(ge(x, ZERO), le(x, level)))
        return nf_mod(content(ex, s2, limb(ex, s2, c0, x)), mk('q', fm, x))
    limbwise(ex, st, fm, sub(level, nb), p1, [p0], lambda j, q, v: drm(fm, level, nb, src, j), node)
    # the remaining residues of the operand and the scratch polynomial are left unspecified
    many = ex.decide(st, gt(nb, ONE))
    h = vec(mk('hv', ex.site(node, 'top').args[0], ex.site(node, 'top').args[1]))
    ex.wr(st, H.C(limb(ex, st, c0, level)), h, '#C')
    if many is not False:
        j = qvar(ex, node, 'pool')
        g = and_(ge(j, ZERO), lt(j, level), gt(nb, ONE))
        s2 = st.fork()
        s2.branch(g)
        if not ex.ctx.inconsistent(s2.pc):
            t = ex.site(node, 'pool')
            ex.wr(st, H.C(limb(ex, s2, cp, j)), vec(mk('hv', t.args[0], t.args[1] + (j,))), '#C', (j,), g)


@contract('ring.FastBasisExtender.ModDownQPtoQ')
def moddown(ex, st, r, a, node):
    lq, lp, p1Q, p1P, p2Q = a
    MD(ex, st, lq, lp, p1Q, p1P, p2Q, node)


def MD(ex, st, lq, lp, p1Q, p1P, p2Q, node):
    """p2Q_j := (p1Q_j - lift of p1P) / P modulo q_j"""
    cP = coeffs(ex, st, p1P)
    ex.panic_if(st, ge(lp, ex.slen(cP)), 'limb index out of range', node)
    x = var('Jx', 'I')
    s2 = st.fork()
    s2.branch(and_(ge(x, ZERO), le(x, lp)))
    fx = lam(x, nf_mod(content(ex, s2, limb(ex, s2, cP, x)), mk('q', 'P', x)))
    up = mk('lift', 'P', lp, fx)
    iP = power(prod('P', lp), -1)
    limbwise(ex, st, 'Q', lq, p2Q, [p1Q], lambda j, q, v: mul(iP, sub(v, vec(up))), node)


def prod_primes(fm, lo, hi):
    """product of the primes lo..hi of a chain (not empty)"""
    if lo is ZERO:
        return prod(fm, hi)
    if lo is hi:
        return mk('q', fm, lo)
    return mk('prange', fm, lo, hi)


def prod(fm, level):
    if level is sub(COUNT[fm], ONE):
        return var('prod' + fm)
    return mk('prodl', fm, level)


@contract('ring.NewFastBasisExtender')
def newfbe(ex, st, r, a, node):
    s = ex.site(node)
    ex.wr(st, f(s, '#ringQ'), a[0], '*ring.Ring')
    ex.wr(st, f(s, '#ringP'), a[1], '*ring.Ring')
    return s


@contract('ring.NewDecomposer')
def newdecomposer(ex, st, r, a, node):
    s = ex.site(node)
    ex.wr(st, f(s, '#ringQ'), a[0], '*ring.Ring')
    ex.wr(st, f(s, '#ringP'), a[1], '*ring.Ring')
    return s


@contract('rlwe.Parameters.Beta')
def rlwe_beta(ex, st, r, a, node):
    # length of a buffer of the library's own key switcher, which this code base does not use
    st.fact(ge(var('rlwebeta'), ZERO))
    return var('rlwebeta')


INLINE = {'rlwe.NewKeySwitcher', 'rlwe.newKeySwitcherBuffer', 'ring.NewPoly', 'ring.Poly', 'rlwe.RingQP', 'ring.Ring.NewPoly', 'rlwe.PolyQP', 'ring.CopyValues', 'ring.CopyValuesLvl', 'rlwe.Plaintext', 'rlwe.NewPlaintext'}


# ------------------------------------------------------------------ encoders of the two schemes
@contract('ckks.NewParameters')
def ckks_params(ex, st, r, a, node):
    return mk('tup', mk('st', 'ckks.Parameters', (('Parameters', a[0]), ('logSlots', a[1]), ('scale', a[2]))), NIL)


contract('ckks.NewEncoder')(lambda ex, st, r, a, node: mk('iface', '#ckksEncoder', mk('encoder', 'ckks')))


@contract('ckks.Parameters.LogSlots')
def ckks_logslots(ex, st, r, a, node):
    return ex.getfield(st, r, 'logSlots', 'int')


@contract('ckks.Parameters.Scale')
def ckks_scale(ex, st, r, a, node):
    return ex.getfield(st, r, 'scale', 'float64')


@contract('ckks.NewPlaintext')
def ckks_plaintext(ex, st, r, a, node):
    pt = ex.inline(st, 'rlwe.NewPlaintext', None, [ex.getfield(st, a[0], 'Parameters', 'rlwe.Parameters'), a[1]], node)
    ex.wr(st, f(ex.load(st, f(pt, 'Value'), '*ring.Poly'), 'IsNTT'), TRUE, 'bool')
    s = ex.site(node, 'pt')
    ex.wr(st, f(s, 'Plaintext'), pt, '*rlwe.Plaintext')
    ex.wr(st, f(s, 'Scale'), a[2], 'float64')
    return s


@contract('bfv.NewPlaintext')
def bfv_plaintext(ex, st, r, a, node):
    pt = ex.inline(st, 'rlwe.NewPlaintext', None, [ex.getfield(st, a[0], 'Parameters', 'rlwe.Parameters'), sub(nQ, ONE)], node)
    s = ex.site(node, 'pt')
    ex.wr(st, f(s, 'Plaintext'), pt, '*rlwe.Plaintext')
    return s


@contract('bfv.NewParameters')
def bfv_params(ex, st, r, a, node):
    return mk('tup', mk('st', 'bfv.Parameters', (('Parameters', a[0]), ('t', a[1]))), NIL)


@contract('bfv.NewEncoder')
def bfv_encoder(ex, st, r, a, node):
    return mk('iface', '#bfvEncoder', mk('encoder', 'bfv', ex.getfield(st, a[0], 't', 'uint64')))


def elements(ex, st, sl, typ):
    """the elements of a slice as a function of the index"""
    i = var('Je', 'I')
    s2 = st.fork()
    s2.branch(and_(ge(i, ZERO), lt(i, ex.slen(sl))))
    return lam(i, ex.load(s2, H.e(sl.args[0], add(sl.args[1], i)), typ))


def pt_value(ex, st, pt, node):
    """the polynomial of a scheme plaintext"""
    p = ex.load(st, f(ex.nonnil(st, pt, node), 'Plaintext'), '*rlwe.Plaintext')
    return ex.nonnil(st, ex.load(st, f(ex.nonnil(st, p, node), 'Value'), '*ring.Poly'), node)


@contract('ckks.Encoder.Encode')
def ckks_encode(ex, st, r, a, node):
    pt, vals, ls = a
    ex.panic_if(st, gt(ex.slen(vals), ex.pow2(ls)), 'too many values', node)
    p = pt_value(ex, st, pt, node)
    t = mk('encoded', elements(ex, st, vals, 'complex128'), ex.slen(vals), ex.load(st, f(pt, 'Scale'), 'float64'), ls)
    n = sub(ex.slen(coeffs(ex, st, p)), ONE)
    limbwise(ex, st, 'Q', n, p, [], lambda j, q: vec(t), node)
    ex.wr(st, f(p, 'IsNTT'), FALSE, 'bool')


def coefficient_residues(ex, st, p, node):
    c = coeffs(ex, st, p)
    x = var('Jx', 'I')
    s2 = st.fork()
    s2.branch(and_(ge(x, ZERO), lt(x, ex.slen(c))))
    v = nf_mod(content(ex, s2, limb(ex, s2, c, x)), mk('q', 'Q', x))
    ntt = ex.load(st, f(p, 'IsNTT'), 'bool')
    return lam(x, ite(ntt, shift(v, -1), v)), ex.slen(c)


@contract('ckks.Encoder.Decode')
def ckks_decode(ex, st, r, a, node):
    pt, ls = a
    p = pt_value(ex, st, pt, node)
    fx, n = coefficient_residues(ex, st, p, node)
    sc = ex.load(st, f(pt, 'Scale'), 'float64')
    s = ex.site(node)
    i = qvar(ex, node)
    ln = ex.pow2(ls)
    ex.wr(st, H.e(s, i), mk('decoded', i, fx, n, sc, ls), 'complex128', (i,), and_(ge(i, ZERO), lt(i, ln)))
    return slc(s, ZERO, ln)


@contract('bfv.Encoder.EncodeInt')
def bfv_encode(ex, st, r, a, node):
    vals, pt = a
    ex.panic_if(st, gt(ex.slen(vals), N), 'too many values', node)
    p = pt_value(ex, st, pt, node)
    t = mk('bfvencoded', elements(ex, st, vals, 'int64'), ex.slen(vals))
    n = sub(ex.slen(coeffs(ex, st, p)), ONE)
    limbwise(ex, st, 'Q', n, p, [], lambda j, q: vec(t), node)


@contract('bfv.Encoder.DecodeInt')
def bfv_decode(ex, st, r, a, node):
    pt, vals = a
    if pt.op == 'iface':
        pt = pt.args[1]
    p = pt_value(ex, st, pt, node)
    c = coeffs(ex, st, p)
    x = var('Jx', 'I')
    s2 = st.fork()
    s2.branch(and_(ge(x, ZERO), lt(x, ex.slen(c))))
    fx = lam(x, nf_mod(content(ex, s2, limb(ex, s2, c, x)), mk('q', 'Q', x)))
    ex.panic_if(st, lt(ex.slen(vals), N), 'index out of range', node)
    i = qvar(ex, node)
    ex.wr(st, H.e(vals.args[0], add(vals.args[1], i)), mk('bfvdecoded', i, fx, ex.slen(c)), 'int64', (i,), and_(ge(i, ZERO), lt(i, N)))


# ------------------------------------------------------------------ arbitrary precision floats
def bigf(ex, st, p):
    return ex.rd(st, f(ex.nonnil(st, p, {'line': 0}), '#bigf'), 'float64')


def setbigf(ex, st, p, v):
    ex.wr(st, f(p, '#bigf'), v, 'float64')
    return p


contract('big.NewFloat')(lambda ex, st, r, a, n: setbigf(ex, st, ex.site(n, 'bigf'), a[0]))
contract('big.Float.Add')(lambda ex, st, r, a, n: setbigf(ex, st, r, X.fop('f.+', bigf(ex, st, a[0]), bigf(ex, st, a[1]))))
contract('big.Float.Mul')(lambda ex, st, r, a, n: setbigf(ex, st, r, X.fop('f.*', bigf(ex, st, a[0]), bigf(ex, st, a[1]))))


@contract('big.Float.Int')
def bigfint(ex, st, r, a, n):
    setbig(ex, st, a[0], mk('ftrunc', bigf(ex, st, r)))
    return mk('tup', a[0], ZERO)


def mulxh(x):
    """x times X^(N/2) (negacyclic), linear"""
    import terms
    acc = ZERO
    for key, c in to_pd(x).items():
        fr, mono, d, va = terms._open(key)
        if len(va) != 1 or fr or d != 0:
            return vec(mk('mulxh', x))
        v = va[0]
        if v.op == 'vred':
            r = vec(mk('vred', mulxh(v.args[0]), v.args[1], v.args[2]))
        else:
            r = vec(mk('mulxh', v))
        acc = add(acc, mul(from_pd({((), tuple(sorted(mono, key=lambda z: z[0].id)), SC, ()): c}), r))
    return acc


def _mulxh_build(x):
    if x.op in ('p', 'vred'):
        r = mulxh(x if x.op == 'p' else vec(x))
        pd = to_pd(r)
        if len(pd) == 1:
            (k, c), = pd.items()
            if len(k[3]) == 1 and c == 1 and not k[1] and k[2] == 0:
                return k[3][0]
        return r
    return mk('mulxh', x)


BUILD['mulxh'] = _mulxh_build
