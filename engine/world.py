"""Object invariants and canonical parameters: the shape of every well-formed object of this code base.

Each entry is an invariant that constructors must establish and every function must preserve; the
constructor proofs (specs) discharge the first, `Proof.frame` the second."""
from terms import *
from heap import *
import heap as H
import exec as X
from exec import Ex, St
from loops import Engine
import lattigo
from lattigo import nQ, nP, nM, N, RM

al = var('alpha')
logN = var('logN')
GAMMA = num(2)
PRM = mk('prm', 'Q')
PRMR = mk('prm', 'R')
nR = add(nQ, nM)
PRMS = root('PRMS')                       # the canonical mkrlwe.Parameters object (holds the CRS map)
CRS = mk('map', f(PRMS, 'CRS'))
LOGSLOTS = mk('plogslots')
PSCALE = mk('f.pscale')
SIGMA = mk('f.sigma')
TMOD = mk('q', 'T', ZERO)
BETA = divi(add(nQ, sub(al, ONE)), al)
BETAR = divi(add(nR, sub(al, ONE)), al)


def beta_of(level):
    return divi(add(level, al), al)


def lev(x):
    """level of the polynomials owned by object x"""
    return mk('lev', x)


FULLQ = {('mkrlwe.KeyGenerator', 'poolQ'), ('mkrlwe.encryptorBase', 'poolQ'), ('mkrlwe.Decryptor', 'pool'),
         ('mkrlwe.KeySwitcher', 'polyQPool'), ('rlwe.KeySwitcher', 'PoolInvNTT'), ('rlwe.keySwitcherBuffer', 'PoolInvNTT'), ('rlwe.PolyQP', 'Q'),
         ('mkckks.Evaluator', 'polyQPool'), ('mkbfv.KeySwitcher', 'polyQPool1'), ('mkbfv.KeySwitcher', 'polyQPool2'),
         ('mkbfv.Evaluator', 'polyQPool1'), ('mkbfv.Evaluator', 'polyQPool2'),
         ('mkbfv.FastBasisExtender', 'polypoolQ'), ('mkbfv.FastBasisExtender', 'mFormQMul'), ('mkrlwe.FastBasisExtender', 'polypoolQ'),
         ('mkbfv.FastBasisExtender', 'polypoolR')} | {('mkbfv.KeySwitcher', 'polyRPool%d' % i) for i in (1, 2, 3, 4)}
FULLM = {('mkbfv.FastBasisExtender', 'polypoolQMul'), ('mkrlwe.FastBasisExtender', 'polypoolP')}
RMAPS = {('mkbfv.RelinearizationKeySet', 'PolyRPool1'), ('mkbfv.RelinearizationKeySet', 'PolyRPool2')}
FULLP = {('mkrlwe.encryptorBase', 'poolP'), ('rlwe.PolyQP', 'P')}
RINGS = {('mkrlwe.Decomposer', 'ringQ'): 'ringQ', ('mkrlwe.Decomposer', 'ringP'): 'ringP',
         ('mkbfv.FastBasisExtender', 'ringP'): 'ringP', ('mkbfv.FastBasisExtender', 'ringQ'): 'ringQ', ('mkbfv.FastBasisExtender', 'ringQMul'): 'ringM',
         ('mkbfv.FastBasisExtender', 'ringR'): 'ringR', ('mkrlwe.FastBasisExtender', 'ringQ'): 'ringQ', ('mkrlwe.FastBasisExtender', 'ringP'): 'ringM',
         ('mkrlwe.encryptorBase', 'ringQ'): 'ringQ', ('mkrlwe.encryptorBase', 'ringP'): 'ringP',
         ('mkrlwe.Decryptor', 'ringQ'): 'ringQ', ('rlwe.RingQP', 'RingQ'): 'ringQ', ('rlwe.RingQP', 'RingP'): 'ringP'}
SAMPLERS = {('mkrlwe.KeyGenerator', 'gaussianSamplerQ'): ('gauss', 'ringQ', (SIGMA, mk('f2i', X.fop('f.*', fconst(6), SIGMA)))),
            ('mkrlwe.KeyGenerator', 'uniformSamplerQ'): ('uniform', 'ringQ', ()),
            ('mkrlwe.KeyGenerator', 'uniformSamplerP'): ('uniform', 'ringP', ()),
            ('mkrlwe.encryptorBase', 'gaussianSampler'): ('gauss', 'ringQ', (SIGMA, mk('f2i', X.fop('f.*', fconst(6), SIGMA)))),
            ('mkrlwe.encryptorBase', 'ternarySampler'): ('ternary', 'ringQ', (fconst('0.5'), FALSE)),
            ('mkrlwe.encryptorBase', 'uniformSampler'): ('uniform', 'ringQ', ()),
            }
IDSETS = {'mkrlwe.IDSet'}
KEYSETS = {'mkrlwe.SecretKeySet', 'mkrlwe.PublicKeySet', 'mkrlwe.RelinearizationKeySet', 'mkrlwe.RotationKeySet', 'mkrlwe.ConjugationKeySet',
           'mkrlwe.HoistedCiphertext', 'mkbfv.RelinearizationKeySet'}
CTS = {'mkrlwe.Ciphertext'}
SCRATCHCT = {('mkckks.Evaluator', 'ctxtPool')}
FULLPT = {('mkckks.Encryptor', 'ptxtPool'), ('mkbfv.Encryptor', 'ptxtPool')}     # plaintexts of the full chain


RFIELDS = {'paramsRP', 'kswRP', 'swkRPPool', 'polypoolR', 'polyRPool1', 'polyRPool2', 'polyRPool3', 'polyRPool4', 'PolyRPool1', 'PolyRPool2'}


FBE = ('paramsQtoP', 'paramsPtoQ', 'modDownparamsPtoQ', 'modDownparamsQtoP')


def table_field(k, n):
    """the slice in field n of the conversion table k = (family, first prime, number of primes, target family, target length)"""
    a = mk('arr', f(mk('sub', root('bep'), k), n))
    return slc(a, ZERO, k.args[2] if n == 'qoverqiinvqi' else k.args[4])


# conversion table k = (family A, first prime, number of primes n, target family B, length m):
#   qoverqiinvqi[i]   = (prod_{u != i} a_u)^-1   modulo a_i, Montgomery form
#   qoverqimodp[j][i] = prod_{u != i} a_u        modulo b_j, Montgomery form
#   vtimesqmodp[j][v] = -v prod_u a_u            modulo b_j
def prime(ex, st, fm, j):
    """prime j of a family: of R = Q QMul, of Q followed by P, of R followed by P"""
    return prime_under(lambda c: ex.decide(st, c), fm, j)


def prime_under(decide, fm, j):
    if fm in ('Q', 'P', 'M'):
        return mk('q', fm, j)
    n = ZERO
    for y in {'R': 'QM', 'QP': 'QP', 'RP': 'QMP'}[fm]:
        m = add(n, lattigo.count(y))
        if decide(and_(ge(j, n), lt(j, m))):
            return mk('q', y, sub(j, n))
        n = m
    return mk('q', fm, j)


def source_prime(ex, st, k, i):
    return prime(ex, st, k.args[0], add(k.args[1], i))


def target_prime(ex, st, k, j):
    return prime(ex, st, k.args[3], j)


def cofactor(k, i):
    return mk('cop', k.args[0], k.args[1], k.args[2], i)


def source_product(k):
    return lattigo.prod_primes(k.args[0], k.args[1], sub(add(k.args[1], k.args[2]), ONE))


def bep_inverse(ex, st, k, i):
    return red(mul(RM, power(cofactor(k, i), -1)), source_prime(ex, st, k, i))


def bep_cofactor(k, i, q):
    return red(mul(RM, cofactor(k, i)), q)


def bep_multiple(k, v, q):
    return red(neg(mul(v, source_product(k))), q)


# tables of the digit decomposition: entry [l][i][j] extends the first j+2 primes of digit i to all primes of Q and to
# the first l+2 primes of P, for digits of ceil((l+2)/gamma) primes
def digit_width(l):
    return divi(add(l, num(3)), GAMMA)


def groups(na, l):
    return divi(sub(add(na, digit_width(l)), ONE), digit_width(l))


def group_size(na, l, i):
    d = digit_width(l)
    m = modi(na, d)
    return ite(and_(eq(i, sub(groups(na, l), ONE)), not_(eq(m, ZERO))), m, d)


def digit_table(a, l, i, j):
    return mk('bep', a, mul(i, digit_width(l)), add(j, num(2)), a + 'P', add(lattigo.count(a), l, num(2)))


class World(Engine):
    def __init__(self, dump):
        Engine.__init__(self, dump)
        self.rtype = {'PRMS': 'mkrlwe.Parameters', 'ringQP': 'rlwe.RingQP', 'ringRP': 'rlwe.RingQP'}
        self.rtype.update((x, 'ring.Ring') for x in ('ringQ', 'ringP', 'ringM', 'ringR', 'ringT'))
        self.ignored = set()
        self.hidden = {}
        self.rroots = set()
        self.lazyroots = ()         # operands that may be only lazily reduced
        self.second = 'M'           # the other basis of the basis extender under verification
        for t in ('Gaussian', 'Ternary', 'Uniform'):
            self.hidden['ring.%sSampler' % t] = (('#kind', 'string'), ('#ring', '*ring.Ring'), ('#p0', '#any'), ('#p1', '#any'))
        for t in ('ring.FastBasisExtender', 'ring.Decomposer'):
            self.hidden[t] = (('#ringQ', '*ring.Ring'), ('#ringP', '*ring.Ring'))
        self.contracts.update(lattigo.CONTRACTS)
        self.contracts.update(PRMC)
        self.opaque.add('rlwe.Parameters')
        self.shape.append(self.rule)
        self.extra_shape = []
        self.atm = {}
        self.ctx.rules.append(self.facts)
        self.ctx.base += [ge(nQ, ONE), ge(al, ONE), eq(nP, mul(num(2), al)), ge(N, num(16)), ge(logN, num(4)), ge(nQ, add(ONE, ZERO)),
                          eq(N, mul(num(2), mk('div', N, num(2))))]

    # ---------------------------------------------------------------- static types of addresses
    def atype(self, a):
        r = self.atm.get(a)
        if r is None:
            r = self._atype(a) or ''
            self.atm[a] = r
        return r or None

    def _atype(self, a):
        op = a.op
        if op == 'root':
            return self.rtype.get(a.args[0])
        if op == 'f':
            t = self.atype(a.args[0])
            if t is None:
                return None
            ty = self.d.ty(t)
            if ty['k'] == 'struct':
                for x in ty['fields']:
                    if x['n'] == a.args[1]:
                        return x['t']
            return None
        if op in ('ptr', 'map', 'arr'):
            t = self.atype(a.args[0])
            if t is None:
                return None
            if op == 'ptr':
                return self.d.ty(t).get('elem')
            return t
        if op in ('e', 'mv'):
            t = self.atype(a.args[0])
            if t is None:
                return None
            return self.d.ty(t).get('elem')
        return None

    def owner(self, a):
        """(struct type, field) of the field holding cell a, looking through array indexing"""
        while a.op == 'e' and a.args[0].op != 'arr':
            a = a.args[0]
        if a.op == 'e' and a.args[0].op == 'arr':
            return self.owner(a.args[0].args[0])
        if a.op == 'f':
            return self.atype(a.args[0]), a.args[1], a.args[0]
        return None, None, None

    def inR(self, a):
        """does the address belong to an object over the extended ring R = Q*QMul (BFV)?"""
        while isinstance(a, T):
            if a.op == 'root':
                return a.args[0] in self.rroots or a.args[0] == 'ringRP'
            if a.op == 'f' and a.args[1] in RFIELDS:
                return True
            a = a.args[0]
        return False

    def pre_root(self, a):
        while a.op in H.STRUCT and a.op not in ('new', 'varcell'):
            a = a.args[0]
        return a.op == 'root'

    def rule(self, addr, typ):
        for r in self.extra_shape:
            v = r(addr, typ)
            if v is not None:
                return v
        if typ == '#dom':
            m, k = addr.args
            if m.op == 'map' and m.args[0].op == 'f':
                x = m.args[0].args[0]
                t = self.atype(x)
                if t in CTS and m.args[0].args[1] == 'Value' and k.op == 'str' and k.args[0] == '0':
                    return TRUE
                if (t in IDSETS or t in KEYSETS) and m.args[0].args[1] == 'Value' and k.op == 'str' and k.args[0] == '0':
                    return FALSE
            if m is CRS:
                c = is_const(k)
                if c in (0, -1, -2, -3, -4, 1):
                    return TRUE
            return None
        if not self.pre_root(addr):
            return None
        if addr.op == 'root' and addr.args[0].startswith('g:'):
            return None
        if addr.op == 'C':
            return self.constant_limb(addr.args[0])
        if typ == 'rlwe.Parameters':
            return PRMR if self.inR(addr) else PRM
        if addr.op == 'f':
            x, n = addr.args
            t = self.atype(x)
            if t == 'mkrlwe.Parameters':
                if n == 'CRS' and x is not PRMS and x.op != 'root':
                    return CRS
                if n == 'CRS' and x is not PRMS and x.op == 'root' and not x.args[0].startswith('own'):
                    return CRS
                if n == 'gamma':
                    return GAMMA
            if n == '#big' and x.op == 'ptr' and x.args[0].op == 'f' and x.args[0].args[1] == 'ModulusBigint':
                fm = x.args[0].args[0].args[0][4:]
                return mul(var('prodQ'), var('prodM')) if fm == 'R' else var('prod' + fm)
            if (t, n) == ('mkckks.Parameters', 'logSlots'):
                return LOGSLOTS
            if (t, n) == ('ckks.Plaintext', 'Scale') and self.pool_of(x) == ('mkckks.Encryptor', 'ptxtPool'):
                return PSCALE
            if (t, n) == ('ckks.Parameters', 'logSlots'):
                return LOGSLOTS
            if (t, n) == ('ckks.Parameters', 'scale'):
                return PSCALE
            if (t, n) == ('mkckks.Parameters', 'scale'):
                return PSCALE
            if t == 'mkbfv.Parameters' and typ == '*ring.Ring':
                v = {'ringQMul': 'ringM', 'ringT': 'ringT', 'ringR': 'ringR', 'ringQ': 'ringQ', 'ringP': 'ringP'}.get(n)
                if v:
                    return root(v)
            if (t, n) == ('mkbfv.Parameters', 'T'):
                return TMOD
            if (t, n) in RINGS:
                r = 'ring' + self.second if (t, n) == ('mkrlwe.FastBasisExtender', 'ringP') else RINGS[t, n]
                return root('ringR' if r == 'ringQ' and self.inR(addr) else r)
            if n == 'Coeffs' and t == 'ring.Poly' and typ == '[][]uint64':
                return slc(mk('arr', addr), ZERO, self.limbs(x))
            if n in ('IsNTT', 'IsMForm') and t == 'ring.Poly':
                return self.flag(x, n)
            if t == 'mkrlwe.FastBasisExtender' and n in FBE:
                return slc(mk('arr', addr), ZERO, nQ if n.endswith('QtoP') else lattigo.count(self.second))
            if (t, n) == ('mkrlwe.Decomposer', 'modUpParams'):
                return slc(mk('arr', addr), ZERO, sub(nP, ONE))
            if t == 'mkrlwe.modupParams':
                k = self.table_key(x)
                if k is not None:
                    return table_field(k, n)
            if n == 'Value' and typ == '[]rlwe.PolyQP':
                return slc(mk('arr', addr), ZERO, BETAR if self.inR(addr) else BETA)
            if n == 'ID' and x.op == 'ptr' and x.args[0].op == 'mv':
                m, k = x.args[0].args
                if m.op == 'map' and m.args[0].op == 'f' and self.atype(m.args[0].args[0]) in KEYSETS:
                    return k
                if m.op == 'mv':
                    m2, k2 = m.args
                    if m2.op == 'map' and m2.args[0].op == 'f' and self.atype(m2.args[0].args[0]) == 'mkrlwe.RotationKeySet':
                        return k2
            if n.startswith('#'):
                c = x
                if c.op == 'ptr':
                    t2, n2, _ = self.owner(c.args[0])
                    s = SAMPLERS.get((t2, n2))
                    if s:
                        if n == '#kind':
                            return string(s[0])
                        if n == '#ring':
                            return root(s[1])
                        return s[2][int(n[2:])]
            if addr.op == 'f' and self.atype(x) == 'ring.Ring' and x.op == 'root':
                return self.ringfield(x, n, typ)
        if addr.op == 'e' and addr.args[0].op == 'arr' and addr.args[0].args[0].op == 'f' and addr.args[0].args[0].args[0].op == 'root' and addr.args[0].args[0].args[0].args[0].startswith('ring') and self.atype(addr.args[0].args[0].args[0]) == 'ring.Ring':
            return self.ringelem(addr.args[0].args[0].args[0], addr.args[0].args[0].args[1], addr.args[1])
        r = self.moddown_table(addr, typ)
        if r is not None:
            return r
        if addr.op == 'e' and typ in ('[][]mkrlwe.modupParams', '[]mkrlwe.modupParams'):
            d = self.digit_index(addr)
            if d is not None:
                na = lattigo.count(d[0])
                return slc(mk('arr', addr), ZERO, groups(na, d[1]) if len(d) == 2 else sub(group_size(na, *d[1:]), ONE))
        if typ == '[]uint64' and addr.op == 'e':
            k, n = self.bep_of(addr.args[0])
            if isinstance(k, T):
                return slc(mk('arr', addr), ZERO, k.args[2] if n == 'qoverqimodp' else add(k.args[2], ONE))
        if typ == '[]uint64' and addr.op == 'e':
            return slc(mk('arr', addr), ZERO, N)
        if addr.op == 'e' and addr.args[0].op == 'modv':
            return lattigo_q(addr)
        return None

    def table_key(self, x):
        """which conversion table the modupParams at address x holds"""
        d = self.digit_index(x)
        if d is not None and len(d) == 4:
            return digit_table(*d)
        if x.op == 'e' and x.args[0].op == 'arr' and x.args[0].args[0].op == 'f':
            o, n = x.args[0].args[0].args
            if self.atype(o) == 'mkrlwe.FastBasisExtender' and n in ('paramsQtoP', 'paramsPtoQ'):
                a, b = ('Q', self.second) if n == 'paramsQtoP' else (self.second, 'Q')
                return mk('bep', a, ZERO, add(x.args[1], ONE), b, lattigo.count(b))
        return None

    def digit_index(self, x):
        """(family, indices) of an entry of a decomposer's table of tables"""
        ix = []
        while x.op == 'e' and x.args[0].op == 'arr':
            ix.append(x.args[1])
            x = x.args[0].args[0]
        if ix and x.op == 'f' and x.args[1] == 'modUpParams' and self.atype(x.args[0]) == 'mkrlwe.Decomposer':
            return ('R' if self.inR(x) else 'Q',) + tuple(reversed(ix))
        return None

    def constant_limb(self, arr):
        """limb j of mFormQMul: the product of the primes of QMul modulo q_j at every coefficient, in Montgomery form"""
        if arr.op == 'arr' and arr.args[0].op == 'e' and arr.args[0].args[0].op == 'arr':
            x = arr.args[0].args[0].args[0]
            if x.op == 'f' and x.args[1] == 'Coeffs' and x.args[0].op == 'ptr' and self.owner(x.args[0].args[0])[:2] == ('mkbfv.FastBasisExtender', 'mFormQMul'):
                return vred(mul(RM, var('prodM'), vec(mk('onesv'))), mk('q', 'Q', arr.args[0].args[1]))
        return None

    def moddown_table(self, addr, typ):
        """rows of modDownparamsPtoQ: the inverse of the product of the first primes of the other basis, in Montgomery form"""
        if addr.op != 'e' or addr.args[0].op != 'arr':
            return None
        x = addr.args[0].args[0]
        if typ == '[]uint64' and x.op == 'f' and x.args[1] in ('modDownparamsPtoQ', 'modDownparamsQtoP') and self.atype(x.args[0]) == 'mkrlwe.FastBasisExtender':
            return slc(mk('arr', addr), ZERO, nQ if x.args[1] == 'modDownparamsPtoQ' else lattigo.count(self.second))
        if typ == 'uint64' and x.op == 'e':
            j, y = x.args[1], x.args[0]
            if y.op == 'arr' and y.args[0].op == 'f' and y.args[0].args[1] in ('modDownparamsPtoQ', 'modDownparamsQtoP') and self.atype(y.args[0].args[0]) == 'mkrlwe.FastBasisExtender':
                a, b = ('Q', self.second) if y.args[0].args[1] == 'modDownparamsPtoQ' else (self.second, 'Q')
                return red(mul(RM, power(lattigo.prod(b, j), -1)), mk('q', a, addr.args[1]))
        return None

    def table_elem(self, st, addr):
        x = addr.args[0]
        if x.op == 'arr' and x.args[0].op == 'f' and x.args[0].args[0] is root('ringR') and x.args[0].args[1] in ('Modulus', 'MredParams'):
            q = prime(self, st, 'R', addr.args[1])
            return None if q.args[0] == 'R' else q if x.args[0].args[1] == 'Modulus' else mk('qinv', q)
        v = self.moddown_table(addr, 'uint64')
        return v if v is not None else self.bep_elem(st, addr)

    def bep_of(self, arr):
        if arr.op == 'arr' and arr.args[0].op == 'f' and arr.args[0].args[0].op == 'sub' and arr.args[0].args[0].args[0] is root('bep'):
            return arr.args[0].args[0].args[1], arr.args[0].args[1]
        return None, None

    def bep_elem(self, st, addr):
        """entries of a conversion table"""
        if addr.args[0] is mk('arr', f(mk('sub', root('bep'), 'QP'), 'moduli')):
            return prime(self, st, 'QP', addr.args[1])
        k, n = self.bep_of(addr.args[0])
        if k is not None:
            return bep_inverse(self, st, k, addr.args[1]) if n == 'qoverqiinvqi' else None
        if addr.args[0].op == 'arr' and addr.args[0].args[0].op == 'e':
            row = addr.args[0].args[0]
            k, n = self.bep_of(row.args[0])
            if k is not None:
                q = target_prime(self, st, k, row.args[1])
                return bep_cofactor(k, addr.args[1], q) if n == 'qoverqimodp' else bep_multiple(k, addr.args[1], q)
        return None

    def ringfield(self, x, n, typ):
        fm = x.args[0][4:]
        if n == 'N':
            return N
        if n == 'Modulus':
            return slc(mk('arr', f(x, n)), ZERO, lattigo.count(fm))
        if n in ('BredParams', 'MredParams', 'NttPsi', 'NttPsiInv', 'NttNInv'):
            return slc(mk('arr', f(x, n)), ZERO, lattigo.count(fm))
        return None

    def ringelem(self, x, n, j):
        fm = x.args[0][4:]
        ps = lattigo.parts(fm, j)
        q = ps[0][1] if len(ps) == 1 else ite(ps[0][0], ps[0][1], ps[1][1])
        if n == 'Modulus':
            return q
        if n == 'MredParams':
            return mk('qinv', q)
        if n == 'BredParams':
            return slc(mk('arr', mk('sub', root('bredp'), q)), ZERO, num(2))
        if n in ('NttPsi', 'NttPsiInv'):
            return slc(mk('arr', mk('sub', root(n), q)), ZERO, N)
        return None

    def limbs(self, p):
        """number of limbs of the pre-state polynomial at p"""
        if p.op == 'ptr':
            t, n, x = self.owner(p.args[0])
            if (t, n) in FULLQ:
                return nR if self.inR(p) else nQ
            if (t, n) in FULLP:
                return nP
            if (t, n) in FULLM:
                return lattigo.count(self.fullm(t))
            if p.args[0].op == 'mv':
                m = p.args[0].args[0]
                if m.op == 'map' and m.args[0].op == 'f':
                    if (self.atype(m.args[0].args[0]), m.args[0].args[1]) in RMAPS:
                        return nR
                    if self.inR(p):
                        return nR
                    if self.scratch_ct(m.args[0].args[0]):
                        return nQ
                    return add(lev(m.args[0].args[0]), ONE)
            if n == 'Value' and x is not None:
                if self.pool_of(x) in FULLPT:
                    return nQ
                return add(lev(x), ONE)
        return nR if self.inR(p) else add(lev(p), ONE)

    def scratch_ct(self, x):
        """is ciphertext x an evaluator's scratch ciphertext (full chain, coefficient domain)?"""
        return x.op == 'ptr' and self.owner(x.args[0])[:2] in SCRATCHCT

    def pool_of(self, x):
        """(type, field) holding the scheme plaintext that rlwe plaintext x belongs to"""
        if x.op == 'ptr' and x.args[0].op == 'f' and x.args[0].args[1] == 'Plaintext':
            x = x.args[0].args[0]
        if x.op == 'ptr':
            return self.owner(x.args[0])[:2]
        return None

    def lazy_operand(self, arr):
        while isinstance(arr, T) and arr.op in H.STRUCT and arr.op not in ('new', 'varcell'):
            arr = arr.args[0]
        return isinstance(arr, T) and arr.op == 'root' and arr.args[0] in self.lazyroots

    def fullm(self, t):
        return self.second if t == 'mkrlwe.FastBasisExtender' else 'M'

    def flag(self, p, n):
        if p.op == 'ptr':
            t, nn, x = self.owner(p.args[0])
            if (t, nn) in FULLQ or (t, nn) in FULLP or (t, nn) in FULLM:
                if (t, nn) == ('mkckks.Evaluator', 'polyQPool') and n == 'IsNTT':
                    return None
                return FALSE
            if p.args[0].op == 'mv':
                m = p.args[0].args[0]
                if m.op == 'map' and m.args[0].op == 'f' and self.atype(m.args[0].args[0]) in CTS:
                    if n == 'IsMForm' or self.scratch_ct(m.args[0].args[0]):
                        return FALSE
                    b = mk('bini', f(m.args[0].args[0], '#ntt'))
                    return self.known.get(b, b)
        return None

    def poly_family(self, st, p):
        """modulus family of the ring a polynomial lives in"""
        if p.op == 'ptr':
            t, n, x = self.owner(p.args[0])
            if (t, n) in FULLP:
                return 'P'
            if (t, n) in FULLQ:
                return 'R' if self.inR(p) else 'Q'
            if (t, n) in FULLM:
                return self.fullm(t)
            if self.inR(p):
                return 'R'
            if p.args[0].op == 'mv' or n == 'Value':
                return 'Q'
        try:
            c = self.load(st, f(p, 'Coeffs'), '[][]uint64')
            j = fresh('I', 'j')
            s2 = st.fork()
            s2.branch(and_(ge(j, ZERO), lt(j, self.slen(c))))
            v = self.rd(s2, C(lattigo.limb(self, s2, c, j)), '#C')
        except Unsupported:
            return None
        for k, _ in to_pd(v).items():
            for a in k[3]:
                if a.op == 'vred' and a.args[1].op == 'q':
                    return a.args[1].args[0]
        return None

    def facts(self, t):
        op = t.op
        if op == 'pow2':
            return [ge(t, ONE)]
        if op == 'least':
            return least_facts(t)
        if op == 'lev':
            return [ge(t, ZERO), lt(t, nQ)]
        if op == 'in':
            m, k = t.args
            if m.op == 'map' and m.args[0].op == 'f':
                ty = self.atype(m.args[0].args[0]) if m.args[0].args[1] == 'Value' else None
                if ty in IDSETS or ty in KEYSETS:
                    return [not_(and_(t, eqs(k, string('0'))))] if sort_of(k) == 'S' else None
                if ty in CTS:
                    return [implies(eqs(k, string('0')), t)]
            if m is CRS:
                return [implies(or_(*[eq(k, num(c)) for c in (0, -1, -2, -3, -4, 1)]), t)]
        return None

    def load(self, st, addr, typ):
        return Engine.load(self, st, addr, typ)


def lattigo_q(addr):
    return None


# ---------------------------------------------------------------- parameter getters (assumed contracts)
PRMC = {}


def isRP(r):
    if r.op == 'prmref':
        r = r.args[0]
    if r.op != 'prm':
        raise Unsupported('parameters ' + show(r))
    return r.args[0] == 'R'


def prmc(name, v, vR=None):
    def c(ex, st, r, a, n):
        R = isRP(r)
        return vR if R and vR is not None else v
    PRMC['rlwe.Parameters.' + name] = c


prmc('N', N)
prmc('LogN', logN)
prmc('QCount', nQ, nR)
prmc('PCount', nP)
prmc('QPCount', add(nQ, nP), add(nR, nP))
prmc('MaxLevel', sub(nQ, ONE), sub(nR, ONE))
prmc('RingQ', root('ringQ'), root('ringR'))
prmc('RingP', root('ringP'))
prmc('Sigma', SIGMA)
prmc('RingQP', root('ringQP'), root('ringRP'))
