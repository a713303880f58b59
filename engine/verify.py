"""Discharging a function's contract: the body and the contract's effect are run from the same symbolic
pre-state; every cell either of them changes, the result, and every possible panic yield obligations."""
import itertools
import time
from terms import *
from heap import *
import heap as H
import exec as X
from exec import St, Frame, Unsupported
from loops import mkex
import smt
import world as W
import lattigo
import abstract


class Fail(Exception):
    pass


class Spec:
    def __init__(self, name, effect, props, modes=None, requires=None, must_panic=False, bounded=None, keep=None, inline=False, trusted=None, opaque=False, abstract=None, own=None, lazy=()):
        self.lazy = lazy          # operands that may be only lazily reduced (below twice the modulus)
        self.own = own            # the effect spelled out by definitions, for the function's own proof
        self.abstract = abstract  # ciphertexts are slot vectors (abstract.py); maps hoisted parameters to their ciphertext
        self.opaque = opaque      # the effect is stated for the function's own proof only
        self.trusted = trusted
        self.name, self.effect, self.props = name, effect, props
        self.modes = modes or [{}]
        self.requires = requires
        self.must_panic = must_panic
        self.inline = inline


SPECS = {}
INV = []


def spec(name, *props, **kw):
    def d(fn):
        SPECS[name] = Spec(name, fn, props, **kw)
        return fn
    return d


ITERATES = {}


def iterate(name, **kw):
    """contract of the iterate of a loop that is extracted as a function (folds.py)"""
    def d(fn):
        ITERATES[name] = Spec(name, fn, (), **kw)
        return fn
    return d


# ------------------------------------------------------------------ typed handles used by contracts
class O:
    """a value with its static type, in a state"""
    __slots__ = ('s', 'v', 't')

    def __init__(self, s, v, t):
        self.s, self.v, self.t = s, v, t

    def __getattr__(self, n):
        return self.fld(n)

    def strip(self):
        d = self.s.ex.d
        t = d.ty(self.t)
        if t['k'] == 'ptr':
            return self.v, t['elem']
        return None, self.t

    def fld(self, n):
        s = self.s
        d = s.ex.d
        p, t = self.strip()
        for x in d.fields(t):
            if x['n'] == n:
                if p is not None:
                    return O(s, s.ex.load(s.st, f(p, n), x['t']), x['t'])
                if self.v.op == 'st':
                    return O(s, dict(self.v.args[1])[n], x['t'])
                return O(s, f(self.v, n), x['t'])
        for x in d.fields(t):          # promoted through embedding
            if x.get('emb'):
                r = self.fld(x['n'])
                try:
                    return r.fld(n)
                except AttributeError:
                    continue
        raise AttributeError('%s has no field %s' % (t, n))

    def addr(self, n):
        p, t = self.strip()
        for x in self.s.ex.d.fields(t):
            if x['n'] == n:
                return f(p, n), x['t']
        for x in self.s.ex.d.fields(t):
            if x.get('emb'):
                et = x['t']
                q = f(p, x['n'])
                if self.s.ex.d.ty(et)['k'] == 'ptr':
                    q = self.s.ex.load(self.s.st, q, et)
                    et = self.s.ex.d.ty(et)['elem']
                r = O(self.s, q, '*' + et).addr(n)
                if r:
                    return r
        return None

    def set(self, n, v, qv=(), guard=TRUE):
        a, t = self.addr(n)
        if isinstance(v, O):
            v = v.v
        self.s.wr(a, v, t, qv, guard)

    def key(self, k):
        et = self.s.ex.d.ty(self.t)['elem']
        return O(self.s, self.s.ex.load(self.s.st, mk('mv', self.v, k), et), et)

    def has(self, k):
        return self.s.ex.rd(self.s.st, mk('dom', self.v, k), '#dom')

    def put(self, k, v, qv=(), guard=TRUE):
        et = self.s.ex.d.ty(self.t)['elem']
        if isinstance(v, O):
            v = v.v
        self.s.wr(mk('dom', self.v, k), TRUE, '#dom', qv, guard)
        if v is not None:
            self.s.wr(mk('mv', self.v, k), v, et, qv, guard)

    def drop(self, k, qv=(), guard=TRUE):
        self.s.wr(mk('dom', self.v, k), FALSE, '#dom', qv, guard)

    def card(self):
        return self.s.ex.map_len(self.s.st, self.v)

    @property
    def len(self):
        if self.s.ex.d.ty(self.t)['k'] == 'map':
            return self.card()
        return self.s.ex.slen(self.v)

    def at(self, i):
        t = self.s.ex.d.ty(self.t)
        if isinstance(i, int):
            i = num(i)
        if self.v.op == 'ite':
            c, x, y = self.v.args
            d = self.s.ex.decide(self.s.st, c)
            if d is not None:
                return O(self.s, x if d else y, self.t).at(i)
            with self.s.under(c):
                a = O(self.s, x, self.t).at(i)
            with self.s.under(not_(c)):
                b = O(self.s, y, self.t).at(i)
            return O(self.s, ite(c, a.v, b.v), a.t)
        if t['k'] == 'array':
            a = H.e(self.v.args[0], i)
        else:
            a = H.e(self.v.args[0], add(self.v.args[1], i))
        return O(self.s, self.s.ex.load(self.s.st, a, t['elem']), t['elem'])

    def elem(self, i):
        """address of element i"""
        t = self.s.ex.d.ty(self.t)
        if isinstance(i, int):
            i = num(i)
        if t['k'] == 'array':
            return H.e(self.v.args[0], i)
        return H.e(self.v.args[0], add(self.v.args[1], i))

    def limb(self, j):
        """content of limb j of a polynomial"""
        c = self.fld('Coeffs').at(j)
        v = self.s.ex.rd(self.s.st, C(lattigo.slice_arr(c.v)), '#C')
        sp = getattr(self.s, 'calling', None)
        if sp is not None and laziness(v) > (1 if sp.lazy else 0):
            self.s.ex.panic_if(self.s.st, TRUE, 'precondition of %s: reduced operands' % sp.name, self.s.node)
        return v

    def limbaddr(self, j):
        c = self.fld('Coeffs').at(j)
        return C(lattigo.slice_arr(c.v))


class ForAll:
    """universally quantified premise, instantiated at occurrences of its trigger in(m, k)"""

    def __init__(self, k, trigger, body):
        self.k, self.trigger, self.body = k, trigger, body

    def skolem(self):
        x = fresh(self.k.args[1], 'sk')
        return subst(implies(self.trigger, self.body), {self.k: x})

    def instantiate(self, t):
        g = self.trigger
        if t.op == g.op and t.args[0] is g.args[0]:
            return [subst(implies(g, self.body), {self.k: t.args[1]})]
        return None


def lazy_atom(t):
    if t.op == 'lz':
        return t
    if t.op == 'p':
        pd = t.args[0]
        if len(pd) == 1 and pd[0][1] == 1:
            k = pd[0][0]
            if not k[0] and k[2] == SC and not k[3] and len(k[1]) == 1 and k[1][0][1] == 1 and k[1][0][0].op == 'lz':
                return k[1][0][0]
    return None


def laziness(v):
    """residues of v are below (k + 1) times their modulus"""
    return max([a.args[2] for k in to_pd(v) for a in k[3] if a.op == 'vred'] or [0])


def havoced(v):
    return any(a.op == 'hv' for k in to_pd(v) for a in k[3]) or v.op == 'hv'


def coefficient_of(a, q):
    """a coefficient of a vector reduced modulo q, as a product of scalars and a coefficient"""
    v = a.args[0] if a.op == 'at' else None
    if v is not None and v.op == 'vred' and v.args[1] is q:
        pd = to_pd(v.args[0])
        if len(pd) == 1:
            (bs, mono, d, va), c = list(pd.items())[0]
            if not bs and d == 0 and len(va) == 1:
                return from_pd({((), mono, SC, ()): c}) if va[0].op == 'onesv' else mul(from_pd({((), mono, SC, ()): c}), mk('at', va[0], a.args[1]))
    return a


def word_range(t, q):
    """the unsigned expression neither wraps below zero nor exceeds a few multiples of q"""
    qs = negs = 0
    for (bs, mono, d, va), c in to_pd(t).items():
        if d != SC or va:
            return False
        if mono == ((q, 1),) and not bs:
            qs += c
        elif c < 0:
            rest = [(a, e) for a, e in mono if not (a is q and e == 1) and not (a is lattigo.RM and e == -1)]
            if bs or len(rest) != 1 or rest[0][1] != 1 or rest[0][0].op != 'red':
                return False
            r = rest[0][0]
            full = len(mono) == 3 and r.args[1] is lattigo.RM          # q * word / 2^64
            if not (full or len(mono) == 1 and r.args[1] is q):
                return False
            negs -= c
    return negs <= qs <= 2


class Under:
    def __init__(self, st, g):
        self.st, self.g = st, g

    def __enter__(self):
        self.old = self.st.br
        self.st.branch(self.g)

    def __exit__(self, *a):
        self.st.br = self.old
        self.st._pc = None


class S:
    """contract evaluation context"""

    def __init__(self, ex, st, node, recv, args, fn):
        self.ex, self.st, self.node, self.fn = ex, st, node, fn
        self.n = 0
        self.gall = TRUE
        self.mods = []
        if fn.get('recv'):
            self.recv = O(self, recv, fn['recv']['t'])
        self.args = [O(self, a, p['t']) for a, p in zip(args, fn['params'])]

    def wr(self, addr, val, typ, qv=(), guard=TRUE):
        if qv:
            m = {q: var(q.args[0] + "'", q.args[1]) for q in qv}
            addr, guard = subst(addr, m), subst(guard, m)
            val = subst(val, m)
            qv = tuple(m.values())
        guard = and_(self.gall, guard)
        self.ex.wr(self.st, addr, val, typ, qv, guard)

    def under(self, *gs):
        return Under(self.st, and_(*gs))

    def tag(self):
        self.n += 1
        return 's%d' % self.n

    def new(self, t, *idx):
        """fresh zeroed object of struct type t (pointer)"""
        s = self.ex.site(self.node, self.tag())
        if idx:
            s = mk('new', s.args[0], s.args[1] + tuple(idx))
        return O(self, s, '*' + t)

    def newmap(self, t):
        return O(self, self.ex.site(self.node, self.tag()), t)

    def newslice(self, t, ln, *idx):
        s = self.ex.site(self.node, self.tag())
        if idx:
            s = mk('new', s.args[0], s.args[1] + tuple(idx))
        return O(self, slc(s, ZERO, ln), t)

    def poly(self, limbs, *idx, qv=(), guard=TRUE, degree=None):
        """fresh zero polynomial with the given number of limbs (for every value of qv satisfying guard)"""
        p = self.new('ring.Poly', *idx)
        cs = self.newslice('[][]uint64', limbs, *idx)
        self.wr(f(p.v, 'Coeffs'), cs.v, '[][]uint64', qv, guard)
        j = self.v('I', 'j')
        lm = self.ex.site(self.node, self.tag())
        lm = mk('new', lm.args[0], lm.args[1] + tuple(idx) + (j,))
        self.wr(H.e(cs.v.args[0], j), slc(lm, ZERO, degree or W.N), '[]uint64', tuple(qv) + (j,), and_(guard, ge(j, ZERO), lt(j, limbs)))
        return p

    def bind(self, a, t):
        return O(self, a, t)

    def panics(self, c, kind='panic'):
        self.ex.panic_if(self.st, c, kind, self.node)

    def sc(self, v):
        return v.v if isinstance(v, O) else v

    def v(self, sort='S', hint='k'):
        a = self.ex.site(self.node, self.tag())
        return var('%s:%s' % (hint, a.args[0]), sort)


def nil_args(ex, st, sp, fn, recv, args, node):
    """contracts assume that pointers are not nil, except where a mode passes nil; aliased arguments must be a mode"""
    al = {}
    for i, (a, p) in enumerate(zip(args, fn['params'])):
        if not p['t'].startswith('*'):
            continue
        opt = False
        for m in sp.modes:
            g = m.get('values', {}).get('a%d' % i)
            opt = opt or (g is not None and g(ex, st, p) is NIL)
        if not opt:
            ex.panic_if(st, eqr(a, NIL), 'must not be called with a nil pointer: %s of %s' % (p['n'], sp.name), node)
        al.setdefault(a, []).append('a%d' % i)
    if recv is not None:
        al.setdefault(recv, []).append('recv')
    for a, ix in al.items():
        if a is NIL or len(ix) == 1:
            continue
        for x, y in itertools.combinations(ix, 2):
            if not any(m.get('alias', {}).get(x, x) == m.get('alias', {}).get(y, y) for m in sp.modes):
                ex.frames, fr = ex.frames[:-1], ex.frames
                ex.panic_if(st, TRUE, 'precondition of %s: %s and %s are distinct' % (sp.name, x, y), node)
                ex.frames = fr


def run_contract(sp):
    def c(ex, st, recv, args, node):
        fn = ex.d.funcs[sp.name]
        if sp.opaque:
            raise Unsupported('call of ' + sp.name)
        s = S(ex, st, node, recv, args, fn)
        s.calling = sp
        ex.used_specs.add(sp.name)
        np = len(ex.panics)
        ex.frames.append(ex.frames[-1])
        try:
            if sp.requires:
                for r in sp.requires(s):
                    if isinstance(r, ForAll):
                        r = r.skolem()
                    ex.frames, fr = ex.frames[:-1], ex.frames
                    ex.panic_if(st, not_(r), 'precondition of %s: %s' % (sp.name, show(r)), node)
                    ex.frames = fr
            nil_args(ex, st, sp, fn, recv, args, node)
            r = sp.effect(s)
        finally:
            ex.frames.pop()
            for p in ex.panics[np:]:
                p.may = p.may or not p[1].startswith('must')
        if isinstance(r, tuple):
            return mk('tup', *[x.v if isinstance(x, O) else x for x in r])
        return r.v if isinstance(r, O) else r
    return c


# ------------------------------------------------------------------ equality of values
class Eq:
    def __init__(self, ex, s1, s2):
        self.ex, self.s1, self.s2 = ex, s1, s2
        self.roles, self.instances = [], {}
        self.bind = {}        # body new path -> contract new path
        self.drawbind = {}
        self.dpc = ()    # contract draw site -> body draw site
        self.seen = set()
        self.steps = 0

    def entails(self, pc, c):
        return self.ex.ctx.entails(pc, c)

    def incons(self, pc):
        return self.ex.ctx.inconsistent(pc)

    # -- simplification of conditions under a path condition
    def simp(self, pc, t, memo=None):
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is None:
            r = self._simp(pc, t, memo)
            memo[t] = r
        return r

    def _simp(self, pc, t, memo):
        if t.op == 'p':
            acc = {}
            for key, c in t.args[0]:
                fr, mono, d, va = self.open(key)
                pc2 = pc
                mono2 = {((), (), SC, ()): c}
                sub_memo = memo if not fr else {}
                if fr:
                    cs = [a.args[0] for a, e in mono if a.op == 'ind' and any(v in fv(a) for v in fr)]
                    pc2 = pc + tuple(cs)
                    if self.incons(pc2):
                        continue
                keep = [a for a, e in mono if a.op == 'ind' and fr and any(v in fv(a) for v in fr)]
                for a, e in mono:
                    if a in keep:
                        x = a
                    else:
                        x = self.simp(pc2, a, sub_memo)
                    mono2 = pd_mul(mono2, pd_pow(to_pd(x), e))
                if d != SC:
                    va2 = [self.simp(pc2, a, sub_memo) for a in va]
                    m = {((), (), d, ()): 1}
                    q = None
                    for a in va2:
                        q = vatom_pd(a, d) if q is None else pd_conv(q, vatom_pd(a, d), d)
                    mono2 = pd_mul(mono2, q if q is not None else m)
                if fr:
                    mono2 = pd_sum(mono2, fr)
                pd_addto(acc, mono2)
            return from_pd(acc)
        if t.op == 'ind':
            d = self.ex.ctx.decide(pc, t.args[0])
            if d is not None:
                return ONE if d else ZERO
            return t
        if t.op == 'ite':
            d = self.ex.ctx.decide(pc, t.args[0])
            if d is not None:
                return self.simp(pc, t.args[1] if d else t.args[2], memo)
            return ite(t.args[0], self.simp(pc, t.args[1], memo), self.simp(pc, t.args[2], memo))
        if t.op in ('vred', 'red'):
            x, q = self.simp(pc, t.args[0], memo), t.args[1]
            if q.op != 'q' or len(q.args[0]) > 1 or q.args[0] == 'R':
                q = self.simp(pc, q, memo)
            if x is t.args[0] and q is t.args[1]:
                return t
            return rebuild(t.op, (x, q) + t.args[2:])
        if t.op == 'q' and (len(t.args[0]) > 1 or t.args[0] == 'R'):
            return W.prime_under(lambda c: self.ex.ctx.decide(pc, c), *t.args)
        if t.op in ('var', 'bv', 'lam', 'ex', 'str', 'root', 'fc'):
            return t
        if sort_of(t) == 'B':
            d = self.ex.ctx.decide(pc, t)
            return TRUE if d else FALSE if d is False else t
        args = tuple(self.simp_arg(pc, a, memo) for a in t.args)
        if args != t.args:
            return rebuild(t.op, args)
        return t

    def simp_arg(self, pc, a, memo):
        if isinstance(a, T):
            if a.op in ('lam', 'ex'):
                return a
            return self.simp(pc, a, memo)
        if isinstance(a, tuple):
            return tuple(self.simp_arg(pc, x, memo) for x in a)
        return a

    def open(self, key):
        import terms
        return terms._open(key)

    def conds(self, t, out, bound=()):
        """undecided conditions of t outside binders"""
        if t.op == 'p':
            for key, c in t.args[0]:
                if key[0]:
                    continue
                for a, e in key[1]:
                    if a.op == 'ind':
                        if a.args[0] not in out:
                            out.append(a.args[0])
                    else:
                        self.conds(a, out)
                for a in key[3]:
                    self.conds(a, out)
            return
        if t.op == 'ite':
            if t.args[0] not in out:
                out.append(t.args[0])
            return
        if t.op in ('lam', 'ex', 'var', 'bv'):
            return

        def w(tp):
            for a in tp:
                if isinstance(a, T):
                    self.conds(a, out)
                elif isinstance(a, tuple):
                    w(a)
        w(t.args)

    def atoms_of(self, c):
        """boolean atoms to split on"""
        if c.op in ('and', 'or'):
            out = []
            for x in c.args:
                out += self.atoms_of(x)
            return out
        if c.op == 'not':
            return self.atoms_of(c.args[0])
        return [c]

    def same(self, pc, a, b, depth=0):
        """value equality under pc"""
        if a is b:
            return True
        if depth > 14:
            return False
        sa, sb = sort_of(a), sort_of(b)
        if sa == 'B' or sb == 'B':
            return self.iff(pc, a, b, depth)
        a2, b2 = self.simp(pc, a), self.simp(pc, b)
        if a2 is b2:
            return True
        for x, y in ((a2, b2), (b2, a2)):
            l = lazy_atom(y)
            if l is not None and lazy_atom(x) is None:
                # any word congruent to it: the expression must not wrap
                if x.op == 'ite':
                    break
                q = l.args[1]
                d = nf_mod(sub(x, l.args[0]), q)
                return word_range(x, q) and (self.zero(pc, d, depth) or self.zero(pc, self.own_prime(pc, d, q), depth))
        isp = (a2.op == 'p' or b2.op == 'p' or sa in ('I', '?') and sb in ('I', '?')) and sa not in ('R', 'S', 'F') and sb not in ('R', 'S', 'F')
        if isp and not (a2.op in ('st', 'slc', 'tup')):
            return self.zero(pc, sub(a2, b2), depth)
        cs = []
        self.conds(a2, cs)
        self.conds(b2, cs)
        if cs:
            return self.split(pc, cs[0], lambda p: self.same(p, a2, b2, depth + 1))
        if sa in ('S', 'R', 'F'):
            c = eqs(a2, b2) if sa == 'S' else eqr(a2, b2) if sa == 'R' else feq(a2, b2)
            if c is TRUE or self.entails(pc, c):
                return True
        return self.cong(pc, a2, b2, depth + 1)

    def own_prime(self, pc, d, q):
        """the polynomial modulo q, a prime of the very basis it is lifted from: the product of the basis is 0, and of the
        cofactors only that of q is not"""
        if q.op != 'q':
            return d
        fm, idx = q.args
        fms = (fm, 'R') if fm == 'Q' else (fm,)           # the first primes of R are those of Q
        acc = {}
        for (bs, mono, dm, va), c in to_pd(d).items():
            key = (bs, mono, dm, va)
            if any(a.op == 'prange' and a.args[0] in fms and self.entails(pc, and_(le(a.args[1], idx), le(idx, a.args[2]))) for a, e in mono if e > 0):
                continue
            if len(bs) == 1 and dm == SC and not va:
                b = bs[0]
                for a, e in mono:
                    if a.op == 'cop' and a.args[0] in fms and a.args[3] is b and e == 1:
                        t = sub(idx, a.args[1])
                        if self.entails(pc, and_(ge(t, ZERO), lt(t, a.args[2]))):
                            x = {((), (), SC, ()): c}
                            for y, n in mono:
                                x = pd_mul(x, pd_pow(to_pd(coefficient_of(subst(y, {b: t}), q)), n))
                            for k2, c2 in x.items():
                                acc[k2] = acc.get(k2, 0) + c2
                            break
                else:
                    acc[key] = acc.get(key, 0) + c
                continue
            acc[key] = acc.get(key, 0) + c
        return self.simp(pc, nf_mod(from_pd({k: c for k, c in acc.items() if c}), q))

    def split(self, pc, c, k):
        ats = self.atoms_of(c)
        for a in ats:
            d = self.ex.ctx.decide(pc, a)
            if d is None:
                c = a
                break
        for p in (pc + (c,), pc + (not_(c),)):
            if self.incons(p):
                continue
            if not k(p):
                return False
        return True

    def iff(self, pc, a, b, depth):
        if self.entails(pc + (a,), b) and self.entails(pc + (b,), a):
            return True
        if a.op == 'ex' and b.op == 'ex':
            x = fresh(a.args[0].args[1], 'x') if isinstance(a.args[0], T) else None
            # try: same witness
        return self.iff_ex(pc, a, b) and self.iff_ex(pc, b, a)

    def iff_ex(self, pc, a, b):
        """a => b, skolemising existentials of a and trying its witnesses for those of b"""
        wit = []

        def openx(t):
            if t.op == 'ex':
                bv = t.args[0]
                x = fresh(bv.args[1], 'x')
                wit.append(x)
                return openx(subst(t.args[1], {bv: x}))
            if t.op in ('and', 'or'):
                return (and_ if t.op == 'and' else or_)(*[openx(y) for y in t.args])
            return t
        a2 = openx(a)

        def close(t):
            if t.op == 'ex':
                bv = t.args[0]
                return or_(*[close(subst(t.args[1], {bv: w})) for w in wit if w.args[1] == bv.args[1]])
            if t.op in ('and', 'or'):
                return (and_ if t.op == 'and' else or_)(*[close(y) for y in t.args])
            return t
        b2 = close(b)
        return self.entails(pc + (a2,), b2)

    def zero(self, pc, d, depth):
        """polynomial d == 0 under pc"""
        self.steps += 1
        if self.steps > 4000:
            return False
        d = self.simp(pc, d)
        if not to_pd(d):
            return True
        if not is_vec(d) and not any(k[0] for k, c in to_pd(d).items()):
            if self.entails(pc, eq(d, ZERO)):
                return True
        cs = []
        self.conds(d, cs)
        if cs:
            return self.split(pc, cs[0], lambda p: self.zero(p, d, depth + 1))
        self.dpc = pc
        if self.bind_draws(d):
            d = self.rename(d)
            if not to_pd(d):
                return True
            if not is_vec(d) and not any(k[0] for k, c in to_pd(d).items()):
                if self.entails(pc, eq(d, ZERO)):
                    return True
        # sums with the same signature: compare pointwise
        groups = {}
        for key, c in to_pd(d).items():
            groups.setdefault(tuple(b.args[1] for b in key[0]), []).append((key, c))
        for sig, items in groups.items():
            if sig:
                if not self.sums(pc, sig, items, depth):
                    return False
            elif not self.pairs(pc, items, depth):
                m = {x: ZERO for x in fv(d) if x.args[1] == 'I' and self.entails(pc, eq(x, ZERO))}
                return bool(m) and self.zero(pc, subst(d, m), depth + 1)
        return True

    def sums(self, pc, sig, items, depth):
        from itertools import permutations
        if len(items) < 2:
            # a single sum vanishes only if its body does
            pass
        xs = [fresh(s, 'x') for s in sig]
        bodies = []
        for key, c in items:
            opts = []
            for pm in permutations(range(len(xs))):
                if any(key[0][i].args[1] != sig[pm[i]] for i in range(len(xs))):
                    continue
                m = {b: xs[pm[i]] for i, b in enumerate(key[0])}
                q = from_pd({((), key[1], key[2], key[3]): c})
                opts.append(subst(q, m))
            bodies.append(opts)

        def go(i, acc):
            if i == len(bodies):
                return self.zero(pc, acc, depth + 1)
            for o in bodies[i][:2]:
                if go(i + 1, add(acc, o)):
                    return True
            return False
        if depth > 10:
            return False
        return go(0, ZERO)

    def pairs(self, pc, items, depth):
        """cancel terms pairwise by congruence of their atoms"""
        pos = [(k, c) for k, c in items if c > 0]
        negs = [(k, -c) for k, c in items if c < 0]
        while pos:
            k1, c1 = pos.pop()
            for i, (k2, c2) in enumerate(negs):
                if k1[2] == k2[2] and len(k1[3]) == len(k2[3]) and c1 == c2 and self.monoeq(pc, k1, k2, depth):
                    negs.pop(i)
                    break
            else:
                return False
        return not negs

    def monoeq(self, pc, k1, k2, depth):
        m1 = [x for x in k1[1] if x not in k2[1]]
        m2 = [x for x in k2[1] if x not in k1[1]]
        if len(m1) != len(m2):
            return False
        for a, e in m1:
            for y in m2:
                if y[1] == e and self.cong(pc, a, y[0], depth + 1):
                    m2.remove(y)
                    break
            else:
                return False
        v1 = list(k1[3])
        v2 = list(k2[3])
        for a in list(v1):
            if a in v2:
                v1.remove(a)
                v2.remove(a)
        for a in v1:
            for y in v2:
                if self.cong(pc, a, y, depth + 1):
                    v2.remove(y)
                    break
            else:
                return False
        return not v2

    def cong(self, pc, a, b, depth):
        if a is b:
            return True
        if depth > 14 or a.op != b.op or len(a.args) != len(b.args):
            if sort_of(a) == 'I' and sort_of(b) == 'I':
                return self.entails(pc, eq(a, b))
            return False
        if a.op in ('ini', 'cont', 'bini', 'sini', 'fini', 'iini', 'oini', 'root', 'var', 'str', 'draw', 'p') and a.op != 'draw':
            if a.op == 'p':
                return self.zero(pc, sub(a, b), depth)
            if a.op in ('root', 'var', 'str'):
                if sort_of(a) == 'I':
                    return self.entails(pc, eq(a, b))
                if sort_of(a) == 'S':
                    return self.entails(pc, eqs(a, b))
                return False
        if a.op in ('lam', 'ex'):
            if a.args[0].args[1] != b.args[0].args[1]:
                return False
            x = fresh(a.args[0].args[1], 'x')
            return self.same(pc, subst(a.args[1], {a.args[0]: x}), subst(b.args[1], {b.args[0]: x}), depth + 1)
        if a.op == 'vred':
            if a.args[1] is not b.args[1] and not self.cong(pc, a.args[1], b.args[1], depth + 1):
                return False
            return self.zero(pc, nf_mod(sub(a.args[0], b.args[0]), a.args[1]), depth + 1)
        if a.op == 'red':
            return a.args[1] is b.args[1] and self.zero(pc, nf_mod(sub(a.args[0], b.args[0]), a.args[1]), depth + 1)
        return self.congargs(pc, a.args, b.args, depth)

    def congargs(self, pc, xs, ys, depth):
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y and not self.same(pc, x, y, depth + 1):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if not self.congargs(pc, x, y, depth):
                    return False
            elif x != y:
                return False
        return True

    # -- draws: the contract's existential randomness is matched with the body's
    def draws_in(self, t, out, memo):
        if t in memo:
            return
        memo.add(t)
        if t.op == 'draw':
            out.append(t)
        def w(tp):
            for a in tp:
                if isinstance(a, T):
                    self.draws_in(a, out, memo)
                elif isinstance(a, tuple):
                    w(a)
        w(t.args)

    def bind_draws(self, d):
        ds = []
        self.draws_in(d, ds, set())
        specd = [x for x in ds if '@spec' in x.args[2] and self.bound(x.args[2]) is None]
        body = [x for x in ds if '@spec' not in x.args[2]]
        ch = False
        for s in specd:
            if self.bound(s.args[2]) is not None:
                continue
            cands = []
            for b in body:
                if b.args[0] == s.args[0] and b.args[1] == s.args[1]:
                    bd = self.match_draw(s, b)
                    if bd is not None and bd not in cands and self.draw_disjoint(bd):
                        cands.append(bd)
            good = []
            for bd in cands:
                self.drawbind.setdefault(s.args[2], []).append((bd, self.dpc))
                if len(to_pd(self.rename(d))) < len(to_pd(d)) or len(cands) == 1:
                    good.append(bd)
                self.drawbind[s.args[2]].pop()
            if good:
                self.drawbind[s.args[2]].append((good[0], self.dpc))
                ch = True
        return ch or any('@spec' in x.args[2] for x in ds)

    def bound(self, site):
        """the body draw that stands for this draw of the contract on the executions considered (one per disjoint case)"""
        for bd, pc in self.drawbind.get(site, ()):
            if pc is self.dpc or not self.incons(tuple(pc) + tuple(self.dpc)):
                return bd
        return None

    def match_draw(self, s, b):
        """spec draw s(x1..xn) = body draw at (c1..ck, x1+o1..xn+on) for constants c, o"""
        xs, ys = s.args[3], b.args[3]
        k = len(ys) - len(xs)
        if k < 0:
            return None
        out = []
        for y in ys[:k]:
            c = is_const(y)
            if c is None:
                return None
            out.append(('c', c))
        for x, y in zip(xs, ys[k:]):
            if x is y:
                out.append(('o', 0))
                continue
            c = is_const(sub(y, x)) if sort_of(x) == sort_of(y) == 'I' else None
            if c is None and self.entails(self.dpc, geneq(x, y)):
                c = 0
            if c is None and sort_of(x) != 'I':
                c = 0
            if c is None:
                c = 0
            out.append(('o', c))
        return (b.args[2],) + tuple(out)

    def draw_disjoint(self, bd):
        """two draws of the contract are never one and the same draw of the body"""
        for o, opc in [x for l in self.drawbind.values() for x in l]:
            if o[0] != bd[0] or self.incons(tuple(opc) + tuple(self.dpc)):
                continue
            ok = False
            for (k1, c1), (k2, c2) in zip(o[1:], bd[1:]):
                if k1 == 'c' and k2 == 'c' and c1 != c2 or k1 == 'c' and k2 == 'o' and c1 < c2 or k1 == 'o' and k2 == 'c' and c2 < c1:
                    ok = True
            if not ok:
                return False
        return True

    def bound_draw(self, x):
        bd = self.bound(x.args[2])
        k = len(bd) - 1 - len(x.args[3])
        idx = tuple(num(c) for _, c in bd[1:1 + k]) + tuple(add(a, num(c)) if c else a for a, (_, c) in zip(x.args[3], bd[1 + k:]))
        return mk('draw', x.args[0], x.args[1], bd[0], idx)

    def rename(self, t, memo=None):
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        if t.op == 'draw' and self.bound(t.args[2]) is not None:
            r = self.bound_draw(t)
        elif t.op == 'p':
            ds = []
            self.draws_in(t, ds, set())
            m = {x: self.bound_draw(x) for x in ds if self.bound(x.args[2]) is not None}
            r = self.repl(t, m) if m else t
        else:
            ds = []
            self.draws_in(t, ds, set())
            m = {x: self.bound_draw(x) for x in ds if self.bound(x.args[2]) is not None}
            r = self.repl(t, m) if m else t
        memo[t] = r
        return r

    def repl(self, t, m):
        from loops import replace_atoms
        return replace_atoms(t, m)

    # -- structural comparison of typed values across the two heaps
    def value(self, pc, typ, v1, v2, path):
        ex = self.ex
        self.steps = 0
        for x, y, flip in ((v1, v2, False), (v2, v1, True)):
            if x.op == 'ite':
                for p, a in ((pc + (x.args[0],), x.args[1]), (pc + (not_(x.args[0]),), x.args[2])):
                    if self.incons(p):
                        continue
                    if flip:
                        self.value(p, typ, v1, a, path)
                    else:
                        self.value(p, typ, a, v2, path)
                return
        if v1 is v2 and not (isnew(v1)):
            return
        if ex.abstract and typ == abstract.CT:
            self.eqv(pc, abstract.from_zero(abstract.value(v1)), abstract.from_zero(abstract.value(v2)), path)
            return
        if typ == '#dom':
            if not self.iff(pc, v1, v2, 0):
                raise Fail('%s: membership differs: body %s, contract %s' % (path, show(v1), show(v2)))
            return
        if typ == '#C':
            if not self.pointwise(pc, v1, v2):
                self.eqv(pc, v1, v2, path)
                k1, k2 = laziness(v1), laziness(v2)
                if k1 > k2 and not havoced(v2):
                    raise Fail('%s: the body leaves residues up to %d times the modulus%s, the contract demands less than %d times' % (path, k1 + 1, ' or more' if k1 == lattigo.OVER else '', k2 + 1))
            return
        if typ in ex.opaque:
            self.eqv(pc, v1, v2, path)
            return
        t = ex.d.types.get(ex.d.under(typ), {'k': 'basic'})
        k = t['k']
        if k == 'basic':
            self.eqv(pc, v1, v2, path)
        elif k == 'struct':
            if v1.op != 'st' or v2.op != 'st':
                self.eqv(pc, v1, v2, path)
                return
            for (n, a), (_, b) in zip(v1.args[1], v2.args[1]):
                self.value(pc, dict((x['n'], x['t']) for x in t['fields'])[n], a, b, path + '.' + n)
        elif k == 'ptr':
            if isnew(v1) and isnew(v2):
                if self.pair(v1, v2, path, pc, typ):
                    return
                et = t['elem']
                self.object(pc, et, v1, v2, path)
            elif v1.op == 'varcell' and isnew(v2):
                # the address of a local variable that escapes: an allocation of its own
                self.object(pc, t['elem'], v1, v2, path)
            else:
                self.refs(pc, v1, v2, path)
        elif k == 'map':
            if isnew(v1) and isnew(v2):
                if self.pair(v1, v2, path, pc, typ):
                    return
                ks = sort_of_type(ex, t['key'])
                x = fresh(ks, 'k')
                d1, d2 = ex.rd(self.st(1, pc), mk('dom', v1, x), '#dom'), ex.rd(self.st(2, pc), mk('dom', v2, x), '#dom')
                if not self.iff(pc, d1, d2, 0):
                    raise Fail('%s: keys differ: body %s, contract %s' % (path, show(d1), show(d2)))
                p2 = pc + (d2,)
                if d2 is not FALSE and not self.incons(p2) and not self.incons(pc + (d1,)):
                    p2 = pc + (d1, d2)
                    if ex.d.ty(t['elem'])['k'] == 'struct' and not ex.d.ty(t['elem'])['fields']:
                        return
                    a = ex.load(self.st(1, p2), mk('mv', v1, x), t['elem'])
                    b = ex.load(self.st(2, p2), mk('mv', v2, x), t['elem'])
                    self.value(p2, t['elem'], a, b, path + '[k]')
            else:
                self.refs(pc, v1, v2, path)
        elif k == 'slice':
            if v1.op != 'slc' or v2.op != 'slc':
                raise Fail('%s: slice %s / %s' % (path, show(v1), show(v2)))
            self.eqv(pc, v1.args[2], v2.args[2], path + '.len')
            a1, a2 = v1.args[0], v2.args[0]
            if a1 is NIL or a2 is NIL:
                if a1 is not a2 and not self.entails(pc, eq(v1.args[2], ZERO)):
                    raise Fail('%s: nil slice' % path)
                return
            if isnew(a1) and isnew(a2):
                if self.pair(a1, a2, path, pc, typ):
                    return
                if ex.is_limb(t['elem']):
                    c1, c2 = ex.rd(self.st(1, pc), C(a1), '#C'), ex.rd(self.st(2, pc), C(a2), '#C')
                    if not self.tables(c1, c2):
                        self.eqv(pc, c1, c2, path)
                        return
                i = fresh('I', 'i')
                p2 = pc + (ge(i, ZERO), lt(i, v1.args[2]))
                if self.incons(p2):
                    return
                x = ex.load(self.st(1, p2), H.e(a1, add(v1.args[1], i)), t['elem'])
                y = ex.load(self.st(2, p2), H.e(a2, add(v2.args[1], i)), t['elem'])
                self.value(p2, t['elem'], x, y, path + '[i]')
            else:
                self.refs(pc, a1, a2, path)
                self.eqv(pc, v1.args[1], v2.args[1], path + '.off')
        elif k == 'array':
            for i in range(t['len']):
                x = ex.load(self.st(1, pc), H.e(v1.args[0], num(i)), t['elem'])
                y = ex.load(self.st(2, pc), H.e(v2.args[0], num(i)), t['elem'])
                self.value(pc, t['elem'], x, y, '%s[%d]' % (path, i))
        elif k in ('iface', 'func', 'unknown', 'tuple'):
            if v1.op == 'iface' and v2.op == 'iface' and v1.args[0] == v2.args[0]:
                if isnew(v1.args[1]) and isnew(v2.args[1]):
                    return
                self.eqv(pc, v1.args[1], v2.args[1], path)
                return
            self.eqv(pc, v1, v2, path)
        else:
            self.eqv(pc, v1, v2, path)

    def pointwise(self, pc, v1, v2, depth=0):
        """coefficient-wise comparison when one side is known by its coefficients only and the other is one vector"""
        if v1 is v2 or depth > 6 or not any(a.op == 'lamv' for v in (v1, v2) for k in to_pd(v) for a in k[3]):
            return False
        if depth:
            v1, v2 = self.simp(pc, v1), self.simp(pc, v2)
        ks = [list(to_pd(v).items()) for v in (v1, v2)]
        if all(len(x) == 1 and x[0][1] == 1 and x[0][0][:3] == ((), (), 0) and len(x[0][0][3]) == 1 for x in ks):
            a, b = (x[0][0][3][0] for x in ks)
            if (a.op == 'lamv') == (b.op == 'lamv'):
                return self.same(pc, v1, v2) if depth else False
            w = fresh('I', 'w')
            x, y = (subst(z.args[0].args[1], {z.args[0].args[0]: w}) if z.op == 'lamv' else mk('at', z, w) for z in (a, b))
            return self.same(pc + (ge(w, ZERO), lt(w, lattigo.N)), x, y)
        c = next((x.args[0] for v in ks for k, _ in v for x, _ in k[1] if x.op == 'ind'), None)
        if c is None:
            return self.same(pc, v1, v2) if depth else False
        return self.split(pc, c, lambda p: self.pointwise(p, v1, v2, depth + 1))

    def tables(self, *cs):
        """both contents are known element by element only"""
        return all(k[3] and all(x.op == 'lamv' for x in k[3]) for c in cs for k in to_pd(c)) and all(to_pd(c) for c in cs)

    def object(self, pc, et, v1, v2, path):
        ex = self.ex
        ty = ex.d.ty(et)
        if ty['k'] == 'struct' and et not in ex.opaque:
            fs = ty['fields']
            for x in fs:
                if (et, x['n']) in ex.ignored:
                    continue
                if ex.d.ty(x['t'])['k'] == 'struct' and x['t'] not in ex.opaque:
                    self.object(pc, x['t'], f(v1, x['n']), f(v2, x['n']), path + '.' + x['n'])
                    continue
                a = ex.load(self.st(1, pc), f(v1, x['n']), x['t'])
                b = ex.load(self.st(2, pc), f(v2, x['n']), x['t'])
                self.value(pc, x['t'], a, b, path + '.' + x['n'])
            for n, ht in ex.hidden.get(et, ()):
                a = ex.rd(self.st(1, pc), f(v1, n), ht)
                b = ex.rd(self.st(2, pc), f(v2, n), ht)
                self.value(pc, ht, a, b, path + '.' + n)
        else:
            a = ex.load(self.st(1, pc), v1, et)
            b = ex.load(self.st(2, pc), v2, et)
            self.value(pc, et, a, b, path)

    def st(self, i, pc):
        s = self.s1 if i == 1 else self.s2
        return St({}, s.log, tuple(pc), ())

    def other_iteration(self, pc, n1, k1, vv):
        """the instances of allocation k1 that play role vv belong to other iterations than n1"""
        for m1, pc1 in self.instances.get((k1, vv), ()):
            ok = False
            for x, y in zip(n1.args[1], m1.args[1]):
                cx, cy = is_const(x), is_const(y)
                if cx is not None and cy is not None and cx != cy:
                    ok = True
                elif cy is not None and cx is None and self.entails(pc, not_(eq(x, y))):
                    ok = True
                elif cx is not None and cy is None and self.entails(pc1, not_(eq(x, y))):
                    ok = True
                if ok:
                    break
            if not ok:
                return False
        return True

    def pair(self, v1, v2, path, pc, typ):
        """record that fresh object v1 of the body plays the role of v2 of the contract; True if known"""
        n1, n2 = newroot(v1), newroot(v2)
        k1, k2 = strip(v1), strip(v2)
        for vv in self.bind.get(k1, ()):
            if vv != k2 and not self.other_iteration(pc, n1, k1, vv):
                # the same allocation site may serve distinct iterations; different roles need different sites
                self.roles.append((v1, v2, path))
        if isinstance(n2, T) and n2.op == 'new':
            f1, f2 = set(), set()
            for a in n1.args[1]:
                f1 |= fv(a)
            for a in n2.args[1]:
                f2 |= fv(a)
            flat = [y for c in pc for y in (c.args if c.op == 'and' else (c,))]
            if any(not any(solve_eq(c, x) is not None for c in flat) and not (x.args[1] == 'S' and self.entails(pc, eqs(x, string('0')))) for x in f2 - f1):
                self.roles.append((v1, v2, path + ' (one object shared between iterations)'))
        self.bind.setdefault(k1, [])
        if k2 not in self.bind[k1]:
            self.bind[k1].append(k2)
        self.instances.setdefault((k1, k2), []).append((n1, pc))
        key = (v1, v2, typ)
        if key in self.seen:
            return True
        self.seen.add(key)
        return False

    def eqv(self, pc, v1, v2, path, depth=0):
        if havocked(v2):
            return
        if depth < 8 and mentions(v2, 'hv'):
            v2 = self.simp(pc, v2)
            if havocked(v2):
                return
            cs = []
            self.conds(v2, cs)
            if cs:
                for c in self.atoms_of(cs[0]):
                    if self.ex.ctx.decide(pc, c) is None:
                        break
                else:
                    c = cs[0]
                for p in (pc + (c,), pc + (not_(c),)):
                    if not self.incons(p):
                        self.eqv(p, v1, v2, path, depth + 1)
                return
        if not self.same(pc, v1, v2):
            if carried(v1):
                raise Unsupported('%s: a high word accumulated with wrap-around, %s' % (path, show(v1)[:300]))
            raise Fail('%s: body gives %s, contract demands %s' % (path, show(self.simp(pc, v1)), show(self.simp(pc, v2))))

    def refs(self, pc, v1, v2, path):
        if v1 is v2:
            return
        if havocked(v2):
            return
        if not self.entails(pc, eqr(v1, v2)):
            raise Fail('%s: body refers to %s, contract demands %s' % (path, show(v1), show(v2)))


def havocked(v):
    if v.op == 'p':
        a = v.args[0]
        if len(a) == 1 and not a[0][0][0] and not a[0][0][3] and len(a[0][0][1]) == 1 and a[0][1] == 1 and a[0][0][1][0][1] == 1:
            x = a[0][0][1][0][0]
            return x.op == 'at' and havocked(x.args[0])        # an element of an unconstrained vector
        return len(a) == 1 and len(a[0][0][3]) == 1 and a[0][0][3][0].op == 'hv' and a[0][1] == 1
    return v.op == 'hv' or v.op == 'slc' and v.args[0].op == 'hv' or v.op == 'at' and havocked(v.args[0])


_MENT = {}


def mentions(v, op):
    k = (v, op)
    r = _MENT.get(k)
    if r is None:
        def w(x):
            if isinstance(x, T):
                return x.op == op or mentions(x, op)
            if isinstance(x, tuple):
                return any(w(y) for y in x)
            return False
        r = _MENT[k] = any(w(a) for a in v.args)
    return r


_CARR = {}

def carried(v):
    """a reduction modulo the word size of something divided by the word size occurs in v"""
    r = _CARR.get(v)
    if r is None:
        def w(x):
            if isinstance(x, T):
                return carried(x)
            return isinstance(x, tuple) and any(w(y) for y in x)
        r = _CARR[v] = v.op == 'red' and v.args[1] is WORD and 'RM^-1' in show(v.args[0]) or any(w(a) for a in v.args)
    return r


def newroot(v):
    while v.op in H.STRUCT and v.op not in ('new', 'varcell'):
        v = v.args[0]
    return v


def strip(v):
    """address with the allocation's indices erased"""
    if v.op == 'new':
        return ('new', v.args[0])
    if v.op in ('f', 'e'):
        a = v.args[1]
        return (v.op, strip(v.args[0]), a if isinstance(a, str) else (is_const(a) if is_const(a) is not None else '*'))
    return (v.op,) + tuple(strip(x) if isinstance(x, T) else x for x in v.args[:1])


def isnew(v):
    return newroot(v).op == 'new'


def sort_of_type(ex, t):
    u = ex.d.ty(t)
    if u['k'] == 'basic':
        n = u['name']
        return 'S' if n == 'string' else 'I' if n in X.INTS else 'B' if n == 'bool' else '?'
    return 'R'


class Result:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.obls = []        # (obligation, ok, detail)
        self.error = None
        self.unsupported = None
        self.time = 0
        self.inlined = set()
        self.specs = set()
        self.panics = 0

    @property
    def ok(self):
        return self.error is None and self.unsupported is None and all(o[1] for o in self.obls)


def updates(log):
    us = []
    while log.upd is not None:
        us.append(log.upd)
        log = log.parent
    us.reverse()
    return us


def make_args(ex, st, fn, mode):
    alias = mode.get('alias', {})
    out = []
    ps = ([fn['recv']] if fn.get('recv') else []) + list(fn['params'])
    for i, p in enumerate(ps):
        n = 'recv' if fn.get('recv') and i == 0 else 'a%d' % (i - (1 if fn.get('recv') else 0))
        nm = alias.get(n, n)
        t = p['t']
        k = ex.d.ty(t)['k']
        if 'values' in mode and n in mode['values']:
            out.append(mode['values'][n](ex, st, p))
            continue
        if k == 'ptr':
            ex.rtype[nm] = ex.d.ty(t)['elem']
            if t == '*mkrlwe.Parameters':
                nm = 'PRMS'
            out.append(root(nm))
        elif t in ex.opaque:
            out.append(W.PRM)
        else:
            ex.rtype[nm] = t
            out.append(ex.load(st, root(nm), t))
    if fn.get('recv'):
        return out[0], out[1:]
    return None, out


def refuses(ex, pc):
    """does some panic of the body happen whenever pc holds?  (an iteration that panics is found by naming its witness)"""
    sk, base = [], []
    for x in pc:
        if x.op == 'ex':
            w = fresh(x.args[0].args[1], 'w')
            sk.append(w)
            b = subst(x.args[1], {x.args[0]: w})
            base += list(b.args) if b.op == 'and' else [b]
        else:
            base.append(x)
    for p in ex.panics:
        if p.may:
            continue
        lv = sorted((v for v in fv(and_(*p.br)) if '@L' in v.args[0]), key=lambda v: v.args[0])
        for pick in itertools.product(*[[w for w in sk if w.args[1] == v.args[1]] for v in lv]):
            m = dict(zip(lv, pick))
            facts = tuple(base) + tuple(subst(x, m) for x in p.facts)
            if all(ex.ctx.entails(facts, subst(x, m)) for x in p.br):
                return True
    return False


def verify(dump, sp, mode, specs, setup=None, contracts=True):
    """prove one function body against its contract in one aliasing mode"""
    res = Result(sp.name, mode)
    t0 = time.time()
    q0 = smt.stats.queries
    try:
        fn = dump.funcs.get(sp.name)
        if fn is None or fn.get('body') is None:
            raise Unsupported('function %s is missing' % sp.name)
        ex = W.World(dump)
        ex.used_specs = set()
        if setup:
            setup(ex, mode)
        ex.rroots.update(mode.get('R', ()))
        ex.second = mode.get('second', 'M')
        ex.lazyroots = sp.lazy
        for n, s in specs.items():
            if n != sp.name and not s.inline:
                ex.contracts[n] = run_contract(s)
        if sp.abstract is not None:
            abstract.install(ex, sp.abstract, fn)
        ex.folds.update({n: run_contract(s) for n, s in ITERATES.items()})
        pre = St({}, ROOT, (), ())
        recv, args = make_args(ex, pre, fn, mode)
        node = {'nid': 'spec', 'line': fn.get('line', 0)}
        # contract
        s2 = pre.fork()
        fr = Frame(sp.name, '@spec')
        fr.boxed = set()
        fr.results = []
        ex.frames.append(fr)
        S2 = S(ex, s2, node, recv, args, fn)
        reqs = [] if not sp.requires else sp.requires(S2)
        for r in reqs + list(mode.get('facts', lambda s: [])(S2)):
            if isinstance(r, ForAll):
                ex.ctx.rules.append(r.instantiate)
                continue
            s2.fact(r)
            pre.fact(r)
            for a in (r.args if r.op == 'and' else (r,)):
                if a.op in ('bini', 'not') and (a.op == 'bini' or a.args[0].op == 'bini'):
                    ex.known[a if a.op == 'bini' else a.args[0]] = TRUE if a.op == 'bini' else FALSE
        for c in mode.get('lemmas', lambda s: [])(S2):
            # consequences of the preconditions, proved once and then available to the (linear) queries
            c, ps = c if isinstance(c, tuple) else (c, None)
            if ps is None:
                ok = ex.ctx.entails(pre.pc, c) or ex.ctx.check(ex.ctx.relevant(pre.pc, c) + [not_(c)], 8) == 'unsat'
            else:       # from the named facts alone
                ok = all(ex.ctx.entails(pre.pc, x) for x in ps) and smt.nonlinear(ps, c)
            res.obls.append(('lemma %s' % show(c), ok, '' if ok else 'does not follow from the preconditions'))
            s2.fact(c)
            pre.fact(c)
        if ex.ctx.inconsistent(pre.pc):
            raise Fail('precondition is contradictory (vacuous proof)')
        r2 = (sp.own or sp.effect)(S2)
        ex.frames.pop()
        if isinstance(r2, tuple):
            r2 = mk('tup', *[x.v if isinstance(x, O) else x for x in r2])
        elif isinstance(r2, O):
            r2 = r2.v
        allowed, ex.panics = ex.panics, []
        okfacts = s2.pc
        if ex.ctx.inconsistent(s2.pc):
            raise Fail('contract excludes every execution (vacuous)')
        # body
        s1 = pre.fork()
        r1 = ex.inline(s1, sp.name, recv, args, None)
        res.inlined = set(ex.inlined)
        res.specs = set(ex.used_specs)
        # panics
        for pc, kind, where in ex.panics:
            cs = tuple(pc) + tuple(okfacts)
            ok = ex.ctx.inconsistent(cs)
            if not ok:
                # the solver running out of effort decides nothing either way
                cl = list(cs)
                more = ex.ctx.products(ex.ctx.closure(cl) + cl)
                a = ex.ctx.check(cl + more) if more else 'unknown'
                if a == 'unknown':
                    a = ex.ctx.check(cl, 8)
                ok = True if a == 'unsat' else False if a == 'sat' else None
            res.panics += 1
            res.obls.append(('no panic (%s) at %s' % (kind, where), ok, '' if ok else ('not excluded within the solver limit when ' if ok is None else 'reachable when ')  + ' and '.join(show(x) for x in pc[-4:])))
        for pc, kind, where in allowed:
            if kind.startswith('must'):
                ok = ex.ctx.inconsistent(tuple(pc) + tuple(s1.facts)) or refuses(ex, pc)
                res.obls.append(('refuses: %s' % kind, ok, '' if ok else 'accepted when ' + ' and '.join(show(x) for x in pc[-4:])))
        eqx = Eq(ex, s1, s2)
        pc = tuple(okfacts) + tuple(x for x in s1.pc if x not in okfacts)
        if ex.ctx.inconsistent(pc):
            raise Fail('no execution satisfies both the body and the contract (vacuous)')
        # result
        rts = fn['results']
        if rts:
            vs = [(r1, r2)] if len(rts) == 1 else list(zip(r1.args, r2.args))
            for i, ((a, b), rt) in enumerate(zip(vs, rts)):
                ob(res, 'result %d' % i, lambda: eqx.value(pc, rt['t'], a, b, 'result'))
        # effects and frame
        done = set()
        for u, who in [(u, 'body') for u in updates(s1.log)] + [(u, 'contract') for u in updates(s2.log)]:
            h = H.head(u.addr)
            r = u.addr
            while r.op in H.STRUCT and r.op not in ('new', 'varcell'):
                r = r.args[0]
            if r.op in ('new', 'varcell'):
                continue
            key = (u.addr, u.guard, u.qv)
            if key in done:
                continue
            done.add(key)
            p2 = pc + ((u.guard,) if u.guard.op != 'and' else u.guard.args)
            p2 = tuple(x for x in p2 if x is not TRUE)
            if ex.ctx.inconsistent(p2):
                continue
            typ = u.where
            if u.addr.op == 'C':
                typ = '#C'
            elif typ == 'u64':
                typ = 'uint64'

            def chk(u=u, p2=p2, typ=typ):
                a = ex.rd(eqx.st(1, p2), u.addr, typ)
                b = ex.rd(eqx.st(2, p2), u.addr, typ)
                eqx.value(p2, typ, a, b, show(u.addr))
            ob(res, '%s effect on %s' % (who, show(u.addr)), chk)
        if eqx.roles:
            for v1, v2, p in eqx.roles:
                res.obls.append(('distinct results at ' + p, False, 'allocation %s plays two roles' % show(v1)))
        # injectivity of draws is by construction of sites; the contract's draws must be matched one to one
        vals = [(k, x) for k, l in eqx.drawbind.items() for x in l]
        if any(k1 < k2 and b1 == b2 and not ex.ctx.inconsistent(tuple(p1) + tuple(p2)) for k1, (b1, p1) in vals for k2, (b2, p2) in vals):
            res.obls.append(('independent randomness', False, 'one draw plays two roles'))
        res.eq = eqx
    except Fail as e:
        res.error = str(e)
    except X.AlwaysPanics as e:
        res.error = 'every execution panics: ' + str(e)
    except Unsupported as e:
        res.unsupported = str(e)
    except RecursionError as e:
        res.unsupported = 'recursion limit'
    except Exception as e:
        import traceback
        res.unsupported = 'engine: ' + short_tb(e)
    res.time = time.time() - t0
    res.queries = smt.stats.queries - q0
    return res


def ob(res, name, fn):
    try:
        fn()
        res.obls.append((name, True, ''))
    except Fail as e:
        # a value the loop analysis gave up on is undecided, not wrong
        gave_up = any(x in str(e) or x in name for x in ('havoc(', 'havocv(', 'havocref('))
        res.obls.append((name, None if gave_up else False, ('not summarised: ' if gave_up else '') + str(e)))
    except Unsupported as e:
        res.obls.append((name, None, 'unsupported: ' + str(e)))


def short_tb(e):
    import traceback
    fs = traceback.extract_tb(e.__traceback__)
    return '%s: %s  [%s]' % (type(e).__name__, e, ' < '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in reversed(fs[-14:]) if 'z3' not in x.filename))
