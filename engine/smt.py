"""Deciding boolean terms with z3 (mathematical integers, reals for floats, uninterpreted structure)."""
import time
import z3
from terms import *

z3.set_param('smt.random_seed', 1)


class Stats:
    queries = 0
    cached = 0
    time = 0.0
    unknown = 0


stats = Stats()
StrS = z3.DeclareSort('Str')
RefS = z3.DeclareSort('Ref')
OthS = z3.DeclareSort('Oth')


def zsort(s):
    return {'I': z3.IntSort(), 'B': z3.BoolSort(), 'S': StrS, 'R': RefS, 'F': z3.RealSort()}.get(s, OthS)


def reduced_below(y, q):
    """y is known to be a residue modulo q"""
    pd = to_pd(y)
    if len(pd) != 1:
        return False
    (k, c), = pd.items()
    if c != 1 or k[0] or k[2] != SC or k[3] or len(k[1]) != 1 or k[1][0][1] != 1:
        return False
    a = k[1][0][0]
    return a.op == 'red' and a.args[1] is q or a.op == 'at' and a.args[0].op == 'vred' and a.args[0].args[1] is q and not a.args[0].args[2]


def residue_quotients(t):
    """n when t is a floating-point sum, from 0, of n quotients y/q of residues y modulo q: it lies between 0 and n,
    since rounding is monotone and 0, 1, ..., n are exact"""
    if t.op == 'ite' and t.args[2].op == 'fc' and float(t.args[2].args[0]) == 0:
        return residue_quotients(t.args[1])
    if t.op != 'rec' or t.args[1].op != 'fc' or float(t.args[1].args[0]) != 0:
        return None
    i = fresh('I', 'i')
    x = fresh('F', 'x')
    b = apply_lam(apply_lam(t.args[0], i), x)
    if b.op != 'f.+' or x not in b.args:
        return None
    y = b.args[1] if b.args[0] is x else b.args[0]
    if y.op == 'f./' and y.args[0].op == 'i2f' and y.args[1].op == 'i2f' and reduced_below(y.args[0].args[0], y.args[1].args[0]):
        return t.args[2]
    return None


class Ctx:
    """encoder with fact instantiation"""

    def __init__(self):
        self.memo = {}
        self.funs = {}
        self.deps = {}
        self.rules = []      # functions term -> list of fact terms
        self.base = []       # facts always assumed
        self.inst = {}
        self.cache = {}
        self.strs = {}
        self.rlimit = 15000000      # deterministic effort (some 3 s); the clock is only a safety net

    def fun(self, name, argsorts, rs):
        k = (name, tuple(str(a) for a in argsorts), str(rs))
        f = self.funs.get(k)
        if f is None:
            nm = '%s#%d' % (name, len(self.funs))
            f = z3.Function(nm, *argsorts, rs) if argsorts else z3.Const(nm, rs)
            self.funs[k] = f
        return f

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t)
            self.memo[t] = r
        return r

    def _enc(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op in ('var', 'bv'):
            return z3.Const('%s:%s:%s' % (op, t.args[0], t.args[1]), zsort(t.args[1]))
        if op == 'p':
            tot = None
            for (bs, mono, d, va), c in t.args[0]:
                if bs or d != SC or any(e < 0 for a, e in mono):
                    from_ = from_pd({(bs, mono, d, va): 1})
                    x = z3.Const('opq%d' % from_.id, z3.IntSort())
                    x = c * x
                else:
                    x = z3.IntVal(c)
                    for a, e in mono:
                        ea = self.enc(a)
                        if not z3.is_int(ea):
                            ea = z3.Const('int%d' % a.id, z3.IntSort())
                        for _ in range(e):
                            x = x * ea
                tot = x if tot is None else tot + x
            return tot if tot is not None else z3.IntVal(0)
        if op == 'ind':
            return z3.If(self.enc(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'le0':
            return self.enc(t.args[0]) <= 0
        if op == 'eq0':
            return self.enc(t.args[0]) == 0
        if op in ('eqs', 'eqr', 'feq'):
            a, b = self.enc(t.args[0]), self.enc(t.args[1])
            if a.sort() != b.sort():
                return z3.Const('neq%d' % t.id, z3.BoolSort())
            return a == b
        if op == 'not':
            return z3.Not(self.enc(t.args[0]))
        if op == 'and':
            return z3.And(*[self.enc(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.enc(a) for a in t.args])
        if op == 'ite':
            a, b = self.enc(t.args[1]), self.enc(t.args[2])
            if a.sort() != b.sort():
                return z3.Const('ite%d' % t.id, z3.IntSort())
            return z3.If(self.enc(t.args[0]), a, b)
        if op == 'str':
            c = self.strs.get(t.args[0])
            if c is None:
                c = z3.Const('str:' + t.args[0], StrS)
                self.strs[t.args[0]] = c
            return c
        if op == 'fc':
            return z3.RealVal(t.args[0])
        if op == 'i2f':
            return z3.ToReal(self.enc(t.args[0]))
        if op == 'f.+':
            return self.enc(t.args[0]) + self.enc(t.args[1])
        if op == 'f.-':
            return self.enc(t.args[0]) - self.enc(t.args[1])
        if op == 'f.*':
            return self.enc(t.args[0]) * self.enc(t.args[1])
        if op == 'f./':
            return self.enc(t.args[0]) / self.enc(t.args[1])
        if op == 'flt':
            return self.enc(t.args[0]) < self.enc(t.args[1])
        if op == 'fle':
            return self.enc(t.args[0]) <= self.enc(t.args[1])
        rs = zsort(sort_of(t))
        if op == 'ex' and self.quant(t):
            x = fresh(t.args[0].args[1], 'q')
            return z3.Exists([self.enc(x)], self.enc(subst(t.args[1], {t.args[0]: x})))
        if op in ('lam', 'ex', 'mu', 'vred', 'red'):
            return z3.Const('%s%d' % (op, t.id), rs)
        name = [op]
        args = []

        def walk(tp):
            for a in tp:
                if isinstance(a, T):
                    name.append('_')
                    args.append(self.enc(a))
                elif isinstance(a, tuple):
                    name.append('(')
                    walk(a)
                    name.append(')')
                else:
                    name.append(repr(a))
        walk(t.args)
        if not args:
            return self.fun('|'.join(name), [], rs)
        return self.fun('|'.join(name), [a.sort() for a in args], rs)(*args)

    def quant(self, t):
        """existentials over ids whose body speaks of memberships and ids only are given their meaning"""
        if t.args[0].args[1] != 'S':
            return False

        def ok(x):
            if x.op in ('and', 'or', 'not'):
                return all(ok(y) for y in x.args)
            return x.op in ('in', 'eqs', 'true', 'false')
        return ok(t.args[1])

    def maps_of(self, t, out):
        if t.op == 'in':
            out.add(t.args[0])
        for a in t.args:
            if isinstance(a, T):
                self.maps_of(a, out)
        return out

    def subterms(self, t):
        d = self.deps.get(t)
        if d is None:
            s = set()
            self._sub(t, s)
            d = frozenset(s)
            self.deps[t] = d
        return d

    def _sub(self, t, s):
        if t in s:
            return
        s.add(t)
        if t.op == 'p':
            for (bs, mono, d, va), c in t.args[0]:
                if bs or d != SC:
                    continue
                for a, e in mono:
                    self._sub(a, s)
            return
        if t.op in ('lam', 'ex', 'mu', 'vred', 'red'):
            return

        def w(tp):
            for a in tp:
                if isinstance(a, T):
                    self._sub(a, s)
                elif isinstance(a, tuple):
                    w(a)
        w(t.args)

    def facts_for(self, t):
        r = self.inst.get(t)
        if r is None:
            r = []
            op = t.op
            if op in ('len', 'card'):
                r.append(ge(t, ZERO))
                if op == 'card' and t.args[0].op == 'lam' and t.args[0].args[0].args[1] == 'S':
                    l = t.args[0]
                    z = string('0')
                    x = fresh('S', 'm')
                    rest = close('ex', x, and_(apply_lam(l, x), not_(eqs(x, z))))
                    if self.quant(rest):
                        # the common part is one element, every party another
                        z0 = apply_lam(l, z)
                        r.append(implies(z0, and_(ge(t, ONE), implies(ge(t, num(2)), rest), implies(rest, ge(t, num(2))))))
                        r.append(implies(not_(z0), and_(implies(ge(t, ONE), rest), implies(rest, ge(t, ONE)))))
            elif op == 'div':
                a, b = t.args
                m = mk('mod', a, b)
                if is_const(b) is not None:
                    r.append(and_(le(mul(b, t), a), lt(a, add(mul(b, t), b))))
                else:
                    r.append(implies(gt(b, ZERO), and_(le(mul(b, t), a), lt(a, add(mul(b, t), b)))))
                    r.append(implies(and_(gt(b, ZERO), ge(a, ZERO)), ge(t, ZERO)))
            elif op == 'mod':
                a, b = t.args
                r.append(implies(gt(b, ZERO), and_(le(ZERO, t), lt(t, b))))
                r.append(implies(and_(le(ZERO, a), lt(a, b)), eq(t, a)))
                d = mk('div', a, b)
                r.append(implies(gt(b, ZERO), eq(a, add(mul(b, d), t))))
            elif op == 'f2i':
                n = residue_quotients(t.args[0])
                if n is not None:
                    r.append(and_(ge(t, ZERO), implies(ge(n, ZERO), le(t, n))))
            elif op == 'q':
                r.append(ge(t, num(2)))
            for f in self.rules:
                x = f(t)
                if x:
                    r.extend(x)
            self.inst[t] = r
        return r

    def closure(self, ts):
        """facts relevant to terms ts (two rounds of instantiation)"""
        facts = []
        seen = set()
        front = list(ts)
        for rnd in range(3):
            nf = []
            for t in front:
                for s in self.subterms(t):
                    if s in seen:
                        continue
                    seen.add(s)
                    for f in self.facts_for(s):
                        if f is not TRUE:
                            facts.append(f)
                            nf.append(f)
            front = nf
            if not front:
                break
        return facts

    def products(self, ts):
        """instances of monotonicity of multiplication: i <= D - c gives i d <= D d - c d for quotients D by d and products i d"""
        quot, prods = set(), {}
        for t in list(ts):
            for s in self.subterms(t):
                if s.op == 'div' and is_const(s.args[1]) is None and s.args[1].op != 'p':
                    quot.add(s)
                elif s.op == 'p':
                    for k, c in to_pd(s).items():
                        m = k[1]
                        if not k[0] and not k[3]:
                            for a, e in m:
                                if a.op in ('div', 'var') and e == 1:
                                    prods.setdefault(a, set()).update(x for x, e2 in m if x is not a and e2 == 1 and x.op in ('var', 'div', 'ini'))
        out = []
        for D in sorted(quot, key=show):
            d = D.args[1]
            for i in sorted(prods.get(d, ()), key=show):
                if i is not D and sort_of(i) == 'I':
                    for c in (0, 1, 2):
                        out.append(implies(and_(ge(d, ZERO), le(i, sub(D, num(c)))), le(mul(i, d), mul(sub(D, num(c)), d))))
        return out

    def relevant(self, pc, cond):
        atoms = set()

        def ats(t):
            r = set(x for x in self.subterms(t) if x.op not in ('p', 'and', 'or', 'not', 'le0', 'eq0', 'eqs', 'eqr', 'ind', 'str', 'true', 'false', 'root', 'fc', 'nil'))
            for x in list(r):
                if x.op == 'ex' and self.quant(x) or x.op == 'card':
                    self.maps_of(x, r)
            return r
        want = ats(cond)
        rest = [(f, ats(f)) for f in pc]
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for f, a in rest:
                if not a or a & want:
                    out.append(f)
                    want |= a
                    changed = True
                else:
                    keep.append((f, a))
            rest = keep
        return out

    def pow2_facts(self, ts):
        ps = []
        for t in ts:
            for x in self.subterms(t):
                if x.op == 'pow2' and x not in ps:
                    ps.append(x)
        out = []
        for x in ps:
            out.append(or_(lt(x.args[0], ZERO), ge(x, ONE)))
            out.append(or_(lt(x.args[0], ONE), ge(x, num(2))))
            for y in ps:
                if x is not y:
                    out.append(or_(lt(x.args[0], ZERO), ge(x.args[0], y.args[0]), ge(y, add(x, x))))
                    out.append(or_(not_(eq(x.args[0], y.args[0])), eq(x, y)))
        return out

    def check(self, conds, effort=1):
        """'sat' / 'unsat' / 'unknown' for the conjunction"""
        t0 = time.time()
        stats.queries += 1
        s = z3.Solver()
        s.set('rlimit', effort * self.rlimit)
        s.set('timeout', effort * 30000)
        facts = self.closure(list(conds) + self.base)
        facts = facts + self.pow2_facts(list(conds) + facts)
        for f in self.base:
            s.add(self.enc(f))
        for f in facts:
            s.add(self.enc(f))
        for c in conds:
            s.add(self.enc(c))
        if len(self.strs) > 1:
            s.add(z3.Distinct(*self.strs.values()))
        r = str(s.check())
        stats.time += time.time() - t0
        if r == 'unknown':
            stats.unknown += 1
        self.last = s
        return r

    def decide(self, pc, cond):
        """True if pc => cond, False if pc => not cond, None otherwise"""
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        s = set()
        for p in pc:
            if p.op == 'and':
                s.update(p.args)
            s.add(p)
        if cond in s:
            return True
        n = not_(cond)
        if n in s:
            return False
        if cond.op == 'and':
            todo = [c for c in cond.args if c not in s]
            if not todo:
                return True
            for c in todo:
                if not_(c) in s:
                    return False
            cond2 = and_(*todo)
        else:
            cond2 = cond
        rel = self.relevant(pc, cond2)
        key = (frozenset(rel), cond2)
        if key in self.cache:
            stats.cached += 1
            return self.cache[key]
        r = None
        if self.check(rel + [not_(cond2)]) == 'unsat':
            r = True
        elif self.check(rel + [cond2]) == 'unsat':
            r = False
        self.cache[key] = r
        return r

    def entails(self, pc, cond):
        if cond is TRUE:
            return True
        if cond is FALSE:
            return self.inconsistent(pc)
        s = set()
        for p in pc:
            if p.op == 'and':
                s.update(p.args)
            s.add(p)
        if cond in s:
            return True
        rel = self.relevant(pc, cond)
        key = (frozenset(rel), cond)
        if self.cache.get(key) is not None:
            stats.cached += 1
            return self.cache[key]
        key = ('e', frozenset(rel), cond)
        if key in self.cache:
            stats.cached += 1
            return self.cache[key]
        r = self.check(rel + [not_(cond)]) == 'unsat'
        self.cache[key] = r
        return r

    def inconsistent(self, pc):
        key = ('inc', frozenset(pc))
        if key not in self.cache:
            self.cache[key] = self.check(list(pc)) == 'unsat'
        return self.cache[key]


def nonlinear(premises, conclusion, timeout=60000):
    """premises => conclusion over the integers, atoms as variables, quotients and remainders by their definition"""
    consts, defs = {}, []

    def iv(t):
        if t not in consts:
            consts[t] = c = z3.Int('n%d' % len(consts))
            if t.op == 'div':
                a, d = num(t.args[0]), num(t.args[1])
                defs.append(z3.Implies(d > 0, z3.And(c * d <= a, a < c * d + d)))
            elif t.op == 'mod':
                q = iv(mk('div', *t.args))
                defs.append(z3.Implies(num(t.args[1]) > 0, c == num(t.args[0]) - q * num(t.args[1])))
        return consts[t]

    def num(t):
        if t.op != 'p':
            return iv(t)
        tot = z3.IntVal(0)
        for (bs, mono, d, va), c in t.args[0]:
            if bs or va or any(e < 0 or a.op == 'ind' for a, e in mono):
                tot = tot + c * iv(from_pd({(bs, mono, d, va): 1}))
                continue
            x = z3.IntVal(c)
            for a, e in mono:
                for _ in range(e):
                    x = x * iv(a)
            tot = tot + x
        return tot

    def enc(t):
        if t.op in ('and', 'or'):
            return (z3.And if t.op == 'and' else z3.Or)(*[enc(a) for a in t.args])
        if t.op == 'not':
            return z3.Not(enc(t.args[0]))
        if t.op == 'eq0':
            return num(t.args[0]) == 0
        if t.op == 'le0':
            return num(t.args[0]) <= 0
        if t.op in ('true', 'false'):
            return z3.BoolVal(t.op == 'true')
        return z3.Bool('b%d' % t.id)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*[enc(p) for p in premises])
    s.add(z3.Not(enc(conclusion)))
    s.add(*defs)
    t0 = time.time()
    stats.queries += 1
    r = s.check()
    stats.time += time.time() - t0
    return r == z3.unsat
