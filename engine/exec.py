"""Symbolic execution of the extracted Go code over the memory model of heap.py."""
import json
import sys
from terms import *
from heap import *
import heap as H
import folds
from smt import Ctx

sys.setrecursionlimit(100000)
INTS = {'int', 'int64', 'int32', 'int16', 'int8', 'uint', 'uint64', 'uint32', 'uint16', 'uint8', 'byte', 'uintptr', 'untyped int', 'rune', 'untyped rune'}
FLTS = {'float64', 'float32', 'untyped float'}


class St:
    __slots__ = ('env', 'log', 'br', 'facts', '_pc')

    def __init__(self, env, log, br, facts):
        self.env, self.log, self.br, self.facts = env, log, br, facts
        self._pc = None

    def fork(self):
        return St(dict(self.env), self.log, self.br, self.facts)

    @property
    def pc(self):
        if self._pc is None:
            self._pc = self.br + self.facts
        return self._pc

    def branch(self, c):
        xs = c.args if c.op == 'and' else (c,)
        self.br = self.br + tuple(x for x in xs if x is not TRUE and x not in self.br)
        self._pc = None

    def fact(self, c):
        xs = c.args if c.op == 'and' else (c,)
        self.facts = self.facts + tuple(x for x in xs if x is not TRUE and x not in self.facts)
        self._pc = None


class Panic(tuple):
    """(path condition, kind, place); br: what makes it happen, facts: what holds there anyway"""
    def __new__(cls, t, br, facts):
        p = tuple.__new__(cls, t)
        p.br, p.facts, p.may = br, facts, False
        return p


class Frame:
    __slots__ = ('fn', 'path', 'boxed', 'nres', 'results')

    def __init__(self, fn, path):
        self.fn, self.path = fn, path


def once_reduced(v):
    """w - q [q <= w] and w + q [w < 0] are the residue of w modulo q"""
    for k, c in to_pd(v).items():
        if abs(c) != 1 or len(k[1]) != 2 or k[0] or k[3]:
            continue
        q = [x for x, e in k[1] if x.op == 'q' and e == 1]
        i = [x for x, e in k[1] if x.op == 'ind' and e == 1]
        if len(q) == 1 and len(i) == 1:
            w = sub(v, mul(num(c), mul(q[0], i[0])))
            if eq(i[0], ind(le(q[0], w) if c < 0 else lt(w, ZERO))) is TRUE:
                return red(w, q[0])
    return None


class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = d['funcs']
        folds.extract(self.funcs)
        n = 0
        for k in sorted(self.funcs):
            n = 0
            stack = [self.funcs[k].get('body')]
            while stack:
                x = stack.pop()
                if isinstance(x, dict):
                    if 'k' in x:
                        x['nid'] = n
                        n += 1
                    stack.extend(x.values())
                elif isinstance(x, list):
                    stack.extend(x)
        self._under = {}
        self._boxed = {}

    def under(self, t):
        r = self._under.get(t)
        if r is None:
            x = self.types.get(t)
            r = t
            while x is not None and x['k'] == 'named':
                r = x['under']
                x = self.types.get(r)
            self._under[t] = r
        return r

    def ty(self, t):
        return self.types.get(self.under(t), {'k': 'unknown', 'name': t})

    def fields(self, t):
        return self.ty(t)['fields']

    def boxed(self, fname):
        """variables whose address is taken or that closures assign"""
        r = self._boxed.get(fname)
        if r is None:
            r = set()
            fn = self.funcs[fname]
            allv = {}

            def root(x):
                while x.get('k') in ('field', 'index'):
                    if x['k'] == 'field' and x.get('ptr'):
                        return None
                    if x['k'] == 'index' and self.ty(x['xt'])['k'] != 'array':
                        return None
                    x = x['x']
                return x['id'] if x.get('k') == 'var' else None

            def w(x):
                if isinstance(x, dict):
                    k = x.get('k')
                    if k == 'addr':
                        v = root(x['x'])
                        if v:
                            r.add(v)
                    elif k == 'method' and x.get('ptrrecv') and not x.get('xptr'):
                        v = root(x['x'])
                        if v:
                            r.add(v)
                    elif k == 'slice' and self.ty(x['xt'])['k'] == 'array':
                        v = root(x['x'])
                        if v:
                            r.add(v)
                    elif k == 'var' and self.ty(x['t'])['k'] == 'array':
                        r.add(x['id'])
                    for y in x.values():
                        w(y)
                elif isinstance(x, list):
                    for y in x:
                        w(y)
            w(fn.get('body'))
            for p in fn['params'] + ([fn['recv']] if fn.get('recv') else []):
                if self.ty(p['t'])['k'] == 'array':
                    r.add(p['id'])
            self._boxed[fname] = r
        return r


def assigned_vars(nodes, d):
    out = set()

    def root(x):
        while x.get('k') in ('field', 'index'):
            if x['k'] == 'field' and x.get('ptr'):
                return None
            if x['k'] == 'index' and d.ty(x['xt'])['k'] != 'array':
                return None
            x = x['x']
        return x.get('id') if x.get('k') == 'var' else None

    def w(x):
        if isinstance(x, dict):
            k = x.get('k')
            if k in ('assign', 'decl'):
                for l in x['l']:
                    v = root(l)
                    if v:
                        out.add(v)
            elif k == 'opassign':
                v = root(x['l'])
                if v:
                    out.add(v)
            elif k == 'range':
                for kk in ('key', 'val'):
                    if x.get(kk) and x[kk].get('k') == 'var':
                        out.add(x[kk]['id'])
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(nodes)
    return out


def stride_of(i, qv):
    """m for an index m*q + c with a quantified q and a constant m > 1"""
    m = None
    for k, c in to_pd(i).items():
        if k[0] or k[2] != SC:
            return None
        if not k[1]:
            continue
        if len(k[1]) == 1 and k[1][0][1] == 1 and k[1][0][0] in qv and c == int(c) and 1 < c <= 64 and m is None:
            m = int(c)
        elif any(q in fv(a) for a, _ in k[1] for q in qv):
            return None
    return m


def swap(t, i, w, b):
    """t with the index i replaced by w wherever i occurs as a whole (b: the variable that makes i recognisable)"""
    if t is i:
        return w
    if b not in fv(t):
        return t
    if t.op == 'p':
        acc = {}
        for key, c in to_pd(t).items():
            fr, mono, d, va = H_open(key)
            if d != SC or fr:
                return t
            m = {((), (), SC, ()): c}
            for a, e_ in mono:
                m = pd_mul(m, pd_pow(to_pd(swap(a, i, w, b)), e_))
            pd_addto(acc, m)
        return from_pd(acc)
    return rebuild(t.op, tuple(swap(z, i, w, b) if isinstance(z, T) else z for z in t.args))


class Ex:
    def __init__(self, dump, ctx=None):
        self.d = dump
        self.ctx = ctx or Ctx()
        self.contracts = {}
        self.folds = {}
        self.abstract = False      # ciphertexts are slot vectors (abstract.py)
        self.betas, self.prims = {}, {}
        self.opaque = set()        # struct types treated as canonical constants
        self.shape = []            # rules (addr, type) -> value
        self.prm_field = lambda p, name, t: None
        self.panics = []
        self.known = {}
        self.loopvars = []         # stack of loop variables
        self.inlined = set()
        self.called = set()
        self.assumed = {}
        self.frames = []
        self.closures = {}
        self.loopid = 0
        self.depth = 0
        self.trace = False
        self.imethods = {}
        self.draws = []
        self.noeffect = set()
        self.iface_name = {}

    # ------------------------------------------------------------ decisions
    def decide(self, st, c, extra=()):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self.ctx.decide(st.pc + tuple(extra), c)

    def entails(self, st, c):
        return self.ctx.entails(st.pc, c)

    def panic_if(self, st, c, kind, node):
        """record that execution panics when c holds; continue assuming it does not"""
        if c is FALSE:
            return
        d = self.decide(st, c)
        if d is False:
            return
        self.panics.append(Panic((st.pc + (c,), kind, self.where(node)), st.br + (c,), st.facts))
        st.fact(not_(c))

    def where(self, node):
        fr = self.frames[-1] if self.frames else None
        f = self.d.funcs.get(fr.fn) if fr else None
        return '%s:%s (%s)' % (f['file'] if f else '?', (node or {}).get('line', '?'), fr.fn if fr else '?')

    def site(self, node, tag=''):
        fr = self.frames[-1]
        return mk('new', '%s#%s%s' % (fr.path, node['nid'], tag), tuple(self.loopvars))

    # ------------------------------------------------------------ memory
    def base(self, addr, typ, st):
        r = addr
        while r.op in H.STRUCT and r.op != 'new':
            r = r.args[0]
            if not isinstance(r, T):
                break
        for rule in self.shape:
            v = rule(addr, typ)
            if v is not None:
                return v
        v = addr
        while v.op in ('f', 'e'):
            v = v.args[0]
        if isinstance(r, T) and r.op == 'new' or v.op == 'varcell':
            return self.zero(typ)
        u = self.d.under(typ)
        t = self.d.types.get(u, {'k': 'unknown'})
        k = t['k']
        if typ == '#dom':
            return mk('in', addr.args[0], addr.args[1])
        if k == 'basic':
            n = t['name']
            if n in INTS:
                return mk('ini', addr)
            if n in FLTS:
                return mk('fini', addr)
            if n == 'bool':
                b = mk('bini', addr)
                return self.known.get(b, b)
            if n == 'string':
                return mk('sini', addr)
            return mk('oini', addr)
        if k == 'ptr':
            return mk('ptr', addr)
        if k == 'map':
            return mk('map', addr)
        if k == 'slice':
            return slc(mk('arr', addr), ZERO, mk('len', addr))
        if k in ('iface', 'func'):
            return mk('iini', addr)
        if typ in self.opaque or k == 'struct':
            return mk('oini', addr)
        raise Unsupported('initial value of type ' + typ)

    def zero(self, typ):
        if typ == '#dom':
            return FALSE
        t = self.d.ty(typ)
        k = t['k']
        if k == 'basic':
            n = t['name']
            if n in INTS:
                return ZERO
            if n in FLTS:
                return fconst(0)
            if n == 'bool' or n == 'untyped bool':
                return FALSE
            if n in ('string', 'untyped string'):
                return string('')
            return mk('ozero', n)
        if k == 'slice':
            return slc(NIL, ZERO, ZERO)
        if k == 'struct':
            if typ in self.opaque:
                return mk('ozero', typ)
            return mk('st', typ, tuple((x['n'], self.zero(x['t'])) for x in t['fields']))
        if k == 'array':
            return mk('zarr', typ)
        return NIL

    def is_limb(self, typ):
        return self.d.under(typ) == 'uint64'

    def rd(self, st, addr, typ):
        it = find_ite(addr)
        if it is not None:
            c, a, b = it.args
            d = self.decide(st, c)
            if d is True:
                return self.rd(st, H.replace(addr, it, a), typ)
            if d is False:
                return self.rd(st, H.replace(addr, it, b), typ)
            s1 = st.fork()
            s1.branch(c)
            s2 = st.fork()
            s2.branch(not_(c))
            return ite(c, self.rd(s1, H.replace(addr, it, a), typ), self.rd(s2, H.replace(addr, it, b), typ))
        if addr.op == 'C':
            return self.rd_content(st, st.log, addr, ())
        if addr.op == 'e' and self.is_limb(typ):
            return self.rd_elem(st, st.log, addr, ())
        return self.rd_from(st, st.log, addr, typ, ())

    def hits(self, st, u, addr, extra):
        """condition and value of update u at addr"""
        r = unify(u.addr, addr, u.qv, self.ctx.entails, u.guard)
        if r is None:
            return None
        b, cond = r
        sb = {k: v for k, v in b.items() if v is not None}
        un = [k for k, v in b.items() if v is None]
        if un and any(x in fv(u.val) or x in fv(u.guard) for x in un):
            raise Unsupported('update pattern not determined by its address: %s at %s (%s)' % (show(u.addr), show(addr), ', '.join(show(x) for x in un)))
        g = and_(cond, subst(u.guard, sb))
        if g is FALSE:
            return None
        return g, sb

    def barrier(self, st, u, addr, extra, content=False):
        """may an earlier iteration of the loop have written addr?"""
        for (qv, guard, wa) in u.W:
            hw, ha = wa.op, addr.op
            A, Wd = addr, wa
            if hw != ha:
                if {hw, ha} == {'C', 'e'}:
                    A = addr.args[0]
                    Wd = wa.args[0]
                else:
                    continue
            elif H.head(wa) != H.head(addr):
                continue
            # the earlier iteration's loop variable and the pattern's own variables
            b2 = fresh(u.beta.args[1], 'e')
            ren = {u.beta: b2}
            q2 = []
            for q in qv:
                nq = fresh(q.args[1], 'e')
                ren[q] = nq
                q2.append(nq)
            Wd2 = subst(Wd, ren)
            eqs_, idx = [], []
            if not H._uni(Wd2, A, frozenset(), eqs_, idx):
                continue
            cond = TRUE
            for x, y in eqs_ + idx:
                cond = and_(cond, geneq(x, y))
            if cond is FALSE:
                continue
            rng = subst(u.rng, {u.beta: b2})
            allc = and_(cond, subst(guard, ren), rng, u.earlier(b2))
            if allc is FALSE:
                continue
            if self.ctx.inconsistent(tuple(self.ctx.relevant(st.pc + tuple(extra), allc)) + (allc,)):
                continue
            return True
        return False

    def rd_from(self, st, node, addr, typ, extra):
        pieces = []
        hd = H.head(addr)
        ex = tuple(extra)
        while True:
            u = node.upd
            if u is None:
                val = self.base(addr, typ, st)
                break
            if u.loop is not None:
                if self.barrier(st, u, addr, ex):
                    val = self.known_before(st, u, addr, ex)
                    if val is None:
                        val = self.preval(u.loop, addr, typ)
                    break
                node = node.parent
                continue
            if u.head != hd:
                node = node.parent
                continue
            h = self.hits(st, u, addr, ex)
            if h is None:
                node = node.parent
                continue
            g, sb = h
            dd = self.decide(st, g, ex)
            if dd is False:
                node = node.parent
                continue
            v = subst(u.val, sb)
            if dd is True:
                val = v
                break
            pieces.append((self.residual(st, g, ex), v))
            ex = ex + (not_(g),)
            node = node.parent
        for g, v in reversed(pieces):
            val = ite(g, v, val)
        return val

    def known_before(self, st, u, addr, extra):
        """value an earlier iteration certainly stored at addr (a reference the body stores at a place of its own in every
        iteration; the same stores are found again in the final round, so this is the induction hypothesis)"""
        hit = [w for w in u.W if H.head(w[2]) == H.head(addr) and H.may_meet(subst(w[2], {u.beta: fresh(u.beta.args[1], 'e')}), addr)]
        if len(hit) != 1:
            return None
        for qv, guard, pa, val in u.known:
            if H.head(pa) != H.head(addr) or not H.may_meet(subst(pa, {u.beta: fresh(u.beta.args[1], 'e')}), addr):
                continue
            b2 = fresh(u.beta.args[1], 'e')
            ren = {u.beta: b2}
            for q in qv:
                ren[q] = fresh(q.args[1], 'e')
            r = unify(subst(pa, ren), addr, tuple(ren.values()), self.ctx.entails, subst(guard, ren))
            if r is None:
                return None
            b, cond = r
            if any(b.get(x) is None for x in ren.values()):
                return None
            sb = dict(b)
            g = and_(cond, subst(subst(guard, ren), sb), subst(u.rng, {u.beta: b[b2]}), u.earlier(b[b2]))
            if self.decide(st, g, extra) is not True:
                return None
            return subst(subst(val, ren), sb)
        return None

    def preval(self, loop, addr, typ):
        if addr.op == 'C':
            return vec(mk('pre', loop, addr, 'V'))
        if typ == '#dom':
            return mk('pre', loop, addr, 'B')
        t = self.d.ty(typ)
        k = t['k']
        s = '?'
        if k == 'basic':
            n = t['name']
            s = 'I' if n in INTS else 'F' if n in FLTS else 'B' if n == 'bool' else 'S' if n == 'string' else '?'
        elif k in ('ptr', 'map', 'iface', 'func'):
            s = 'R'
        elif k == 'slice':
            return slc(mk('pre', loop, mk('arr', addr), 'R'), mk('pre', loop, mk('off', addr), 'I'), mk('pre', loop, mk('len', addr), 'I'))
        return mk('pre', loop, addr, s)

    def rd_content(self, st, node, addr, extra):
        """content of a limb: vector-level updates, lifting element-level ones"""
        arr = addr.args[0]
        if arr is NIL:
            return ZERO
        # element-level updates in the log?
        n = node
        elem = False
        pieces = []
        ex = tuple(extra)
        while True:
            u = n.upd
            if u is None:
                val = self.base_content(arr, st)
                break
            if u.loop is not None:
                if self.barrier(st, u, addr, ex):
                    val = vec(mk('pre', u.loop, addr, 'V'))
                    break
                n = n.parent
                continue
            if u.head == ('e',) and u.where == 'u64':
                r = unify(u.addr.args[0], arr, u.qv, self.ctx.entails, u.guard)
                if r is not None:
                    b, cond = r
                    if self.decide(st, cond, ex) is not False:
                        sb = {k: v for k, v in b.items() if v is not None}
                        g0 = and_(cond, subst(u.guard, sb))
                        if not self.ctx.inconsistent(tuple(self.ctx.relevant(st.pc + ex, g0)) + (g0,)):
                            elem = True
                            stride = stride_of(u.addr.args[1], u.qv)
                            break
                n = n.parent
                continue
            if u.head != ('C',):
                n = n.parent
                continue
            h = self.hits(st, u, addr, ex)
            if h is None:
                n = n.parent
                continue
            g, sb = h
            dd = self.decide(st, g, ex)
            if dd is False:
                n = n.parent
                continue
            v = subst(u.val, sb)
            if dd is True:
                val = v
                break
            pieces.append((self.residual(st, g, ex), v))
            ex = ex + (not_(g),)
            n = n.parent
        if elem:
            w = fresh('I', 'w')
            s2 = st.fork()
            s2.fact(ge(w, ZERO))
            s2.fact(lt(w, self.limb_len(arr)))
            for x in ex:
                s2.fact(x)
            val = self.strided(s2, n, arr, stride)
            if val is None:
                ev = self.rd_elem(s2, n, H.e(arr, w), ())
                val = self.lift(ev, w)
        for g, v in reversed(pieces):
            val = ite(g, v, val)
        return val

    def strided(self, st, n, arr, m):
        """the vector at arr when the positions of every residue class modulo m hold the elements of one and the same vector"""
        if m is None:
            return None
        val = None
        for c in range(m):
            b, w2 = fresh('I', 'b'), fresh('I', 'w')
            i = add(mul(num(m), b), num(c))
            s2 = st.fork()
            s2.fact(ge(b, ZERO))
            s2.fact(lt(i, self.limb_len(arr)))
            ev = swap(self.rd_elem(s2, n, H.e(arr, i), ()), i, w2, b)
            if b in fv(ev):
                return None
            v = self.lift_lin(ev, w2)
            if v is None or val is not None and v is not val:
                return None
            val = v
        return val

    def table_elem(self, st, addr):
        return None

    def limb_len(self, arr):
        return var('N')

    def base_content(self, arr, st):
        for rule in self.shape:
            v = rule(C(arr), '#C')
            if v is not None:
                return v
        r = arr
        while isinstance(r, T) and r.op in H.STRUCT and r.op not in ('new', 'varcell'):
            r = r.args[0]
        if isinstance(r, T) and r.op in ('new', 'varcell'):
            return ZERO
        return vec(mk('cont', arr))

    def rd_elem(self, st, node, addr, extra):
        arr, w = addr.args
        pieces = []
        ex = tuple(extra)
        while True:
            u = node.upd
            if u is None:
                val = self.table_elem(st, addr)
                if val is None and arr.op == 'arr' and arr.args[0].op == 'f' and arr.args[0].args[0].op == 'root':
                    val = self.base(addr, 'uint64', st)
                    if val is not None and val.op == 'ini':
                        val = None
                if val is None:
                    val = self.at(self.base_content(arr, st), w)
                break
            if u.loop is not None:
                if self.barrier(st, u, addr, ex):
                    if any(x[2].op == 'e' for x in u.W):
                        val = mk('pre', u.loop, addr, 'I')
                    else:
                        val = self.at(vec(mk('pre', u.loop, C(arr), 'V')), w)
                    break
                node = node.parent
                continue
            if u.head == ('e',) and u.where == 'u64':
                h = self.hits(st, u, addr, ex)
                isc = False
            elif u.head == ('C',):
                h = self.hits(st, u, C(arr), ex)
                isc = True
            else:
                node = node.parent
                continue
            if h is None:
                node = node.parent
                continue
            g, sb = h
            dd = self.decide(st, g, ex)
            if dd is False:
                node = node.parent
                continue
            v = subst(u.val, sb)
            if isc:
                v = self.at(v, w)
            if dd is True:
                val = v
                break
            pieces.append((self.residual(st, g, ex), v))
            ex = ex + (not_(g),)
            node = node.parent
        for g, v in reversed(pieces):
            val = ite(g, v, val)
        return val

    def at(self, v, w):
        """element w of a vector polynomial"""
        acc = {}
        for key, c in to_pd(v).items():
            if key[2] == SC:
                raise Unsupported('element of scalar')
            fr, mono, d, va = H_open(key)
            if len(va) == 1 and d == 0 and va[0].op == 'vred':
                a = red(self.at(va[0].args[0], w), va[0].args[1]) if False else mk('at', va[0], w)
            elif len(va) == 1 and d == 0 and va[0].op == 'lamv':
                a = apply_lam(va[0].args[0], w)
            else:
                a = mk('at', from_pd({((), (), d, va): 1}) if (len(va) != 1 or d != 0) else va[0], w)
            q = pd_mul({((), tuple(sorted(mono, key=lambda x: x[0].id)), SC, ()): c}, to_pd(a))
            if fr:
                q = pd_sum(q, fr)
            pd_addto(acc, q)
        return from_pd(acc)

    def residual(self, st, g, ex):
        if g.op == 'and':
            return and_(*[c for c in g.args if self.decide(st, c, ex) is not True])
        return g

    def lift(self, ev, w):
        """vector whose element w is ev"""
        r = self.lift_lin(ev, w)
        if r is not None:
            return r
        return vec(mk('lamv', lam(w, ev)))

    def lift_lin(self, ev, w):
        acc = {}
        for key, c in to_pd(ev).items():
            fr, mono, d, va = H_open(key)
            if d != SC:
                return None
            hit = None
            rest = []
            for a, ee in mono:
                if w in fv(a):
                    if hit is not None or ee != 1:
                        return None
                    hit = a
                else:
                    rest.append((a, ee))
            if hit is None:
                x = vconst(0)
                return None
            if hit.op == 'at' and hit.args[1] is w and w not in fv(hit.args[0]):
                a = hit.args[0]
                x = a if a.op == 'p' else vec(a)
            elif hit.op == 'red':
                inner = self.lift_lin(hit.args[0], w)
                if inner is None:
                    return None
                x = vred(inner, hit.args[1])
            else:
                return None
            q = pd_mul({((), tuple(sorted(rest, key=lambda z: z[0].id)), SC, ()): c}, to_pd(x))
            if fr:
                q = pd_sum(q, fr)
            pd_addto(acc, q)
        return from_pd(acc)

    def wr(self, st, addr, val, typ, qv=(), guard=TRUE):
        it = find_ite(addr)
        if it is not None:
            c, a, b = it.args
            d = self.decide(st, c, (guard,))
            if d is not False:
                self.wr(st, H.replace(addr, it, a), val, typ, qv, guard if d else and_(guard, c))
            if d is not True:
                self.wr(st, H.replace(addr, it, b), val, typ, qv, guard if d is False else and_(guard, not_(c)))
            return
        if val.op == 'st' and addr.op != 'C':
            ft = {x['n']: x['t'] for x in self.d.fields(val.args[0])}
            for n, v in val.args[1]:
                self.wr(st, f(addr, n), v, ft[n], qv, guard)
            return
        if val.op == 'zarr':
            r = addr
            while r.op in H.STRUCT and r.op not in ('new', 'varcell'):
                r = r.args[0]
            if r.op == 'varcell' and self.loopvars and addr.op == 'varcell':
                # declared again in every iteration
                et = self.d.ty(typ)['elem']
                if self.is_limb(et):
                    self.wr(st, C(addr), ZERO, '#C', qv, guard)
                else:
                    k = fresh('I', 'k')
                    self.wr(st, H.e(addr, k), self.zero(et), et, tuple(qv) + (k,), guard)
                return
            if r.op == 'new' or r.op == 'varcell':
                return
            raise Unsupported('array value store')
        if val.op == 'arrv':
            t = self.d.ty(typ)
            if t['k'] != 'array' or t.get('len', 99) > 16:
                raise Unsupported('array value store')
            vs = [self.load(st, H.e(val.args[0], num(i)), t['elem']) for i in range(t['len'])]
            for i, v in enumerate(vs):
                self.wr(st, H.e(addr, num(i)), v, t['elem'], qv, guard)
            return
        where = 'u64' if (addr.op == 'e' and self.is_limb(typ)) else typ
        st.log = Node(st.log, Upd(qv, guard, addr, val, where))

    def load(self, st, addr, typ):
        t = self.d.ty(typ)
        if t['k'] == 'struct' and typ not in self.opaque:
            return mk('st', typ, tuple((x['n'], self.load(st, f(addr, x['n']), x['t'])) for x in t['fields']))
        if t['k'] == 'array':
            return mk('arrv', addr)
        return self.rd(st, addr, typ)

    # ------------------------------------------------------------ merging
    def merge(self, a, b):
        i = 0
        n = min(len(a.br), len(b.br))
        while i < n and a.br[i] is b.br[i]:
            i += 1
        ga, gb = and_(*a.br[i:]), and_(*b.br[i:])
        x, y = a.log, b.log
        xs, ys = [], []
        while x.depth > y.depth:
            xs.append(x.upd)
            x = x.parent
        while y.depth > x.depth:
            ys.append(y.upd)
            y = y.parent
        while x is not y:
            xs.append(x.upd)
            ys.append(y.upd)
            x, y = x.parent, y.parent
        nd = x
        for seg, g in ((xs, ga), (ys, gb)):
            for u in reversed(seg):
                nd = Node(nd, Upd(u.qv, and_(u.guard, g), u.addr, u.val, u.where))
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            env[k] = v if v is w else ite_val(ga, v, w)
        st = St(env, nd, a.br[:i], ())
        fa, fb = set(a.facts), set(b.facts)
        fs = [x for x in a.facts if x in fb]
        fs += [implies(ga, x) for x in a.facts if x not in fb]
        fs += [implies(gb, x) for x in b.facts if x not in fa]
        o = or_(ga, gb)
        st.facts = tuple(x for x in fs if x is not TRUE)
        if o is not TRUE and o not in st.facts:
            if not (ga is not_(gb)):
                st.br = st.br + (o,)
        return st

    def merge_outs(self, outs, kind):
        sel = [o for o in outs if o[0] == kind]
        if not sel:
            return None, None
        st, v = sel[0][1], sel[0][2]
        for _, s2, v2 in sel[1:]:
            i = 0
            n = min(len(st.br), len(s2.br))
            while i < n and st.br[i] is s2.br[i]:
                i += 1
            ga = and_(*st.br[i:])
            if v is not None or v2 is not None:
                v = v if v is v2 else ite_val(ga, v, v2)
            st = self.merge(st, s2)
        return st, v

    # ------------------------------------------------------------ statements
    def block(self, st, stmts):
        """returns list of (kind, state, value)"""
        outs = []
        cur = st
        for s in stmts:
            o = self.stmt(cur, s)
            outs.extend(x for x in o if x[0] != 'n')
            split = [x[1] for x in o if x[0] == 'n']
            cur, _ = self.merge_outs(o, 'n')
            if cur is None:
                return outs
            if len(split) > 1:
                self.tidy(cur, split)
        outs.append(('n', cur, None))
        return outs

    def tidy(self, st, split):
        """an integer chosen by a branch that equals one of its remainders in every case: x % n; if x < 0 { x += n }"""
        for k, v in st.env.items():
            if not isinstance(v, T) or v.op != 'p' or all(s.env.get(k) is v for s in split):
                continue
            r = once_reduced(v)
            if r is not None:
                st.env[k] = r
                continue
            at = atoms(v)
            if any(a.op == 'ind' for a in at):
                for a in at:
                    if a.op == 'mod' and self.entails(st, eq(v, a)):
                        st.env[k] = a
                        break

    def stmt(self, st, s):
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (s.get('why', k), self.where(s)))
        return m(st, s)

    def s_expr(self, st, s):
        x = s['x']
        if x['k'] == 'builtin' and x['name'] == 'panic':
            for a in x['args']:
                pass
            self.panics.append(Panic((st.pc, 'panic', self.where(s)), st.br, st.facts))
            return [('p', st, None)]
        self.ev(st, x)
        return [('n', st, None)]

    def s_assign(self, st, s):
        l, r = s['l'], s['r']
        if len(r) == 1 and len(l) > 1:
            v = self.ev(st, r[0])
            if v.op != 'tup':
                raise Unsupported('tuple expected')
            vals = list(v.args)
            typs = self.d.types.get(r[0].get('t'), {}).get('elems') if r[0]['k'] == 'call' else None
        else:
            vals = [self.ev(st, x) for x in r]
            typs = [x.get('t') for x in r]
        lv = [self.lval(st, x) for x in l]
        for i, (x, a, v) in enumerate(zip(l, lv, vals)):
            ft = typs[i] if typs and i < len(typs) else None
            if x['k'] != 'blank':
                v = self.to_iface(v, ft, x.get('t'))
            self.assign(st, a, v, x.get('t'))
        return [('n', st, None)]

    s_decl_ = None

    def s_decl(self, st, s):
        if s['r']:
            return self.s_assign(st, s)
        for x in s['l']:
            if x['k'] == 'var':
                self.assign(st, self.lval(st, x), self.zero(x['t']), x['t'])
        return [('n', st, None)]

    def to_iface(self, v, ft, tt):
        if ft is None or tt is None or ft == tt:
            return v
        if self.d.ty(tt)['k'] == 'iface' and self.d.ty(ft)['k'] != 'iface' and v is not NIL and v.op not in ('iface',):
            return mk('iface', ft, v)
        return v

    def s_opassign(self, st, s):
        a = self.lval(st, s['l'])
        old = self.lread(st, a, s['t'])
        y = self.ev(st, s['r'])
        v = self.binop(st, s['op'], old, y, s['t'], s)
        self.assign(st, a, v, s['t'])
        return [('n', st, None)]

    def s_block(self, st, s):
        return self.block(st, s['b'])

    s_multi = s_block

    def s_if(self, st, s):
        if s.get('init'):
            o = self.stmt(st, s['init'])
            st = o[0][1]
        c = self.ev(st, s['c'])
        return self.branch(st, c, lambda t: self.block(t, s['then']), lambda t: self.block(t, s.get('else') or []))

    def branch(self, st, c, ft, fe):
        d = self.decide(st, c)
        if d is True:
            return ft(st)
        if d is False:
            return fe(st)
        a, b = st.fork(), st.fork()
        a.branch(c)
        b.branch(not_(c))
        oa = ft(a)
        ob = fe(b)
        live_a = any(o[0] != 'p' for o in oa)
        live_b = any(o[0] != 'p' for o in ob)
        if live_a != live_b:
            # the other side always panics: its negation becomes a fact
            base = len(st.br)
            outs = [o for o in (oa if live_a else ob) if o[0] != 'p']
            cc = c if live_a else not_(c)
            n = len((c if live_a else not_(c)).args) if cc.op == 'and' else 1
            res = []
            for kd, s2, v in outs:
                new = tuple(x for x in s2.br if x in st.br or x not in (cc.args if cc.op == 'and' else (cc,)))
                s3 = St(s2.env, s2.log, new, s2.facts)
                s3.fact(cc)
                res.append((kd, s3, v))
            return res + [o for o in oa + ob if o[0] == 'p']
        return oa + ob

    def s_return(self, st, s):
        fr = self.frames[-1]
        fn = fr.results
        if not s['r']:
            vals = []
            for i, r in enumerate(fn):
                vals.append(self.lread(st, ('v', (fr.path, r['id'])), r['t']) if r.get('id') else self.zero(r['t']))
        elif len(s['r']) == 1 and len(fn) > 1:
            v = self.ev(st, s['r'][0])
            vals = list(v.args)
        else:
            vals = [self.to_iface(self.ev(st, x), x.get('t'), r['t']) for x, r in zip(s['r'], fn)]
        v = None
        if len(vals) == 1:
            v = vals[0]
        elif vals:
            v = mk('tup', *vals)
        return [('r', st, v)]

    def s_break(self, st, s):
        return [('b', st, None)]

    def s_continue(self, st, s):
        return [('c', st, None)]

    def s_switch(self, st, s):
        if s.get('init'):
            st = self.stmt(st, s['init'])[0][1]
        tag = self.ev(st, s['tag']) if s.get('tag') else None
        cases = [c for c in s['cases'] if c.get('e') is not None] + [c for c in s['cases'] if c.get('e') is None]

        def go(t, i):
            if i == len(cases):
                return [('n', t, None)]
            c = cases[i]
            if c.get('e') is None:
                return self.block(t, c['body'])
            cond = FALSE
            for x in c['e']:
                v = self.ev(t, x)
                cond = or_(cond, self.equal(tag, v, s.get('tagt')) if tag is not None else v)
            return self.branch(t, cond, lambda u: self.block(u, c['body']), lambda u: go(u, i + 1))
        outs = go(st, 0)
        return [('n' if o[0] == 'b' else o[0], o[1], o[2]) for o in outs]

    def s_typeswitch(self, st, s):
        if s.get('init'):
            st = self.stmt(st, s['init'])[0][1]
        v = self.ev(st, s['x'])
        cases = [c for c in s['cases'] if c.get('ts') is not None] + [c for c in s['cases'] if c.get('ts') is None]

        def go(t, i):
            if i == len(cases):
                return [('n', t, None)]
            c = cases[i]

            def body(u):
                if c.get('var'):
                    x = v
                    if c.get('ts') and len(c['ts']) == 1:
                        x = self.iface_val(v, c['ts'][0])
                    self.assign(u, self.lval(u, c['var']), x, c['var']['t'])
                return self.block(u, c['body'])
            if c.get('ts') is None:
                return body(t)
            cond = or_(*[self.typeis(v, x) for x in c['ts']])
            return self.branch(t, cond, body, lambda u: go(u, i + 1))
        outs = go(st, 0)
        return [('n' if o[0] == 'b' else o[0], o[1], o[2]) for o in outs]

    def typeis(self, v, t):
        if v is NIL:
            return TRUE if t == 'nil' else FALSE
        if t == 'nil':
            return FALSE if v.op != 'iini' else mk('isnil', v)
        if v.op == 'iface':
            if self.d.ty(t)['k'] == 'iface':
                return TRUE
            return TRUE if v.args[0] == t else FALSE
        if v.op == 'ite':
            return ite(v.args[0], self.typeis(v.args[1], t), self.typeis(v.args[2], t))
        if v.op == 'ptr' or v.op == 'root':
            raise Unsupported('type of bare reference')
        return mk('typeis', v, t)

    def iface_val(self, v, t):
        if v.op == 'iface':
            return v.args[1] if self.d.ty(t)['k'] != 'iface' else v
        if v.op == 'ite':
            return ite(v.args[0], self.iface_val(v.args[1], t), self.iface_val(v.args[2], t))
        k = self.d.ty(t)['k']
        if k == 'iface':
            return v
        return self.base(mk('sub', v, string(t)), t, None)

    # ------------------------------------------------------------ lvalues
    def key(self, vid):
        return (self.frames[-1].path, vid)

    def lval(self, st, x):
        k = x['k']
        if k == 'blank':
            return None
        if k == 'var':
            fr = self.frames[-1]
            if x['id'] in fr.boxed:
                return ('a', mk('varcell', fr.path, x['id'], tuple(self.loopvars) if False else ()))
            return ('v', self.key(x['id']))
        if k == 'field' and not x.get('ptr'):
            b = self.lval(st, x['x'])
            if b[0] == 'a':
                return ('a', f(b[1], x['name']))
            return ('vf', b, x['name'])
        if k == 'index' and self.d.ty(x['xt'])['k'] == 'map':
            m = self.ev(st, x['x'])
            kk = self.ev(st, x['i'])
            self.panic_if(st, self.isnil(m), 'assignment to entry in nil map', x)
            return ('m', m, kk)
        return ('a', self.addr(st, x))

    def addr(self, st, x):
        k = x['k']
        if k == 'var':
            l = self.lval(st, x)
            if l[0] == 'a':
                return l[1]
            raise Unsupported('address of unboxed variable')
        if k == 'field':
            if x.get('ptr'):
                p = self.ev(st, x['x'])
                p = self.nonnil(st, p, x)
                return f(p, x['name'])
            return f(self.addr(st, x['x']), x['name'])
        if k == 'index':
            t = self.d.ty(x['xt'])
            if t['k'] == 'slice':
                s = self.ev(st, x['x'])
                i = self.ev(st, x['i'])
                return self.elem_addr(st, s, i, x)
            if t['k'] in ('array', 'ptr'):
                if t['k'] == 'ptr':
                    b = self.ev(st, x['x'])
                    b = self.nonnil(st, b, x)
                    n = self.d.ty(t['elem'])['len']
                else:
                    b = self.addr(st, x['x'])
                    n = t['len']
                i = self.ev(st, x['i'])
                self.panic_if(st, or_(lt(i, ZERO), ge(i, num(n))), 'index out of range', x)
                return self.arr_elem(b, i)
        if k == 'deref':
            p = self.ev(st, x['x'])
            return self.nonnil(st, p, x)
        if k == 'lit':
            v = self.ev(st, x)
            a = self.site(x)
            self.wr(st, a, v, x['t'])
            return a
        if k == 'global':
            return root('g:' + x['name'])
        if k == 'call':
            v = self.ev(st, x)
            a = self.site(x, 'tmp')
            self.wr(st, a, v, x['t'])
            return a
        raise Unsupported('address of ' + k)

    def arr_elem(self, b, i):
        if b.op == 'view':
            return H.e(b.args[0], add(b.args[1], i))
        return H.e(b, i)

    def elem_addr(self, st, s, i, node):
        if s.op == 'ite':
            c, a, b = s.args
            d = self.decide(st, c)
            if d is True:
                return self.elem_addr(st, a, i, node)
            if d is False:
                return self.elem_addr(st, b, i, node)
            s1 = st.fork()
            s1.branch(c)
            s2 = st.fork()
            s2.branch(not_(c))
            return ite(c, self.elem_addr(s1, a, i, node), self.elem_addr(s2, b, i, node))
        if s.op != 'slc':
            raise Unsupported('index of %s' % show(s))
        arr, off, ln = s.args
        self.panic_if(st, or_(lt(i, ZERO), ge(i, ln)), 'index out of range', node)
        return H.e(arr, add(off, i))

    def lread(self, st, a, typ):
        if a[0] == 'v':
            return st.env[a[1]]
        if a[0] == 'vf':
            b = self.lread(st, a[1], None)
            return self.getfield(st, b, a[2], typ)
        if a[0] == 'm':
            return self.map_get(st, a[1], a[2], typ)[0]
        return self.load(st, a[1], typ)

    def assign(self, st, a, v, typ):
        if a is None:
            return
        if a[0] == 'v':
            st.env[a[1]] = v
        elif a[0] == 'vf':
            b = self.lread(st, a[1], None)
            if b.op == 'ite':
                nb = ite_val(b.args[0], setf(b.args[1], a[2], v), setf(b.args[2], a[2], v))
            else:
                nb = setf(b, a[2], v)
            self.assign(st, a[1], nb, None)
        elif a[0] == 'm':
            self.map_set(st, a[1], a[2], v, typ)
        else:
            self.wr(st, a[1], v, typ)

    def map_set(self, st, m, k, v, typ):
        m = self.nonnil(st, m, None)
        self.wr(st, mk('dom', m, k), TRUE, '#dom')
        self.wr(st, mk('mv', m, k), v, typ)

    def map_get(self, st, m, k, typ):
        if m is NIL:
            return self.zero(typ), FALSE
        dom = self.rd(st, mk('dom', m, k), '#dom')
        d = self.decide(st, dom)
        if d is False:
            return self.zero(typ), FALSE
        if d is True:
            return self.load(st, mk('mv', m, k), typ), TRUE
        s2 = st.fork()
        s2.branch(dom)
        return ite_val(dom, self.load(s2, mk('mv', m, k), typ), self.zero(typ)), dom

    def isnil(self, v):
        if v is NIL:
            return TRUE
        if v.op == 'ite':
            return or_(and_(v.args[0], self.isnil(v.args[1])), and_(not_(v.args[0]), self.isnil(v.args[2])))
        if v.op == 'slc':
            return self.isnil(v.args[0])
        if self.abstract and v.op == 'p':
            import abstract
            return abstract.isnil(self, v)
        if v.op in ('mayptr',):
            return mk('isnil', v)
        if v.op == 'iini':
            return mk('isnil', v)
        if v.op in ('pre', 'havocref'):
            return mk('isnil', v)
        return FALSE

    def nonnil(self, st, p, node):
        c = self.isnil(p)
        if c is FALSE:
            return p
        self.panic_if(st, c, 'nil pointer dereference', node)
        return self.prune(st, p)

    def prune(self, st, p):
        while p.op == 'ite':
            d = self.decide(st, p.args[0])
            if d is True:
                p = p.args[1]
            elif d is False:
                p = p.args[2]
            elif p.args[2] is NIL:
                p = p.args[1]
            elif p.args[1] is NIL:
                p = p.args[2]
            else:
                break
        return p

    # ------------------------------------------------------------ expressions
    def ev(self, st, x):
        m = getattr(self, 'e_' + x['k'], None)
        if m is None:
            raise Unsupported('expression %s at %s' % (x.get('why', x['k']), self.where(x)))
        return m(st, x)

    def e_const(self, st, x):
        vk = x['vk']
        t = self.d.under(x['t'])
        if vk == 'int':
            if t in FLTS:
                return fconst(x['v'])
            if 'complex' in t:
                return mk('cc', fconst(x['v']), fconst(0))
            return num(int(x['v']))
        if vk == 'float':
            if t in INTS:
                return num(int(float(x['v'])))
            return fconst(x['v'])
        if vk == 'bool':
            return TRUE if x['v'] in (True, 'true') else FALSE
        if vk == 'string':
            return string(x['v'])
        return mk('oconst', str(x['v']))

    def e_var(self, st, x):
        return self.lread(st, self.lval(st, x), x['t']) if self.d.ty(x['t'])['k'] != 'array' else mk('arrv', self.lval(st, x)[1])

    def e_nil(self, st, x):
        return self.zero(x['t']) if self.d.ty(x['t'])['k'] == 'slice' else NIL

    def e_global(self, st, x):
        return self.load(st, root('g:' + x['name']), x['t'])

    def e_fn(self, st, x):
        return mk('fnv', x['name'])

    def e_funclit(self, st, x):
        fr = self.frames[-1]
        k = (fr.path, x['nid'])
        self.closures[k] = (x, fr)
        return mk('clo', fr.path, x['nid'])

    def e_paren(self, st, x):
        return self.ev(st, x['x'])

    def getfield(self, st, b, name, typ):
        if b.op == 'st':
            for n, v in b.args[1]:
                if n == name:
                    return v
            raise Unsupported('field ' + name)
        if b.op == 'ite':
            return ite_val(b.args[0], self.getfield(st, b.args[1], name, typ), self.getfield(st, b.args[2], name, typ))
        v = self.prm_field(b, name, typ)
        if v is None:
            raise Unsupported('field %s of %s' % (name, show(b)))
        return v

    def e_field(self, st, x):
        if x.get('ptr'):
            p = self.ev(st, x['x'])
            p = self.nonnil(st, p, x)
            if p.op in ('prmref',):
                return self.getfield(st, p.args[0], x['name'], x['t'])
            return self.load(st, f(p, x['name']), x['t'])
        xx = x['x']
        if self.d.ty(x['t'])['k'] == 'array':
            return mk('arrv', self.addr(st, x))
        # avoid loading whole structs
        a = self.try_addr(st, xx)
        if a is not None and a is not False:
            v = self.opq_field(st, a, xx, x)
            if v is not None:
                return v
        return self.getfield(st, self.ev(st, xx), x['name'], x['t'])

    def try_addr(self, st, x):
        k = x['k']
        if k == 'field':
            return True
        if k == 'index' and self.d.ty(x['xt'])['k'] != 'map':
            return True
        if k == 'deref':
            return True
        if k == 'var' and x['id'] in self.frames[-1].boxed:
            return True
        return None

    def typ_of(self, x):
        return x.get('t')

    def opq_field(self, st, a, xx, x):
        t = xx.get('t')
        if t in self.opaque:
            return None
        # struct path rooted in memory?
        y = xx
        while y['k'] == 'field' and not y.get('ptr'):
            if y.get('t') in self.opaque:
                return None
            y = y['x']
        if y['k'] == 'var' and y['id'] not in self.frames[-1].boxed:
            return None
        if y['k'] in ('call', 'lit', 'typeassert'):
            return None
        if y['k'] == 'index' and self.d.ty(y['xt'])['k'] == 'map':
            return None
        return self.load(st, f(self.addr(st, xx), x['name']), x['t'])

    def e_index(self, st, x):
        t = self.d.ty(x['xt'])
        if t['k'] == 'map':
            m = self.ev(st, x['x'])
            k = self.ev(st, x['i'])
            m = self.prune(st, m)
            if m.op == 'ite':
                c, a, b = m.args
                s1, s2 = st.fork(), st.fork()
                s1.branch(c)
                s2.branch(not_(c))
                v1, d1 = self.map_get(s1, a, k, x['t'])
                v2, d2 = self.map_get(s2, b, k, x['t'])
                v, dom = ite_val(c, v1, v2), ite(c, d1, d2)
            else:
                v, dom = self.map_get(st, m, k, x['t'])
            if x.get('commaok'):
                return mk('tup', v, dom)
            return v
        if t['k'] == 'basic':
            return mk('stridx', self.ev(st, x['x']), self.ev(st, x['i']))
        a = self.addr(st, x)
        return self.load(st, a, x['t'])

    def e_deref(self, st, x):
        p = self.ev(st, x['x'])
        p = self.nonnil(st, p, x)
        if p.op == 'prmref':
            return p.args[0]
        return self.load(st, p, x['t'])

    def e_addr(self, st, x):
        y = x['x']
        if y['k'] == 'lit':
            a = self.site(y)
            self.lit_into(st, a, y)
            return a
        a = self.addr(st, y)
        return a

    def lit_into(self, st, a, y):
        if y['lk'] == 'struct':
            ft = {z['n']: z['t'] for z in self.d.fields(y['t'] if not y.get('ptr') else self.d.ty(y['t'])['elem'])}
            vals = [(el['name'], self.ev(st, el['v']), el['v'].get('t')) for el in y['elts']]
            for n, v, vt in vals:
                self.wr(st, f(a, n), self.to_iface(v, vt, ft[n]), ft[n])
        else:
            raise Unsupported('address of literal')

    def e_lit(self, st, x):
        t = x['t']
        if x.get('ptr'):
            a = self.site(x)
            self.lit_into(st, a, x)
            return a
        lk = x['lk']
        if lk == 'struct':
            z = self.zero(t)
            if z.op != 'st':
                # opaque struct literal: keep the fields
                return mk('stlit', t, tuple((el['name'], self.ev(st, el['v'])) for el in x['elts']))
            ft = {y['n']: y['t'] for y in self.d.fields(t)}
            d = dict(z.args[1])
            for el in x['elts']:
                d[el['name']] = self.to_iface(self.ev(st, el['v']), el['v'].get('t'), ft[el['name']])
            return mk('st', t, tuple((n, d[n]) for n, _ in z.args[1]))
        if lk == 'map':
            m = self.site(x)
            et = self.d.ty(t)['elem']
            for el in x['elts']:
                self.map_set(st, m, self.ev(st, el['key']), self.ev(st, el['v']), et)
            return m
        a = self.site(x)
        et = self.d.ty(t)['elem']
        for el in x['elts']:
            self.wr(st, H.e(a, num(el['i'])), self.ev(st, el['v']), et)
        if lk == 'array':
            return mk('arrv', a)
        return slc(a, ZERO, num(x['len']))

    def e_slice(self, st, x):
        t = self.d.ty(x['xt'])
        if t['k'] == 'array' or t['k'] == 'ptr':
            b = self.addr(st, x['x']) if t['k'] == 'array' else self.ev(st, x['x'])
            n = t['len'] if t['k'] == 'array' else self.d.ty(t['elem'])['len']
            s = slc(b, ZERO, num(n))
        elif t['k'] == 'basic':
            raise Unsupported('string slice')
        else:
            s = self.ev(st, x['x'])
        lo = self.ev(st, x['lo']) if x.get('lo') else ZERO
        hi = self.ev(st, x['hi']) if x.get('hi') else None

        def go(s):
            if s.op == 'ite':
                return ite(s.args[0], go(s.args[1]), go(s.args[2]))
            if s.op != 'slc':
                raise Unsupported('slice of ' + show(s))
            arr, off, ln = s.args
            h = ln if hi is None else hi
            # capacity is not tracked: reslicing beyond the length is reported
            self.panic_if(st, or_(lt(lo, ZERO), gt(lo, h), gt(h, ln)), 'slice bounds out of range', x)
            return slc(arr, add(off, lo), sub(h, lo))
        return go(s)

    def e_un(self, st, x):
        v = self.ev(st, x['x'])
        op = x['op']
        if op == '!':
            return not_(v)
        if op == '-':
            if self.d.under(x['t']) in INTS:
                return neg(v)
            return fop('f.-', fconst(0), v) if v.op != 'fc' else fconst(-float(v.args[0]))
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def equal(self, a, b, t):
        if t is not None:
            k = self.d.ty(t)['k']
            if k in ('ptr', 'map', 'iface', 'func', 'slice') or a is NIL or b is NIL:
                if a is NIL:
                    return self.isnil(b)
                if b is NIL or (b.op == 'slc' and b.args[0] is NIL):
                    return self.isnil(a)
        if a.op == 'iface' and b.op == 'iface':
            if a.args[0] != b.args[0]:
                return FALSE
            return geneq(a.args[1], b.args[1])
        return geneq(a, b)

    def e_bin(self, st, x):
        op = x['op']
        if op in ('&&', '||'):
            a = self.ev(st, x['x'])
            if a is FALSE and op == '&&':
                return FALSE
            if a is TRUE and op == '||':
                return TRUE
            s2 = st.fork()
            s2.branch(a if op == '&&' else not_(a))
            nb = len(s2.br)
            b = self.ev(s2, x['y'])
            # facts learned are conditional
            for z in s2.facts:
                if z not in st.facts:
                    st.fact(implies(a if op == '&&' else not_(a), z))
            if s2.log is not st.log:
                raise Unsupported('side effect in short-circuit operand')
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.ev(st, x['x'])
        b = self.ev(st, x['y'])
        t = x['xt'] if not x['xt'].startswith('untyped') else x['yt']
        if op == '==':
            return self.equal(a, b, t)
        if op == '!=':
            return not_(self.equal(a, b, t))
        return self.binop(st, op, a, b, t, x)

    def binop(self, st, op, a, b, t, node):
        u = self.d.under(t)
        if u in INTS or (u.startswith('untyped') and u not in ('untyped float', 'untyped string')):
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return mul(a, b)
            if op in ('/', '%'):
                self.panic_if(st, eq(b, ZERO), 'integer division by zero', node)
                if 'uint' in u or self.decide(st, ge(a, ZERO)) is True:
                    return divi(a, b) if op == '/' else modi(a, b)
                # truncated division
                s = ge(a, ZERO)
                if op == '/':
                    return ite(s, divi(a, b), neg(divi(neg(a), b)))
                m = modi(a, b)
                return ite(s, m, ite(eq(m, ZERO), ZERO, sub(m, b)))
            if op == '<':
                return lt(a, b)
            if op == '<=':
                return le(a, b)
            if op == '>':
                return gt(a, b)
            if op == '>=':
                return ge(a, b)
            if op == '<<':
                return mul(a, self.pow2(b))
            if op == '>>':
                return divi(a, self.pow2(b))
            ca, cb = is_const(a), is_const(b)
            if op == '&':
                if cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                    return modi(a, num(cb + 1))
                m = self.mask(a, b)
                if m is not None:
                    return m
                return mk('bitand', a, b)
            if op == '|':
                if ca == 0 or cb == 0:
                    return b if ca == 0 else a
                # x*b | y*(1-b) for a bit b
                for t in set(self.bit(a)):
                    for x, y in ((a, b), (b, a)):
                        if is_const(subst_atom(x, t, ZERO)) == 0 and is_const(subst_atom(y, t, ONE)) == 0:
                            return add(x, y)
                return mk('bitor', a, b)
            if op == '^':
                for x, c in ((a, cb), (b, ca)):
                    if c == 1 and x.op == 'mod' and is_const(x.args[1]) == 2:
                        return sub(ONE, x)
                return mk('bitxor', a, b)
        if u in FLTS:
            if op in ('+', '-', '*', '/'):
                return fop('f.' + op, a, b)
            if op == '<':
                return flt(a, b)
            if op == '<=':
                return fle(a, b)
            if op == '>':
                return flt(b, a)
            if op == '>=':
                return fle(b, a)
        if u in ('string', 'untyped string'):
            if op == '+':
                return mk('scat', a, b)
            return mk('scmp', op, a, b)
        if u == 'bool' or u == 'untyped bool':
            pass
        if u.startswith('complex'):
            return mk('cx' + op, a, b)
        raise Unsupported('operator %s on %s' % (op, t))

    def mask(self, a, b):
        # the ring degree is a power of two: x & (N-1) = x mod N
        for x, y in ((a, b), (b, a)):
            if add(y, ONE) is var('N'):
                return modi(x, var('N'))
        return None

    def bit(self, p):
        for a in atoms(p):
            if a.op == 'mod' and is_const(a.args[1]) == 2:
                yield a

    def pow2(self, k):
        c = is_const(k)
        if k is var('logN'):
            return var('N')
        if c is not None:
            if c < 0:
                raise Unsupported('negative shift')
            return num(1 << c)
        # peel constants
        pd = to_pd(k)
        c0 = pd.get(KEY0, 0)
        if c0:
            r = from_pd({x: y for x, y in pd.items() if x != KEY0})
            if c0 > 0:
                return mul(num(1 << c0), mk('pow2', r))
            return mk('div', mk('pow2', r), num(1 << -c0)) if False else mk('pow2', k)
        return mk('pow2', k)

    def e_conv(self, st, x):
        v = self.ev(st, x['x'])
        ft, tt = self.d.under(x['xt']), self.d.under(x['t'])
        if ft == tt:
            return v
        if tt in INTS:
            if ft in INTS or ft.startswith('untyped'):
                if v.op == 'fc':
                    return num(int(float(v.args[0])))
                return v
            if v.op == 'i2f':
                return v.args[0]
            if v.op == 'fc' and abs(float(v.args[0])) < 2 ** 53:
                return num(int(float(v.args[0])))
            return mk('f2i', v)
        if tt in FLTS:
            if ft in FLTS:
                return v
            c = is_const(v)
            if c is not None:
                return fconst(c)
            return mk('i2f', v)
        k1, k2 = self.d.ty(x['xt'])['k'], self.d.ty(x['t'])['k']
        if k2 == 'iface':
            return self.to_iface(v, x['xt'], x['t'])
        if 'unsafe.Pointer' in (ft, tt) or x['t'] == 'unsafe.Pointer' or x['xt'] == 'unsafe.Pointer':
            if k2 == 'ptr' and self.d.ty(self.d.ty(x['t'])['elem'])['k'] == 'array':
                # *[8]T view of &s[j]
                if v.op == 'e':
                    return mk('view', v.args[0], v.args[1])
            return v
        if k1 == k2:
            if v.op == 'st':
                return mk('st', x['t'], v.args[1])
            return v
        raise Unsupported('conversion %s -> %s' % (x['xt'], x['t']))

    def e_typeassert(self, st, x):
        v = self.ev(st, x['x'])
        c = self.typeis(v, x['t'])
        if x.get('commaok'):
            return mk('tup', ite_val(c, self.iface_val(v, x['t']), self.zero(x['t'])), c)
        self.panic_if(st, not_(c), 'type assertion', x)
        return self.iface_val(v, x['t'])

    def e_method(self, st, x):
        name, recv = self.bind(st, x, x)
        return mk('bound', name, recv)

    e_imethod = e_method

    def e_builtin(self, st, x):
        n = x['name']
        a = x['args']
        if n == 'len':
            t = self.d.ty(a[0]['at'])
            if t['k'] == 'map':
                m = self.ev(st, a[0])
                return self.map_len(st, m)
            if t['k'] == 'array':
                return num(t['len'])
            if t['k'] == 'basic':
                return mk('slen', self.ev(st, a[0]))
            return self.slen(self.ev(st, a[0]))
        if n == 'cap':
            return self.slen(self.ev(st, a[0]))
        if n == 'make':
            t = x['targ']
            k = self.d.ty(t)['k']
            s = self.site(x)
            if k == 'map':
                for y in a:
                    self.ev(st, y)
                return s
            if k == 'slice':
                ln = self.ev(st, a[0])
                self.panic_if(st, lt(ln, ZERO), 'makeslice: len out of range', x)
                return slc(s, ZERO, ln)
        if n == 'new':
            return self.site(x)
        if n == 'delete':
            m = self.ev(st, a[0])
            k = self.ev(st, a[1])
            nl = self.isnil(m)
            if nl is not TRUE:
                s2 = st.fork()
                s2.branch(not_(nl))
                self.wr(st, mk('dom', self.prune(s2, m), k), FALSE, '#dom', (), not_(nl))
            return mk('unit')
        if n == 'append':
            return self.append(st, x)
        if n == 'copy':
            return self.copyb(st, x)
        if n in ('real', 'imag'):
            v = self.ev(st, a[0])
            if v.op == 'cc':
                return v.args[0 if n == 'real' else 1]
            return mk('f.' + n, v)
        if n == 'complex':
            return mk('cc', self.ev(st, a[0]), self.ev(st, a[1]))
        if n == 'panic':
            raise Unsupported('panic expression')
        raise Unsupported('builtin ' + n)

    def slen(self, s):
        if s.op == 'slc':
            return s.args[2]
        if s.op == 'ite':
            return ite(s.args[0], self.slen(s.args[1]), self.slen(s.args[2]))
        raise Unsupported('len of ' + show(s))

    def map_len(self, st, m):
        it = find_ite(m) if m.op != 'ite' else m
        if it is not None:
            c, a, b = it.args
            s1, s2 = st.fork(), st.fork()
            s1.branch(c)
            s2.branch(not_(c))
            return ite(c, self.map_len(s1, H.replace(m, it, a)), self.map_len(s2, H.replace(m, it, b)))
        if m is NIL:
            return ZERO
        k = fresh(self.map_keysort(m), 'k')
        dom = self.rd(st, mk('dom', m, k), '#dom')
        if dom is FALSE:
            return ZERO
        return mk('card', lam(k, dom))

    def map_keysort(self, m):
        return 'S'

    def append(self, st, x):
        a = x['args']
        s = self.ev(st, a[0])
        et = self.d.ty(x['t'])['elem']
        if s.op != 'slc':
            raise Unsupported('append to ' + show(s))
        arr, off, ln = s.args
        if self.sole_array(st, a[0], arr):
            # the only reference to the array: growing in place and growing a copy cannot be told apart
            n = arr
        else:
            n = self.site(x)
        o0 = off if n is arr else ZERO
        if n is not arr and not (is_const(ln) == 0):
            q = fresh('I', 'q')
            g = and_(ge(q, ZERO), lt(q, ln))
            s2 = st.fork()
            s2.branch(g)
            self.wr(st, H.e(n, q), self.load(s2, H.e(arr, add(off, q)), et), et, (q,), g)
        if x.get('ellipsis'):
            y = self.ev(st, a[1])
            a2, o2, l2 = y.args
            q = fresh('I', 'q')
            g = and_(ge(q, ZERO), lt(q, l2))
            s2 = st.fork()
            s2.branch(g)
            self.wr(st, H.e(n, add(o0, ln, q)), self.load(s2, H.e(a2, add(o2, q)), et), et, (q,), g)
            return slc(n, o0, add(ln, l2))
        for i, y in enumerate(a[1:]):
            self.wr(st, H.e(n, add(o0, ln, num(i))), self.to_iface(self.ev(st, y), y.get('at'), et), et)
        return slc(n, o0, add(ln, num(len(a) - 1)))

    def sole_array(self, st, e, arr):
        if e['k'] != 'var' or arr.op not in ('new', 'pre'):
            return False
        me = (self.frames[-1].path, e['id'])
        for k, v in st.env.items():
            if k != me and isinstance(v, T) and v.op == 'slc' and v.args[0] is arr:
                return False
        n = st.log
        while n.upd is not None:
            v = n.upd.val
            if v is not None and isinstance(v, T) and v.op == 'slc' and v.args[0] is arr:
                return False
            n = n.parent
        return me in st.env

    def copyb(self, st, x):
        d = self.ev(st, x['args'][0])
        s = self.ev(st, x['args'][1])
        if d.op != 'slc':
            raise Unsupported('copy to ' + show(d)[:200])
        et = self.d.ty(x['args'][0]['at'])['elem']

        def cases(v, s2):
            """distinct sources with their path conditions"""
            if v.op == 'ite':
                c = self.decide(s2, v.args[0])
                if c is not None:
                    return cases(v.args[1 if c else 2], s2)
                l, r = s2.fork(), s2.fork()
                l.branch(v.args[0])
                r.branch(not_(v.args[0]))
                return ('ite', v.args[0], cases(v.args[1], l), cases(v.args[2], r))
            if v.op != 'slc':
                raise Unsupported('copy from ' + show(v)[:200])
            return ('slc', v, s2, self.minmax(s2, d.args[2], v.args[2], True))

        def fold(t, f):
            return f(t) if t[0] == 'slc' else ite(t[1], fold(t[2], f), fold(t[3], f))

        def every(t, f):
            return f(t) if t[0] == 'slc' else every(t[2], f) and every(t[3], f)
        cs = cases(s, st)
        n = fold(cs, lambda t: t[3])
        if self.is_limb(et) and d.args[1] is ZERO and d.args[0].op != 'ite':
            full = self.limb_len(d.args[0])
            if every(cs, lambda t: t[1].args[1] is ZERO and self.decide(t[2], eq(t[3], full)) is True):
                self.wr(st, C(d.args[0]), fold(cs, lambda t: self.rd(t[2], C(t[1].args[0]), '#C')), '#C')
                return full
        q = fresh('I', 'q')
        g = and_(ge(q, ZERO), lt(q, n))

        def one(t):
            t[2].branch(g)
            return self.load(t[2], H.e(t[1].args[0], add(t[1].args[1], q)), et)
        if cs[0] == 'slc':
            cs = ('slc', cs[1], st.fork(), cs[3])
        self.wr(st, H.e(d.args[0], add(d.args[1], q)), fold(cs, one), et, (q,), g)
        return n

    def minmax(self, st, a, b, mn):
        d = self.decide(st, le(a, b))
        if d is True:
            return a if mn else b
        if self.decide(st, le(b, a)) is True:
            return b if mn else a
        return ite(le(a, b), a, b) if mn else ite(le(a, b), b, a)

    # ------------------------------------------------------------ calls
    def bind(self, st, fn, x):
        """(function name, receiver) of a method selector"""
        if fn['k'] == 'method':
            name = fn['fn']
            self.called.add(name)
            if name in self.noeffect:
                pass
            if fn.get('ptrrecv'):
                if fn.get('xptr'):
                    recv = self.ev(st, fn['x'])
                else:
                    recv = self.addr_or_prm(st, fn['x'])
            else:
                recv = self.ev(st, fn['x'])
                if fn.get('xptr'):
                    recv = self.nonnil(st, recv, x)
                    t = self.d.ty(fn['xt'])['elem']
                    recv = recv.args[0] if recv.op == 'prmref' else self.load_lazy(st, recv, t)
        else:
            name = fn['fn']
            recv = self.ev(st, fn['x'])
            self.called.add(name)
            if recv.op == 'iface':
                # devirtualise
                tn = recv.args[0]
                short = tn.lstrip('*')
                cand = '%s.%s' % (short, name.split('.')[-1])
                if cand in self.d.funcs or cand in self.contracts:
                    name = cand
                    recv = recv.args[1]
        return name, recv

    def e_call(self, st, x):
        fn = x['fn']
        k = fn['k']
        if k == 'method' or k == 'imethod':
            name, recv = self.bind(st, fn, x)
        elif k == 'fn':
            name = fn['name']
            recv = None
            self.called.add(name)
        elif k == 'var' or k == 'field' or k == 'funclit':
            v = self.ev(st, fn)
            args = self.args(st, x)
            return self.call_value(st, v, args, x)
        else:
            raise Unsupported('call of ' + k)
        args = self.args(st, x)
        return self.call(st, name, recv, args, x)

    def addr_or_prm(self, st, y):
        if y.get('t') in self.opaque:
            return mk('prmref', self.ev(st, y))
        return self.addr(st, y)

    def load_lazy(self, st, a, t):
        return self.load(st, a, t)

    def args(self, st, x):
        a = x['args']
        pt = x['ptypes']
        if len(a) == 1 and len(pt) > 1 and self.d.types.get(a[0].get('t', ''), {}).get('k') == 'tuple':
            return list(self.ev(st, a[0]).args)
        v = x['variadic']
        out = []
        n = len(a) if v < 0 else v
        for i in range(n):
            out.append(self.to_iface(self.ev(st, a[i]), a[i].get('at'), pt[i]))
        if v >= 0:
            et = self.d.ty(pt[v])['elem']
            s = self.site(x, 'v')
            for j, y in enumerate(a[v:]):
                self.wr(st, H.e(s, num(j)), self.to_iface(self.ev(st, y), y.get('at'), et), et)
            out.append(slc(s, ZERO, num(len(a) - v)) if len(a) > v else slc(NIL, ZERO, ZERO))
        return out

    def call_value(self, st, v, args, x):
        if v.op == 'clo':
            lit, fr = self.closures[(v.args[0], v.args[1])]
            return self.run_body(st, fr.fn, fr.path, lit['params'], lit['results'], lit['body'], args, x, same=fr)
        if v.op == 'fnv':
            return self.call(st, v.args[0], None, args, x)
        if v.op == 'bound':
            return self.call(st, v.args[0], v.args[1], args, x)
        if v.op == 'ite':
            a, b = st.fork(), st.fork()
            a.branch(v.args[0])
            b.branch(not_(v.args[0]))
            outs = []
            for s, g in ((a, v.args[1]), (b, v.args[2])):
                if not self.ctx.inconsistent(s.pc):
                    outs.append(('n', s, self.call_value(s, g, args, x)))
            s, r = self.merge_outs(outs, 'n')
            if s is None:
                raise AlwaysPanics('call')
            st.env, st.log, st.br, st.facts, st._pc = s.env, s.log, s.br, s.facts, None
            return r if r is not None else mk('unit')
        raise Unsupported('call of unknown function value ' + show(v))

    def call(self, st, name, recv, args, x):
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, st, recv, args, x)
            return r if r is not None else mk('unit')
        if name not in self.d.funcs:
            raise Unsupported('call of external function %s at %s' % (name, self.where(x)))
        self.inlined.add(name)
        return self.inline(st, name, recv, args, x)

    def inline(self, st, name, recv, args, x):
        fn = self.d.funcs[name]
        path = (self.frames[-1].path + '/' if self.frames else '') + str(x['nid'] if x else name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            params = list(fn['params'])
            if fn.get('recv'):
                params = [fn['recv']] + params
                args = [recv] + list(args)
            return self.run_body(st, name, path, params, fn['results'], fn['body'], args, x)
        finally:
            self.depth -= 1

    def run_body(self, st, name, path, params, results, body, args, x, same=None):
        fr = Frame(name, path)
        fr.boxed = self.d.boxed(name)
        fr.results = results
        self.frames.append(fr)
        try:
            for p, a in zip(params, args):
                if p.get('id') and p['id'] != '_':
                    self.assign(st, self.lval(st, {'k': 'var', 'id': p['id']}), a, p['t'])
            for r in results:
                if r.get('id'):
                    self.assign(st, self.lval(st, {'k': 'var', 'id': r['id']}), self.zero(r['t']), r['t'])
            s0 = st.fork()
            outs = self.block(s0, body)
            res = []
            for k, s, v in outs:
                if k == 'n':
                    if results and not all(r.get('id') for r in results):
                        continue   # cannot happen: missing return
                    if results:
                        vals = [self.lread(s, self.lval(s, {'k': 'var', 'id': r['id']}), r['t']) for r in results]
                        v = vals[0] if len(vals) == 1 else mk('tup', *vals)
                    res.append(('r', s, v))
                elif k == 'r':
                    res.append((k, s, v))
                elif k in ('b', 'c'):
                    raise Unsupported('stray branch')
            s, v = self.merge_outs(res, 'r')
            if s is None:
                raise AlwaysPanics(name)
            if same is None:
                for kk in [kk for kk in s.env if kk[0] == path]:
                    del s.env[kk]
            st.env, st.log, st.br, st.facts, st._pc = s.env, s.log, s.br, s.facts, None
            return v if v is not None else mk('unit')
        finally:
            self.frames.pop()


class AlwaysPanics(Unsupported):
    pass


def H_open(key):
    import terms
    fr, mono, d, va = terms._open(key)
    return fr, mono, d, va


def atoms(p):
    for key in to_pd(p):
        for a, e in H_open(key)[1]:
            yield a


def subst_atom(x, t, v):
    from loops import replace_atoms
    return replace_atoms(x, {t: v})


def setf(b, name, v):
    if b.op != 'st':
        raise Unsupported('field update of ' + b.op)
    return mk('st', b.args[0], tuple((n, v if n == name else w) for n, w in b.args[1]))


def fop(op, a, b):
    if a.op == 'fc' and b.op == 'fc':
        x, y = float(a.args[0]), float(b.args[0])
        try:
            return fconst({'f.+': x + y, 'f.-': x - y, 'f.*': x * y, 'f./': x / y if y else 0}[op])
        except Exception:
            pass
    if op in ('f.+', 'f.*') and b.id < a.id:
        a, b = b, a
    return mk(op, a, b)


def ite_val(c, a, b):
    """ite over any value, including tuples and structs"""
    if a is b:
        return a
    if a.op == 'tup' and b.op == 'tup':
        return mk('tup', *[ite_val(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'st' and b.op == 'st':
        return mk('st', a.args[0], tuple((n, ite_val(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    if a.op == 'unit' or b.op == 'unit':
        return a
    return ite(c, a, b)
