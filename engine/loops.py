"""Loop summarisation: every loop is replaced by an inductive description of its effect.

The body is executed once for a generic iteration.  Values carried from earlier iterations appear as
`pre` atoms; they are solved to closed forms (counters, sums, first-iteration initialisation, overwrite),
and the whole effect becomes quantified updates.  What cannot be solved is havocked (unknown value)."""
from terms import *
from heap import *
import heap as H
import exec as X
import abstract
from exec import Ex, St, AlwaysPanics, ite_val


class LoopInfo:
    pass


def deep_fv(t):
    return fv(t)


def contains(t, x, memo=None):
    """does term t contain subterm x"""
    if t is x:
        return True
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    if t.op == 'p':
        for (bs, mono, d, va), c in t.args[0]:
            for a, e in mono:
                if contains(a, x, memo):
                    r = True
            for a in va:
                if contains(a, x, memo):
                    r = True
    else:
        r = _ct(t.args, x, memo)
    memo[t] = r
    return r


def _ct(tp, x, memo):
    for a in tp:
        if isinstance(a, T):
            if contains(a, x, memo):
                return True
        elif isinstance(a, tuple):
            if _ct(a, x, memo):
                return True
    return False


def pres(t, loop, out=None, memo=None):
    """all pre atoms of the loop inside t"""
    if out is None:
        out = set()
        memo = set()
    if t in memo:
        return out
    memo.add(t)
    if t.op == 'pre' and t.args[0] == loop:
        out.add(t)
        if isinstance(t.args[1], T):
            pres(t.args[1], loop, out, memo)
        return out
    if t.op == 'p':
        for (bs, mono, d, va), c in t.args[0]:
            for a, e in mono:
                pres(a, loop, out, memo)
            for a in va:
                pres(a, loop, out, memo)
    else:
        _pt(t.args, loop, out, memo)
    return out


def _pt(tp, loop, out, memo):
    for a in tp:
        if isinstance(a, T):
            pres(a, loop, out, memo)
        elif isinstance(a, tuple):
            _pt(a, loop, out, memo)


def replace_atoms(t, m, memo=None):
    """replace atoms (scalar or vector) by terms, through the substitution machinery"""
    if not m:
        return t
    return _rep(t, m, {} if memo is None else memo)


def _rep(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'p':
        acc = {}
        ch = False
        for (key, c) in t.args[0]:
            bs, mono, d, va = key
            mono2 = [(a, _rep(a, m, memo), e) for a, e in mono]
            va2 = [_rep(a, m, memo) for a in va]
            if all(a is b for a, b, e in mono2) and all(a is b for a, b in zip(va, va2)):
                acc[key] = acc.get(key, 0) + c
                continue
            ch = True
            import terms
            fr, mono, d, va = terms._open(key)
            q = {((), (), d, ()): c}
            for a, e in mono:
                q = pd_mul(q, pd_pow(to_pd(_rep(a, m, memo)), e))
            for a in va:
                q = pd_conv(q, vatom_pd(_rep(a, m, memo), d), d)
            if fr:
                q = pd_sum(q, fr)
            pd_addto(acc, q)
        r = from_pd(acc) if ch else t
    elif t.op in ('lam', 'ex', 'mu'):
        b = _rep(t.args[1], m, memo)
        r = t if b is t.args[1] else close(t.op, t.args[0], b) if t.args[0].op != 'bv' else _reclose(t, m, memo)
    else:
        args = tuple(_repa(a, m, memo) for a in t.args)
        r = t if args == t.args else rebuild(t.op, args)
    memo[t] = r
    return r


def _reclose(t, m, memo):
    x = fresh(t.args[0].args[1], 'l')
    b = subst(t.args[1], {t.args[0]: x})
    return close(t.op, x, _rep(b, m, memo))


def _repa(a, m, memo):
    if isinstance(a, T):
        return _rep(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_repa(b, m, memo) for b in a)
    return a


def linear_in(p, atom, q=None):
    """p = a*atom + g  (a a scalar polynomial) or None"""
    if q is not None:
        p = nf_mod(p, q)
    a, g = {}, {}
    for key, c in to_pd(p).items():
        bs, mono, d, va = key
        hits = [x for x in va if x is atom]
        mh = [e for x, e in mono if x is atom]
        if hits:
            if bs or len(va) != 1 or d != 0:
                return None
            if any(contains(x, atom) for x, e in mono):
                return None
            pd_addto(a, {((), mono, SC, ()): c})
            continue
        if mh:
            if bs or mh != [1] or d != SC:
                return None
            rest = tuple(x for x in mono if x[0] is not atom)
            if any(contains(x, atom) for x, e in rest):
                return None
            pd_addto(a, {((), rest, SC, ()): c})
            continue
        if any(contains(x, atom) for x, e in mono) or any(contains(x, atom) for x in va):
            return None
        g[key] = c
    return from_pd(a), from_pd(g)


def strip_vred(v):
    """(inner, q, lazy) if v is a single reduction"""
    pd = to_pd(v)
    if len(pd) == 1:
        (k, c), = pd.items()
        if c == 1 and not k[0] and not k[1] and k[2] == 0 and len(k[3]) == 1 and k[3][0].op == 'vred':
            return k[3][0].args
    return None


def find_vq(v):
    """modulus of the reductions occurring at top level of v"""
    qs = set()
    for key, c in to_pd(v).items():
        for a in key[3]:
            if a.op == 'vred':
                qs.add((a.args[1], a.args[2]))
    return qs


class Loops:
    def s_for(self, st, s):
        if s.get('init'):
            st = self.stmt(st, s['init'])[0][1]
        if s.get('fold') and s['fold'] in self.folds:
            return self.fold(st, s)
        return self.loop(st, s, 'for', None)

    def fold(self, st, s):
        """a loop under the contract of its iterate (folds.py)"""
        name, fr = s['fold'], self.frames[-1]
        fn = self.d.funcs[name]
        ids = [fn['recv']['id']] + fn['roles']
        vals = [self.ev(st, {'k': 'var', 'id': i, 't': p['t']}) for i, p in zip(ids, [fn['recv']] + fn['params'])]
        r = self.folds[name](self, st, vals[0], vals[1:], s)
        for i, v in zip(fn['assigned'], r.args if r.op == 'tup' else [r]):
            self.assign(st, self.lval(st, {'k': 'var', 'id': i}), v, 'int')
        return [('n', st, None)]

    def s_range(self, st, s):
        xt = self.d.ty(s['xt'])
        if xt['k'] == 'map':
            m = self.prune(st, self.ev(st, s['x']))
            if m is NIL:
                return [('n', st, None)]
            if m.op == 'ite':
                c = m.args[0]
                return self.branch(st, c, lambda t: self.range_map(t, s, m.args[1]), lambda t: self.range_map(t, s, m.args[2]))
            return self.range_map(st, s, m)
        if xt['k'] == 'basic' and self.d.under(s['xt']) in X.INTS:
            n = self.ev(st, s['x'])
            return self.loop(st, s, 'rint', n)
        if xt['k'] == 'slice':
            v = self.prune(st, self.ev(st, s['x']))
            return self.loop(st, s, 'rslice', v)
        if xt['k'] in ('array', 'ptr'):
            if xt['k'] == 'ptr':
                a = self.ev(st, s['x'])
                n = self.d.ty(xt['elem'])['len']
            else:
                a = self.addr(st, s['x'])
                n = xt['len']
            return self.loop(st, s, 'rslice', slc(a, ZERO, num(n)))
        raise Unsupported('range over ' + s['xt'])

    def range_map(self, st, s, m):
        return self.loop(st, s, 'rmap', m)

    # ---------------------------------------------------------------------------------------
    def loop(self, st, s, kind, src):
        fr = self.frames[-1]
        lname = 'L%s#%s' % (fr.path, s['nid'])
        if self.loopvars:
            lname += ''.join(':' + show(v) for v in self.loopvars)
        av = assigned = X.assigned_vars([s.get('c'), s.get('post'), s['body'], s.get('key'), s.get('val')], self.d)
        keys = [(fr.path, v) for v in av if (fr.path, v) in st.env]
        pre = st
        # concrete iteration when the bounds are small constants
        if kind == 'rslice' and is_const(self.slen(src)) is not None and is_const(self.slen(src)) <= 8 and self.small_unroll(s, src):
            return self.unroll_range(st, s, src)
        if kind == 'for':
            r = self.try_unroll(st, s)
            if r is not None:
                return r
        W = []
        inv = {}
        prim = None        # (key, init, step) primary induction variable
        if kind == 'rmap':
            beta = var('k@' + lname, self.map_keysort(src))
        else:
            beta = var('i@' + lname, 'I')
        self.betas[lname] = beta
        npanic = len(self.panics)
        last = None
        known = ()
        blost = set()
        for rnd in range(10):
            del self.panics[npanic:]
            cur = pre.fork()
            li = LoopInfo()
            # entry values of carried variables
            for k in keys:
                v0 = pre.env[k]
                if k in inv:
                    cur.env[k] = inv[k](beta)
                else:
                    cur.env[k] = self.pre_of(lname, k, v0)
            self.prims[lname] = prim
            rng, earlier = self.range_conds(pre, kind, src, beta, prim, inv)
            # barrier
            u = Upd((), TRUE, None, None)
            u.loop = lname
            u.W = W
            u.beta = beta
            u.earlier = earlier
            u.rng = TRUE
            u.known = known
            nb = len(cur.br)
            cur.branch(rng)
            cur.log = Node(cur.log, u)
            mark = cur.log
            self.loopvars.append(beta)
            try:
                cond = None
                if kind == 'for' and s.get('c'):
                    cond = self.ev(cur, s['c'])
                    cur.branch(cond)
                elif kind == 'rint':
                    cur.branch(lt(beta, src))
                    if s.get('key') and s['key']['k'] == 'var':
                        self.assign(cur, self.lval(cur, s['key']), beta, s['key']['t'])
                elif kind == 'rslice':
                    cur.branch(lt(beta, self.slen(src)))
                    if s.get('key') and s['key']['k'] == 'var':
                        self.assign(cur, self.lval(cur, s['key']), beta, s['key']['t'])
                    if s.get('val') and s['val']['k'] == 'var':
                        et = s['val']['t']
                        self.assign(cur, self.lval(cur, s['val']), self.load(cur, H.e(src.args[0], add(src.args[1], beta)), et), et)
                elif kind == 'rmap':
                    # membership at loop start
                    dom0 = self.rd(pre, mk('dom', src, beta), '#dom')
                    cur.branch(dom0)
                    if s.get('key') and s['key']['k'] == 'var':
                        self.assign(cur, self.lval(cur, s['key']), beta, s['key']['t'])
                    if s.get('val') and s['val']['k'] == 'var':
                        et = s['val']['t']
                        self.assign(cur, self.lval(cur, s['val']), self.load(cur, mk('mv', src, beta), et), et)
                u.rng = and_(*cur.br[nb:])
                if self.ctx.inconsistent(cur.pc):
                    # the body never runs
                    del self.panics[npanic:]
                    if cond is not None:
                        pre.fact(self.never(pre, kind, cond, beta, prim, inv, keys))
                    return [('n', pre, None)]
                ncond = len(cur.br)
                outs = self.block(cur.fork(), s['body'])
                outs = self.monotone_breaks(outs, kind, beta, ncond, mark, lname, u, pre, blost)
                brk = [o for o in outs if o[0] in ('b', 'r')]
                nxt = [('n', o[1], o[2]) for o in outs if o[0] in ('n', 'c')]
                end, _ = self.merge_outs(nxt, 'n')
                if end is None:
                    if not brk:
                        # every iteration panics: the loop must not run
                        return self.loop_never_runs(pre, kind, src, s, u.rng, beta)
                    return self.loop_first_only(pre, s, kind, outs, beta, u, lname)
                if s.get('post'):
                    end = self.stmt(end, s['post'])[0][1]
            finally:
                self.loopvars.pop()
            # collect the writes of the body
            segs = []
            for stt in [end] + [o[1] for o in brk]:
                n = stt.log
                seg = []
                while n is not mark:
                    seg.append(n.upd)
                    n = n.parent
                seg.reverse()
                segs.append(seg)
            W2 = self.patterns([x for sg in segs for x in sg])
            # carried variables touched but not known syntactically
            for k in list(pre.env):
                if k not in keys and end.env.get(k) is not None and end.env[k] is not pre.env[k]:
                    keys.append(k)
                    W2.append(None)
            changed = not self.same_patterns(W, W2)
            W = [w for w in W2 if w is not None]
            known2 = self.stored_refs(segs, beta, lname)
            if known2 != known:
                changed = True
            known = known2
            # guess closed forms
            newinv, newprim = self.guess(pre, keys, lname, end, beta, kind, cond, prim, inv, s)
            sig = {k: f(beta) for k, f in newinv.items()}
            sig0 = {k: f(beta) for k, f in inv.items()}
            if newprim is not prim and (prim is None or newprim is None or newprim[0] != prim[0]):
                changed = True
            if any(sig0.get(k) is not v for k, v in sig.items()) or len(sig) != len(sig0):
                changed = True
            prim, inv = newprim, newinv
            if not changed:
                break
        else:
            raise Unsupported('loop summary does not stabilise at ' + self.where(s))
        if brk:
            return self.loop_with_exits(pre, s, kind, src, beta, prim, inv, keys, end, outs, u, lname, mark, segs, cond, nb, rng)
        r = self.close_loop(pre, s, kind, src, beta, prim, inv, keys, end, u, lname, mark, segs[0], cond, nb, ncond)
        for k in blost:
            for o in r:
                if k in o[1].env:
                    o[1].env[k] = mk('havoc', fresh('I', 'h'), 'I', tuple(self.loopvars))
        return r

    def monotone_breaks(self, outs, kind, beta, ncond, mark, lname, u, pre, blost):
        """'if c { break }' ahead of any effect, with c(i) => c(i+1), behaves as 'if c { continue }'"""
        brk = [o for o in outs if o[0] == 'b']
        if not brk or any(o[0] == 'r' for o in outs) or kind == 'rmap':
            return outs
        cs = []
        for kd, so, v in brk:
            c = and_(*so.br[ncond:])
            if so.log is not mark or pres(c, lname):
                return outs
            cs.append(c)
        c = or_(*cs)
        nx = {beta: add(beta, ONE)}
        if not self.ctx.entails(tuple(pre.pc) + (u.rng, subst(u.rng, nx), ge(beta, ZERO), c), subst(c, nx)):
            return outs
        for kd, so, v in brk:
            for k in pre.env:
                if so.env.get(k) is not pre.env[k] and not any(k == q for q in ()):
                    blost.add(k)
        return [('n', o[1], o[2]) if o[0] == 'b' else o for o in outs]

    # ---------------------------------------------------------------------------------------
    def small_unroll(self, s, src):
        return self.map_ok_unroll(s)

    def map_ok_unroll(self, s):
        return True

    def unroll_range(self, st, s, src):
        outs = []
        cur = st
        n = is_const(self.slen(src))
        for i in range(n):
            if s.get('key') and s['key']['k'] == 'var':
                self.assign(cur, self.lval(cur, s['key']), num(i), s['key']['t'])
            if s.get('val') and s['val']['k'] == 'var':
                et = s['val']['t']
                self.assign(cur, self.lval(cur, s['val']), self.load(cur, H.e(src.args[0], add(src.args[1], num(i))), et), et)
            self.loopvars.append(num(i))
            try:
                o = self.block(cur, s['body'])
            finally:
                self.loopvars.pop()
            outs += [x for x in o if x[0] in ('r', 'p')]
            brk = [x for x in o if x[0] == 'b']
            if brk:
                raise Unsupported('break in unrolled range')
            cur, _ = self.merge_outs([('n', x[1], x[2]) for x in o if x[0] in ('n', 'c')], 'n')
            if cur is None:
                return outs
        outs.append(('n', cur, None))
        return outs

    def try_unroll(self, st, s):
        """unroll a counting loop whose trip count is a small constant"""
        if not s.get('c') or not s.get('post'):
            return None
        probe = st.fork()
        try:
            c = self.ev(probe, s['c'])
        except Unsupported:
            return None
        if c is FALSE:
            return [('n', st, None)]
        if c is not TRUE:
            return None
        if s['c']['k'] != 'bin' or s['c']['y']['k'] != 'const':
            # bound must be a constant now
            try:
                b = self.ev(probe, s['c']['y']) if s['c']['k'] == 'bin' else None
            except Unsupported:
                return None
            if b is None or is_const(b) is None:
                return None
        outs = []
        cur = st
        for it in range(65):
            c = self.ev(cur, s['c'])
            if c is FALSE:
                outs.append(('n', cur, None))
                return outs
            if c is not TRUE or it >= self.max_unroll:
                return None if it >= self.max_unroll and it and not outs else None
            self.loopvars.append(num(it))
            try:
                o = self.block(cur, s['body'])
            finally:
                self.loopvars.pop()
            outs += [x for x in o if x[0] in ('r', 'p')]
            if any(x[0] == 'b' for x in o):
                return None
            cur, _ = self.merge_outs([('n', x[1], x[2]) for x in o if x[0] in ('n', 'c')], 'n')
            if cur is None:
                return outs
            cur = self.stmt(cur, s['post'])[0][1]
        return None

    max_unroll = 16

    def pre_of(self, lname, k, v0):
        if self.abstract and len(k) == 2 and k[1] in self.ctvars:
            a = mk('pre', lname, k, 'V')
            if v0 is NIL:
                self.nilpre[a] = self.betas[lname]
            return vec(a)
        if v0.op == 'tup':
            return mk('tup', *[self.pre_of(lname, k + (i,), x) for i, x in enumerate(v0.args)])
        if v0.op == 'st':
            return mk('st', v0.args[0], tuple((n, self.pre_of(lname, k + (n,), x)) for n, x in v0.args[1]))
        if v0.op == 'slc':
            return slc(mk('pre', lname, k + ('arr',), 'R'), mk('pre', lname, k + ('off',), 'I'), mk('pre', lname, k + ('len',), 'I'))
        s = sort_of(v0)
        return mk('pre', lname, k, s)

    def range_conds(self, pre, kind, src, beta, prim, inv):
        """lower range of the loop variable and the relation 'b2 is an earlier iteration than beta'"""
        if kind == 'rmap':
            return TRUE, (lambda b2: not_(geneq(b2, beta)))
        if prim is None:
            return ge(beta, ZERO), (lambda b2: and_(ge(b2, ZERO), lt(b2, beta)))
        k, i0, step = prim
        if step == 1:
            return ge(beta, i0), (lambda b2: and_(ge(b2, i0), lt(b2, beta)))
        if step == -1:
            return le(beta, i0), (lambda b2: and_(le(b2, i0), gt(b2, beta)))
        return ge(beta, ZERO), (lambda b2: and_(ge(b2, ZERO), lt(b2, beta)))

    def patterns(self, seg):
        out = []
        seen = set()
        for u in seg:
            cq = []
            ren = {}
            for i, q in enumerate(u.qv):
                nq = var('q%d@' % i, q.args[1])
                ren[q] = nq
                cq.append(nq)
            a = subst(u.addr, ren)
            g = subst(u.guard, ren)
            # guards that contain loop-carried or content-dependent parts are dropped (over-approximation)
            if (a, g) in seen:
                continue
            seen.add((a, g))
            out.append((tuple(cq), g, a))
        return out

    def stored_refs(self, segs, beta, lname):
        """references that every iteration stores at a place of its own"""
        if len(segs) != 1:
            return ()
        out = []
        for u in segs[0]:
            if u.loop is None and u.val is not None and u.val.op == 'slc' and beta in fv(u.addr) and sum(v.head == u.head and (v.addr is None or H.may_meet(subst(v.addr, {beta: fresh(beta.args[1], 'e')}), u.addr)) for v in segs[0]) == 1 \
                    and not (pres(u.val, lname) or pres(u.addr, lname) or pres(u.guard, lname)):
                ren = {q: var('q%d@' % i, q.args[1]) for i, q in enumerate(u.qv)}
                out.append((tuple(ren.values()), subst(u.guard, ren), subst(u.addr, ren), subst(u.val, ren)))
        return tuple(out)

    def same_patterns(self, A, B):
        if any(w is None for w in B):
            return False
        return set((a, g) for q, g, a in A) == set((a, g) for q, g, a in B)

    def guess(self, pre, keys, lname, end, beta, kind, cond, prim, inv, s):
        newinv = {}
        newprim = prim
        steps = {}
        slices = {}
        for k in keys:
            v0 = pre.env[k]
            v1 = end.env[k]
            if k in inv:
                # check inductiveness of the guessed closed form
                nb = self.next_beta(beta, prim)
                if nb is not None and inv[k](nb) is v1:
                    newinv[k] = inv[k]
                    continue
                if nb is not None and sort_of(v1) == 'I' and v1.op != 'ite':
                    try:
                        if self.ctx.entails(end.pc, eq(inv[k](nb), v1)):
                            newinv[k] = inv[k]
                            continue
                    except ValueError:
                        pass
                raise Unsupported('loop variable %s has no closed form at %s' % (k[1], self.where(s)))
            if v0.op == 'slc' and v1.op == 'slc' and kind != 'rmap':
                # a slice grown by a constant number of elements per iteration
                pv = self.pre_of(lname, k, v0)
                lin = linear_in(v1.args[2], pv.args[2])
                if v1.args[0] is pv.args[0] and v1.args[1] is pv.args[1] and lin is not None and lin[0] is ONE and is_const(lin[1]):
                    slices[k] = is_const(lin[1])
                continue
            if sort_of(v0) != 'I' or sort_of(v1) != 'I' or kind == 'rmap' and False:
                continue
            p = mk('pre', lname, k, 'I')
            lin = linear_in(v1, p)
            if lin is None:
                continue
            a, g = lin
            if a is ONE and is_const(g) is not None:
                steps[k] = is_const(g)
            elif a is ONE and not pres(g, lname) and beta not in fv(g) and kind != 'rmap' and not self.varies(g, pre):
                steps[k] = g
            elif a is ZERO and is_const(g) is not None and not pres(g, lname):
                pass
        if steps and kind == 'for' and prim is None and not newinv and kind != 'rmap':
            # primary: mentioned in cond with step +-1
            cand = None
            for k in sorted(steps, key=lambda z: str(z)):
                p = mk('pre', lname, k, 'I')
                if isinstance(steps[k], int) and steps[k] in (1, -1) and cond is not None and contains(cond, p):
                    cand = k
                    break
            if cand is not None:
                newprim = (cand, pre.env[cand], steps[cand])
            else:
                newprim = (None, ZERO, 0)
        elif kind in ('rint', 'rslice') and prim is None:
            newprim = (None, ZERO, 1)
        for k, stp in steps.items():
            if k in newinv:
                continue
            if kind == 'rmap':
                continue
            newinv[k] = self.closed(pre.env[k], stp, newprim, k)
        for k, stp in slices.items():
            if k not in newinv and newprim is not None and newprim[2] in (1, -1):
                v0 = pre.env[k]
                newinv[k] = (lambda v0, c: lambda b: slc(v0.args[0], v0.args[1], c(b)))(v0, self.closed(v0.args[2], stp, newprim, None))
        return newinv, newprim

    def varies(self, g, pre):
        return False

    def closed(self, v0, step, prim, k):
        stp = I(step)
        pk, i0, ps = prim if prim else (None, ZERO, 0)
        if pk == k and ps in (1, -1):
            return lambda b: b
        if ps == 1:
            return lambda b: add(v0, mul(stp, sub(b, i0)))
        if ps == -1:
            return lambda b: add(v0, mul(stp, sub(i0, b)))
        return lambda b: add(v0, mul(stp, b))

    def next_beta(self, beta, prim):
        if prim is None:
            return add(beta, ONE)
        if prim[2] == -1:
            return sub(beta, ONE)
        return add(beta, ONE)

    def prev_beta(self, beta, prim):
        if prim is not None and prim[2] == -1:
            return add(beta, ONE)
        return sub(beta, ONE)

    def never(self, pre, kind, cond, beta, prim, inv, keys):
        return TRUE

    def loop_never_runs(self, pre, kind, src, s, rng, beta):
        if kind == 'rmap':
            raise Unsupported('loop body always panics at ' + self.where(s))
        st = pre
        k = var('i0?', 'I')
        # the first iteration would panic
        first = ZERO
        if kind == 'for':
            c = self.ev(st, s['c'])
        elif kind == 'rint':
            c = None
        raise Unsupported('loop body always panics at ' + self.where(s))

    def loop_first_only(self, pre, s, kind, outs, beta, u, lname):
        raise Unsupported('loop that never iterates twice at ' + self.where(s))

    # ------------------------------------------------------------------------- closing
    def split_rng(self, rng, beta):
        """(beta-free part, beta part) of the range condition"""
        xs = rng.args if rng.op == 'and' else (rng,)
        a = [x for x in xs if beta not in fv(x)]
        b = [x for x in xs if beta in fv(x)]
        return and_(*a), and_(*b)

    def bounds(self, rng, beta):
        """(lo, hi) inclusive bounds of an integer loop variable from its range condition"""
        lo = hi = None
        for x in (rng.args if rng.op == 'and' else (rng,)):
            if x.op != 'le0' or beta not in fv(x):
                continue
            pd = to_pd(x.args[0])
            k = ((), ((beta, 1),), SC, ())
            c = pd.get(k)
            r = from_pd({a: b for a, b in pd.items() if a != k})
            if c is None or beta in fv(r):
                return None
            if c == 1:      # beta <= -r
                h = neg(r)
                hi = h if hi is None else self.tight(h, hi, True)
            elif c == -1:
                lo = r if lo is None else self.tight(r, lo, False)
            else:
                return None
            if lo is False or hi is False:
                return None
        if lo is None or hi is None:
            return None
        return lo, hi

    def tight(self, a, b, mn):
        d = is_const(sub(a, b))
        if d is None:
            return ite(le(a, b), a if mn else b, b if mn else a)
        return a if (d <= 0) == mn else b

    def close_loop(self, pre, s, kind, src, beta, prim, inv, keys, end, u, lname, mark, seg, cond, nb, ncond):
        rng = u.rng
        cx = LoopCtx()
        cx.pre, cx.beta, cx.prim, cx.kind, cx.lname, cx.rng, cx.end, cx.u = pre, beta, prim, kind, lname, rng, end, u
        cx.bounds = None if kind == 'rmap' else self.bounds(rng, beta)
        if cx.bounds is None:
            w = self.while_mod(pre, s, kind, beta, prim, inv, keys, end, seg, cond, lname)
            if w is not None:
                return w
        extra = self.extra(rng, beta, lname) if kind == 'for' and prim is not None else []
        if extra:
            cx.bounds = ONE, ZERO       # replaced below, once the carried values are solved
        cx.mark = mark
        cx.solved = {}
        cx.trips = None
        cx.keys = keys
        cx.inv = inv
        cx.src = src
        if kind != 'rmap' and cx.bounds is None:
            raise Unsupported('loop bounds not linear at ' + self.where(s) + ': ' + show(rng))
        if kind == 'rmap':
            cx.nonempty = None
            cx.first = cx.last = None
        else:
            lo, hi = cx.bounds
            cx.nonempty = le(lo, hi)
            if prim is not None and prim[2] == -1:
                cx.first, cx.last = hi, lo
            else:
                cx.first, cx.last = lo, hi
        # end-of-iteration values of the distinct location patterns
        pats = []
        for (qv, guard, addr) in self.merge_cases(self.patterns(seg), beta):
            # fresh names
            ren = {}
            q2 = []
            for q in qv:
                nq = fresh(q.args[1], 'j')
                ren[q] = nq
                q2.append(nq)
            guard, addr = subst(guard, ren), subst(addr, ren)
            s2 = end.fork()
            s2.branch(guard)
            if guard is not TRUE and self.ctx.inconsistent(s2.pc):
                continue
            typ = self.pat_type(seg, addr)
            val = self.rd(s2, addr, typ)
            pats.append((tuple(q2), guard, addr, val, typ))
        cx.pats = pats = self.covered(pats)
        if extra:
            self.first_failure(cx, extra, s)
        # solve
        emit = []
        for p in pats:
            r = self.solve_pat(cx, p)
            if r is not None:
                emit.append(r)
        emit = self.lanes(cx, self.halves(cx, emit))
        st = pre
        newenv = {}
        for k in keys:
            newenv[k] = self.solve_var(cx, k)
        for n, (qv, guard, addr, val, where) in enumerate(self.by_cases(pre, emit)):
            ren = {q: var('Q%d.%d@%s' % (n, i, lname), q.args[1]) for i, q in enumerate(qv)}
            qv, guard, addr, val = tuple(ren.values()), subst(guard, ren), subst(addr, ren), subst(val, ren)
            st.log = Node(st.log, Upd(qv, guard, addr, val, where))
        st.env.update(newenv)
        # facts: body obligations already recorded; loop exit condition is implied by the closed forms
        return [('n', st, None)]

    def extra(self, rng, beta, lname):
        """the conjuncts of the loop condition that are not bounds of the loop variable"""
        r = []
        for x in (rng.args if rng.op == 'and' else (rng,)):
            if x is TRUE:
                continue
            if x.op == 'le0' and not pres(x, lname):
                k = ((), ((beta, 1),), SC, ())
                pd = to_pd(x.args[0])
                if pd.get(k) in (1, -1) and beta not in fv(from_pd({a: b for a, b in pd.items() if a != k})):
                    continue
            r.append(x)
        return r

    def first_failure(self, cx, extra, s):
        """a loop that runs until its condition fails for the first time: the number of iterations is the least
        number at which it does; carried values are iterates"""
        i0, sgn = cx.prim[1], -1 if cx.prim[2] == -1 else 1
        cx.first = i0
        cx.nonempty = TRUE
        xs = []
        for x in (cx.rng.args if cx.rng.op == 'and' else (cx.rng,)):
            # the start of the range holds by construction
            y = subst(x, {cx.beta: add(i0, mul(num(sgn), var('t!', 'I')))})
            if x.op == 'le0' and x not in extra and self.ctx.entails((ge(var('t!', 'I'), ZERO),), y):
                continue
            ps = pres(x, cx.lname)
            if ps:
                m = self.resolve(cx, ps, None)
                if m is None:
                    raise Unsupported('loop condition on carried values at ' + self.where(s))
                x = replace_atoms(x, m)
            xs.append(x)
        t = fresh('I', 't')
        n = least(t, subst(and_(*xs), {cx.beta: add(i0, mul(num(sgn), t))}))
        cx.solved = {}
        cx.trips = n
        cx.nonempty = ge(n, ONE)
        last = add(i0, mul(num(sgn), sub(n, ONE)))
        cx.last = last
        cx.bounds = (i0, last) if sgn > 0 else (last, i0)
        cx.rng = and_(ge(cx.beta, cx.bounds[0]), le(cx.beta, cx.bounds[1]))

    def trips_of(self, cx):
        if cx.trips is not None:
            return cx.trips
        return add(sub(cx.bounds[1], cx.bounds[0]), ONE)

    def iterate(self, cx, val, atom, old, upto):
        """the carried value before iteration upto (after the loop) as an iterate of its step"""
        i0, sgn = cx.prim[1], -1 if cx.prim[2] == -1 else 1
        t, x = fresh('I', 't'), fresh('F', 'x')
        step = lam(t, lam(x, subst(replace_atoms(val, {atom: x}), {cx.beta: add(i0, mul(num(sgn), t))})))
        if upto is not None:
            return rec(step, old, mul(num(sgn), sub(upto, i0)))
        r = rec(step, old, self.trips_of(cx))
        return r if cx.trips is not None else ite(cx.nonempty, r, old)

    def halves(self, cx, emit):
        """x[b] := .., x[b+h] := .. for every 0 <= b < h = N/2 of a coefficient vector: an update of the whole vector by
        a x + d (x * X^h), when the pair of right-hand sides is that negacyclic product"""
        beta = cx.beta
        if cx.bounds is None:
            return emit
        h = divi(var('N'), num(2))
        out = list(emit)
        for A in emit:
            if A[4] != 'u64' or A[2].op != 'e' or A[2].args[1] is not beta or beta in fv(A[2].args[0]):
                continue
            B = next((B for B in emit if B[4] == 'u64' and B[2].op == 'e' and B[2].args[0] is A[2].args[0] and B[2].args[1] is add(beta, h) and B[1] is A[1]), None)
            if B is None:
                continue
            g = and_(*[x for x in (A[1].args if A[1].op == 'and' else (A[1],)) if beta not in fv(x)])
            full = and_(ge(beta, ZERO), lt(beta, h))
            pc = tuple(cx.pre.pc) + (g,)
            ok = self.ctx.entails(pc + (cx.rng,), full) and self.ctx.entails(pc + (full,), cx.rng) and self.ctx.entails(pc, eq(self.limb_len(A[2].args[0]), var('N')))
            v = self.negacyclic(A[3], B[3], beta, h) if ok else None
            if v is not None:
                out.remove(A)
                out.remove(B)
                out.append((tuple(q for q in A[0] if q is not beta), g, C(A[2].args[0]), v, '#C'))
        return out

    def lanes(self, cx, emit):
        """x[k b + l] := F(k b + l) for every b and l < k: an update of the whole coefficient vector"""
        beta = cx.beta
        if cx.bounds is None:
            return emit
        groups = {}
        for A in emit:
            if A[4] != 'u64' or A[2].op != 'e' or beta in fv(A[2].args[0]):
                continue
            c, r = coefficient(A[2].args[1], beta)
            l = is_const(r)
            if c is not None and c > 1 and l is not None and 0 <= l < c:
                m = {q: var('q%d' % i, q.args[1]) for i, q in enumerate(x for x in A[0] if x is not beta)}
                g = and_(*[x for x in (A[1].args if A[1].op == 'and' else (A[1],)) if beta not in fv(x)])
                groups.setdefault((c, subst(A[2].args[0], m), subst(g, m)), {})[l] = (A, m)
        out = list(emit)
        for (c, arr, g), ls in groups.items():
            if len(ls) != c:
                continue
            A, m = ls[0]
            w = fresh('I', 'w')
            F = unscale(subst(A[3], m), beta, c, w)
            if F is None or any(subst(F, {w: add(mul(num(c), beta), num(l))}) is not subst(B[3], mb) for l, (B, mb) in ls.items()):
                continue
            pc = tuple(cx.pre.pc) + (g,)
            n = self.limb_len(arr)
            full = and_(ge(w, ZERO), lt(w, n))
            if not (self.ctx.entails(pc + (full,), subst(cx.rng, {beta: divi(w, num(c))})) and self.ctx.entails(pc + (cx.rng,), and_(ge(beta, ZERO), le(add(mul(num(c), beta), num(c)), n)))):
                continue
            v = self.lift(F, w)
            back = {y: x for x, y in m.items()}
            for B, _ in ls.values():
                out.remove(B)
            out.append((tuple(q for q in A[0] if q is not beta), subst(g, back), subst(C(arr), back), subst(v, back), '#C'))
        return out

    def negacyclic(self, a, b, w, h):
        qs = [x.args[1] for x in (a, b) if x.op == 'red']
        if len(qs) != 2 or qs[0] is not qs[1]:
            return None
        fa, fb = self.at_linear(a.args[0], w, h, qs[0]), self.at_linear(b.args[0], w, h, qs[0])
        if fa is None or fb is None:
            return None
        z = ZERO
        acc = ZERO
        import lattigo
        for V in sorted(set(fa) | set(fb), key=lambda t: t.id):
            alo, ahi = fa.get(V, (z, z))
            blo, bhi = fb.get(V, (z, z))
            if nf_mod(sub(alo, bhi), qs[0]) is not ZERO or nf_mod(add(ahi, blo), qs[0]) is not ZERO:
                return None
            x = V if V.op == 'p' else vec(V)
            acc = add(acc, mul(alo, x), mul(blo, lattigo.mulxh(nf_mod(x, qs[0]))))
        return vred(nf_mod(acc, qs[0]), qs[0])

    def at_linear(self, t, w, h, q):
        """t as a linear combination of V[w] and V[w+h]: {V: (coefficient, coefficient)}"""
        out = {}
        w2 = add(w, h)
        for key, c in to_pd(t).items():
            fr, mono, d, va = X.H_open(key)
            if d != SC or fr:
                return None
            hit = None
            rest = []
            for a, ee in mono:
                if a.op == 'at' and a.args[1] in (w, w2) and w not in fv(a.args[0]) and ee == 1 and hit is None:
                    hit = a
                elif a.op == 'red' and w in fv(a) and ee == 1 and hit is None:
                    hit = a
                elif w in fv(a):
                    return None
                else:
                    rest.append((a, ee))
            k = from_pd({((), tuple(sorted(rest, key=lambda z: z[0].id)), SC, ()): c})
            if hit is None:
                if nf_mod(k, q) is not ZERO:
                    return None
                continue
            if hit.op == 'red':
                if hit.args[1] is not q:
                    return None
                r = self.at_linear(hit.args[0], w, h, q)
                if r is None:
                    return None
            else:
                r = {hit.args[0]: (ONE, ZERO) if hit.args[1] is w else (ZERO, ONE)}
            for V, (x, y) in r.items():
                o = out.get(V, (ZERO, ZERO))
                out[V] = (add(o[0], mul(k, x)), add(o[1], mul(k, y)))
        return out

    def merge_cases(self, ps, beta):
        """a location shared by the iterations that is written on several branches: solve all branches together"""
        out = []
        for qv, guard, addr in ps:
            gs = guard.args if guard.op == 'and' else (guard,)
            if beta not in fv(addr) and any(beta in fv(x) for x in gs):
                if any(a2 is not addr and H.head(a2) == H.head(addr) or a2 is addr and g2 is not guard for q2, g2, a2 in ps if beta not in fv(a2)):
                    guard = and_(*[x for x in gs if beta not in fv(x)])
            if (qv, guard, addr) not in out:
                out.append((qv, guard, addr))
        return out

    def by_cases(self, pre, emit):
        """split writes whose address is a case distinction on the iteration (range over a literal slice)"""
        out = []
        work = list(emit)
        while work:
            qv, guard, addr, val, where = work.pop(0)
            hit = None
            for c in self.inds_in(addr):
                if not any(q in fv(c) for q in qv):
                    continue
                d = self.ctx.decide(pre.pc + (guard,), c)
                if d is not None:
                    hit = [(d, c, qv, guard)]
                    break
                q = next((q for q in qv if solve_eq(c, q) is not None), None)
                if q is not None:
                    hit = [(True, c, tuple(x for x in qv if x is not q), guard, {q: solve_eq(c, q)}), (False, c, qv, and_(guard, not_(c)))]
                    break
                hit = [(True, c, qv, and_(guard, c)), (False, c, qv, and_(guard, not_(c)))]
                break
            if hit is None:
                for q in qv:
                    if q not in fv(self.keypart(addr)):
                        n = next((n for n in range(9) if self.ctx.entails(pre.pc + (guard,), eq(q, num(n)))), None)
                        if n is not None:
                            m = {q: num(n)}
                            hit = ()
                            work.insert(0, (tuple(x for x in qv if x is not q), subst(guard, m), subst(addr, m), subst(val, m), where))
                            break
                if hit is None:
                    out.append((qv, guard, addr, val, where))
                continue
            new = []
            for h in hit:
                m = h[4] if len(h) > 4 else {}
                g = subst(h[3], m)
                if self.ctx.inconsistent(tuple(self.ctx.relevant(pre.pc, g)) + (g,)):
                    continue
                a, v = addr, val
                if m:
                    a, v = subst(a, m), subst(v, m)
                else:
                    x = mk('ind', h[1])
                    a, v = replace_atoms(a, {x: ONE if h[0] else ZERO}), replace_atoms(v, {x: ONE if h[0] else ZERO})
                new.append((h[2], g, a, v, where))
            work = new + work
        return out

    def keypart(self, a):
        return a

    def inds_in(self, t):
        out = []

        def w(x):
            if isinstance(x, tuple):
                for y in x:
                    w(y)
            elif isinstance(x, T):
                if x.op == 'ind':
                    if x.args[0] not in out:
                        out.append(x.args[0])
                    return
                if x.op in ('lam', 'ex'):
                    return
                w(x.args)
        w(t)
        return out

    def pat_type(self, seg, addr):
        for u in seg:
            if u.head == H.head(addr):
                r = unify(u.addr, addr, u.qv)
                if r is not None:
                    return '#C' if addr.op == 'C' else 'uint64' if u.where == 'u64' else u.where
        raise Unsupported('pattern type')

    def injective(self, cx, qv, addr, guard):
        """distinct iterations write distinct addresses"""
        beta = cx.beta
        if beta not in fv(addr):
            return False
        b2 = fresh(beta.args[1], 'e')
        ren = {beta: b2}
        for q in qv:
            ren[q] = fresh(q.args[1], 'e')
        a2 = subst(addr, ren)
        eqs_, idx = [], []
        if not H._uni(a2, addr, frozenset(), eqs_, idx):
            return True
        cond = TRUE
        for x, y in eqs_ + idx:
            cond = and_(cond, geneq(x, y))
        allc = and_(cond, not_(geneq(b2, beta)), subst(guard, ren), guard, cx.rng, subst(cx.rng, {beta: b2}))
        if allc is FALSE:
            return True
        return self.ctx.inconsistent(tuple(self.ctx.relevant(cx.pre.pc, allc)) + (allc,))

    def where_of(self, typ):
        return 'u64' if typ == 'uint64' else typ

    def solve_pat(self, cx, p):
        qv, guard, addr, val, typ = p
        beta = cx.beta
        where = 'u64' if (addr.op == 'e' and typ == 'uint64') else typ
        if pres(addr, cx.lname) or pres(guard, cx.lname):
            m = self.resolve(cx, pres(addr, cx.lname) | pres(guard, cx.lname), p)
            if m is None:
                raise Unsupported('write through loop-carried reference ' + show(addr))
            addr, guard = replace_atoms(addr, m), replace_atoms(guard, m)
        if beta in fv(addr):
            if not self.injective(cx, qv, addr, guard):
                r = self.collapse(cx, p)
                if r is not None:
                    return r
                raise Unsupported('loop writes overlapping locations %s' % show(addr))
            ps = pres(val, cx.lname)
            if ps:
                rec = self.recurrence(cx, p, ps)
                m = None if rec is not None else self.resolve(cx, ps, p)
                if rec is not None:
                    val = rec
                elif m is None:
                    val = self.havoc(cx, addr, typ, qv + (beta,))
                else:
                    val = replace_atoms(val, m)
            if where == 'u64' and addr.args[1] is beta and beta not in fv(guard) and beta not in fv(addr.args[0]) and not pres(val, cx.lname):
                # every coefficient of a limb
                full = and_(ge(beta, ZERO), lt(beta, self.limb_len(addr.args[0])))
                pc = tuple(cx.pre.pc) + (guard,)
                if self.ctx.entails(pc + (cx.rng,), full) and self.ctx.entails(pc + (full,), cx.rng):
                    w = fresh('I', 'w')
                    v = ZERO if is_const(val) == 0 else self.lift_lin(subst(val, {beta: w}), w)
                    if v is not None:
                        return (qv, guard, C(addr.args[0]), v, '#C')
            return (qv + (beta,), and_(guard, cx.rng), addr, val, where)
        # location shared by all iterations
        if typ == '#dom' or typ == 'bool':
            return self.solve_bool(cx, p, where)
        gfree = [x for x in (guard.args if guard.op == 'and' else (guard,)) if beta not in fv(x)]
        gdep = [x for x in (guard.args if guard.op == 'and' else (guard,)) if beta in fv(x)]
        gd = and_(*gdep)
        atom = self.pre_atom(cx, addr, typ)
        r = self.accumulate(cx, addr, typ, val, gd, atom, and_(*gfree), p)
        return (qv, and_(*gfree), addr, r, where)

    def covered(self, pats):
        """drop a pattern whose locations all belong to another one (values are those after the whole body)"""
        out = []
        for i, p in enumerate(pats):
            if p[1] is not TRUE and any(self.inside(p, o) for o in pats[:i]):
                continue
            out.append(p)
        return out

    def inside(self, p, o):
        if p[4] != o[4] or len(p[0]) != len(o[0]):
            return False
        ren = dict(zip(o[0], p[0]))
        return subst(o[2], ren) is p[2] and all(any(x is y for y in (p[1].args if p[1].op == 'and' else (p[1],))) for x in ((lambda g: g.args if g.op == 'and' else (g,))(subst(o[1], ren))) if x is not TRUE)

    def recurrence(self, cx, p, ps):
        """x[b] = a(b) x[b-1] with x[first] given: the product of the factors; x[b] = x[b-1] + c: a multiple of c"""
        qv, guard, addr, val, typ = p
        beta = cx.beta
        if len(ps) != 1 or cx.kind == 'rmap' or (cx.prim is not None and cx.prim[2] != 1) or beta in fv(guard) or typ == '#C':
            return None
        (atom,) = ps
        if atom.op != 'pre' or atom.args[1] is not subst(addr, {beta: sub(beta, ONE)}):
            return None
        if any(pt is not p and self.meets_other(pt, addr, beta) for pt in cx.pats):
            return None
        q = self.scalar_q(val, atom)
        lin = linear_in(val, atom, q)
        if lin is None:
            return None
        pc = tuple(cx.pre.pc) + (guard, cx.rng)
        first, later = self.under(pc + (eq(beta, cx.first),), lin), self.under(pc + (gt(beta, cx.first),), lin)
        if lin[0] is ONE and beta not in fv(lin[1]):
            # x[b] = x[b-1] + c
            x0 = self.old(cx, subst(addr, {beta: sub(cx.first, ONE)}), typ, subst(guard, {beta: cx.first}))
            v = add(x0, mul(lin[1], add(sub(beta, cx.first), ONE)))
            return v if q is None else red(v, q)
        if to_pd(first[0]) or to_pd(later[1]):
            return None
        v1, a = nf_mod(subst(first[1], {beta: cx.first}), q) if q is not None else subst(first[1], {beta: cx.first}), later[0]
        a1 = subst(a, {beta: cx.first})
        if len(to_pd(a1)) == 1 and is_unit(a1):
            k = mul(v1, power(a1, -1))
            v = mul(k, prod_range(a, beta, cx.first, beta))
        else:
            v = ite(eq(beta, cx.first), v1, mul(v1, prod_range(a, beta, add(cx.first, ONE), beta)))
        return v if q is None else red(v, q)

    def under(self, pc, xs):
        out = []
        for x in xs:
            m = {}
            for key, c in to_pd(x).items():
                for t, e in key[1]:
                    if t.op == 'ind' and t not in m:
                        d = self.ctx.decide(pc, t.args[0])
                        if d is not None:
                            m[t] = ONE if d else ZERO
            out.append(replace_atoms(x, m) if m else x)
        return out

    def pre_atom(self, cx, addr, typ):
        v = self.preval(cx.lname, addr, typ)
        return v

    def old(self, cx, addr, typ, guard):
        s2 = cx.pre.fork()
        s2.branch(guard)
        if addr.op == 'C':
            return self.rd_content(s2, cx.pre.log, addr, ())
        return self.rd(s2, addr, typ)

    def accumulate(self, cx, addr, typ, val, gd, atomv, gfree, p=None):
        beta = cx.beta
        old = self.old(cx, addr, typ, gfree)
        return self.closed_form(cx, val, gd, atomv, old, p, typ, addr)

    def closed_form(self, cx, val, gd, atomv, old, p, typ, addr, upto=None):
        """value after the loop (or before iteration `upto`) of a location whose value after an iteration is
        ite(gd, val, pre)"""
        lname, beta = cx.lname, cx.beta
        isvec = typ == '#C'
        s = 'I' if isvec else sort_of(val)
        if s == '?':
            s = sort_of(old)
        if atomv.op == 'slc' or val.op == 'slc' or old.op == 'slc':
            vals = []
            v3 = val.args if val.op == 'slc' else None
            if v3 is None or old.op != 'slc':
                return self.havoc(cx, addr, typ, ())
            for i in range(3):
                vals.append(self.closed_form(cx, v3[i], gd, atomv.args[i], old.args[i], p, None, addr, upto))
            return mk('slc', *vals)
        atom = atomv
        if isvec:
            (kk, _), = to_pd(atomv).items()
            atom = kk[3][0]
        if not contains(val, atom) or val is atomv:
            pass
        if val is atomv:
            return old
        # substitute other carried values first
        others = pres(val, lname) - {atom}
        if others and s == 'I' and not isvec and gd is TRUE:
            r = self.telescope(cx, val, atomv, others, old, p, typ, addr, upto)
            if r is not None:
                return r
        if others:
            m = self.resolve(cx, others, p)
            if m is None:
                return self.havoc(cx, addr, typ, ())
            val = replace_atoms(val, m)
            if pres(val, lname) - {atom}:
                return self.havoc(cx, addr, typ, ())
        if gd is not TRUE and pres(gd, lname):
            m = self.resolve(cx, pres(gd, lname), p)
            if m is None:
                return self.havoc(cx, addr, typ, ())
            gd = replace_atoms(gd, m)
        if not contains(val, atom) and gd is TRUE:
            # overwritten in every iteration
            if upto is None:
                if cx.kind == 'rmap':
                    if beta not in fv(val):
                        ne = mk('ex', *self.exbody(cx))
                        return ite_any(ne, val, old, isvec)
                    return self.havoc(cx, addr, typ, ())
                return ite_any(cx.nonempty if self.ctx.decide(cx.pre.pc, cx.nonempty) is not True else TRUE, subst(val, {beta: cx.last}), old, isvec)
            if cx.kind == 'rmap':
                return self.havoc(cx, addr, typ, ())
            pb = self.prev_beta(upto, cx.prim)
            isfirst = geneq(upto, cx.first)
            pv = subst(val, {beta: pb})
            if pv is old:
                return old
            return ite_any(isfirst, old, pv, isvec)
        if s == 'I':
            if gd is not TRUE:
                g = ind(gd)
                base = to_pd(atomv)
                val = add(mul(g, val), mul(sub(ONE, g), from_pd(base)))
            q = lazy = None
            if isvec:
                qs = find_vq(val)
                cand = {x for x, l in qs if contains_q(val, x)}
                hit = [(x, l) for x, l in qs if self.red_contains(val, x, atom)]
                if hit:
                    q, lazy = hit[0]
            else:
                q = self.scalar_q(val, atom)
            lin = linear_in(val, atom, q)
            if lin is None:
                return self.havoc(cx, addr, typ, ())
            a, g = lin
            lz = 0
            if isvec and qs:
                import lattigo
                # lazily reduced residues accumulate; where the loop starts afresh they stay as they are
                lz = lattigo.OVER if any(l for x, l in hit) else max(l for x, l in qs)
            if a is not ONE:
                a = self.simp_coef(cx, a)
            def during(x):
                # iteration x runs (before `upto`)
                r = subst(cx.rng, {beta: x})
                return r if upto is None else and_(r, self.earlier_than(cx, x, upto))
            if a is ONE:
                if not to_pd(g):
                    return old
                x = fresh(beta.args[1], 's')
                body = mul(ind(during(x)), subst(g, {beta: x})) if not isvec else vscale(ind(during(x)), subst(g, {beta: x}))
                tot = add(old, Sum(x, body))
                if q is None:
                    return tot
                return vred(tot, q, lz) if isvec else red(tot, q)
            # first-iteration initialisation:  a = [beta != first]
            if cx.kind != 'rmap':
                isf = ind(geneq(beta, cx.first))
                if a is sub(ONE, isf) or self.ctx.entails(cx.end.pc[:0] + tuple(cx.pre.pc) + (cx.rng,), eq(a, sub(ONE, isf))):
                    x = fresh(beta.args[1], 's')
                    b = during(x)
                    body = mul(ind(b), subst(g, {beta: x})) if not isvec else vscale(ind(b), subst(g, {beta: x}))
                    tot = Sum(x, body)
                    if q is not None:
                        tot = vred(tot, q, lz) if isvec else red(tot, q)
                    if upto is None:
                        return ite_any(cx.nonempty if self.ctx.decide(cx.pre.pc, cx.nonempty) is not True else TRUE, tot, old, isvec)
                    return ite_any(geneq(upto, cx.first), old, tot, isvec)
            if not to_pd(g) and cx.kind != 'rmap' and cx.prim is not None and cx.prim[2] == 1:
                r = self.product(cx, a, upto)
                if r is not None:
                    v = vscale(r, old) if isvec else mul(r, old)
                    v = v if q is None else (vred(v, q, lz) if isvec else red(v, q))
                    return ite_any(cx.nonempty if upto is None and self.ctx.decide(cx.pre.pc, cx.nonempty) is not True else TRUE, v, old, isvec) if upto is None \
                        else ite_any(geneq(upto, cx.first), old, v, isvec)
            if is_const(a) == 0 and upto is None and cx.kind != 'rmap':
                v = g if q is None else (vred(g, q, lz) if isvec else red(g, q))
                return ite_any(cx.nonempty if self.ctx.decide(cx.pre.pc, cx.nonempty) is not True else TRUE, subst(v, {beta: cx.last}), old, isvec)
            return self.havoc(cx, addr, typ, ())
        if s == 'B':
            v = or_(and_(gd, val), and_(not_(gd), atom)) if gd is not TRUE else val
            # atom or c(beta) / atom and c(beta)
            t1 = replace_atoms(v, {atom: TRUE})
            t0 = replace_atoms(v, {atom: FALSE})
            x = fresh(beta.args[1], 'x')
            rng = subst(cx.rng, {beta: x})
            if upto is not None:
                rng = and_(rng, self.earlier_than(cx, x, upto))
            if t1 is TRUE and not contains(t0, atom):
                return or_(old, mkex(x, and_(rng, subst(t0, {beta: x}))))
            if t0 is FALSE:
                return and_(old, not_(mkex(x, and_(rng, not_(subst(t1, {beta: x}))))))
            if t0 is t1 and upto is None and cx.kind != 'rmap':
                return ite(cx.nonempty, subst(t0, {beta: cx.last}), old)
            if t0 is t1 and upto is not None and cx.kind != 'rmap':
                return ite(geneq(upto, cx.first), old, subst(t0, {beta: self.prev_beta(upto, cx.prim)}))
            if t0 is t1 and beta not in fv(t0):
                if upto is None:
                    return ite(mk('ex', *self.exbody(cx)), t0, old)
                y = fresh(beta.args[1], 'x')
                return ite(mkex(y, and_(subst(cx.rng, {beta: y}), self.earlier_than(cx, y, upto))), t0, old)
            return self.havoc(cx, addr, typ, ())
        if gd is not TRUE:
            # conditional overwrite by a loop-invariant value
            if beta not in fv(val) and not contains(val, atom):
                x = fresh(beta.args[1], 'x')
                rng = subst(cx.rng, {beta: x})
                if upto is not None:
                    rng = and_(rng, self.earlier_than(cx, x, upto))
                return ite_any(mkex(x, and_(rng, subst(gd, {beta: x}))), val, old, isvec)
            return self.havoc(cx, addr, typ, ())
        if val.op == 'ite' and (val.args[1] is atom or val.args[2] is atom):
            c = val.args[0] if val.args[2] is atom else not_(val.args[0])
            v2 = val.args[1] if val.args[2] is atom else val.args[2]
            if not contains(c, atom) and not contains(v2, atom):
                return self.closed_form(cx, v2, c, atomv, old, p, typ, addr, upto)
        if s == 'F' and cx.kind != 'rmap' and cx.prim is not None and atom.op == 'pre':
            return self.iterate(cx, val, atom, old, upto)
        return self.havoc(cx, addr, typ, ())

    def telescope(self, cx, val, atom, others, old, p, typ, addr, upto):
        """x' = x + m (y - y') + ... for another carried value y: the sum of the differences telescopes"""
        for y in others:
            e = self.end_value(cx, y)
            if e is None:
                continue
            v1, old_y, close_y = e
            m = {}
            for k, c in to_pd(val).items():
                if any(t is y for t, _ in k[1]):
                    if k[0] or k[2] != SC or k[3] or dict(k[1])[y] != 1:
                        break
                    m[((), tuple(t for t in k[1] if t[0] is not y), SC, ())] = c
            else:
                m = from_pd(m)
                if not to_pd(m) or cx.beta in fv(m) or pres(m, cx.lname):
                    continue
                v2 = sub(val, mul(m, sub(y, v1)))
                if contains(v2, y):
                    continue
                r = self.closed_form(cx, v2, TRUE, atom, old, p, typ, addr, upto)
                yn = close_y(upto)
                if contains(r, yn) and yn.op in ('havoc', 'havocv'):
                    return None
                return add(r, mul(m, sub(old_y, yn)))
        return None

    def end_value(self, cx, y):
        """(value after one iteration, initial value, closed form) of the carried scalar y"""
        loc = y.args[1]
        if isinstance(loc, tuple):
            if len(loc) != 2 or loc not in cx.keys:
                return None
            v0, v1 = cx.pre.env[loc], cx.end.env[loc]
            return v1, v0, lambda upto: self.closed_form(cx, v1, TRUE, y, v0, None, None, y, upto)
        hit = [pt for pt in cx.pats if self.meets_other(pt, loc, cx.beta)]
        if len(hit) != 1 or hit[0][2] is not loc or hit[0][1] is not TRUE or cx.beta in fv(loc):
            return None
        pt = hit[0]
        old = self.old(cx, loc, pt[4], TRUE)
        return pt[3], old, lambda upto: self.closed_form(cx, pt[3], TRUE, self.pre_atom(cx, loc, pt[4]), old, pt, pt[4], loc, upto)

    def product(self, cx, a, upto):
        """product of a over the iterations (those before `upto`)"""
        b = self.bounds(cx.rng, cx.beta)
        if b is None or b[0] is False or b[1] is False:
            return None
        return prod_range(a, cx.beta, b[0], b[1] if upto is None else sub(upto, ONE))

    def earlier_than(self, cx, b, upto):
        if cx.kind == 'rmap':
            return mk('earlier', cx.lname, b, upto)
        if cx.prim is not None and cx.prim[2] == -1:
            return gt(b, upto)
        return lt(b, upto)

    def red_contains(self, val, q, atom):
        for key, c in to_pd(val).items():
            for a in key[3]:
                if a.op == 'vred' and a.args[1] is q and contains(a, atom):
                    return True
        return False

    def scalar_q(self, val, atom):
        for key, c in to_pd(val).items():
            for a, e in key[1]:
                if a.op == 'red' and contains(a, atom):
                    return a.args[1]
        return None

    def exbody(self, cx):
        x = fresh(cx.beta.args[1], 'x')
        t = close('ex', x, subst(cx.rng, {cx.beta: x}))
        return t.args

    def simp_coef(self, cx, a):
        if is_const(a) is not None:
            return a
        pc = cx.pre.pc + (cx.rng,)
        m = {}
        for key, c in to_pd(a).items():
            for t, e in key[1]:
                if t.op == 'ind' and t not in m:
                    d = self.ctx.decide(pc, t.args[0])
                    if d is not None:
                        m[t] = ONE if d else ZERO
        return replace_atoms(a, m) if m else a

    def resolve(self, cx, atoms, p):
        """closed forms, at the start of iteration beta, of pre atoms"""
        m = {}
        for a in atoms:
            if a in cx.solved:
                v = cx.solved[a]
                if v is None:
                    return None
                m[a] = v
                continue
            cx.solved[a] = None
            v = self.resolve1(cx, a)
            cx.solved[a] = v
            if v is None:
                return None
            m[a] = v
        return m

    def resolve1(self, cx, a):
        loc = a.args[1]
        beta = cx.beta
        if isinstance(loc, tuple):
            k = loc[:2]
            if k not in cx.keys:
                return None
            v0, v1 = cx.pre.env[k], cx.end.env[k]
            for part in loc[2:]:
                if part in ('arr', 'off', 'len') and v0.op == 'slc':
                    if v1.op != 'slc':
                        return None
                    i = ('arr', 'off', 'len').index(part)
                    v0, v1 = v0.args[i], v1.args[i]
                else:
                    v0, v1 = getpart(v0, part), getpart(v1, part)
                    if v0 is None or v1 is None:
                        return None
            r = self.closed_form(cx, v1, TRUE, a, v0, None, None, a, upto=beta)
            return r
        addr = loc
        part = None
        if addr.op in ('arr', 'off', 'len') and addr.args[0].op != 'arr' and a.args[2] in ('R', 'I') and a.op == 'pre':
            base = addr.args[0]
            for pt in cx.pats:
                if pt[3].op == 'slc' or H.head(pt[2]) == H.head(base):
                    part = addr.op
            if part:
                addr = base
        # patterns that write a place of their own in every iteration: the value may come from another iteration
        own = [pt for pt in cx.pats if beta in fv(pt[2]) and self.meets_other(pt, addr, beta)]
        if own:
            if len(own) > 1 or any(beta not in fv(pt[2]) and self.meets_other(pt, addr, beta) for pt in cx.pats):
                return None
            v = self.resolve_shifted(cx, a, addr, own[0])
            if v is not None and part is not None:
                return v.args[('arr', 'off', 'len').index(part)] if v.op == 'slc' else None
            return v
        # find the pattern that writes it
        best = None
        for pt in reversed(cx.pats):
            qv, guard, pa, val, typ = pt
            if H.head(pa) != H.head(addr):
                if not (addr.op == 'e' and pa.op == 'C'):
                    continue
                r = unify(pa.args[0], addr.args[0], qv, self.ctx.entails, guard)
            else:
                r = unify(pa, addr, qv, self.ctx.entails, guard)
            if r is None:
                continue
            b, cond = r
            best = (pt, b, cond)
            if cx.beta in fv(pa):
                # written at a beta-dependent address: value from another iteration
                v = self.resolve_shifted(cx, a, addr, pt)
                return v
            sb = {k: v for k, v in b.items() if v is not None}
            g = and_(cond, subst(guard, sb))
            gfree = and_(*[x for x in (guard.args if guard.op == 'and' else (guard,)) if beta not in fv(x)])
            gd = and_(*[x for x in (guard.args if guard.op == 'and' else (guard,)) if beta in fv(x)])
            d = self.ctx.decide(cx.end.pc, and_(cond, subst(gfree, sb)))
            if d is False:
                continue
            if d is None:
                # only valid when the location is in the pattern: accept if its guard is implied by usage
                pass
            old = self.old(cx, addr, typ if part is None else typ, TRUE)
            val2, gd2 = subst(val, sb), subst(gd, sb)
            atomv = self.pre_atom(cx, addr, typ)
            if pa.op == 'C' and addr.op == 'e':
                return None
            if d is None:
                gd2 = and_(gd2, cond, subst(gfree, sb))
            if part is not None:
                i = ('arr', 'off', 'len').index(part)
                if val2.op != 'slc' or old.op != 'slc':
                    return None
                return self.closed_form(cx, val2.args[i], gd2, a, old.args[i], None, None, a, upto=beta)
            r = self.closed_form(cx, val2, gd2, atomv, old, pt, typ, addr, upto=beta)
            return r
        if best is None:
            # not written by any remaining pattern: unchanged
            old = self.old(cx, addr, self.sort_type(a), TRUE)
            if part is not None:
                return old.args[('arr', 'off', 'len').index(part)] if old.op == 'slc' else None
            return old
        return None

    def meets_other(self, pt, addr, beta):
        """may the pattern, in some iteration, write addr?"""
        pa = pt[2]
        if H.head(pa) != H.head(addr):
            if not {pa.op, addr.op} == {'C', 'e'}:
                return False
            pa, addr = pa.args[0], addr.args[0]
        ren = {q: fresh(q.args[1], 'e') for q in pt[0] + (beta,)}
        return unify(subst(pa, ren), addr, tuple(ren.values())) is not None

    def sort_type(self, a):
        return {'V': '#C', 'I': 'int', 'B': 'bool', 'F': 'float64', 'S': 'string'}.get(a.args[2], None)

    def resolve_shifted(self, cx, a, addr, pt):
        qv, guard, pa, val, typ = pt
        beta = cx.beta
        # which iteration wrote it
        b2 = fresh(beta.args[1], 'w')
        ren = {beta: b2}
        q2 = []
        for q in qv:
            nq = fresh(q.args[1], 'w')
            ren[q] = nq
            q2.append(nq)
        r = unify(subst(pa, ren), addr, tuple(q2) + (b2,), self.ctx.entails, and_(subst(guard, ren), subst(cx.rng, {beta: b2})))
        if r is None:
            return None
        b, cond = r
        if b.get(b2) is None:
            return None
        sb = {k: v for k, v in b.items() if v is not None}
        v = subst(subst(val, ren), sb)
        g = and_(cond, subst(subst(guard, ren), sb), subst(subst(cx.rng, {beta: b2}), sb), self.earlier_than(cx, b[b2], beta))
        if pres(v, cx.lname):
            return None   # recurrence
        d = self.ctx.decide(cx.end.pc, g)
        if d is True:
            return v
        old = self.old(cx, addr, typ, TRUE)
        if d is False:
            return old
        return ite_any(g, v, old, typ == '#C')

    def collapse(self, cx, p):
        """an address that mentions the loop variable but is not injective in it"""
        qv, guard, addr, val, typ = p
        beta = cx.beta
        if pres(val, cx.lname):
            return None
        return self.automorphism(cx, qv, guard, addr, val, typ)

    def automorphism(self, cx, qv, guard, addr, val, typ):
        """dst[g*i mod N] = src[i], negated when g*i mod 2N >= N, for every 0 <= i < N: the coefficient vector of the
        image of src under the Galois automorphism X -> X^g (g is odd, so the indices are a permutation)"""
        beta, n = cx.beta, var('N')
        if addr.op != 'e' or typ != 'uint64' or beta in fv(addr.args[0]) or addr.args[1].op != 'mod' or addr.args[1].args[1] is not n or beta in fv(guard):
            return None
        raw = addr.args[1].args[0]
        g = None
        for a in X.atoms(raw):
            if a.op == 'gal':
                g = a
        if g is None or raw is not mul(g, beta):
            return None
        full = and_(ge(beta, ZERO), lt(beta, n))
        pc = tuple(cx.pre.pc) + (guard,)
        if not (self.ctx.entails(pc + (cx.rng,), full) and self.ctx.entails(pc + (full,), cx.rng)):
            return None
        t = modi(divi(raw, n), num(2))
        e0, e1 = replace_atoms(val, {t: ZERO}), replace_atoms(val, {t: ONE})
        q = add(e0, e1)
        if beta in fv(q) or q.op != 'q':
            return None
        w = fresh('I', 'w')
        src = self.lift_lin(subst(e0, {beta: w}), w)
        if src is None:
            return None
        import lattigo
        return (qv, guard, C(addr.args[0]), lattigo.aut(g, src), '#C')

    def solve_bool(self, cx, p, where):
        qv, guard, addr, val, typ = p
        gfree = and_(*[x for x in (guard.args if guard.op == 'and' else (guard,)) if cx.beta not in fv(x)])
        gd = and_(*[x for x in (guard.args if guard.op == 'and' else (guard,)) if cx.beta in fv(x)])
        atom = self.preval(cx.lname, addr, typ)
        old = self.old(cx, addr, typ, gfree)
        r = self.closed_form(cx, val, gd, atom, old, p, typ, addr)
        return (qv, gfree, addr, r, where)

    def havoc(self, cx, addr, typ, qv):
        if typ == '#C':
            v = vec(mk('havocv', fresh('I', 'h'), tuple(qv) + tuple(self.loopvars)))
        else:
            t = self.d.ty(typ) if typ and typ != '#dom' else {'k': '?'}
            s = 'B' if typ == '#dom' else {'basic': 'I', 'ptr': 'R', 'map': 'R'}.get(t['k'], '?')
            if t['k'] == 'basic':
                n = t['name']
                s = 'I' if n in X.INTS else 'F' if n in X.FLTS else 'B' if n == 'bool' else 'S'
            v = mk('havoc', fresh('I', 'h'), s, tuple(qv) + tuple(self.loopvars))
            if s == 'R' or s == '?':
                v = mk('havocref', fresh('I', 'h'), tuple(qv) + tuple(self.loopvars))
        return v

    def solve_var(self, cx, k):
        v0, v1 = cx.pre.env[k], cx.end.env[k]
        if k in cx.inv:
            f = cx.inv[k]
            nb = self.next_beta(cx.last, cx.prim)
            ne = cx.nonempty
            if self.ctx.decide(cx.pre.pc, ne) is True:
                return f(nb)
            fin = f(nb)
            # an empty loop that stops exactly at its start value
            if self.ctx.entails(cx.pre.pc + (not_(ne),), eq(fin, v0)):
                return fin
            return ite(ne, fin, v0)
        return self.solve_part(cx, v0, v1, k)

    def solve_part(self, cx, v0, v1, k):
        if v1 is v0:
            return v0
        if v0.op == 'st' and v1.op == 'st':
            return mk('st', v0.args[0], tuple((n, self.solve_part(cx, x, y, k + (n,))) for (n, x), (_, y) in zip(v0.args[1], v1.args[1])))
        atom = self.pre_of(cx.lname, k, v0)
        if v1 is atom:
            return v0
        if v0.op == 'slc' and v1.op == 'slc':
            return mk('slc', *[self.closed_form(cx, y, TRUE, a, x, None, None, atom) for x, y, a in zip(v0.args, v1.args, atom.args)])
        if self.abstract and len(k) == 2 and k[1] in self.ctvars:
            return self.closed_form(cx, v1, TRUE, atom, ZERO if v0 is NIL else abstract.value(v0), None, '#C', atom)
        return self.closed_form(cx, v1, TRUE, atom, v0, None, None, atom)

    def while_mod(self, pre, s, kind, beta, prim, inv, keys, end, seg, cond, lname):
        """for x < B { x += k }  and the mirror image"""
        if kind != 'for' or seg:
            return None
        if len(inv) != 1 or len(keys) != 1:
            return None
        (k, fn), = inv.items()
        x0 = pre.env[k]
        step = sub(fn(self.next_beta(beta, prim)), fn(beta))
        # condition as a function of x
        x = fresh('I', 'x')
        c = self.while_cond(pre, s, k, x)
        if c is None or c.op != 'le0':
            return None
        pd = to_pd(c.args[0])
        kk = ((), ((x, 1),), SC, ())
        co = pd.get(kk)
        r = from_pd({a: b for a, b in pd.items() if a != kk})
        if x in fv(r) or co not in (1, -1):
            return None
        if co == 1 and self.ctx.entails(pre.pc, gt(step, ZERO)):
            # x <= -r : continue; x < B with B = 1 - r
            B = sub(ONE, r)
            v = ite(lt(x0, B), add(B, modi(sub(x0, B), step)), x0)
            m = step
        elif co == -1 and self.ctx.entails(pre.pc, lt(step, ZERO)):
            B = r       # x >= r
            m = neg(step)
            v = ite(ge(x0, B), add(sub(B, m), modi(sub(x0, B), m)), x0)
        else:
            return None
        w = self.mod_cases(x0, m)
        if self.ctx.entails(pre.pc, and_(ge(v, ZERO), lt(v, m))) and self.ctx.entails(pre.pc, eq(v, w)):
            v = w
        pre.env[k] = v
        return [('n', pre, None)]

    def mod_cases(self, x, m):
        """x mod m, with the cases of x told apart and multiples of m dropped"""
        for t in sorted({a for k in to_pd(x) for a, e in k[1]}):
            if t.op == 'ind':
                a, b = self.mod_cases(replace_atoms(x, {t: ONE}), m), self.mod_cases(replace_atoms(x, {t: ZERO}), m)
                return ite(t.args[0], a, b)
        pd = {}
        for mon, c in to_pd(x).items():
            u = from_pd({mon: 1})
            if u is m or (u.op == 'mod' and u.args[1] is m and c not in (1, -1)):
                continue
            pd[mon] = c
        r = from_pd(pd)
        if r.op == 'mod' and r.args[1] is m:
            return r
        return modi(r, m)

    def while_cond(self, pre, s, k, x):
        st = pre.fork()
        st.env[k] = x
        n = len(self.panics)
        c = self.ev(st, s['c'])
        return c

    def loop_with_exits(self, pre, s, kind, src, beta, prim, inv, keys, end, outs, u, lname, mark, segs, cond, nb, rng):
        """search loops: an iteration may leave the loop by return or break, with no memory effect before it"""
        exits = [o for o in outs if o[0] in ('b', 'r')]
        if any(sg for sg in segs) or any(k not in inv for k in keys if end.env[k] is not self.pre_of(lname, k, pre.env[k]) and k not in inv and not self.local_only(k, pre)):
            if any(sg for sg in segs):
                raise Unsupported('loop with exits and memory effects at ' + self.where(s))
        conds = []
        res = []
        nrng = u.rng
        ex_all = FALSE
        for kd, so, v in exits:
            c = and_(*so.br[len(pre.br):])
            if v is not None and beta in fv(v):
                raise Unsupported('loop exit value depends on the iteration at ' + self.where(s))
            if pres(c, lname):
                raise Unsupported('loop exit condition depends on carried values at ' + self.where(s))
            x = fresh(beta.args[1], 'x')
            conds.append((kd, mkex(x, subst(c, {beta: x})), v, so))
        if len(conds) > 1 and any(c[2] is not conds[0][2] or c[0] != conds[0][0] for c in conds):
            raise Unsupported('several distinct loop exits at ' + self.where(s))
        kd, v = conds[0][0], conds[0][2]
        c = or_(*[x[1] for x in conds])
        a, b = pre.fork(), pre.fork()
        a.branch(c)
        b.branch(not_(c))
        # variables carried by the loop are unknown after an early exit unless untouched
        for k in keys:
            if k in inv:
                bb = None if kind == 'rmap' else self.bounds(u.rng, beta)
                hv = mk('havoc', fresh('I', 'h'), 'I', tuple(self.loopvars))
                a.env[k] = hv
                b.env[k] = hv
                if bb is not None and not (prim is not None and prim[2] == -1):
                    b.env[k] = ite(le(bb[0], bb[1]), inv[k](add(bb[1], ONE)), pre.env[k])
            elif end.env[k] is not self.pre_of(lname, k, pre.env[k]):
                raise Unsupported('carried variable with loop exit at ' + self.where(s))
        return [('n' if kd == 'b' else 'r', a, v), ('n', b, None)]

    def local_only(self, k, pre):
        return False


class LoopCtx:
    pass


def getpart(v, n):
    if v.op == 'st':
        for a, b in v.args[1]:
            if a == n:
                return b
    return None


def is_unit(x):
    """a monomial invertible in the ring it is used in (primes of other moduli)"""
    (k, c), = to_pd(x).items()
    return c == 1 and not k[0] and not k[3] and all(t.op == 'q' for t, e_ in k[1])


def prod_range(a, x, lo, hi):
    """product of a(x) for lo <= x <= hi (not empty)"""
    from lattigo import prod_primes
    pd = to_pd(a)
    if len(pd) != 1:
        r = skipping(a, x, lo, hi)
        return mk('prodr', lo, hi, lam(x, a)) if r is None else r
    (k, c), = pd.items()
    if c != 1 or k[2] != SC or k[0] or k[3]:
        return mk('prodr', lo, hi, lam(x, a))
    r = ONE
    for t, e_ in k[1]:
        if t.op == 'q' and t.args[0] in ('Q', 'P', 'M', 'R'):
            d = sub(t.args[1], x)
            if x not in fv(d):
                r = mul(r, power(prod_primes(t.args[0], add(lo, d), add(hi, d)), e_))
                continue
        r = mul(r, power(mk('prodr', lo, hi, lam(x, t)), e_))
    return r


def skipping(a, x, lo, hi):
    """the product of the primes of a range but one: a(x) = 1 for x = i, the prime of x otherwise"""
    for t in {t for k in to_pd(a) for t, _ in k[1] if t.op == 'ind'}:
        i = solve_eq(t.args[0], x)
        if i is None or x in fv(i) or replace_atoms(a, {t: ONE}) is not ONE:
            continue
        (k, c), *more = to_pd(replace_atoms(a, {t: ZERO})).items()
        if more or c != 1 or k[0] or k[2] != SC or k[3] or len(k[1]) != 1:
            continue
        (q, e_), = k[1]
        if q.op != 'q' or e_ != 1 or q.args[0] not in ('Q', 'P', 'M', 'R'):
            continue
        d = sub(q.args[1], x)
        if x not in fv(d):
            return mk('cop', q.args[0], add(lo, d), add(sub(hi, lo), ONE), sub(i, lo))
    return None


def vscale(s, v):
    return mul(s, v)


def ite_any(c, a, b, isvec):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isvec:
        i = ind(c)
        return add(mul(i, a), mul(sub(ONE, i), b))
    return ite(c, a, b)


def mkex(x, body):
    if body is FALSE:
        return FALSE
    if x not in fv(body):
        return mk('ex', *close('ex', x, body).args) if body is not TRUE else TRUE
    # one-point rule
    parts = body.args if body.op == 'and' else (body,)
    for p in parts:
        s = solve_eq(p, x)
        if s is not None and x not in fv(s):
            return subst(and_(*[y for y in parts if y is not p]), {x: s})
    out = [y for y in parts if x not in fv(y)]
    inn = and_(*[y for y in parts if x in fv(y)])
    if inn.op == 'or':
        return and_(*out, or_(*[mkex(x, y) for y in inn.args]))
    return and_(*out, close('ex', x, inn))


def _ex_build(b, body):
    x = fresh(b.args[1], 'x')
    return mkex(x, subst(body, {b: x}))


BUILD['ex'] = _ex_build


def contains_q(v, q):
    return True


class Engine(Loops, Ex):
    def stmt(self, st, s):
        try:
            return Ex.stmt(self, st, s)
        except AlwaysPanics:
            return [('p', st, None)]


def coefficient(t, b):
    """t = c b + r with b not in r"""
    k = ((), ((b, 1),), SC, ())
    pd = to_pd(t)
    r = from_pd({x: y for x, y in pd.items() if x != k})
    if b in fv(r):
        return None, None
    return pd.get(k, 0), r


def unscale(t, b, c, w, memo=None):
    """t with c b replaced by w, None when b occurs otherwise"""
    memo = {} if memo is None else memo
    if b not in fv(t):
        return t
    if t in memo:
        return memo[t]
    memo[t] = None
    r = None
    if t is b:
        return None
    if t.op == 'p':
        acc = {}
        for (bs, mono, d, va), k in t.args[0]:
            fr = [fresh(x.args[1], 'b') for x in bs]
            ren = dict(zip(bs, fr))
            q = {((), (), d, ()): k}
            for a, e in mono:
                if a is b:
                    if e != 1 or k % c:
                        return None
                    q = pd_mul({((), (), d, ()): k // c}, to_pd(w)) if len(q) == 1 and list(q.values()) == [k] and list(q)[0][1] == () else None
                    if q is None:
                        return None
                    continue
                x = unscale(subst(a, ren) if ren else a, b, c, w, memo)
                if x is None:
                    return None
                q = pd_mul(q, pd_pow(to_pd(x), e, x))
            for a in va:
                x = unscale(subst(a, ren) if ren else a, b, c, w, memo)
                if x is None:
                    return None
                q = pd_conv(q, vatom_pd(x, d), d)
            if bs:
                q = pd_sum(q, fr)
            pd_addto(acc, q)
        r = from_pd(acc)
    else:
        def go(x):
            if isinstance(x, T):
                y = unscale(x, b, c, w, memo)
                if y is None:
                    raise KeyError
                return y
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        try:
            args = tuple(go(x) for x in t.args)
        except KeyError:
            return None
        if t.op in ('lam', 'ex', 'mu', 'ind') or t.op not in BUILD:
            r = mk(t.op, *args) if t.op != 'ind' else ind(*args)
        else:
            r = BUILD[t.op](*args)
    memo[t] = r
    return r
