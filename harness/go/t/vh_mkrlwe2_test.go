package mkrlwe

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/vh"
)

var vhIDs = []string{"a", "b", "cc"}

type vhWorld struct {
	s     vh.Set
	p     Parameters
	kg    *KeyGenerator
	sk    map[string]*SecretKey
	sec   map[string]vh.Big
	rlk   *RelinearizationKeySet
	rtk   *RotationKeySet
	cjk   *ConjugationKeySet
	ks    *KeySwitcher
	extra int
}

var vhWorlds = map[string]*vhWorld{}

func vhW(h *vh.H) *vhWorld {
	s := vh.CKKSSets[h.R.Intn(len(vh.CKKSSets))]
	if w, ok := vhWorlds[fmt.Sprint(s)]; ok {
		return w
	}
	w := &vhWorld{s: s, p: vhParams(s, 3.2), sk: map[string]*SecretKey{}, sec: map[string]vh.Big{}}
	w.extra = 3
	w.p.AddCRS(w.extra)
	w.kg = NewKeyGenerator(w.p)
	w.rlk, w.rtk, w.cjk = NewRelinearizationKeyKeySet(w.p), NewRotationKeySet(), NewConjugationKeySet()
	for _, id := range vhIDs {
		sk, r := w.kg.GenSecretKey(id), w.kg.GenSecretKey(id)
		w.sk[id], w.sec[id] = sk, vhMustSecret(w.p, sk)
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, r))
		w.cjk.AddConjugationKey(w.kg.GenConjugationKey(sk))
		for k := 1; k < w.p.N()/2; k *= 2 {
			w.rtk.AddRotationKey(w.kg.GenRotationKey(k, sk))
		}
		w.rtk.AddRotationKey(w.kg.GenRotationKey(w.extra, sk))
	}
	w.ks = NewKeySwitcher(w.p)
	vhWorlds[fmt.Sprint(s)] = w
	return w
}

func (w *vhWorld) ct(h *vh.H, ids []string, level int) *Ciphertext {
	s := NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	ct := NewCiphertext(w.p, s, level)
	for _, v := range ct.Value {
		vh.Uniform(h.R, w.p.RingQ(), level, v)
	}
	return ct
}

func (w *vhWorld) phase(ct *Ciphertext, level int) vh.Big {
	return vh.Phase(w.p.RingQ(), level, ct.Value, false, w.sec)
}

func vhUnion(a, b []string) (r []string) {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return
}

func vhIdsOf(ct *Ciphertext) (r []string) {
	for id := range ct.Value {
		if id != "0" {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return
}

func (w *vhWorld) hoist(level int, ct *Ciphertext) *HoistedCiphertext {
	hc := NewHoistedCiphertext()
	for id, v := range ct.Value {
		if id == "0" {
			continue
		}
		hc.Value[id] = NewSwitchingKey(w.p)
		w.ks.Decompose(level, v, hc.Value[id])
	}
	return hc
}

func TestVH_C05(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		l0, l1 := level+h.R.Intn(w.p.QCount()-level), level+h.R.Intn(w.p.QCount()-level)
		c0, c1 := w.ct(h, i0, l0), w.ct(h, i1, l1)
		in := fmt.Sprintf("params %v level %d operands %v at %d, %v at %d", w.s, level, i0, l0, i1, l1)
		if h.R.Intn(5) == 0 {
			c1, i1, l1 = c0, i0, l0
			in += " (the same operand twice)"
		}
		out := w.ct(h, vhUnion(i0, i1), level)
		h.Case("mul", "MulAndRelin "+in, func() error {
			before := vh.Print(c0, c1, w.rlk.Value, w.p.CRS)
			w.ks.MulAndRelin(c0, c1, w.rlk, out)
			if before != vh.Print(c0, c1, w.rlk.Value, w.p.CRS) {
				return fmt.Errorf("an operand changed")
			}
			return vh.Near(w.phase(out, level), vh.Mul(w.phase(c0, level), w.phase(c1, level)), vh.Modulus(w.p.RingQ(), level), 24)
		})
		h.Case("hoisted", "MulAndRelinHoisted "+in, func() error {
			for m := 0; m < 4; m++ {
				o := w.ct(h, vhUnion(i0, i1), level)
				var h0, h1 *HoistedCiphertext
				if m&1 != 0 {
					h0 = w.hoist(level, c0)
				}
				if m&2 != 0 {
					h1 = w.hoist(level, c1)
				}
				before := vh.Print(c0, c1, h0, h1, w.rlk.Value, w.p.CRS)
				w.ks.MulAndRelinHoisted(c0, c1, h0, h1, w.rlk, o)
				if before != vh.Print(c0, c1, h0, h1, w.rlk.Value, w.p.CRS) {
					return fmt.Errorf("an operand changed")
				}
				for id := range out.Value {
					if err := vh.SamePoly(w.p.RingQ(), level, o.Value[id], out.Value[id]); err != nil {
						return fmt.Errorf("hoisted operands %d, part %q: %v", m, id, err)
					}
				}
			}
			return nil
		})
		if level > 0 {
			h.Case("level", "MulAndRelin with a lower first operand", func() error {
				x := w.ct(h, i0, level-1)
				if !vh.Refuses(func() { w.ks.MulAndRelin(x, c1, w.rlk, w.ct(h, vhUnion(i0, i1), level)) }) || !vh.Refuses(func() {
					w.ks.MulAndRelinHoisted(x, c1, nil, nil, w.rlk, w.ct(h, vhUnion(i0, i1), level))
				}) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
	}
	h.Done()
}

func TestVH_C07(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		n2 := w.p.N() / 2
		level := h.R.Intn(w.p.QCount())
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0, level+h.R.Intn(w.p.QCount()-level))
		k := w.extra
		if h.R.Intn(3) > 0 {
			k = 1 << uint(h.R.Intn(w.p.LogN()-1))
		}
		k -= n2 * h.R.Intn(3)
		in := fmt.Sprintf("params %v level %d operand %v at %d, rotation %d", w.s, level, i0, c0.Level(), k)
		out, o2 := w.ct(h, i0, level), w.ct(h, i0, level)
		h.Case("rotate", in, func() error {
			before := vh.Print(c0, w.rtk, w.p.CRS)
			w.ks.Rotate(c0, k, w.rtk, out)
			if before != vh.Print(c0, w.rtk, w.p.CRS) {
				return fmt.Errorf("an operand changed")
			}
			return vh.Near(w.phase(out, level), vh.Auto(w.phase(c0, level), vh.Gal5(k, w.p.N())), vh.Modulus(w.p.RingQ(), level), 14)
		})
		h.Case("hoisted", "hoisted "+in, func() error {
			hc := w.hoist(level, c0)
			before := vh.Print(c0, hc, w.rtk, w.p.CRS)
			w.ks.RotateHoisted(c0, k, hc, w.rtk, o2)
			if before != vh.Print(c0, hc, w.rtk, w.p.CRS) {
				return fmt.Errorf("an operand changed")
			}
			for id := range out.Value {
				if err := vh.SamePoly(w.p.RingQ(), level, o2.Value[id], out.Value[id]); err != nil {
					return fmt.Errorf("part %q: %v", id, err)
				}
			}
			return nil
		})
		if len(i0) > 0 {
			h.Case("missing", "Rotate without key "+in, func() error {
				if !vh.Refuses(func() { w.ks.Rotate(c0, k, NewRotationKeySet(), w.ct(h, i0, level)) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
	}
	h.Done()
}

func TestVH_C08(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0, level+h.R.Intn(w.p.QCount()-level))
		in := fmt.Sprintf("params %v level %d operand %v at %d", w.s, level, i0, c0.Level())
		out := w.ct(h, i0, level)
		h.Case("conjugate", in, func() error {
			before := vh.Print(c0, w.cjk, w.p.CRS)
			w.ks.Conjugate(c0, w.cjk, out)
			if before != vh.Print(c0, w.cjk, w.p.CRS) {
				return fmt.Errorf("an operand changed")
			}
			return vh.Near(w.phase(out, level), vh.Auto(w.phase(c0, level), 2*w.p.N()-1), vh.Modulus(w.p.RingQ(), level), 14)
		})
		if len(i0) > 0 {
			h.Case("missing", "Conjugate without key "+in, func() error {
				if !vh.Refuses(func() { w.ks.Conjugate(c0, NewConjugationKeySet(), w.ct(h, i0, level)) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
	}
	h.Done()
}

func TestVH_C18(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 1)
		c0, c1 := w.ct(h, i0, level), w.ct(h, i1, level)
		in := fmt.Sprintf("params %v level %d operands %v, %v", w.s, level, i0, i1)
		h.Case("scratch", "operations on a used and on a new key switcher "+in, func() error {
			fresh := NewKeySwitcher(w.p)
			k := 1 << uint(h.R.Intn(w.p.LogN()-1))
			for _, op := range []struct {
				n string
				f func(ks *KeySwitcher, o *Ciphertext)
				i []string
			}{
				{"MulAndRelin", func(ks *KeySwitcher, o *Ciphertext) { ks.MulAndRelin(c0, c1, w.rlk, o) }, vhUnion(i0, i1)},
				{"MulAndRelinHoisted", func(ks *KeySwitcher, o *Ciphertext) { ks.MulAndRelinHoisted(c0, c1, nil, nil, w.rlk, o) }, vhUnion(i0, i1)},
				{"Rotate", func(ks *KeySwitcher, o *Ciphertext) { ks.Rotate(c1, k, w.rtk, o) }, i1},
			} {
				a, b := w.ct(h, op.i, level), w.ct(h, op.i, level)
				before := vh.Print(c0, c1, w.rlk.Value, w.rtk, w.cjk, w.p.CRS)
				op.f(w.ks, a)
				op.f(fresh, b)
				if before != vh.Print(c0, c1, w.rlk.Value, w.rtk, w.cjk, w.p.CRS) {
					return fmt.Errorf("%s changed an operand", op.n)
				}
				if vh.Shared(a, c0, c1, w.ks, w.rtk, w.rlk.Value, w.cjk) {
					return fmt.Errorf("the result of %s shares storage", op.n)
				}
				for id := range a.Value {
					if err := vh.SamePoly(w.p.RingQ(), level, a.Value[id], b.Value[id]); err != nil {
						return fmt.Errorf("%s, part %q: %v", op.n, id, err)
					}
				}
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C13

func TestVH_C13(t *testing.T) {
	h := vh.New(t)
	convs := map[string]*FastBasisExtender{}
	for h.More() {
		s, p := vhP(h)
		rq, rp := p.RingQ(), p.RingP()
		key := fmt.Sprint(s)
		if h.R.Intn(10) == 0 {
			// bases of many primes
			nq, np := 1+h.R.Intn(24), 1+h.R.Intn(24)
			key = fmt.Sprint("many ", nq, " ", np)
			if convs[key] == nil {
				ps := ring.GenerateNTTPrimes(50, 32, nq+np)
				var err error
				if rq, err = ring.NewRing(16, ps[:nq]); err != nil {
					panic(err)
				}
				if rp, err = ring.NewRing(16, ps[nq:]); err != nil {
					panic(err)
				}
			} else {
				rq, rp = convs[key].ringQ, convs[key].ringP
			}
		}
		if convs[key] == nil {
			convs[key] = NewFastBasisExtender(rq, rp)
		}
		conv := convs[key]
		if h.R.Intn(4) == 0 {
			conv = conv.ShallowCopy()
		}
		lq, lp := h.R.Intn(len(rq.Modulus)), h.R.Intn(len(rp.Modulus))
		q, pp := rq.NewPolyLvl(lq), rp.NewPolyLvl(lp)
		vh.Uniform(h.R, rq, lq, q)
		vh.Uniform(h.R, rp, lp, pp)
		in := fmt.Sprintf("params %v levels %d of %d and %d of %d", key, lq, len(rq.Modulus)-1, lp, len(rp.Modulus)-1)
		up := func(rs, rt *ring.Ring, ls, lt int, src, dst *ring.Poly) error {
			M := vh.Modulus(rs, ls)
			x := vh.PolyBig(rs, ls, src, false, false)
			for i := 0; i < rs.N; i++ {
				x[i].Mod(x[i], M)
				ok := false
				for k := int64(-1); k <= 1 && !ok; k++ {
					y := new(big.Int).Add(x[i], new(big.Int).Mul(M, big.NewInt(k)))
					ok = true
					for j := 0; j <= lt; j++ {
						m := new(big.Int).SetUint64(rt.Modulus[j])
						ok = ok && new(big.Int).Mod(y, m).Uint64() == dst.Coeffs[j][i]%rt.Modulus[j]
					}
				}
				if !ok {
					return fmt.Errorf("coefficient %d (value %v) is not lifted to one integer", i, x[i])
				}
			}
			return nil
		}
		h.Case("modup", "ModUpQtoP "+in, func() error {
			before := vh.Print(q)
			d := rp.NewPolyLvl(lp)
			conv.ModUpQtoP(lq, lp, q, d)
			if before != vh.Print(q) {
				return fmt.Errorf("the input changed")
			}
			return up(rq, rp, lq, lp, q, d)
		})
		h.Case("modupPQ", "ModUpPtoQ "+in, func() error {
			before := vh.Print(pp)
			d := rq.NewPolyLvl(lq)
			conv.ModUpPtoQ(lp, lq, pp, d)
			if before != vh.Print(pp) {
				return fmt.Errorf("the input changed")
			}
			return up(rp, rq, lp, lq, pp, d)
		})
		down := func(rs, rt *ring.Ring, ls, lt int, src, val, dst *ring.Poly) error {
			// (val - lift of src) / product of the source primes, modulo the target primes
			M, T := vh.Modulus(rs, ls), vh.Modulus(rt, lt)
			inv := new(big.Int).ModInverse(new(big.Int).Mod(M, T), T)
			want := vh.Scale(vh.Sub(vh.PolyBig(rt, lt, val, false, false), vh.PolyBig(rs, ls, src, false, false)), inv)
			return vh.Near(vh.PolyBig(rt, lt, dst, false, false), want, T, 1)
		}
		h.Case("moddown", "ModDownQPtoQ "+in, func() error {
			before := vh.Print(q, pp)
			d := rq.NewPolyLvl(lq)
			conv.ModDownQPtoQ(lq, lp, q, pp, d)
			if before != vh.Print(q, pp) {
				return fmt.Errorf("an input changed")
			}
			if err := down(rp, rq, lp, lq, pp, q, d); err != nil {
				return err
			}
			e := q.CopyNew()
			conv.ModDownQPtoQ(lq, lp, e, pp, e)
			return vh.SamePoly(rq, lq, d, e)
		})
		h.Case("moddownNTT", "ModDownQPtoQNTT "+in, func() error {
			a, b, d := q.CopyNew(), pp.CopyNew(), rq.NewPolyLvl(lq)
			rq.NTTLvl(lq, a, a)
			rp.NTTLvl(lp, b, b)
			conv.ModDownQPtoQNTT(lq, lp, a, b, d)
			rq.InvNTTLvl(lq, d, d)
			return down(rp, rq, lp, lq, pp, q, d)
		})
		h.Case("moddownP", "ModDownQPtoP "+in, func() error {
			before := vh.Print(q, pp)
			d := rp.NewPolyLvl(lp)
			conv.ModDownQPtoP(lq, lp, q, pp, d)
			if before != vh.Print(q, pp) {
				return fmt.Errorf("an input changed")
			}
			return down(rq, rp, lq, lp, q, pp, d)
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C17

func TestVH_C17(t *testing.T) {
	h := vh.New(t)
	up, tot := 0, 0
	vec := func(p Parameters, sw *SwitchingKey, what string) error {
		if sw == nil {
			return fmt.Errorf("%s is missing", what)
		}
		if len(sw.Value) != vhBeta(p, p.QCount()-1) {
			return fmt.Errorf("%s has %d entries", what, len(sw.Value))
		}
		seen := map[string]bool{}
		for _, v := range sw.Value {
			if len(v.Q.Coeffs) != p.QCount() || len(v.P.Coeffs) != p.PCount() {
				return fmt.Errorf("%s has an entry of %d and %d primes", what, len(v.Q.Coeffs), len(v.P.Coeffs))
			}
			for b, c := range append(append([][]uint64{}, v.Q.Coeffs...), v.P.Coeffs...) {
				q := append(append([]uint64{}, p.RingQ().Modulus...), p.RingP().Modulus...)[b]
				k := fmt.Sprint(c)
				if seen[k] {
					return fmt.Errorf("%s repeats a residue vector", what)
				}
				seen[k] = true
				if len(c) != p.N() {
					return fmt.Errorf("%s has degree %d", what, len(c))
				}
				for _, x := range c {
					if x >= q {
						return fmt.Errorf("%s has the residue %d modulo %d", what, x, q)
					}
					tot++
					if x >= q/2 {
						up++
					}
				}
			}
		}
		return nil
	}
	for h.More() {
		s := vh.CKKSSets[h.R.Intn(len(vh.CKKSSets))]
		var p Parameters
		all := map[string]int{}
		distinct := func() error {
			for k := range all {
				delete(all, k)
			}
			for i, sw := range p.CRS {
				for k := range sw.Value {
					f := fmt.Sprint(sw.Value[k].Q.Coeffs[0])
					if _, in := all[f]; in {
						return fmt.Errorf("references %d and %d share an entry", all[f], i)
					}
					all[f] = i
				}
			}
			return nil
		}
		h.Case("params", fmt.Sprintf("NewParameters %v", s), func() error {
			p = vhParams(s, 3.2)
			want := []int{0, -1, -2, -3, -4}
			for k := 1; k < p.N()/2; k *= 2 {
				want = append(want, k)
			}
			for _, k := range want {
				if err := vec(p, p.CRS[k], fmt.Sprintf("reference %d", k)); err != nil {
					return err
				}
			}
			if len(p.CRS) != len(want) {
				return fmt.Errorf("%d references, %d expected", len(p.CRS), len(want))
			}
			if p.Alpha() != p.PCount()/2 || p.Gamma() != 2 {
				return fmt.Errorf("digit size %d, gamma %d", p.Alpha(), p.Gamma())
			}
			for l := 0; l < p.QCount(); l++ {
				if p.Beta(l) != int(math.Ceil(float64(l+1)/float64(p.PCount()/2))) {
					return fmt.Errorf("level %d has %d digits", l, p.Beta(l))
				}
			}
			return distinct()
		})
		h.Case("add", fmt.Sprintf("AddCRS %v", s), func() error {
			var idxs []int
			for k := 3; k < p.N()/2; k++ {
				if _, in := p.CRS[k]; !in {
					idxs = append(idxs, k)
				}
			}
			k := idxs[h.R.Intn(len(idxs))]
			ptr, fp := map[int]*SwitchingKey{}, map[int]string{}
			for i, sw := range p.CRS {
				ptr[i], fp[i] = sw, vh.Print(sw)
			}
			p.AddCRS(k)
			if len(p.CRS) != len(ptr)+1 {
				return fmt.Errorf("%d references after adding one to %d", len(p.CRS), len(ptr))
			}
			for i := range ptr {
				if p.CRS[i] != ptr[i] || vh.Print(p.CRS[i]) != fp[i] {
					return fmt.Errorf("adding reference %d changed reference %d", k, i)
				}
			}
			if err := vec(p, p.CRS[k], fmt.Sprintf("reference %d", k)); err != nil {
				return err
			}
			return distinct()
		})
		h.Case("alloc", fmt.Sprintf("fresh keys %v", s), func() error {
			zero := func(sw *SwitchingKey) error {
				if len(sw.Value) != vhBeta(p, p.QCount()-1) {
					return fmt.Errorf("%d digits", len(sw.Value))
				}
				for _, v := range sw.Value {
					if len(v.Q.Coeffs) != p.QCount() || len(v.P.Coeffs) != p.PCount() || vh.MaxAbs(vhQP(p, v, false, false)).Sign() != 0 {
						return fmt.Errorf("a fresh key is not a zero vector under every prime")
					}
				}
				return nil
			}
			r := NewRelinearizationKey(p, "x")
			for _, sw := range []*SwitchingKey{NewSwitchingKey(p), r.Value[0], r.Value[1], r.Value[2], NewRotationKey(p, 3, "x").Value, NewConjugationKey(p, "x").Value} {
				if err := zero(sw); err != nil {
					return err
				}
			}
			if r.ID != "x" || NewRotationKey(p, 3, "x").RotIdx != 3 || NewRotationKey(p, 3, "x").ID != "x" || NewConjugationKey(p, "x").ID != "x" {
				return fmt.Errorf("wrong labels")
			}
			if vh.Shared(r.Value[0], r.Value[1], r.Value[2]) || vh.Shared(r.Value[1], r.Value[2]) {
				return fmt.Errorf("the vectors of a fresh relinearization key share storage")
			}
			return nil
		})
	}
	if tot > 1000 {
		h.Case("uniform", "distribution of the references", func() error {
			if math.Abs(float64(up)-float64(tot)/2) > 7*math.Sqrt(float64(tot))/2 {
				return fmt.Errorf("%d of %d residues in the upper half", up, tot)
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C16

func TestVH_C16(t *testing.T) {
	h := vh.New(t)
	ids := []string{"a", "b", "cc", "d", "0", ""}
	sset := func(s *IDSet) (r []string) {
		for k := range s.Value {
			r = append(r, k)
		}
		sort.Strings(r)
		return
	}
	mset := func(m map[string]bool) (r []string) {
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return
	}
	p := vhParams(vh.CKKSSets[4], 3.2)
	for h.More() {
		seed := h.R.Int63()
		h.Case("idset", fmt.Sprintf("random operations on party sets, seed %d", seed), func() error {
			var sets [3]*IDSet
			var ms [3]map[string]bool
			for i := range sets {
				sets[i], ms[i] = NewIDSet(), map[string]bool{}
			}
			for step := 0; step < 30; step++ {
				i, j, k := h.R.Intn(3), h.R.Intn(3), h.R.Intn(3)
				id := ids[h.R.Intn(len(ids))]
				op := h.R.Intn(6)
				switch op {
				case 0, 1:
					if id == "0" {
						if !vh.Refuses(func() { sets[i].Add(id) }) {
							return fmt.Errorf("the reserved id was accepted")
						}
					} else {
						sets[i].Add(id)
						ms[i][id] = true
					}
				case 2:
					sets[i].Remove(id)
					delete(ms[i], id)
				case 3:
					u := sets[i].Union(sets[j])
					n := map[string]bool{}
					for x := range ms[i] {
						n[x] = true
					}
					for x := range ms[j] {
						n[x] = true
					}
					sets[k], ms[k] = u, n
				case 4:
					u := sets[i].Intersection(sets[j])
					n := map[string]bool{}
					for x := range ms[i] {
						if ms[j][x] {
							n[x] = true
						}
					}
					sets[k], ms[k] = u, n
				case 5:
					n := map[string]bool{}
					for x := range ms[i] {
						n[x] = true
					}
					sets[k], ms[k] = sets[i].CopyNew(), n
				}
				for x := range sets {
					if fmt.Sprint(sset(sets[x])) != fmt.Sprint(mset(ms[x])) || sets[x].Size() != len(ms[x]) {
						return fmt.Errorf("step %d operation %d: set %v, expected %v", step, op, sset(sets[x]), mset(ms[x]))
					}
					for _, y := range ids {
						if sets[x].Has(y) != ms[x][y] {
							return fmt.Errorf("Has(%q) is wrong", y)
						}
					}
				}
			}
			return nil
		})
		h.Case("keysets", fmt.Sprintf("random operations on key collections, seed %d", seed), func() error {
			sks, pks, rlks, rts, cjs := NewSecretKeySet(), NewPublicKeyKeySet(), NewRelinearizationKeyKeySet(p), NewRotationKeySet(), NewConjugationKeySet()
			type rk struct {
				id string
				k  uint
			}
			msk, mpk, mrl, mrt, mcj := map[string]*SecretKey{}, map[string]*PublicKey{}, map[string]*RelinearizationKey{}, map[rk]*RotationKey{}, map[string]*ConjugationKey{}
			for step := 0; step < 25; step++ {
				id := ids[h.R.Intn(4)]
				k := uint(h.R.Intn(3))
				switch h.R.Intn(10) {
				case 0:
					x := &SecretKey{ID: id}
					sks.AddSecretKey(x)
					msk[id] = x
				case 1:
					sks.DelSecretKey(id)
					delete(msk, id)
				case 2:
					x := &PublicKey{ID: id}
					pks.AddPublicKey(x)
					mpk[id] = x
				case 3:
					pks.DelPublicKey(id)
					delete(mpk, id)
				case 4:
					x := NewRelinearizationKey(p, id)
					rlks.AddRelinearizationKey(x)
					mrl[id] = x
				case 5:
					rlks.DelRelinearizationKey(id)
					delete(mrl, id)
				case 6:
					x := NewRotationKey(p, k, id)
					rts.AddRotationKey(x)
					mrt[rk{id, k}] = x
				case 7:
					known := false
					for y := range mrt {
						known = known || y.id == id
					}
					if known {
						rts.DelRotationKey(id, k)
						delete(mrt, rk{id, k})
					}
				case 8:
					x := NewConjugationKey(p, id)
					cjs.AddConjugationKey(x)
					mcj[id] = x
				case 9:
					cjs.DelConjugationKey(id)
					delete(mcj, id)
				}
				for _, id := range ids[:4] {
					var a *SecretKey
					if r := vh.Refuses(func() { a = sks.GetSecretKey(id) }); r != (msk[id] == nil) || a != msk[id] {
						return fmt.Errorf("step %d: wrong secret key of %q", step, id)
					}
					var b *PublicKey
					if r := vh.Refuses(func() { b = pks.GetPublicKey(id) }); r != (mpk[id] == nil) || b != mpk[id] {
						return fmt.Errorf("step %d: wrong public key of %q", step, id)
					}
					var c *RelinearizationKey
					if r := vh.Refuses(func() { c = rlks.GetRelinearizationKey(id) }); r != (mrl[id] == nil) || c != mrl[id] {
						return fmt.Errorf("step %d: wrong relinearization key of %q", step, id)
					}
					var d *ConjugationKey
					if r := vh.Refuses(func() { d = cjs.GetConjugationKey(id) }); r != (mcj[id] == nil) || d != mcj[id] {
						return fmt.Errorf("step %d: wrong conjugation key of %q", step, id)
					}
					for k := uint(0); k < 3; k++ {
						var e *RotationKey
						if r := vh.Refuses(func() { e = rts.GetRotationKey(id, k) }); r != (mrt[rk{id, k}] == nil) || e != mrt[rk{id, k}] {
							return fmt.Errorf("step %d: wrong rotation key %d of %q", step, k, id)
						}
					}
				}
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C19

func TestVH_C19(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		s, p := vhP(h)
		level := h.R.Intn(p.QCount())
		ids := vh.Subset(h.R, []string{"a", "b", "cc", "d"}, 0)
		set := NewIDSet()
		for _, id := range ids {
			set.Add(id)
		}
		in := fmt.Sprintf("params %v level %d parties %v", s, level, ids)
		shape := func(ct *Ciphertext, ids []string, level int, ntt, zero bool) error {
			if fmt.Sprint(vhIdsOf(ct)) != fmt.Sprint(ids) || len(ct.Value) != len(ids)+1 {
				return fmt.Errorf("parties %v", vhIdsOf(ct))
			}
			is := ct.IDSet()
			if is.Size() != len(ids) {
				return fmt.Errorf("party set of size %d", is.Size())
			}
			for id, v := range ct.Value {
				if id != "0" && !is.Has(id) {
					return fmt.Errorf("party set lacks %q", id)
				}
				if len(v.Coeffs) != level+1 || v.IsNTT != ntt {
					return fmt.Errorf("part %q has %d primes, NTT %v", id, len(v.Coeffs), v.IsNTT)
				}
				for _, c := range v.Coeffs {
					if len(c) != p.N() {
						return fmt.Errorf("part %q has degree %d", id, len(c))
					}
					for _, x := range c {
						if zero && x != 0 {
							return fmt.Errorf("part %q is not zero", id)
						}
					}
				}
				for id2, v2 := range ct.Value {
					if id2 != id && vh.Shared(v, v2) {
						return fmt.Errorf("parts %q and %q share storage", id, id2)
					}
				}
			}
			if ct.Level() != level || ct.El() != ct {
				return fmt.Errorf("level %d", ct.Level())
			}
			return nil
		}
		ntt := h.R.Intn(2) == 0
		mk := func() *Ciphertext {
			if ntt {
				return NewCiphertextNTT(p, set, level)
			}
			return NewCiphertext(p, set, level)
		}
		fill := func(ct *Ciphertext) {
			for _, v := range ct.Value {
				vh.Uniform(h.R, p.RingQ(), v.Level(), v)
			}
		}
		h.Case("new", in, func() error { return shape(mk(), ids, level, ntt, true) })
		h.Case("copynew", in, func() error {
			ct := mk()
			fill(ct)
			before := vh.Print(ct)
			c := ct.CopyNew()
			if vh.Shared(c, ct) || vh.Print(ct) != before || vh.Print(c) != before {
				return fmt.Errorf("the copy differs or shares storage")
			}
			return shape(c, ids, level, ntt, false)
		})
		h.Case("pad", in, func() error {
			ct := mk()
			fill(ct)
			fp := map[string]string{}
			for id, v := range ct.Value {
				fp[id] = vh.Print(v)
			}
			more := vh.Subset(h.R, []string{"a", "b", "e", "f"}, 0)
			ms := NewIDSet()
			for _, id := range more {
				ms.Add(id)
			}
			ct.PadCiphertext(ms)
			for id, v := range ct.Value {
				if fp[id] != "" {
					if vh.Print(v) != fp[id] {
						return fmt.Errorf("part %q changed", id)
					}
				} else {
					for _, c := range v.Coeffs {
						for _, x := range c {
							if x != 0 {
								return fmt.Errorf("padded part %q is not zero", id)
							}
						}
					}
				}
			}
			if fmt.Sprint(ms.Size()) != fmt.Sprint(len(more)) {
				return fmt.Errorf("the argument changed")
			}
			return shape(ct, vhUnion(ids, more), level, ntt, false)
		})
		h.Case("copy", in, func() error {
			ct := mk()
			fill(ct)
			sub := NewIDSet()
			for _, id := range vh.Subset(h.R, ids, 0) {
				sub.Add(id)
			}
			src := NewCiphertext(p, sub, level)
			fill(src)
			before, fp := vh.Print(src), map[string]string{}
			for id, v := range ct.Value {
				fp[id] = vh.Print(v)
			}
			ct.Copy(src)
			if vh.Print(src) != before || vh.Shared(ct, src) {
				return fmt.Errorf("the source changed or is shared")
			}
			for id, v := range ct.Value {
				if src.Value[id] != nil {
					if vh.Print(v.Coeffs) != vh.Print(src.Value[id].Coeffs) {
						return fmt.Errorf("part %q was not copied", id)
					}
				} else if vh.Print(v) != fp[id] {
					return fmt.Errorf("part %q changed", id)
				}
			}
			return nil
		})
	}
	h.Done()
}
