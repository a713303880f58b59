package mkrlwe

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/vh"
)

func vhParams(s vh.Set, sigma float64) Parameters {
	used := map[uint64]bool{}
	pl := rlwe.ParametersLiteral{LogN: s.LogN, Q: vh.Primes(s.LogN, s.LogQ, used), P: vh.Primes(s.LogN, s.LogP, used), Sigma: sigma}
	p, err := rlwe.NewParametersFromLiteral(pl)
	if err != nil {
		panic(err)
	}
	return NewParameters(p, 2)
}

var vhCache = map[string]Parameters{}

func vhP(h *vh.H) (vh.Set, Parameters) {
	s := vh.CKKSSets[h.R.Intn(len(vh.CKKSSets))]
	k := fmt.Sprint(s)
	if _, ok := vhCache[k]; !ok {
		vhCache[k] = vhParams(s, 3.2)
	}
	return s, vhCache[k]
}

// qp reconstructs an element of R_QP as an integer polynomial centered modulo QP.
func vhQP(p Parameters, v rlwe.PolyQP, ntt, mform bool) vh.Big {
	lq, lp := p.QCount(), p.PCount()
	a, b := ring.NewPoly(p.N(), lq), ring.NewPoly(p.N(), lp)
	for i := range a.Coeffs {
		copy(a.Coeffs[i], v.Q.Coeffs[i])
	}
	for i := range b.Coeffs {
		copy(b.Coeffs[i], v.P.Coeffs[i])
	}
	if ntt {
		p.RingQ().InvNTT(a, a)
		p.RingP().InvNTT(b, b)
	}
	if mform {
		p.RingQ().InvMForm(a, a)
		p.RingP().InvMForm(b, b)
	}
	return vh.CRT(append(append([]uint64{}, p.RingQ().Modulus...), p.RingP().Modulus...), append(append([][]uint64{}, a.Coeffs...), b.Coeffs...))
}

func vhQPMod(p Parameters) *big.Int {
	m := vh.Modulus(p.RingQ(), p.QCount()-1)
	return m.Mul(m, vh.Modulus(p.RingP(), p.PCount()-1))
}

func vhSmall(p Parameters, e vh.Big, what string, bound int64, zeroOK bool) error {
	e = vh.Center(e, vhQPMod(p))
	m := vh.MaxAbs(e)
	if m.Cmp(big.NewInt(bound)) > 0 {
		return fmt.Errorf("%s: error term has size 2^%d, allowed %d", what, m.BitLen(), bound)
	}
	if m.Sign() == 0 && !zeroOK {
		return fmt.Errorf("%s: the error term is zero", what)
	}
	return nil
}

// gadget: the integer that is P modulo the primes of group k and 0 modulo every other prime.
func vhG(p Parameters, k int) *big.Int {
	P := vh.Modulus(p.RingP(), p.PCount()-1)
	Q := vh.Modulus(p.RingQ(), p.QCount()-1)
	al := p.PCount() / 2
	Qk := big.NewInt(1)
	for j := k * al; j < (k+1)*al && j < p.QCount(); j++ {
		Qk.Mul(Qk, new(big.Int).SetUint64(p.RingQ().Modulus[j]))
	}
	c := new(big.Int).Div(Q, Qk)
	inv := new(big.Int).ModInverse(new(big.Int).Mod(c, Qk), Qk)
	if inv == nil {
		inv = big.NewInt(0)
		if c.Cmp(big.NewInt(1)) == 0 {
			inv = big.NewInt(1)
		}
	}
	c.Mul(c, inv)
	return c.Mul(c, P)
}

func vhBeta(p Parameters, level int) int {
	al := p.PCount() / 2
	return (level + al) / al
}

func vhSecret(p Parameters, sk *SecretKey) (vh.Big, error) {
	return vh.Secret(p.RingQ(), p.RingP(), sk.Value)
}

func vhMustSecret(p Parameters, sk *SecretKey) vh.Big {
	s, err := vhSecret(p, sk)
	if err != nil {
		panic(err)
	}
	return s
}

func vhNum(b vh.Big) (zero, one, minus, other int) {
	for _, x := range b {
		switch {
		case x.Sign() == 0:
			zero++
		case x.Cmp(big.NewInt(1)) == 0:
			one++
		case x.Cmp(big.NewInt(-1)) == 0:
			minus++
		default:
			other++
		}
	}
	return
}

// ------------------------------------------------------------------ C10

func TestVH_C10(t *testing.T) {
	h := vh.New(t)
	cnt := [4]int{}
	tot := 0
	gmax, gn := new(big.Int), 0
	for h.More() {
		s, p := vhP(h)
		kg := NewKeyGenerator(p)
		crs := vh.Print(p.CRS)
		var keys []*SecretKey
		h.Case("secret", fmt.Sprintf("params %v GenSecretKey(a)", s), func() error {
			sk := kg.GenSecretKey("a")
			keys = append(keys, sk)
			b, err := vhSecret(p, sk)
			if err != nil {
				return err
			}
			z, o, m, x := vhNum(b)
			cnt[0] += z
			cnt[1] += o
			cnt[2] += m
			tot += len(b)
			if x > 0 || sk.ID != "a" {
				return fmt.Errorf("%d coefficients outside {-1,0,1}, id %q", x, sk.ID)
			}
			eq := 0
			var sk2 *SecretKey
			for k := 0; k < 4; k++ {
				sk2 = kg.GenSecretKey("a")
				if vh.Equal(b, vhMustSecret(p, sk2), big.NewInt(1000)) == nil {
					eq++
				}
			}
			if eq == 4 {
				return fmt.Errorf("all generated secrets are equal")
			}
			if vh.Shared(sk, sk2, kg, p.CRS) {
				return fmt.Errorf("secret keys share storage")
			}
			return nil
		})
		prob := []float64{1.0 / 3, 0.5, 0.25}[h.R.Intn(3)]
		h.Case("distrib", fmt.Sprintf("params %v GenSecretKeyWithDistrib(%v, b)", s, prob), func() error {
			z, n := 0, 0
			for k := 0; k < 12; k++ {
				sk := kg.GenSecretKeyWithDistrib(prob, "b")
				b, err := vhSecret(p, sk)
				if err != nil {
					return err
				}
				zz, _, _, x := vhNum(b)
				z += zz
				n += len(b)
				if x > 0 || sk.ID != "b" {
					return fmt.Errorf("%d coefficients outside {-1,0,1}, id %q", x, sk.ID)
				}
			}
			// lattigo documents p as the probability of zero
			sd := math.Sqrt(float64(n) * prob * (1 - prob))
			if math.Abs(float64(z)-float64(n)*prob) > 7*sd {
				return fmt.Errorf("%d of %d coefficients are zero, %v expected", z, n, float64(n)*prob)
			}
			return nil
		})
		hw := 1 + h.R.Intn(p.N()-1)
		h.Case("sparse", fmt.Sprintf("params %v GenSecretKeySparse(%d, c)", s, hw), func() error {
			sk := kg.GenSecretKeySparse(hw, "c")
			keys = append(keys, sk)
			b, err := vhSecret(p, sk)
			if err != nil {
				return err
			}
			z, _, _, x := vhNum(b)
			if x > 0 || z != p.N()-hw || sk.ID != "c" {
				return fmt.Errorf("%d nonzero coefficients, %d outside {-1,0,1}, id %q", p.N()-z, x, sk.ID)
			}
			return nil
		})
		h.Case("gaussian", fmt.Sprintf("params %v GenSecretKeyGaussian(d)", s), func() error {
			sk := kg.GenSecretKeyGaussian("d")
			keys = append(keys, sk)
			b, err := vhSecret(p, sk)
			if err != nil {
				return err
			}
			m := vh.MaxAbs(b)
			gn += len(b)
			if gmax.Cmp(m) < 0 {
				gmax.Set(m)
			}
			if m.Cmp(big.NewInt(19)) > 0 || sk.ID != "d" {
				return fmt.Errorf("largest coefficient %v, id %q", m, sk.ID)
			}
			return nil
		})
		check := func(sk *SecretKey, pk *PublicKey) error {
			b := vhMustSecret(p, sk)
			a := p.CRS[0].Value[0]
			if pk.ID != sk.ID {
				return fmt.Errorf("public key of %q has id %q", sk.ID, pk.ID)
			}
			A := vhQP(p, a, true, false)
			if err := vh.Equal(A, vhQP(p, pk.Value[1], true, false), vhQPMod(p)); err != nil {
				return fmt.Errorf("second component is not the common reference: %v", err)
			}
			if vh.Shared(pk, p.CRS, kg, sk) {
				return fmt.Errorf("public key shares storage")
			}
			return vhSmall(p, vh.Add(vhQP(p, pk.Value[0], true, false), vh.Mul(A, b)), "pk0 + pk1 s", 19, false)
		}
		for _, sk := range keys {
			h.Case("public", fmt.Sprintf("params %v GenPublicKey(%s)", s, sk.ID), func() error {
				before := vh.Print(sk)
				pk := kg.GenPublicKey(sk)
				if err := check(sk, pk); err != nil {
					return err
				}
				pk2 := kg.GenPublicKey(sk)
				if vh.Equal(vhQP(p, pk.Value[0], true, false), vhQP(p, pk2.Value[0], true, false), vhQPMod(p)) == nil {
					return fmt.Errorf("two public keys use the same error")
				}
				if before != vh.Print(sk) || crs != vh.Print(p.CRS) {
					return fmt.Errorf("the secret key or the CRS changed")
				}
				return nil
			})
		}
		h.Case("pair", fmt.Sprintf("params %v GenKeyPair(e)", s), func() error {
			sk, pk := kg.GenKeyPair("e")
			if sk.ID != "e" {
				return fmt.Errorf("id %q", sk.ID)
			}
			return check(sk, pk)
		})
		h.Case("pairsparse", fmt.Sprintf("params %v GenKeyPairSparse(%d, f)", s, hw), func() error {
			sk, pk := kg.GenKeyPairSparse(hw, "f")
			z, _, _, _ := vhNum(vhMustSecret(p, sk))
			if sk.ID != "f" || z != p.N()-hw {
				return fmt.Errorf("id %q, weight %d", sk.ID, p.N()-z)
			}
			return check(sk, pk)
		})
		h.Case("copies", fmt.Sprintf("params %v CopyNew of keys, blank keys", s), func() error {
			sk, pk := kg.GenKeyPair("g")
			sc, pc := sk.CopyNew(), pk.CopyNew()
			if vh.Print(sk.Value, sk.ID) != vh.Print(sc.Value, sc.ID) || vh.Print(pk.Value, pk.ID) != vh.Print(pc.Value, pc.ID) {
				return fmt.Errorf("a copy differs from its original")
			}
			if vh.Shared(sk, sc) || vh.Shared(pk, pc) {
				return fmt.Errorf("a copy shares storage with its original")
			}
			b := NewSecretKey(p, "h")
			if b.ID != "h" || vh.MaxAbs(vhMustSecret(p, b)).Sign() != 0 {
				return fmt.Errorf("NewSecretKey is not blank")
			}
			return nil
		})
	}
	if tot > 1000 {
		h.Case("gaussian", "width of GenSecretKeyGaussian", func() error {
			if gn > 1000 && gmax.Cmp(big.NewInt(4)) < 0 {
				return fmt.Errorf("largest of %d coefficients is %v", gn, gmax)
			}
			return nil
		})
		h.Case("ternary", "frequencies of GenSecretKey", func() error {
			for i, pr := range []float64{0.5, 0.25, 0.25} {
				sd := math.Sqrt(float64(tot) * pr * (1 - pr))
				if math.Abs(float64(cnt[i])-float64(tot)*pr) > 7*sd {
					return fmt.Errorf("value class %d occurs %d times of %d", i, cnt[i], tot)
				}
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C11

func vhSwk(p Parameters, sw *SwitchingKey, f func(k int) vh.Big, what string) error {
	if len(sw.Value) != vhBeta(p, p.QCount()-1) {
		return fmt.Errorf("%s has %d digits", what, len(sw.Value))
	}
	var seen []vh.Big
	for k := range sw.Value {
		e := vh.Center(vh.Sub(vhQP(p, sw.Value[k], true, true), f(k)), vhQPMod(p))
		if err := vhSmall(p, e, fmt.Sprintf("%s digit %d", what, k), 19, false); err != nil {
			return err
		}
		for _, o := range seen {
			if vh.Equal(o, e, big.NewInt(1000)) == nil {
				return fmt.Errorf("%s: two digits use the same error", what)
			}
		}
		seen = append(seen, e)
	}
	return nil
}

func vhA(p Parameters, idx, k int) vh.Big { return vhQP(p, p.CRS[idx].Value[k], true, true) }

func vhSk(p Parameters, kg *KeyGenerator, h *vh.H, id string) *SecretKey {
	switch h.R.Intn(3) {
	case 0:
		return kg.GenSecretKeyGaussian(id)
	case 1:
		return kg.GenSecretKeySparse(1+h.R.Intn(p.N()-1), id)
	}
	return kg.GenSecretKey(id)
}

func vhRot(p Parameters, rk *RotationKey, sk *SecretKey, k int) error {
	n2 := p.N() / 2
	kn := ((k % n2) + n2) % n2
	if rk.ID != sk.ID {
		return fmt.Errorf("id %q", rk.ID)
	}
	if int(rk.RotIdx) != kn {
		return fmt.Errorf("index %d", rk.RotIdx)
	}
	s := vhMustSecret(p, sk)
	si := vh.Auto(s, vh.Gal5(-kn, p.N()))
	return vhSwk(p, rk.Value, func(i int) vh.Big {
		return vh.Sub(vh.Scale(s, vhG(p, i)), vh.Mul(vhA(p, kn, i), si))
	}, fmt.Sprintf("rotation key %d", k))
}

func TestVH_C11(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		s, p := vhP(h)
		n2 := p.N() / 2
		kg := NewKeyGenerator(p)
		sk, r := vhSk(p, kg, h, "a"), vhSk(p, kg, h, "r")
		if h.R.Intn(3) == 0 {
			extra := 1 + h.R.Intn(n2-1)
			if _, in := p.CRS[extra]; !in {
				p.AddCRS(extra)
			}
		}
		b, rb := vhMustSecret(p, sk), vhMustSecret(p, r)
		crs := vh.Print(p.CRS, sk, r)
		same := func() error {
			if vh.Print(p.CRS, sk, r) != crs {
				return fmt.Errorf("the CRS or a secret key changed")
			}
			return nil
		}
		h.Case("switching", fmt.Sprintf("params %v GenSwitchingKey", s), func() error {
			sw := NewSwitchingKey(p)
			for k := range sw.Value {
				vh.Uniform(h.R, p.RingQ(), p.QCount()-1, sw.Value[k].Q)
				vh.Uniform(h.R, p.RingP(), p.PCount()-1, sw.Value[k].P)
			}
			kg.GenSwitchingKey(sk, sw)
			if err := same(); err != nil {
				return err
			}
			return vhSwk(p, sw, func(k int) vh.Big { return vh.Scale(b, vhG(p, k)) }, "switching key")
		})
		h.Case("relin", fmt.Sprintf("params %v GenRelinearizationKey", s), func() error {
			rlk := kg.GenRelinearizationKey(sk, r)
			if err := same(); err != nil {
				return err
			}
			if rlk.ID != sk.ID {
				return fmt.Errorf("id %q", rlk.ID)
			}
			if vh.Shared(rlk, p.CRS, sk, r, kg) {
				return fmt.Errorf("the key shares storage")
			}
			if err := vhSwk(p, rlk.Value[0], func(k int) vh.Big { return vh.Scale(vh.Mul(vhA(p, 0, k), b), big.NewInt(-1)) }, "b"); err != nil {
				return err
			}
			if err := vhSwk(p, rlk.Value[1], func(k int) vh.Big {
				return vh.Sub(vh.Scale(b, vhG(p, k)), vh.Mul(vhA(p, 0, k), rb))
			}, "d"); err != nil {
				return err
			}
			return vhSwk(p, rlk.Value[2], func(k int) vh.Big {
				return vh.Scale(vh.Add(vh.Mul(vhA(p, -1, k), b), vh.Scale(rb, vhG(p, k))), big.NewInt(-1))
			}, "v")
		})
		var idxs []int
		for k := range p.CRS {
			if k >= 0 && k < n2 {
				idxs = append(idxs, k, k-n2, k-2*n2)
			}
		}
		for c := 0; c < 2; c++ {
			k := idxs[h.R.Intn(len(idxs))]
			h.Case("rotation", fmt.Sprintf("params %v GenRotationKey(%d)", s, k), func() error {
				rk := kg.GenRotationKey(k, sk)
				if err := same(); err != nil {
					return err
				}
				if vh.Shared(rk, p.CRS, sk, kg) {
					return fmt.Errorf("the key shares storage")
				}
				return vhRot(p, rk, sk, k)
			})
		}
		h.Case("missing", fmt.Sprintf("params %v GenRotationKey without CRS", s), func() error {
			for k := 1; k < n2; k++ {
				if _, in := p.CRS[k]; !in {
					if !vh.Refuses(func() { kg.GenRotationKey(k, sk) }) {
						return fmt.Errorf("no refusal for index %d", k)
					}
					break
				}
			}
			return nil
		})
		h.Case("conjugation", fmt.Sprintf("params %v GenConjugationKey", s), func() error {
			ck := kg.GenConjugationKey(sk)
			if err := same(); err != nil {
				return err
			}
			if ck.ID != sk.ID {
				return fmt.Errorf("id %q", ck.ID)
			}
			if vh.Shared(ck, p.CRS, sk, kg) {
				return fmt.Errorf("the key shares storage")
			}
			sc := vh.Auto(b, 2*p.N()-1)
			return vhSwk(p, ck.Value, func(i int) vh.Big {
				return vh.Sub(vh.Scale(sc, vhG(p, i)), vh.Mul(vhA(p, -2, i), b))
			}, "conjugation key")
		})
		h.Case("default", fmt.Sprintf("params %v GenDefaultRotationKeys", s), func() error {
			set := NewRotationKeySet()
			old := kg.GenRotationKey(1, r)
			set.AddRotationKey(old)
			kg.GenDefaultRotationKeys(sk, set)
			if err := same(); err != nil {
				return err
			}
			n := 0
			for k := 1; k < n2; k *= 2 {
				n++
				if err := vhRot(p, set.GetRotationKey(sk.ID, uint(k)), sk, k); err != nil {
					return err
				}
			}
			if set.GetRotationKey(r.ID, 1) != old || len(set.Value[sk.ID]) != n || len(set.Value) != 2 {
				return fmt.Errorf("the set holds other keys than asked for")
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C12

func vhLow(p Parameters, v rlwe.PolyQP, level int) vh.Big {
	a, b := ring.NewPoly(p.N(), level+1), ring.NewPoly(p.N(), p.PCount())
	for i := range a.Coeffs {
		copy(a.Coeffs[i], v.Q.Coeffs[i])
	}
	for i := range b.Coeffs {
		copy(b.Coeffs[i], v.P.Coeffs[i])
	}
	p.RingQ().InvNTTLvl(level, a, a)
	p.RingP().InvNTT(b, b)
	return vh.CRT(append(append([]uint64{}, p.RingQ().Modulus[:level+1]...), p.RingP().Modulus...), append(append([][]uint64{}, a.Coeffs...), b.Coeffs...))
}

func vhRandSwk(h *vh.H, p Parameters) *SwitchingKey {
	sw := NewSwitchingKey(p)
	for k := range sw.Value {
		vh.Uniform(h.R, p.RingQ(), p.QCount()-1, sw.Value[k].Q)
		vh.Uniform(h.R, p.RingP(), p.PCount()-1, sw.Value[k].P)
	}
	return sw
}

// external product: nearest integer to P^-1 sum D_k b_k up to the slack of the approximate rescaling
func vhEP(p Parameters, level int, digits []vh.Big, bg *SwitchingKey, got *ring.Poly) error {
	PB := vh.Modulus(p.RingP(), p.PCount()-1)
	QP := new(big.Int).Mul(PB, vh.Modulus(p.RingQ(), level))
	sum := vh.Zero(p.N())
	for k := range digits {
		v := rlwe.PolyQP{Q: p.RingQ().NewPolyLvl(level), P: p.RingP().NewPoly()}
		p.RingQ().InvMFormLvl(level, bg.Value[k].Q, v.Q)
		p.RingP().InvMForm(bg.Value[k].P, v.P)
		sum = vh.Add(sum, vh.Mul(digits[k], vhLow(p, v, level)))
	}
	sum = vh.Center(sum, QP)
	want := vh.RoundDiv(sum, big.NewInt(1), PB)
	return vh.Near(vh.PolyBig(p.RingQ(), level, got, false, false), want, vh.Modulus(p.RingQ(), level), 4)
}

func TestVH_C12(t *testing.T) {
	h := vh.New(t)
	kss := map[string]*KeySwitcher{}
	for h.More() {
		s, p := vhP(h)
		if kss[fmt.Sprint(s)] == nil {
			kss[fmt.Sprint(s)] = NewKeySwitcher(p)
		}
		ks := kss[fmt.Sprint(s)]
		al := p.PCount() / 2
		level := h.R.Intn(p.QCount())
		a := p.RingQ().NewPolyLvl(level + h.R.Intn(p.QCount()-level))
		vh.Uniform(h.R, p.RingQ(), a.Level(), a)
		coef := vh.PolyBig(p.RingQ(), level, a, false, false)
		ntt := h.R.Intn(2) == 0
		if ntt {
			p.RingQ().NTTLvl(a.Level(), a, a)
			a.IsNTT = true
		}
		in := fmt.Sprintf("params %v level %d of %d, operand level %d, NTT %v, operand %v", s, level, p.QCount()-1, a.Level(), ntt, a.Coeffs[0][:4])
		ad := vhRandSwk(h, p)
		var digits []vh.Big
		h.Case("decompose", "Decompose "+in, func() error {
			before := vh.Print(a)
			ks.Decompose(level, a, ad)
			if before != vh.Print(a) {
				return fmt.Errorf("the operand changed")
			}
			for k := 0; k < vhBeta(p, level); k++ {
				d := vhLow(p, ad.Value[k], level)
				digits = append(digits, d)
				g := p.RingQ().Modulus[k*al : int(math.Min(float64((k+1)*al), float64(level+1)))]
				m := big.NewInt(1)
				for _, q := range g {
					m.Mul(m, new(big.Int).SetUint64(q))
				}
				if err := vh.Equal(d, coef, m); err != nil {
					return fmt.Errorf("digit %d is not congruent to the operand modulo its group: %v", k, err)
				}
				if vh.MaxAbs(d).Cmp(new(big.Int).Mul(m, big.NewInt(int64(al)+1))) > 0 {
					return fmt.Errorf("digit %d has %d bits, its group %d", k, vh.MaxAbs(d).BitLen(), m.BitLen())
				}
			}
			return nil
		})
		if len(digits) != vhBeta(p, level) {
			continue
		}
		bg := vhRandSwk(h, p)
		h.Case("product", "ExternalProduct "+in, func() error {
			before := vh.Print(a, bg)
			c := p.RingQ().NewPolyLvl(level + h.R.Intn(p.QCount()-level))
			vh.Uniform(h.R, p.RingQ(), c.Level(), c)
			ks.ExternalProduct(level, a, bg, c)
			if before != vh.Print(a, bg) {
				return fmt.Errorf("an operand changed")
			}
			if err := vhEP(p, level, digits, bg, c); err != nil {
				return err
			}
			e := p.RingQ().NewPolyLvl(level)
			before = vh.Print(ad, bg)
			ks.ExternalProductHoisted(level, ad, bg, e)
			if before != vh.Print(ad, bg) {
				return fmt.Errorf("a hoisted operand changed")
			}
			return vh.SamePoly(p.RingQ(), level, c, e)
		})
		h.Case("gadget", "ExternalProduct with a gadget vector "+in, func() error {
			// b = s g: the product is a s up to a small error
			kg := NewKeyGenerator(p)
			sk := vhSk(p, kg, h, "a")
			sw := NewSwitchingKey(p)
			kg.GenSwitchingKey(sk, sw)
			c := p.RingQ().NewPolyLvl(level)
			ks.ExternalProduct(level, a, sw, c)
			want := vh.Mul(coef, vhMustSecret(p, sk))
			return vh.Near(vh.PolyBig(p.RingQ(), level, c, false, false), want, vh.Modulus(p.RingQ(), level), 6)
		})
		h.Case("inplace", "ExternalProduct into its operand "+in, func() error {
			c := a.CopyNew()
			c.IsNTT = a.IsNTT
			e := p.RingQ().NewPolyLvl(level)
			ks.ExternalProduct(level, a, bg, e)
			ks.ExternalProduct(level, c, bg, c)
			return vh.SamePoly(p.RingQ(), level, c, e)
		})
	}
	h.Done()
}
