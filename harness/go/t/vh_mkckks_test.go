package mkckks

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"sort"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
	"mk-lattigo/vh"
)

var vhIDs = []string{"a", "b", "cc"}

type vhWorld struct {
	s     vh.Set
	p     Parameters
	cp    ckks.Parameters
	kg    *mkrlwe.KeyGenerator
	sk    map[string]*mkrlwe.SecretKey
	pk    map[string]*mkrlwe.PublicKey
	sec   map[string]vh.Big
	sks   *mkrlwe.SecretKeySet
	rlk   *mkrlwe.RelinearizationKeySet
	rtk   *mkrlwe.RotationKeySet
	cjk   *mkrlwe.ConjugationKeySet
	ev    *Evaluator
	enc   *Encryptor
	dec   *Decryptor
	ecd   ckks.Encoder
	extra int
}

var vhWorlds = map[string]*vhWorld{}

func vhW(h *vh.H) *vhWorld {
	n := h.R.Intn(len(vh.CKKSSets))
	s := vh.CKKSSets[n]
	if w, ok := vhWorlds[fmt.Sprint(s)]; ok {
		return w
	}
	used := map[uint64]bool{}
	pl := rlwe.ParametersLiteral{LogN: s.LogN, Q: vh.Primes(s.LogN, s.LogQ, used), P: vh.Primes(s.LogN, s.LogP, used), Sigma: 3.2}
	rp, err := rlwe.NewParametersFromLiteral(pl)
	if err != nil {
		panic(err)
	}
	ls := s.LogN - 1
	if n == 1 {
		ls--
	}
	cp, err := ckks.NewParameters(rp, ls, math.Exp2(40))
	if err != nil {
		panic(err)
	}
	w := &vhWorld{s: s, cp: cp, p: NewParameters(cp), sk: map[string]*mkrlwe.SecretKey{}, pk: map[string]*mkrlwe.PublicKey{}, sec: map[string]vh.Big{}}
	w.extra = 3
	w.p.AddCRS(w.extra)
	w.kg = NewKeyGenerator(w.p)
	w.sks = mkrlwe.NewSecretKeySet()
	w.rlk, w.rtk, w.cjk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range vhIDs {
		sk, pk := w.kg.GenKeyPair(id)
		r := w.kg.GenSecretKey(id)
		b, err := vh.Secret(w.p.RingQ(), w.p.RingP(), sk.Value)
		if err != nil {
			panic(err)
		}
		w.sk[id], w.sec[id], w.pk[id] = sk, b, pk
		w.sks.AddSecretKey(sk)
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, r))
		w.cjk.AddConjugationKey(w.kg.GenConjugationKey(sk))
		w.kg.GenDefaultRotationKeys(sk, w.rtk)
		w.rtk.AddRotationKey(w.kg.GenRotationKey(w.extra, sk))
	}
	w.ev, w.enc, w.dec = NewEvaluator(w.p), NewEncryptor(w.p), NewDecryptor(w.p)
	w.ecd = ckks.NewEncoder(cp)
	vhWorlds[fmt.Sprint(s)] = w
	return w
}

// ct is a ciphertext with uniform parts.
func (w *vhWorld) ct(h *vh.H, ids []string, level int, scale float64) *Ciphertext {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	ct := NewCiphertext(w.p, s, level, scale)
	for _, v := range ct.Value {
		vh.Uniform(h.R, w.p.RingQ(), level, v)
	}
	return ct
}

// small is a ciphertext whose phase is small, with that phase.
func (w *vhWorld) small(h *vh.H, ids []string, level int, scale float64, bits int) (*Ciphertext, vh.Big) {
	ct := w.ct(h, ids, level, scale)
	r := w.p.RingQ()
	m := vh.RandBig(h.R, r.N, bits)
	ph := vh.Sub(w.phase(ct, level), vh.PolyBig(r, level, ct.Value["0"], false, false))
	vh.SetBig(r, level, vh.Sub(m, ph), ct.Value["0"])
	return ct, m
}

func (w *vhWorld) phase(ct *Ciphertext, level int) vh.Big {
	return vh.Phase(w.p.RingQ(), level, ct.Value, false, w.sec)
}

func (w *vhWorld) mod(level int) *big.Int { return vh.Modulus(w.p.RingQ(), level) }

func (w *vhWorld) keys() string { return vh.Print(w.rlk.Value, w.rtk, w.cjk, w.p.CRS, w.sks) }

func vhUnion(a, b []string) (r []string) {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return
}

func vhIdsOf(ct *Ciphertext) (r []string) {
	for id := range ct.Value {
		if id != "0" {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return
}

func (w *vhWorld) shape(ct *Ciphertext, ids []string, level int, scale float64) error {
	if fmt.Sprint(vhIdsOf(ct)) != fmt.Sprint(ids) || len(ct.Value) != len(ids)+1 {
		return fmt.Errorf("parties %v, expected %v", vhIdsOf(ct), ids)
	}
	for id, v := range ct.Value {
		if v.Level() != level || v.IsNTT {
			return fmt.Errorf("part %q at level %d (NTT %v), expected %d", id, v.Level(), v.IsNTT, level)
		}
	}
	if math.Abs(ct.Scale-scale) > 1e-9*scale {
		return fmt.Errorf("scale %v, expected %v", ct.Scale, scale)
	}
	return nil
}

func (w *vhWorld) same(a, b *Ciphertext) error {
	if len(a.Value) != len(b.Value) || a.Level() != b.Level() || a.Scale != b.Scale {
		return fmt.Errorf("parties %v and %v, levels %d and %d, scales %v and %v", vhIdsOf(a), vhIdsOf(b), a.Level(), b.Level(), a.Scale, b.Scale)
	}
	for id := range a.Value {
		if err := vh.SamePoly(w.p.RingQ(), a.Level(), a.Value[id], b.Value[id]); err != nil {
			return fmt.Errorf("part %q: %v", id, err)
		}
	}
	return nil
}

// rescaled: how many primes Rescale removes, and the scale it leaves
func (w *vhWorld) rescaled(level int, scale, min float64) (int, float64) {
	n := 0
	for level-n > 0 && scale/float64(w.p.RingQ().Modulus[level-n]) >= min/2 {
		scale /= float64(w.p.RingQ().Modulus[level-n])
		n++
	}
	return n, scale
}

func (w *vhWorld) top(level, n int) *big.Int {
	m := big.NewInt(1)
	for i := 0; i < n; i++ {
		m.Mul(m, new(big.Int).SetUint64(w.p.RingQ().Modulus[level-i]))
	}
	return m
}

func vhMsg(h *vh.H, n int, b float64) *Message {
	m := &Message{Value: make([]complex128, n)}
	for i := range m.Value {
		m.Value[i] = complex(b*(2*h.R.Float64()-1), b*(2*h.R.Float64()-1))
	}
	return m
}

func vhClose(a, b []complex128, eps float64) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d and %d slots", len(a), len(b))
	}
	for i := range a {
		if cmplx.IsNaN(a[i]) || cmplx.Abs(a[i]-b[i]) > eps {
			return fmt.Errorf("slot %d is %v, expected %v", i, a[i], b[i])
		}
	}
	return nil
}

// ------------------------------------------------------------------ C01, C02

func TestVH_C01(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p, r := w.p, w.p.RingQ()
		id := vhIDs[h.R.Intn(3)]
		pk := w.pk[id]
		bound := int64(19 * (2*p.N() + 1))
		noise := func(ct *Ciphertext, pt *ckks.Plaintext, level int) error {
			m := vh.PolyBig(r, level, pt.Value, pt.Value.IsNTT, false)
			e := vh.MaxAbs(vh.Center(vh.Sub(w.phase(ct, level), m), w.mod(level)))
			if e.Cmp(big.NewInt(bound)) > 0 || e.Sign() == 0 {
				return fmt.Errorf("noise of %d bits", e.BitLen())
			}
			return nil
		}
		msg := vhMsg(h, p.Slots(), 100)
		lc := h.R.Intn(p.QCount())
		set := mkrlwe.NewIDSet()
		set.Add(id)
		in := fmt.Sprintf("params %v party %s", w.s, id)
		h.Case("msgnew", "EncryptMsgNew "+in, func() error {
			before := vh.Print(msg, pk)
			ct := w.enc.EncryptMsgNew(msg, pk)
			if before != vh.Print(msg, pk) {
				return fmt.Errorf("the message or the key changed")
			}
			if vh.Shared(ct, msg, pk, w.enc) {
				return fmt.Errorf("the ciphertext shares storage")
			}
			if err := w.shape(ct, []string{id}, p.MaxLevel(), p.Scale()); err != nil {
				return err
			}
			pt := w.enc.EncodeMsgNew(msg)
			if before != vh.Print(msg, pk) {
				return fmt.Errorf("the message or the key changed")
			}
			if pt.Scale != p.Scale() || pt.Level() != p.MaxLevel() {
				return fmt.Errorf("EncodeMsgNew: scale %v level %d", pt.Scale, pt.Level())
			}
			ref := ckks.NewPlaintext(w.cp, p.MaxLevel(), p.Scale())
			w.ecd.Encode(ref, msg.Value, p.LogSlots())
			if err := vh.SamePoly(r, p.MaxLevel(), ref.Value, pt.Value); err != nil {
				return fmt.Errorf("EncodeMsgNew: %v", err)
			}
			return noise(ct, ref, p.MaxLevel())
		})
		h.Case("msg", fmt.Sprintf("EncryptMsg %s receiver level %d", in, lc), func() error {
			ct := NewCiphertext(p, set, lc, 17)
			w.enc.EncryptMsg(msg, pk, ct)
			if err := w.shape(ct, []string{id}, lc, p.Scale()); err != nil {
				return err
			}
			ref := ckks.NewPlaintext(w.cp, p.MaxLevel(), p.Scale())
			w.ecd.Encode(ref, msg.Value, p.LogSlots())
			return noise(ct, ref, lc)
		})
		h.Case("ptxt", fmt.Sprintf("EncryptPtxt %s receiver level %d", in, lc), func() error {
			lp := h.R.Intn(p.QCount())
			sc := math.Exp2(float64(20 + h.R.Intn(30)))
			pt := ckks.NewPlaintext(w.cp, lp, sc)
			vh.Uniform(h.R, r, lp, pt.Value)
			pt.Value.IsNTT = h.R.Intn(2) == 0
			before := vh.Print(pt, pk)
			ct := NewCiphertext(p, set, lc, 17)
			w.enc.EncryptPtxt(pt, pk, ct)
			if before != vh.Print(pt, pk) {
				return fmt.Errorf("the plaintext or the key changed")
			}
			level := lp
			if lc < lp {
				level = lc
			}
			if err := w.shape(ct, []string{id}, level, sc); err != nil {
				return err
			}
			return noise(ct, pt, level)
		})
	}
	h.Done()
}

func TestVH_C02(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p := w.p
		level := h.R.Intn(p.QCount())
		ids := vh.Subset(h.R, vhIDs, 0)
		bits := w.mod(level).BitLen() - 3
		if h.R.Intn(2) == 0 {
			bits = 45
		}
		scale := math.Exp2(float64(bits - 5 - h.R.Intn(20)))
		ct, m := w.small(h, ids, level, scale, bits)
		in := fmt.Sprintf("params %v ciphertext of %v at level %d, phase of %d bits, scale 2^%v", w.s, ids, level, bits, math.Log2(scale))
		have := vhUnion(ids, vh.Subset(h.R, vhIDs, 0))
		drop := ""
		if len(ids) > 0 && h.R.Intn(4) == 0 {
			drop = ids[h.R.Intn(len(ids))]
		}
		set := mkrlwe.NewSecretKeySet()
		for _, id := range have {
			if id != drop {
				set.AddSecretKey(w.sk[id])
			}
		}
		h.Case("decrypt", in+fmt.Sprintf(", keys of %v without %q", have, drop), func() error {
			before := vh.Print(ct, set)
			var got *Message
			ref := vh.Refuses(func() { got = w.dec.Decrypt(ct, set) })
			if before != vh.Print(ct, set) {
				return fmt.Errorf("the ciphertext or the keys changed")
			}
			if ref != (drop != "") {
				return fmt.Errorf("refused: %v", ref)
			}
			if ref {
				return nil
			}
			pt := ckks.NewPlaintext(w.cp, level, scale)
			vh.SetBig(p.RingQ(), level, m, pt.Value)
			pt.Value.IsNTT = false
			want := w.ecd.Decode(pt, p.LogSlots())
			if vh.Shared(got, w.dec, ct) {
				return fmt.Errorf("the message shares storage")
			}
			return vhClose(got.Value, want, 1e-6*math.Exp2(float64(bits))/scale)
		})
		if len(ids) > 0 {
			id := ids[h.R.Intn(len(ids))]
			h.Case("partial", in+", partial decryption of "+id, func() error {
				c := ct.CopyNew()
				w.dec.PartialDecrypt(c, w.sk[id])
				var rest []string
				for _, x := range ids {
					if x != id {
						rest = append(rest, x)
					}
				}
				if err := w.shape(c, rest, level, scale); err != nil {
					return err
				}
				return vh.Equal(w.phase(c, level), m, w.mod(level))
			})
		}
		h.Case("roundtrip", "encrypt and decrypt "+fmt.Sprint(w.s), func() error {
			msg := vhMsg(h, p.Slots(), 10)
			c := w.enc.EncryptMsgNew(msg, w.pk["b"])
			return vhClose(w.dec.Decrypt(c, w.sks).Value, msg.Value, 1e-6)
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C03

func TestVH_C03(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		r := w.p.RingQ()
		l0, l1 := h.R.Intn(w.p.QCount()), h.R.Intn(w.p.QCount())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		s0, s1 := math.Exp2(30), math.Exp2(30)
		switch h.R.Intn(4) {
		case 0:
			s0 *= float64(2 + h.R.Intn(1000))
		case 1:
			s1 *= float64(2+h.R.Intn(1000)) + h.R.Float64()
		case 2:
			s1 *= 1 + h.R.Float64()
		}
		c0, c1 := w.ct(h, i0, l0, s0), w.ct(h, i1, l1, s1)
		if h.R.Intn(8) == 0 {
			c1, i1, l1, s1 = c0, i0, l0, s0
		}
		level := l0
		if l1 < l0 {
			level = l1
		}
		f0, f1 := int64(1), int64(1)
		if s0 > s1 && math.Floor(s0/s1) > 1 {
			f1 = int64(math.Floor(s0 / s1))
		}
		if s1 > s0 && math.Floor(s1/s0) > 1 {
			f0 = int64(math.Floor(s1 / s0))
		}
		for _, sub := range []bool{false, true} {
			name := map[bool]string{false: "AddNew", true: "SubNew"}[sub]
			in := fmt.Sprintf("%s params %v operands %v at %d scale %v, %v at %d scale %v", name, w.s, i0, l0, s0, i1, l1, s1)
			h.Case(name, in, func() error {
				before := vh.Print(c0, c1)
				var o *Ciphertext
				if sub {
					o = w.ev.SubNew(c0, c1)
				} else {
					o = w.ev.AddNew(c0, c1)
				}
				if before != vh.Print(c0, c1) {
					return fmt.Errorf("an operand changed")
				}
				if vh.Shared(o, c0, c1, w.ev) {
					return fmt.Errorf("the result shares storage")
				}
				if err := w.shape(o, vhUnion(i0, i1), level, math.Max(s0, s1)); err != nil {
					return err
				}
				for id, v := range o.Value {
					want := vh.Zero(r.N)
					if c0.Value[id] != nil {
						want = vh.Add(want, vh.Scale(vh.PolyBig(r, level, c0.Value[id], false, false), big.NewInt(f0)))
					}
					if c1.Value[id] != nil {
						f := f1
						if sub {
							f = -f
						}
						want = vh.Add(want, vh.Scale(vh.PolyBig(r, level, c1.Value[id], false, false), big.NewInt(f)))
					}
					if err := vh.Equal(vh.PolyBig(r, level, v, false, false), want, w.mod(level)); err != nil {
						return fmt.Errorf("part %q: %v", id, err)
					}
				}
				return nil
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C05, C09

// tolerance in bits of a product before rescaling
const vhMulBits = 24

func TestVH_C05(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		l0, l1 := h.R.Intn(w.p.QCount()), h.R.Intn(w.p.QCount())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		level := l0
		if l1 < l0 {
			level = l1
		}
		b := (w.mod(level).BitLen() - 12) / 2
		if b > 60 {
			b = 60
		}
		s0, s1 := math.Exp2(float64(25+h.R.Intn(16))), math.Exp2(float64(25+h.R.Intn(16)))
		c0, m0 := w.small(h, i0, l0, s0, b)
		c1, m1 := w.small(h, i1, l1, s1, b)
		if h.R.Intn(5) == 0 {
			c1, i1, l1, s1, m1 = c0, i0, l0, s0, m0
			level = l0
		}
		in := fmt.Sprintf("params %v operands %v at %d scale %v, %v at %d scale %v, same %v", w.s, i0, l0, s0, i1, l1, s1, c0 == c1)
		n, sc := w.rescaled(level, s0*s1, w.p.Scale())
		h.Case("mulrelin", "MulRelinNew "+in, func() error {
			before := vh.Print(c0, c1) + w.keys()
			o := w.ev.MulRelinNew(c0, c1, w.rlk)
			if before != vh.Print(c0, c1)+w.keys() {
				return fmt.Errorf("an operand or a key changed")
			}
			if vh.Shared(o, c0, c1, w.ev, w.rlk) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, vhUnion(i0, i1), level-n, sc); err != nil {
				return err
			}
			want := vh.RoundDiv(vh.Mul(m0, m1), big.NewInt(1), w.top(level, n))
			bits := vhMulBits
			if n > 0 {
				bits = 12
			}
			return vh.Near(w.phase(o, level-n), want, w.mod(level-n), bits)
		})
	}
	h.Done()
}

func TestVH_C09(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		c0, c1 := w.ct(h, i0, level, math.Exp2(40)), w.ct(h, i1, level, math.Exp2(35))
		if h.R.Intn(5) == 0 {
			c1, i1 = c0, i0
		}
		in := fmt.Sprintf("params %v level %d operands %v, %v, same %v", w.s, level, i0, i1, c0 == c1)
		var h0, h1 *mkrlwe.HoistedCiphertext
		h.Case("form", "HoistedForm "+in, func() error {
			before := vh.Print(c0, c1)
			h0, h1 = w.ev.HoistedForm(c0), w.ev.HoistedForm(c1)
			if before != vh.Print(c0, c1) {
				return fmt.Errorf("an operand changed")
			}
			if vh.Shared(h0, c0, w.ev, w.rlk) {
				return fmt.Errorf("the hoisted form shares storage")
			}
			if len(h0.Value) != len(i0) {
				return fmt.Errorf("%d parties", len(h0.Value))
			}
			ks := mkrlwe.NewKeySwitcher(w.p.Parameters)
			for _, id := range i0 {
				ad := mkrlwe.NewSwitchingKey(w.p.Parameters)
				ks.Decompose(level, c0.Value[id], ad)
				for k := 0; k < w.p.Beta(level); k++ {
					if err := vh.SamePoly(w.p.RingQ(), level, ad.Value[k].Q, h0.Value[id].Value[k].Q); err != nil {
						return fmt.Errorf("part %q digit %d: %v", id, k, err)
					}
					if err := vh.SamePoly(w.p.RingP(), w.p.PCount()-1, ad.Value[k].P, h0.Value[id].Value[k].P); err != nil {
						return fmt.Errorf("part %q digit %d: %v", id, k, err)
					}
				}
			}
			return nil
		})
		h.Case("mul", "MulRelinHoistedNew "+in, func() error {
			direct := w.ev.MulRelinNew(c0, c1, w.rlk)
			for m := 0; m < 4; m++ {
				var a, b *mkrlwe.HoistedCiphertext
				if m&1 != 0 {
					a = h0
				}
				if m&2 != 0 {
					b = h1
				}
				before := vh.Print(c0, c1, a, b) + w.keys()
				o := w.ev.MulRelinHoistedNew(c0, c1, a, b, w.rlk)
				if before != vh.Print(c0, c1, a, b)+w.keys() {
					return fmt.Errorf("an operand or a key changed")
				}
				if vh.Shared(o, c0, c1, w.ev, w.rlk, h0, h1) {
					return fmt.Errorf("the result shares storage")
				}
				if err := w.same(o, direct); err != nil {
					return fmt.Errorf("hoisted operands %d: %v", m, err)
				}
			}
			return nil
		})
		k := w.extra
		if h.R.Intn(3) > 0 {
			k = 1 << uint(h.R.Intn(w.p.LogN()-1))
		}
		if h.R.Intn(6) == 0 {
			k = 0
		}
		k += (h.R.Intn(5) - 2) * w.p.N() / 2
		h.Case("rotate", fmt.Sprintf("RotateHoistedNew by %d %s", k, in), func() error {
			before := vh.Print(c0, h0) + w.keys()
			o := w.ev.RotateHoistedNew(c0, k, h0, w.rtk)
			if before != vh.Print(c0, h0)+w.keys() {
				return fmt.Errorf("an operand or a key changed")
			}
			if vh.Shared(o, c0, w.ev, w.rtk, h0) {
				return fmt.Errorf("the result shares storage")
			}
			return w.same(o, w.ev.RotateNew(c0, k, w.rtk))
		})
		if n2 := w.p.N() / 2; n2 > 8 {
			h.Case("rotate-missing", "RotateHoistedNew by 7 "+in, func() error {
				if !vh.Refuses(func() { w.ev.RotateHoistedNew(c0, 7, h0, w.rtk) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C07, C08

func TestVH_C07(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		n2 := w.p.N() / 2
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0, level, math.Exp2(33))
		k := h.R.Intn(5*n2) - 2*n2
		if h.R.Intn(4) == 0 {
			k = n2 * (h.R.Intn(5) - 2)
		}
		in := fmt.Sprintf("params %v level %d operand %v rotation %d", w.s, level, i0, k)
		h.Case("rotate", in, func() error {
			before := vh.Print(c0) + w.keys()
			o := w.ev.RotateNew(c0, k, w.rtk)
			if before != vh.Print(c0)+w.keys() {
				return fmt.Errorf("the operand or a key changed")
			}
			if vh.Shared(o, c0, w.ev, w.rtk) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, i0, level, c0.Scale); err != nil {
				return err
			}
			return vh.Near(w.phase(o, level), vh.Auto(w.phase(c0, level), vh.Gal5(k, w.p.N())), w.mod(level), 16)
		})
		if len(i0) > 0 && k%n2 != 0 {
			h.Case("missing", "without keys "+in, func() error {
				if !vh.Refuses(func() { w.ev.RotateNew(c0, k, mkrlwe.NewRotationKeySet()) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
	}
	h.Case("slots", "rotation of an encrypted message", func() error {
		w := vhWorlds[fmt.Sprint(vh.CKKSSets[0])]
		if w == nil {
			return nil
		}
		msg := vhMsg(h, w.p.Slots(), 1)
		ct := w.enc.EncryptMsgNew(msg, w.pk["a"])
		for k := -w.p.Slots(); k <= w.p.Slots(); k++ {
			got := w.dec.Decrypt(w.ev.RotateNew(ct, k, w.rtk), w.sks)
			want := make([]complex128, len(msg.Value))
			for i := range want {
				want[i] = msg.Value[((i+k)%len(want)+len(want))%len(want)]
			}
			if err := vhClose(got.Value, want, 1e-4); err != nil {
				return fmt.Errorf("rotation %d: %v", k, err)
			}
		}
		return nil
	})
	h.Done()
}

func TestVH_C08(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0, level, math.Exp2(33))
		in := fmt.Sprintf("params %v level %d of %d operand %v", w.s, level, w.p.MaxLevel(), i0)
		h.Case("conjugate", in, func() error {
			before := vh.Print(c0) + w.keys()
			o := w.ev.ConjugateNew(c0, w.cjk)
			if before != vh.Print(c0)+w.keys() {
				return fmt.Errorf("the operand or a key changed")
			}
			if vh.Shared(o, c0, w.ev, w.cjk) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, i0, level, c0.Scale); err != nil {
				return err
			}
			return vh.Near(w.phase(o, level), vh.Auto(w.phase(c0, level), 2*w.p.N()-1), w.mod(level), 14)
		})
		if len(i0) > 0 {
			h.Case("missing", "without keys "+in, func() error {
				if !vh.Refuses(func() { w.ev.ConjugateNew(c0, mkrlwe.NewConjugationKeySet()) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
		if h.R.Intn(10) == 0 {
			h.Case("slots", "conjugation of an encrypted message "+fmt.Sprint(w.s), func() error {
				msg := vhMsg(h, w.p.Slots(), 1)
				ct := w.enc.EncryptMsgNew(msg, w.pk["a"])
				got := w.dec.Decrypt(w.ev.ConjugateNew(ct, w.cjk), w.sks)
				want := make([]complex128, len(msg.Value))
				for i := range want {
					want[i] = cmplx.Conj(msg.Value[i])
				}
				return vhClose(got.Value, want, 1e-4)
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C14, C15

func (w *vhWorld) divided(r *ring.Ring, level, n int, in, out map[string]*ring.Poly) error {
	d := w.top(level, n)
	for id, v := range in {
		want := vh.RoundDiv(vh.PolyBig(r, level, v, false, false), big.NewInt(1), d)
		bits := 0
		if n > 0 {
			bits = 1
		}
		if err := vh.Near(vh.PolyBig(r, level-n, out[id], false, false), want, w.mod(level-n), bits); err != nil {
			return fmt.Errorf("part %q: %v", id, err)
		}
	}
	return nil
}

func TestVH_C14(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		r := w.p.RingQ()
		level := h.R.Intn(w.p.QCount())
		ids := vh.Subset(h.R, vhIDs, 0)
		scale := math.Exp2(float64(10 + h.R.Intn(60*(level+2))))
		min := math.Exp2(float64(5 + h.R.Intn(60)))
		switch h.R.Intn(20) {
		case 0:
			min = 0
		case 1:
			min = -min
		case 2:
			scale = 0
		}
		c0 := w.ct(h, ids, level, scale)
		in := fmt.Sprintf("params %v level %d operand %v scale %v threshold %v", w.s, level, ids, scale, min)
		bad := min <= 0 || scale == 0 || level == 0
		n, sc := w.rescaled(level, scale, min)
		h.Case("rescalenew", "RescaleNew "+in, func() error {
			before := vh.Print(c0)
			o, err := w.ev.RescaleNew(c0, min)
			if before != vh.Print(c0) {
				return fmt.Errorf("the operand changed")
			}
			if (err != nil) != bad {
				return fmt.Errorf("error %v", err)
			}
			if bad {
				return nil
			}
			if vh.Shared(o, c0, w.ev) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, ids, level-n, sc); err != nil {
				return err
			}
			return w.divided(r, level, n, c0.Value, o.Value)
		})
		h.Case("rescale", "Rescale into a receiver "+in, func() error {
			o := w.ct(h, ids, level, 5)
			before, b2 := vh.Print(c0), vh.Print(o)
			err := w.ev.Rescale(c0, min, o)
			if before != vh.Print(c0) {
				return fmt.Errorf("the operand changed")
			}
			if (err != nil) != bad || (bad && b2 != vh.Print(o)) {
				return fmt.Errorf("error %v, receiver unchanged %v", err, b2 == vh.Print(o))
			}
			if bad {
				return nil
			}
			if err := w.shape(o, ids, level-n, sc); err != nil {
				return err
			}
			return w.divided(r, level, n, c0.Value, o.Value)
		})
		h.Case("inplace", "Rescale in place "+in, func() error {
			o := c0.CopyNew()
			err := w.ev.Rescale(o, min, o)
			if (err != nil) != bad || (bad && vh.Print(o) != vh.Print(c0)) {
				return fmt.Errorf("error %v", err)
			}
			if bad {
				return nil
			}
			if err := w.shape(o, ids, level-n, sc); err != nil {
				return err
			}
			return w.divided(r, level, n, c0.Value, o.Value)
		})
		d := h.R.Intn(level + 1)
		h.Case("drop", fmt.Sprintf("DropLevelNew %d %s", d, in), func() error {
			before := vh.Print(c0)
			o := w.ev.DropLevelNew(c0, d)
			if before != vh.Print(c0) || vh.Shared(o, c0, w.ev) {
				return fmt.Errorf("the operand changed or is shared")
			}
			if err := w.shape(o, ids, level-d, scale); err != nil {
				return err
			}
			x := c0.CopyNew()
			w.ev.DropLevel(x, d)
			if err := w.same(x, o); err != nil {
				return err
			}
			for id := range o.Value {
				if err := vh.SamePoly(r, level-d, o.Value[id], c0.Value[id]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	h.Done()
}

func TestVH_C15(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		r := w.p.RingQ()
		l0, lo := h.R.Intn(w.p.QCount()), h.R.Intn(w.p.QCount())
		level := l0
		if lo < l0 {
			level = lo
		}
		ids := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, ids, l0, math.Exp2(30))
		q := float64(r.Modulus[level])
		var c interface{}
		var re, im float64
		frac := func(x float64) bool { return x != math.Trunc(x) }
		num := func() float64 {
			switch h.R.Intn(4) {
			case 0:
				return float64(h.R.Intn(2001) - 1000)
			case 1:
				return float64(h.R.Int63n(1<<40)) * float64(1-2*h.R.Intn(2))
			case 2:
				return 0
			}
			return (2*h.R.Float64() - 1) * float64(int(1)<<uint(h.R.Intn(12)))
		}
		cplx := false
		switch h.R.Intn(5) {
		case 0:
			x := h.R.Intn(100001) - 50000
			c, re = x, float64(x)
		case 1:
			x := h.R.Int63n(1<<50) - 1<<49
			c, re = x, float64(x)
		case 2:
			x := uint64(h.R.Int63n(1 << 50))
			c, re = x, float64(x)
		case 3:
			re = num()
			c = re
		case 4:
			re, im = num(), num()
			c = complex(re, im)
			cplx = im != 0
		}
		sc := 1.0
		if frac(re) || frac(im) {
			sc = q
		}
		// the product of constant and factor may be rounded to double precision on the way
		up := func(x float64) (r []*big.Int) {
			for _, prec := range []uint{53, 200} {
				f := new(big.Float).SetPrec(prec).SetFloat64(math.Abs(x))
				f.Mul(f, new(big.Float).SetPrec(prec).SetFloat64(sc))
				g := new(big.Float).SetPrec(200).Set(f)
				f.Add(f, big.NewFloat(0.5))
				g.Add(g, big.NewFloat(0.5))
				for _, y := range []*big.Float{f, g} {
					i, _ := y.Int(nil)
					if x < 0 {
						i.Neg(i)
					}
					r = append(r, i)
				}
			}
			return
		}
		in := fmt.Sprintf("params %v operand %v at %d, receiver at %d, constant %T %v", w.s, ids, l0, lo, c, c)
		key := "const"
		if cplx {
			key = "complex"
		}
		h.Case(key, "MultByConst "+in, func() error {
			o := w.ct(h, ids, lo, 3)
			before := vh.Print(c0)
			w.ev.MultByConst(c0, c, o)
			if before != vh.Print(c0) {
				return fmt.Errorf("the operand changed")
			}
			if math.Abs(o.Scale-c0.Scale*sc) > 1e-9*c0.Scale*sc {
				return fmt.Errorf("scale %v, expected %v", o.Scale, c0.Scale*sc)
			}
			if fmt.Sprint(vhIdsOf(o)) != fmt.Sprint(ids) {
				return fmt.Errorf("parties %v", vhIdsOf(o))
			}
			k := vh.Zero(r.N)
			var err error
		search:
			for _, a := range up(re) {
				for _, b := range up(im) {
					k[0], k[r.N/2], err = a, b, nil
					for id := range c0.Value {
						want := vh.Mul(vh.PolyBig(r, level, c0.Value[id], false, false), k)
						if e := vh.Equal(vh.PolyBig(r, level, o.Value[id], false, false), want, w.mod(level)); e != nil {
							err = fmt.Errorf("part %q: %v", id, e)
						}
					}
					if err == nil {
						break search
					}
				}
			}
			if err != nil {
				return err
			}
			x := c0.CopyNew()
			w.ev.MultByConst(x, c, x)
			if lo >= l0 {
				for id := range x.Value {
					if err := vh.SamePoly(r, l0, x.Value[id], o.Value[id]); err != nil {
						return fmt.Errorf("in place, part %q: %v", id, err)
					}
				}
			}
			return nil
		})
		h.Case("plaintext", fmt.Sprintf("MulPtxtNew params %v operand %v at %d", w.s, ids, l0), func() error {
			lp := l0 + h.R.Intn(w.p.QCount()-l0)
			pt := ckks.NewPlaintext(w.cp, lp, math.Exp2(float64(10+h.R.Intn(35))))
			m := vh.RandBig(h.R, r.N, 12)
			vh.SetBig(r, lp, m, pt.Value)
			pt.Value.IsNTT = false
			if h.R.Intn(3) == 0 {
				r.NTTLvl(lp, pt.Value, pt.Value)
				pt.Value.IsNTT = true
			}
			before := vh.Print(c0, pt)
			o := w.ev.MulPtxtNew(c0, pt)
			if before != vh.Print(c0, pt) {
				return fmt.Errorf("an operand changed")
			}
			if vh.Shared(o, c0, pt, w.ev) {
				return fmt.Errorf("the result shares storage")
			}
			n, sc := w.rescaled(l0, c0.Scale*pt.Scale, w.p.Scale())
			if err := w.shape(o, ids, l0-n, sc); err != nil {
				return err
			}
			for id, v := range c0.Value {
				prod := vh.Center(vh.Mul(vh.PolyBig(r, l0, v, false, false), m), w.mod(l0))
				bits := 0
				if n > 0 {
					bits = 1
				}
				if err := vh.Near(vh.PolyBig(r, l0-n, o.Value[id], false, false), vh.RoundDiv(prod, big.NewInt(1), w.top(l0, n)), w.mod(l0-n), bits); err != nil {
					return fmt.Errorf("part %q (plaintext NTT %v): %v", id, pt.Value.IsNTT, err)
				}
			}
			return nil
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C18, C19

func TestVH_C18(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := 1 + h.R.Intn(w.p.MaxLevel())
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 1)
		c0, c1 := w.ct(h, i0, level, math.Exp2(41)), w.ct(h, i1, level-h.R.Intn(2), math.Exp2(38))
		pt := ckks.NewPlaintext(w.cp, w.p.MaxLevel(), math.Exp2(30))
		vh.SetBig(w.p.RingQ(), pt.Level(), vh.RandBig(h.R, w.p.N(), 20), pt.Value)
		pt.Value.IsNTT = false
		k := h.R.Intn(w.p.N()) - w.p.N()/2
		if h.R.Intn(5) == 0 {
			k = (h.R.Intn(5) - 2) * w.p.N() / 2
		}
		kh := 0
		if h.R.Intn(3) > 0 {
			kh = 1<<h.R.Intn(w.p.LogN()-1) - h.R.Intn(2)*w.p.N()/2
		}
		fresh := NewEvaluator(w.p)
		ops := []struct {
			n string
			f func(ev *Evaluator) *Ciphertext
		}{
			{"AddNew", func(ev *Evaluator) *Ciphertext { return ev.AddNew(c0, c1) }},
			{"SubNew", func(ev *Evaluator) *Ciphertext { return ev.SubNew(c0, c1) }},
			{"MulRelinNew", func(ev *Evaluator) *Ciphertext { return ev.MulRelinNew(c0, c1, w.rlk) }},
			{"square", func(ev *Evaluator) *Ciphertext { return ev.MulRelinNew(c0, c0, w.rlk) }},
			{"MulPtxtNew", func(ev *Evaluator) *Ciphertext { return ev.MulPtxtNew(c0, pt) }},
			{"RotateNew", func(ev *Evaluator) *Ciphertext { return ev.RotateNew(c1, k, w.rtk) }},
			{"ConjugateNew", func(ev *Evaluator) *Ciphertext { return ev.ConjugateNew(c1, w.cjk) }},
			{fmt.Sprintf("RotateHoistedNew by %d", kh), func(ev *Evaluator) *Ciphertext { return ev.RotateHoistedNew(c1, kh, ev.HoistedForm(c1), w.rtk) }},
			{"MulRelinHoistedNew", func(ev *Evaluator) *Ciphertext {
				return ev.MulRelinHoistedNew(c0, c1, ev.HoistedForm(c0), ev.HoistedForm(c1), w.rlk)
			}},
			{"RescaleNew", func(ev *Evaluator) *Ciphertext { o, _ := ev.RescaleNew(c0, math.Exp2(20)); return o }},
			{"RescaleNew without division", func(ev *Evaluator) *Ciphertext { o, _ := ev.RescaleNew(c0, math.Exp2(50)); return o }},
			{"DropLevelNew", func(ev *Evaluator) *Ciphertext { return ev.DropLevelNew(c0, 1) }},
		}
		for j := 0; j < 4; j++ {
			op := ops[h.R.Intn(len(ops))]
			h.Case(op.n, fmt.Sprintf("%s params %v level %d operands %v, %v, rotation %d, on a used and on a new evaluator", op.n, w.s, level, i0, i1, k), func() error {
				before := vh.Print(c0, c1, pt) + w.keys()
				a := op.f(w.ev)
				if before != vh.Print(c0, c1, pt)+w.keys() {
					return fmt.Errorf("an operand or a key changed")
				}
				if vh.Shared(a, c0, c1, pt, w.ev, w.rlk, w.rtk, w.cjk) {
					return fmt.Errorf("the result shares storage")
				}
				fa := vh.Print(a)
				b := op.f(fresh)
				if err := w.same(a, b); err != nil {
					return err
				}
				w.ev.MulRelinNew(c1, c1, w.rlk)
				w.ev.AddNew(c1, c0)
				if fa != vh.Print(a) {
					return fmt.Errorf("a later operation changed the result")
				}
				return nil
			})
		}
		if h.R.Intn(4) == 0 {
			h.Case("decrypt", fmt.Sprintf("Decrypt params %v level %d operand %v", w.s, level, i0), func() error {
				c, _ := w.small(h, i0, level, math.Exp2(30), w.mod(level).BitLen()-4)
				d, _ := w.small(h, i0, level-1, math.Exp2(30), 40)
				before := vh.Print(c, d, w.sks)
				m1 := w.dec.Decrypt(c, w.sks)
				f := vh.Print(m1)
				w.dec.Decrypt(d, w.sks)
				m2 := w.dec.Decrypt(c, w.sks)
				if before != vh.Print(c, d, w.sks) {
					return fmt.Errorf("an operand changed")
				}
				if f != vh.Print(m1) || f != vh.Print(m2) {
					return fmt.Errorf("decrypting twice gives different messages")
				}
				return nil
			})
		}
	}
	h.Done()
}

func TestVH_C19(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		level := h.R.Intn(w.p.QCount())
		ids := vh.Subset(h.R, vhIDs, 0)
		in := fmt.Sprintf("params %v level %d parties %v", w.s, level, ids)
		h.Case("new", "NewCiphertext "+in, func() error {
			s := mkrlwe.NewIDSet()
			for _, id := range ids {
				s.Add(id)
			}
			ct := NewCiphertext(w.p, s, level, 77)
			for _, v := range ct.Value {
				if vh.MaxAbs(vh.PolyBig(w.p.RingQ(), level, v, false, false)).Sign() != 0 {
					return fmt.Errorf("a part is not zero")
				}
			}
			ct.SetScalingFactor(91)
			if ct.ScalingFactor() != 91 || ct.Scale != 91 {
				return fmt.Errorf("scale accessors")
			}
			return w.shape(ct, ids, level, 91)
		})
		h.Case("copy", "CopyNew "+in, func() error {
			ct := w.ct(h, ids, level, 12.5)
			before := vh.Print(ct)
			c := ct.CopyNew()
			if vh.Print(c) != before || vh.Print(ct) != before || vh.Shared(c, ct) {
				return fmt.Errorf("the copy differs or shares storage")
			}
			return w.shape(c, ids, level, 12.5)
		})
		h.Case("message", "NewMessage "+in, func() error {
			m := NewMessage(w.p)
			if m.Slots() != w.p.Slots() || len(m.Value) != 1<<uint(w.p.LogSlots()) || w.p.LogSlots() != w.cp.LogSlots() || w.p.Scale() != w.cp.Scale() {
				return fmt.Errorf("%d slots", m.Slots())
			}
			for _, x := range m.Value {
				if x != 0 {
					return fmt.Errorf("a new message is not zero")
				}
			}
			return nil
		})
	}
	h.Done()
}
