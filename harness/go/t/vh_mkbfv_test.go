package mkbfv

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
	"mk-lattigo/vh"
)

var vhIDs = []string{"a", "b", "cc"}

// digit sizes 1, 2 and 3
var vhSets = []vh.Set{
	{LogN: 5, LogQ: []int{54, 54, 54}, LogP: []int{56, 56}},
	{LogN: 4, LogQ: []int{50, 52, 54, 54}, LogP: []int{56, 56, 56, 56}},
	{LogN: 4, LogQ: []int{54, 54}, LogP: []int{56, 56}},
	{LogN: 5, LogQ: []int{54, 54, 54, 54, 54, 54}, LogP: []int{57, 57, 57, 57, 57, 57}},
}

type vhWorld struct {
	s   vh.Set
	p   Parameters
	bp  bfv.Parameters
	kg  *KeyGenerator
	sk  map[string]*mkrlwe.SecretKey
	r   map[string]*mkrlwe.SecretKey
	pk  map[string]*mkrlwe.PublicKey
	sec map[string]vh.Big
	sks *mkrlwe.SecretKeySet
	rlk *RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
	ev  *Evaluator
	enc *Encryptor
	dec *Decryptor
	ecd bfv.Encoder
}

var vhWorlds = map[string]*vhWorld{}

func vhW(h *vh.H) *vhWorld {
	s := vhSets[h.R.Intn(len(vhSets))]
	if w, ok := vhWorlds[fmt.Sprint(s)]; ok {
		return w
	}
	used := map[uint64]bool{}
	mul := make([]int, len(s.LogQ))
	for i := range mul {
		mul[i] = 55
	}
	w := &vhWorld{s: s, sk: map[string]*mkrlwe.SecretKey{}, r: map[string]*mkrlwe.SecretKey{}, pk: map[string]*mkrlwe.PublicKey{}, sec: map[string]vh.Big{}}
	w.p = NewParametersFromLiteral(ParametersLiteral{LogN: s.LogN, Q: vh.Primes(s.LogN, s.LogQ, used), QMul: vh.Primes(s.LogN, mul, used), P: vh.Primes(s.LogN, s.LogP, used), T: 65537, Sigma: 3.2})
	bp, err := bfv.NewParameters(w.p.Parameters.Parameters, 65537)
	if err != nil {
		panic(err)
	}
	w.bp, w.ecd = bp, bfv.NewEncoder(bp)
	w.p.AddCRS(3)
	w.kg = NewKeyGenerator(w.p)
	w.sks, w.rlk, w.rtk, w.cjk = mkrlwe.NewSecretKeySet(), NewRelinearizationKeyKeySet(w.p), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range vhIDs {
		sk, pk := w.kg.GenKeyPair(id)
		r := w.kg.GenSecretKey(id)
		b, err := vh.Secret(w.p.RingQ(), w.p.RingP(), sk.Value)
		if err != nil {
			panic(err)
		}
		w.sk[id], w.r[id], w.sec[id], w.pk[id] = sk, r, b, pk
		w.sks.AddSecretKey(sk)
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, r))
		w.cjk.AddConjugationKey(w.kg.GenConjugationKey(sk))
		w.kg.GenDefaultRotationKeys(sk, w.rtk)
		w.rtk.AddRotationKey(w.kg.GenRotationKey(3, sk))
	}
	w.ev, w.enc, w.dec = NewEvaluator(w.p), NewEncryptor(w.p), NewDecryptor(w.p)
	vhWorlds[fmt.Sprint(s)] = w
	return w
}

func vhSet(ids []string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

// ct is a ciphertext with uniform parts.
func (w *vhWorld) ct(h *vh.H, ids []string) *Ciphertext {
	ct := NewCiphertext(w.p, vhSet(ids))
	for _, v := range ct.Value {
		vh.Uniform(h.R, w.p.RingQ(), w.p.MaxLevel(), v)
	}
	return ct
}

// with is a ciphertext of uniform parts that has the given phase.
func (w *vhWorld) with(h *vh.H, ids []string, m vh.Big) *Ciphertext {
	ct := w.ct(h, ids)
	r := w.p.RingQ()
	ph := vh.Sub(w.phase(ct), vh.PolyBig(r, w.p.MaxLevel(), ct.Value["0"], false, false))
	vh.SetBig(r, w.p.MaxLevel(), vh.Sub(m, ph), ct.Value["0"])
	return ct
}

func (w *vhWorld) phase(ct *Ciphertext) vh.Big {
	return vh.Phase(w.p.RingQ(), w.p.MaxLevel(), ct.Value, false, w.sec)
}

func (w *vhWorld) q() *big.Int { return w.p.RingQ().ModulusBigint }

func (w *vhWorld) keys() string {
	return vh.Print(w.rlk.Value, w.rtk, w.cjk, w.p.CRS, w.sks)
}

func vhUnion(a, b []string) (r []string) {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return
}

func vhIdsOf(ct *Ciphertext) (r []string) {
	for id := range ct.Value {
		if id != "0" {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return
}

func (w *vhWorld) shape(ct *Ciphertext, ids []string) error {
	if fmt.Sprint(vhIdsOf(ct)) != fmt.Sprint(ids) || len(ct.Value) != len(ids)+1 {
		return fmt.Errorf("parties %v, expected %v", vhIdsOf(ct), ids)
	}
	for id, v := range ct.Value {
		if v.Level() != w.p.MaxLevel() || v.IsNTT {
			return fmt.Errorf("part %q at level %d (NTT %v)", id, v.Level(), v.IsNTT)
		}
	}
	return nil
}

func (w *vhWorld) same(a, b *Ciphertext) error {
	if len(a.Value) != len(b.Value) || a.Level() != b.Level() {
		return fmt.Errorf("parties %v and %v, levels %d and %d", vhIdsOf(a), vhIdsOf(b), a.Level(), b.Level())
	}
	for id := range a.Value {
		if err := vh.SamePoly(w.p.RingQ(), a.Level(), a.Value[id], b.Value[id]); err != nil {
			return fmt.Errorf("part %q: %v", id, err)
		}
	}
	return nil
}

func vhMsg(h *vh.H, n int) *Message {
	m := &Message{Value: make([]int64, n)}
	for i := range m.Value {
		m.Value[i] = h.R.Int63n(65537) - 32768
	}
	return m
}

func vhSame(a, b []int64) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d and %d slots", len(a), len(b))
	}
	for i := range a {
		if (a[i]-b[i])%65537 != 0 {
			return fmt.Errorf("slot %d is %d, expected %d", i, a[i], b[i])
		}
	}
	return nil
}

// scaled returns round(q*m/t) for a random m modulo t, and m.
func (w *vhWorld) scaled(h *vh.H) (vh.Big, vh.Big) {
	m := vh.Zero(w.p.N())
	t := big.NewInt(65537)
	for i := range m {
		m[i].Rand(h.R, t)
	}
	return vh.RoundDiv(m, w.q(), t), m
}

// ------------------------------------------------------------------ C01, C02

func TestVH_C01(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p, r := w.p, w.p.RingQ()
		id := vhIDs[h.R.Intn(3)]
		pk := w.pk[id]
		bound := big.NewInt(int64(19 * (2*p.N() + 1)))
		noise := func(ct *Ciphertext, pt *ring.Poly) error {
			m := vh.PolyBig(r, p.MaxLevel(), pt, pt.IsNTT, false)
			e := vh.MaxAbs(vh.Center(vh.Sub(w.phase(ct), m), w.q()))
			if e.Cmp(bound) > 0 || e.Sign() == 0 {
				return fmt.Errorf("noise of %d bits", e.BitLen())
			}
			return nil
		}
		msg := vhMsg(h, p.N())
		ref := bfv.NewPlaintext(w.bp)
		w.ecd.EncodeInt(msg.Value, ref)
		in := fmt.Sprintf("params %v party %s", w.s, id)
		h.Case("msgnew", "EncryptMsgNew "+in, func() error {
			before := vh.Print(msg, pk)
			ct := w.enc.EncryptMsgNew(msg, pk)
			if before != vh.Print(msg, pk) {
				return fmt.Errorf("the message or the key changed")
			}
			if vh.Shared(ct, msg, pk, w.enc) {
				return fmt.Errorf("the ciphertext shares storage")
			}
			if err := w.shape(ct, []string{id}); err != nil {
				return err
			}
			return noise(ct, ref.Value)
		})
		h.Case("msg", "EncryptMsg "+in, func() error {
			ct := NewCiphertext(p, vhSet([]string{id}))
			w.enc.EncryptMsg(msg, pk, ct)
			if err := w.shape(ct, []string{id}); err != nil {
				return err
			}
			return noise(ct, ref.Value)
		})
		h.Case("ptxt", "EncryptPtxt "+in, func() error {
			pt := bfv.NewPlaintext(w.bp)
			vh.Uniform(h.R, r, p.MaxLevel(), pt.Value)
			pt.Value.IsNTT = h.R.Intn(2) == 0
			before := vh.Print(pt, pk)
			ct := NewCiphertext(p, vhSet([]string{id}))
			w.enc.EncryptPtxt(pt, pk, ct)
			if before != vh.Print(pt, pk) {
				return fmt.Errorf("the plaintext or the key changed")
			}
			if err := w.shape(ct, []string{id}); err != nil {
				return err
			}
			return noise(ct, pt.Value)
		})
	}
	h.Done()
}

func TestVH_C02(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p := w.p
		ids := vh.Subset(h.R, vhIDs, 0)
		m, _ := w.scaled(h)
		if h.R.Intn(2) == 0 {
			m = vh.RandBig(h.R, p.N(), w.q().BitLen()-2)
		}
		ct := w.with(h, ids, m)
		have := vhUnion(ids, vh.Subset(h.R, vhIDs, 0))
		drop := ""
		if len(ids) > 0 && h.R.Intn(4) == 0 {
			drop = ids[h.R.Intn(len(ids))]
		}
		set := mkrlwe.NewSecretKeySet()
		for _, id := range have {
			if id != drop {
				set.AddSecretKey(w.sk[id])
			}
		}
		in := fmt.Sprintf("params %v ciphertext of %v", w.s, ids)
		h.Case("decrypt", in+fmt.Sprintf(", keys of %v without %q", have, drop), func() error {
			before := vh.Print(ct, set)
			var got *Message
			ref := vh.Refuses(func() { got = w.dec.Decrypt(ct, set) })
			if before != vh.Print(ct, set) {
				return fmt.Errorf("the ciphertext or the keys changed")
			}
			if ref != (drop != "") {
				return fmt.Errorf("refused: %v", ref)
			}
			if ref {
				return nil
			}
			pt := bfv.NewPlaintext(w.bp)
			vh.SetBig(p.RingQ(), p.MaxLevel(), m, pt.Value)
			want := NewMessage(p)
			w.ecd.DecodeInt(pt, want.Value)
			if vh.Shared(got, ct, w.dec) {
				return fmt.Errorf("the message shares storage")
			}
			return vhSame(got.Value, want.Value)
		})
		if len(ids) > 0 {
			id := ids[h.R.Intn(len(ids))]
			h.Case("partial", in+", partial decryption of "+id, func() error {
				c := ct.CopyNew()
				w.dec.PartialDecrypt(c, w.sk[id])
				var rest []string
				for _, x := range ids {
					if x != id {
						rest = append(rest, x)
					}
				}
				if err := w.shape(c, rest); err != nil {
					return err
				}
				for _, x := range rest {
					if err := vh.SamePoly(p.RingQ(), p.MaxLevel(), c.Value[x], ct.Value[x]); err != nil {
						return err
					}
				}
				return vh.Equal(w.phase(c), m, w.q())
			})
		}
		if h.R.Intn(10) == 0 {
			h.Case("roundtrip", "encrypt and decrypt "+fmt.Sprint(w.s), func() error {
				msg := vhMsg(h, p.N())
				got := w.dec.Decrypt(w.enc.EncryptMsgNew(msg, w.pk["b"]), w.sks)
				return vhSame(got.Value, msg.Value)
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C04, C06

func TestVH_C04(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		r := w.p.RingQ()
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		c0, c1 := w.ct(h, i0), w.ct(h, i1)
		if h.R.Intn(6) == 0 {
			i1, c1 = i0, c0
		}
		for _, op := range []string{"add", "sub"} {
			h.Case(op, fmt.Sprintf("%sNew params %v operands %v, %v", op, w.s, i0, i1), func() error {
				before := vh.Print(c0, c1)
				var o *Ciphertext
				if op == "add" {
					o = w.ev.AddNew(c0, c1)
				} else {
					o = w.ev.SubNew(c0, c1)
				}
				if before != vh.Print(c0, c1) {
					return fmt.Errorf("an operand changed")
				}
				if vh.Shared(o, c0, c1, w.ev) {
					return fmt.Errorf("the result shares storage")
				}
				if err := w.shape(o, vhUnion(i0, i1)); err != nil {
					return err
				}
				for id, v := range o.Value {
					want := vh.Zero(r.N)
					if x, ok := c0.Value[id]; ok {
						want = vh.Add(want, vh.PolyBig(r, w.p.MaxLevel(), x, false, false))
					}
					if x, ok := c1.Value[id]; ok {
						b := vh.PolyBig(r, w.p.MaxLevel(), x, false, false)
						if op == "add" {
							want = vh.Add(want, b)
						} else {
							want = vh.Sub(want, b)
						}
					}
					if err := vh.Equal(vh.PolyBig(r, w.p.MaxLevel(), v, false, false), want, w.q()); err != nil {
						return fmt.Errorf("part %q: %v", id, err)
					}
				}
				return nil
			})
		}
	}
	h.Done()
}

func (w *vhWorld) product(h *vh.H, i0, i1 []string, f func(a, b *Ciphertext) *Ciphertext) error {
	t := big.NewInt(65537)
	p0, m0 := w.scaled(h)
	p1, m1 := w.scaled(h)
	eb := 8 + h.R.Intn(10)
	c0 := w.with(h, i0, vh.Add(p0, vh.RandBig(h.R, w.p.N(), eb)))
	c1 := w.with(h, i1, vh.Add(p1, vh.RandBig(h.R, w.p.N(), eb)))
	if h.R.Intn(5) == 0 {
		i1, c1, m1 = i0, c0, m0
	}
	before := vh.Print(c0, c1) + w.keys()
	o := f(c0, c1)
	if before != vh.Print(c0, c1)+w.keys() {
		return fmt.Errorf("an operand or a key changed")
	}
	if vh.Shared(o, c0, c1, w.ev, w.rlk) {
		return fmt.Errorf("the result shares storage")
	}
	if err := w.shape(o, vhUnion(i0, i1)); err != nil {
		return err
	}
	want := vh.RoundDiv(vh.Center(vh.Mul(m0, m1), t), w.q(), t)
	// plaintext modulus * noise * overflow of the phases over the integers, plus gadget noise
	return vh.Near(w.phase(o), want, w.q(), 16+eb+2*w.s.LogN+6)
}

func TestVH_C06(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 0)
		in := fmt.Sprintf("params %v operands %v, %v", w.s, i0, i1)
		h.Case("mulrelin", "MulRelinNew "+in, func() error {
			return w.product(h, i0, i1, func(a, b *Ciphertext) *Ciphertext { return w.ev.MulRelinNew(a, b, w.rlk) })
		})
		h.Case("plain", "mulRelin "+in, func() error {
			return w.product(h, i0, i1, func(a, b *Ciphertext) *Ciphertext {
				o := w.ev.newCiphertextBinary(a, b)
				w.ev.mulRelin(a, b, w.rlk, o)
				return o
			})
		})
		if h.R.Intn(10) == 0 {
			h.Case("slots", "product of encrypted messages "+fmt.Sprint(w.s), func() error {
				a, b := vhMsg(h, w.p.N()), vhMsg(h, w.p.N())
				got := w.dec.Decrypt(w.ev.MulRelinNew(w.enc.EncryptMsgNew(a, w.pk["a"]), w.enc.EncryptMsgNew(b, w.pk["cc"]), w.rlk), w.sks)
				for i := range a.Value {
					d := (got.Value[i] - a.Value[i]*b.Value[i]) % 65537
					if d != 0 {
						return fmt.Errorf("slot %d: %d * %d gives %d", i, a.Value[i], b.Value[i], got.Value[i])
					}
				}
				return nil
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C07, C08

func TestVH_C07(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		n2 := w.p.N() / 2
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0)
		k := h.R.Intn(5*n2) - 2*n2
		if h.R.Intn(4) == 0 {
			k = n2 * (h.R.Intn(5) - 2)
		}
		in := fmt.Sprintf("params %v operand %v rotation %d", w.s, i0, k)
		h.Case("rotate", in, func() error {
			before := vh.Print(c0) + w.keys()
			o := w.ev.RotateNew(c0, k, w.rtk)
			if before != vh.Print(c0)+w.keys() {
				return fmt.Errorf("the operand or a key changed")
			}
			if vh.Shared(o, c0, w.ev, w.rtk) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, i0); err != nil {
				return err
			}
			return vh.Near(w.phase(o), vh.Auto(w.phase(c0), vh.Gal5(k, w.p.N())), w.q(), 16)
		})
		if len(i0) > 0 && k%n2 != 0 {
			h.Case("missing", "without keys "+in, func() error {
				if !vh.Refuses(func() { w.ev.RotateNew(c0, k, mkrlwe.NewRotationKeySet()) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
		if h.R.Intn(10) == 0 {
			h.Case("slots", fmt.Sprintf("rotation by %d of an encrypted message, params %v", k, w.s), func() error {
				msg := vhMsg(h, w.p.N())
				got := w.dec.Decrypt(w.ev.RotateNew(w.enc.EncryptMsgNew(msg, w.pk["a"]), k, w.rtk), w.sks)
				want := make([]int64, w.p.N())
				for i := range want {
					want[i] = msg.Value[i/n2*n2+((i%n2+k)%n2+n2)%n2]
				}
				return vhSame(got.Value, want)
			})
		}
	}
	h.Done()
}

func TestVH_C08(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		n2 := w.p.N() / 2
		i0 := vh.Subset(h.R, vhIDs, 0)
		c0 := w.ct(h, i0)
		in := fmt.Sprintf("params %v operand %v", w.s, i0)
		h.Case("conjugate", in, func() error {
			before := vh.Print(c0) + w.keys()
			o := w.ev.ConjugateNew(c0, w.cjk)
			if before != vh.Print(c0)+w.keys() {
				return fmt.Errorf("the operand or a key changed")
			}
			if vh.Shared(o, c0, w.ev, w.cjk) {
				return fmt.Errorf("the result shares storage")
			}
			if err := w.shape(o, i0); err != nil {
				return err
			}
			return vh.Near(w.phase(o), vh.Auto(w.phase(c0), 2*w.p.N()-1), w.q(), 14)
		})
		if len(i0) > 0 {
			h.Case("missing", "without keys "+in, func() error {
				if !vh.Refuses(func() { w.ev.ConjugateNew(c0, mkrlwe.NewConjugationKeySet()) }) {
					return fmt.Errorf("not refused")
				}
				return nil
			})
		}
		if h.R.Intn(10) == 0 {
			h.Case("slots", fmt.Sprintf("conjugation of an encrypted message, params %v", w.s), func() error {
				msg := vhMsg(h, w.p.N())
				got := w.dec.Decrypt(w.ev.ConjugateNew(w.enc.EncryptMsgNew(msg, w.pk["a"]), w.cjk), w.sks)
				want := make([]int64, w.p.N())
				for i := range want {
					want[i] = msg.Value[(i+n2)%len(want)]
				}
				return vhSame(got.Value, want)
			})
		}
	}
	h.Done()
}

// ------------------------------------------------------------------ C11, C13

// qp reconstructs a polynomial over both bases (stored in NTT and Montgomery form).
func (w *vhWorld) qp(v rlwe.PolyQP) vh.Big {
	q, p := w.p.RingQ(), w.p.RingP()
	a, b := v.Q.CopyNew(), v.P.CopyNew()
	q.InvNTT(a, a)
	q.InvMForm(a, a)
	p.InvNTT(b, b)
	p.InvMForm(b, b)
	return vh.CRT(append(append([]uint64{}, q.Modulus...), p.Modulus...), append(append([][]uint64{}, a.Coeffs...), b.Coeffs...))
}

func TestVH_C11(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p := w.p
		P := p.RingP().ModulusBigint
		QP := new(big.Int).Mul(w.q(), P)
		QM := p.RingQMul().ModulusBigint
		R := new(big.Int).Mul(w.q(), QM)
		alpha, beta := p.Alpha(), p.Beta(p.MaxLevel())
		group := func(ms []uint64, k int) *big.Int {
			g := big.NewInt(1)
			for j := k * alpha; j < (k+1)*alpha; j++ {
				g.Mul(g, new(big.Int).SetUint64(ms[j]))
			}
			return g
		}
		factor := func(ms []uint64, k int) *big.Int {
			gi := group(ms, k)
			f := new(big.Int).Div(R, gi)
			f.Mul(f, new(big.Int).ModInverse(f, gi))
			f.Mul(f, big.NewInt(65537))
			f.Mul(f, P)
			return f.Div(f, QM)
		}
		g := func(k int) *big.Int {
			gi := group(p.RingQ().Modulus, k)
			f := new(big.Int).Div(w.q(), gi)
			f.Mul(f, new(big.Int).ModInverse(f, gi))
			return f.Mul(f, P)
		}
		h.Case("relin", fmt.Sprintf("relinearization key, params %v", w.s), func() error {
			sk, r := w.kg.GenSecretKey("x"), w.kg.GenSecretKey("x")
			before := vh.Print(sk, r, p.CRS)
			rlk := w.kg.GenRelinearizationKey(sk, r)
			if before != vh.Print(sk, r, p.CRS) {
				return fmt.Errorf("a secret or the reference string changed")
			}
			if vh.Shared(rlk, sk, r, p.CRS, w.kg) {
				return fmt.Errorf("the key shares storage")
			}
			if rlk.ID != "x" || rlk.Value[0].ID != "x" || rlk.Value[1].ID != "x" {
				return fmt.Errorf("party ids %q %q %q", rlk.ID, rlk.Value[0].ID, rlk.Value[1].ID)
			}
			s, err := vh.Secret(p.RingQ(), p.RingP(), sk.Value)
			if err != nil {
				return err
			}
			rr, err := vh.Secret(p.RingQ(), p.RingP(), r.Value)
			if err != nil {
				return err
			}
			seen := map[string]string{}
			small := func(what string, e vh.Big) error {
				e = vh.Center(e, QP)
				m := vh.MaxAbs(e)
				if m.Cmp(big.NewInt(22)) > 0 || m.Sign() == 0 {
					return fmt.Errorf("%s: error of %d bits", what, m.BitLen())
				}
				if o, ok := seen[fmt.Sprint(e)]; ok {
					return fmt.Errorf("%s: same error as %s", what, o)
				}
				seen[fmt.Sprint(e)] = what
				return nil
			}
			u := p.CRS[-1]
			for k := 0; k < beta; k++ {
				for half, idx := range []int{0, -3} {
					a := w.qp(p.CRS[idx].Value[k])
					ms := p.RingQ().Modulus
					if half == 1 {
						ms = p.RingQMul().Modulus
					}
					b, d := w.qp(rlk.Value[half].Value[0].Value[k]), w.qp(rlk.Value[half].Value[1].Value[k])
					if err := small(fmt.Sprintf("b%d digit %d", half, k), vh.Add(b, vh.Mul(s, a))); err != nil {
						return err
					}
					if err := small(fmt.Sprintf("d%d digit %d", half, k), vh.Sub(vh.Add(d, vh.Mul(rr, a)), vh.Scale(s, factor(ms, k)))); err != nil {
						return err
					}
				}
				v := w.qp(rlk.Value[0].Value[2].Value[k])
				if err := small(fmt.Sprintf("v digit %d", k), vh.Add(vh.Add(v, vh.Mul(s, w.qp(u.Value[k]))), vh.Scale(rr, g(k)))); err != nil {
					return err
				}
			}
			return nil
		})
	}
	h.Done()
}

func TestVH_C13(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		p := w.p
		rq, rm, rr := p.RingQ(), p.RingQMul(), p.RingR()
		conv := w.ev.conv
		l := p.MaxLevel()
		R := rr.ModulusBigint
		QM := rm.ModulusBigint
		in := fmt.Sprintf("params %v", w.s)
		x := rq.NewPoly()
		vh.Uniform(h.R, rq, l, x)
		xb := vh.PolyBig(rq, l, x, false, false)
		h.Case("lift", "ModUpQtoR "+in, func() error {
			o := rr.NewPoly()
			vh.Uniform(h.R, rr, 2*l+1, o)
			before := vh.Print(x)
			conv.ModUpQtoR(x, o)
			if before != vh.Print(x) || vh.Shared(o, x, conv) {
				return fmt.Errorf("the input changed or is shared")
			}
			if err := vh.SamePoly(rq, l, x, o); err != nil {
				return err
			}
			d := vh.Sub(vh.PolyBig(rr, 2*l+1, o, false, false), xb)
			for i := range d {
				k, m := new(big.Int).QuoRem(d[i], w.q(), new(big.Int))
				if m.Sign() != 0 || k.CmpAbs(big.NewInt(1)) > 0 {
					return fmt.Errorf("coefficient %d: the lift differs by %v", i, d[i])
				}
			}
			return nil
		})
		h.Case("rescale", "Rescale "+in, func() error {
			o := rr.NewPoly()
			vh.Uniform(h.R, rr, 2*l+1, o)
			before := vh.Print(x)
			conv.Rescale(x, o)
			if before != vh.Print(x) || vh.Shared(o, x, conv) {
				return fmt.Errorf("the input changed or is shared")
			}
			got := vh.PolyBig(rr, 2*l+1, o, false, false)
			want := vh.RoundDiv(xb, QM, w.q())
			for i := range got {
				// the representative of x modulo Q decides the one of the result modulo QMul
				if got[i].CmpAbs(QM) > 0 {
					return fmt.Errorf("coefficient %d: the result is larger than QMul", i)
				}
			}
			return vh.Near(got, want, QM, 1)
		})
		h.Case("quantize", "Quantize "+in, func() error {
			y := rr.NewPoly()
			vh.Uniform(h.R, rr, 2*l+1, y)
			if h.R.Intn(2) == 0 {
				vh.SetBig(rr, 2*l+1, vh.RandBig(h.R, rr.N, h.R.Intn(R.BitLen()-2)), y)
			}
			yb := vh.PolyBig(rr, 2*l+1, y, false, false)
			rr.NTT(y, y)
			before := vh.Print(y)
			o := rq.NewPoly()
			t := uint64(1 + h.R.Intn(70000))
			conv.Quantize(y, o, t)
			if before != vh.Print(y) || vh.Shared(o, y, conv) {
				return fmt.Errorf("the input changed or is shared")
			}
			return vh.Near(vh.PolyBig(rq, l, o, false, false), vh.RoundDiv(yb, new(big.Int).SetUint64(t), QM), w.q(), 1)
		})
	}
	h.Done()
}

// ------------------------------------------------------------------ C16, C18, C19

func TestVH_C16(t *testing.T) {
	h := vh.New(t)
	w := vhW(h)
	ids := []string{"a", "b", "cc", "d"}
	for h.More() {
		seed := h.R.Int63()
		h.Case("keyset", fmt.Sprintf("random operations on a relinearization key collection, seed %d", seed), func() error {
			set := NewRelinearizationKeyKeySet(w.p)
			m := map[string]*RelinearizationKey{}
			for step := 0; step < 12; step++ {
				id := ids[h.R.Intn(4)]
				if h.R.Intn(3) > 0 {
					x := NewRelinearizationKey(w.p, id)
					if x.ID != id || x.Value[0].ID != id || x.Value[1].ID != id {
						return fmt.Errorf("a new key of %q has another id", id)
					}
					set.AddRelinearizationKey(x)
					m[id] = x
				} else {
					set.DelRelinearizationKey(id)
					delete(m, id)
				}
				if len(set.Value) != len(m) {
					return fmt.Errorf("step %d: %d keys, expected %d", step, len(set.Value), len(m))
				}
				for _, id := range ids {
					var c *RelinearizationKey
					if r := vh.Refuses(func() { c = set.GetRelinearizationKey(id) }); r != (m[id] == nil) || c != m[id] {
						return fmt.Errorf("step %d: wrong relinearization key of %q", step, id)
					}
				}
			}
			return nil
		})
	}
	h.Done()
}

func TestVH_C18(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		i0, i1 := vh.Subset(h.R, vhIDs, 0), vh.Subset(h.R, vhIDs, 1)
		c0, c1 := w.ct(h, i0), w.ct(h, i1)
		k := h.R.Intn(w.p.N()) - w.p.N()/2
		if h.R.Intn(5) == 0 {
			k = (h.R.Intn(5) - 2) * w.p.N() / 2
		}
		fresh := NewEvaluator(w.p)
		ops := []struct {
			n string
			f func(ev *Evaluator) *Ciphertext
		}{
			{"AddNew", func(ev *Evaluator) *Ciphertext { return ev.AddNew(c0, c1) }},
			{"SubNew", func(ev *Evaluator) *Ciphertext { return ev.SubNew(c0, c1) }},
			{"MulRelinNew", func(ev *Evaluator) *Ciphertext { return ev.MulRelinNew(c0, c1, w.rlk) }},
			{"square", func(ev *Evaluator) *Ciphertext { return ev.MulRelinNew(c1, c1, w.rlk) }},
			{"RotateNew", func(ev *Evaluator) *Ciphertext { return ev.RotateNew(c1, k, w.rtk) }},
			{"ConjugateNew", func(ev *Evaluator) *Ciphertext { return ev.ConjugateNew(c1, w.cjk) }},
		}
		for j := 0; j < 3; j++ {
			op := ops[h.R.Intn(len(ops))]
			h.Case(op.n, fmt.Sprintf("%s params %v operands %v, %v, rotation %d, on a used and on a new evaluator", op.n, w.s, i0, i1, k), func() error {
				before := vh.Print(c0, c1) + w.keys()
				a := op.f(w.ev)
				if before != vh.Print(c0, c1)+w.keys() {
					return fmt.Errorf("an operand or a key changed")
				}
				if vh.Shared(a, c0, c1, w.ev, w.rlk, w.rtk, w.cjk) {
					return fmt.Errorf("the result shares storage")
				}
				fa := vh.Print(a)
				b := op.f(fresh)
				if err := w.same(a, b); err != nil {
					return err
				}
				w.ev.MulRelinNew(c1, c1, w.rlk)
				w.ev.AddNew(c1, c0)
				if fa != vh.Print(a) {
					return fmt.Errorf("a later operation changed the result")
				}
				return nil
			})
		}
		if h.R.Intn(4) == 0 {
			h.Case("decrypt", fmt.Sprintf("Decrypt params %v operands %v, %v", w.s, i0, i1), func() error {
				before := vh.Print(c0, c1, w.sks)
				m1 := w.dec.Decrypt(c0, w.sks)
				f := vh.Print(m1)
				w.dec.Decrypt(c1, w.sks)
				m2 := w.dec.Decrypt(c0, w.sks)
				if before != vh.Print(c0, c1, w.sks) {
					return fmt.Errorf("an operand changed")
				}
				if f != vh.Print(m1) || f != vh.Print(m2) {
					return fmt.Errorf("decrypting twice gives different messages")
				}
				return nil
			})
		}
	}
	h.Done()
}

func TestVH_C19(t *testing.T) {
	h := vh.New(t)
	for h.More() {
		w := vhW(h)
		ids := vh.Subset(h.R, vhIDs, 0)
		in := fmt.Sprintf("params %v parties %v", w.s, ids)
		h.Case("new", "NewCiphertext "+in, func() error {
			for _, ntt := range []bool{false, true} {
				ct := NewCiphertext(w.p, vhSet(ids))
				if ntt {
					ct = NewCiphertextNTT(w.p, vhSet(ids))
				}
				for _, v := range ct.Value {
					if vh.MaxAbs(vh.PolyBig(w.p.RingQ(), w.p.MaxLevel(), v, false, false)).Sign() != 0 {
						return fmt.Errorf("a part is not zero")
					}
					if v.IsNTT != ntt {
						return fmt.Errorf("domain flag %v", v.IsNTT)
					}
					v.IsNTT = false
				}
				if err := w.shape(ct, ids); err != nil {
					return err
				}
			}
			return nil
		})
		h.Case("copy", "CopyNew "+in, func() error {
			ct := w.ct(h, ids)
			before := vh.Print(ct)
			c := ct.CopyNew()
			if vh.Print(c) != before || vh.Print(ct) != before || vh.Shared(c, ct) {
				return fmt.Errorf("the copy differs or shares storage")
			}
			return w.shape(c, ids)
		})
		h.Case("message", "NewMessage "+in, func() error {
			m := NewMessage(w.p)
			if m.Slots() != w.p.N() || len(m.Value) != w.p.N() {
				return fmt.Errorf("%d slots", m.Slots())
			}
			for _, x := range m.Value {
				if x != 0 {
					return fmt.Errorf("a new message is not zero")
				}
			}
			return nil
		})
	}
	h.Done()
}
