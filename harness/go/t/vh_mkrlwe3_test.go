package mkrlwe

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/vh"
)

// quotient a/b modulo one prime, in the coefficient domain (b must have no zero in the evaluation domain)
func vhQuot(r *ring.Ring, a, b *ring.Poly) (vh.Big, bool) {
	q := new(big.Int).SetUint64(r.Modulus[0])
	x, y := r.NewPolyLvl(0), r.NewPolyLvl(0)
	copy(x.Coeffs[0], a.Coeffs[0])
	copy(y.Coeffs[0], b.Coeffs[0])
	for i := range x.Coeffs[0] {
		inv := new(big.Int).ModInverse(new(big.Int).SetUint64(y.Coeffs[0][i]), q)
		if inv == nil {
			return nil, false
		}
		inv.Mul(inv, new(big.Int).SetUint64(x.Coeffs[0][i]))
		x.Coeffs[0][i] = inv.Mod(inv, q).Uint64()
	}
	return vh.PolyBig(r, 0, x, true, false), true
}

func vhTern(b vh.Big) bool { return vh.MaxAbs(b).Cmp(big.NewInt(1)) <= 0 }

func TestVH_C01(t *testing.T) {
	h := vh.New(t)
	encs := map[string]*Encryptor{}
	for h.More() {
		w := vhW(h)
		p, r := w.p, w.p.RingQ()
		key := fmt.Sprint(w.s)
		if encs[key] == nil || h.R.Intn(20) == 0 {
			encs[key] = NewEncryptor(p)
		}
		enc := encs[key]
		id := vhIDs[h.R.Intn(3)]
		lp, lc := h.R.Intn(p.QCount()), h.R.Intn(p.QCount())
		level := lp
		if lc < lp {
			level = lc
		}
		dp, dc := h.R.Intn(2) == 0, h.R.Intn(2) == 0
		in := fmt.Sprintf("params %v plaintext level %d NTT %v, receiver level %d NTT %v, party %s", w.s, lp, dp, lc, dc, id)
		h.Case("encrypt", in, func() error {
			sk := w.sk[id]
			pk := w.kg.GenPublicKey(sk)
			pt := rlwe.NewPlaintext(p.Parameters, lp)
			vh.Uniform(h.R, r, lp, pt.Value)
			m := vh.PolyBig(r, level, pt.Value, dp, false)
			pt.Value.IsNTT = dp
			set := NewIDSet()
			set.Add(id)
			run := func() (*Ciphertext, error) {
				ct := NewCiphertext(p, set, lc)
				for _, v := range ct.Value {
					vh.Uniform(h.R, r, lc, v)
					v.IsNTT = dc
				}
				before := vh.Print(pt, pk, p.CRS)
				enc.Encrypt(pt, pk, ct)
				if before != vh.Print(pt, pk, p.CRS) {
					return nil, fmt.Errorf("the plaintext or the key changed")
				}
				if len(ct.Value) != 2 || ct.Value["0"] == nil || ct.Value[id] == nil {
					return nil, fmt.Errorf("parts of %v", vhIdsOf(ct))
				}
				for i, v := range ct.Value {
					if v.Level() != level || v.IsNTT != dc {
						return nil, fmt.Errorf("part %q at level %d NTT %v", i, v.Level(), v.IsNTT)
					}
				}
				if vh.Shared(ct, pt, pk, enc) || vh.Shared(ct.Value["0"], ct.Value[id]) {
					return nil, fmt.Errorf("the ciphertext shares storage")
				}
				return ct, nil
			}
			ct, err := run()
			if err != nil {
				return err
			}
			ph := vh.Phase(r, level, ct.Value, dc, w.sec)
			e := vh.Center(vh.Sub(ph, m), vh.Modulus(r, level))
			if vh.MaxAbs(e).Cmp(big.NewInt(int64(19*(2*p.N()+1)))) > 0 {
				return fmt.Errorf("noise of %d bits", vh.MaxAbs(e).BitLen())
			}
			if vh.MaxAbs(e).Sign() == 0 {
				return fmt.Errorf("the noise is zero")
			}
			ct2, err := run()
			if err != nil {
				return err
			}
			if vh.SamePoly(r, level, ct.Value[id], ct2.Value[id]) == nil {
				return fmt.Errorf("two encryptions are equal")
			}
			// the parts are u pk + e with fresh ternary u and nonzero e: neither u nor e may be missing
			q0 := vh.Modulus(r, 0)
			c1 := r.NewPolyLvl(0)
			vh.SetBig(r, 0, vh.PolyBig(r, level, ct.Value[id], dc, false), c1)
			c0 := r.NewPolyLvl(0)
			vh.SetBig(r, 0, vh.Center(vh.Sub(vh.PolyBig(r, level, ct.Value["0"], dc, false), m), vh.Modulus(r, level)), c0)
			if vh.MaxAbs(vh.PolyBig(r, 0, c1, false, false)).BitLen() < q0.BitLen()/2 {
				return fmt.Errorf("the party's part is not masked")
			}
			r.NTTLvl(0, c0, c0)
			r.NTTLvl(0, c1, c1)
			if u, ok := vhQuot(r, c1, pk.Value[1].Q); ok && vhTern(u) {
				return fmt.Errorf("the party's part has no error")
			}
			if u, ok := vhQuot(r, c0, pk.Value[0].Q); ok && vhTern(u) {
				return fmt.Errorf("the common part has no error")
			}
			d := r.NewPolyLvl(0)
			r.SubLvl(0, c0, c1, d)
			s1 := r.NewPolyLvl(0)
			r.SubLvl(0, pk.Value[0].Q, pk.Value[1].Q, s1)
			if u, ok := vhQuot(r, d, s1); ok && vhTern(u) {
				return fmt.Errorf("both parts have the same error")
			}
			return nil
		})
	}
	h.Done()
}

func TestVH_C02(t *testing.T) {
	h := vh.New(t)
	decs := map[string]*Decryptor{}
	for h.More() {
		w := vhW(h)
		p, r := w.p, w.p.RingQ()
		key := fmt.Sprint(w.s)
		if decs[key] == nil {
			decs[key] = NewDecryptor(p)
		}
		dec := decs[key]
		lc, lp := h.R.Intn(p.QCount()), h.R.Intn(p.QCount())
		level := lp
		if lc < lp {
			level = lc
		}
		ids := vh.Subset(h.R, vhIDs, 0)
		ct := w.ct(h, ids, lc)
		ntt := h.R.Intn(2) == 0
		for _, v := range ct.Value {
			v.IsNTT = ntt
		}
		in := fmt.Sprintf("params %v ciphertext of %v at level %d NTT %v, plaintext level %d", w.s, ids, lc, ntt, lp)
		have := vhUnion(ids, vh.Subset(h.R, vhIDs, 0))
		drop := ""
		if len(ids) > 0 && h.R.Intn(3) == 0 {
			drop = ids[h.R.Intn(len(ids))]
		}
		set := NewSecretKeySet()
		for _, id := range have {
			if id != drop {
				set.AddSecretKey(w.sk[id])
			}
		}
		h.Case("decrypt", in+fmt.Sprintf(", keys of %v without %q", have, drop), func() error {
			pt := rlwe.NewPlaintext(p.Parameters, lp)
			vh.Uniform(h.R, r, lp, pt.Value)
			before := vh.Print(ct, set)
			ref := vh.Refuses(func() { dec.Decrypt(ct, set, pt) })
			if before != vh.Print(ct, set) {
				return fmt.Errorf("the ciphertext or the keys changed")
			}
			if drop != "" {
				if !ref {
					return fmt.Errorf("decryption without the key of %q was not refused", drop)
				}
				return nil
			}
			if ref {
				return fmt.Errorf("decryption was refused")
			}
			if pt.Level() != level {
				return fmt.Errorf("plaintext at level %d", pt.Level())
			}
			for j := 0; j <= level; j++ {
				for _, x := range pt.Value.Coeffs[j] {
					if x >= r.Modulus[j] {
						return fmt.Errorf("the plaintext is not reduced")
					}
				}
			}
			return vh.Equal(vh.PolyBig(r, level, pt.Value, ntt, false), vh.Phase(r, level, ct.Value, ntt, w.sec), vh.Modulus(r, level))
		})
		if len(ids) > 0 {
			id := ids[h.R.Intn(len(ids))]
			h.Case("partial", in+", partial decryption of "+id, func() error {
				c := ct.CopyNew()
				dec.PartialDecrypt(c, w.sk[id])
				var rest []string
				for _, x := range ids {
					if x != id {
						rest = append(rest, x)
						if vh.Print(c.Value[x]) != vh.Print(ct.Value[x]) {
							return fmt.Errorf("part %q changed", x)
						}
					}
				}
				if fmt.Sprint(vhIdsOf(c)) != fmt.Sprint(rest) {
					return fmt.Errorf("parts %v remain", vhIdsOf(c))
				}
				return vh.Equal(vh.Phase(r, lc, c.Value, ntt, w.sec), vh.Phase(r, lc, ct.Value, ntt, w.sec), vh.Modulus(r, lc))
			})
		}
	}
	h.Done()
}
