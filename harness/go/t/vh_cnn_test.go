package cnn

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"mk-lattigo/vh"
)

var vhIDs = []string{"a", "b"}

type vhWorld struct {
	p   mkckks.Parameters
	pk  map[string]*mkrlwe.PublicKey
	sks *mkrlwe.SecretKeySet
	rlk *mkrlwe.RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	ev  *mkckks.Evaluator
	enc *mkckks.Encryptor
	dec *mkckks.Decryptor
}

func vhNew() *vhWorld {
	used := map[uint64]bool{}
	pl := rlwe.ParametersLiteral{LogN: 13, Q: vh.Primes(13, []int{55, 40, 40, 40}, used), P: vh.Primes(13, []int{56, 56}, used), Sigma: 3.2}
	rp, err := rlwe.NewParametersFromLiteral(pl)
	if err != nil {
		panic(err)
	}
	cp, err := ckks.NewParameters(rp, 12, math.Exp2(40))
	if err != nil {
		panic(err)
	}
	w := &vhWorld{p: mkckks.NewParameters(cp), pk: map[string]*mkrlwe.PublicKey{}}
	extra := []int{14, 15}
	for i := 3; i < 31; i++ {
		if i&(i-1) != 0 {
			extra = append(extra, 128*i)
		}
	}
	for _, k := range extra {
		w.p.AddCRS(k)
	}
	kg := mkckks.NewKeyGenerator(w.p)
	w.sks, w.rlk, w.rtk = mkrlwe.NewSecretKeySet(), mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters), mkrlwe.NewRotationKeySet()
	for _, id := range vhIDs {
		sk, pk := kg.GenKeyPair(id)
		w.pk[id] = pk
		w.sks.AddSecretKey(sk)
		w.rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey(id)))
		kg.GenDefaultRotationKeys(sk, w.rtk)
		for _, k := range extra {
			w.rtk.AddRotationKey(kg.GenRotationKey(k, sk))
		}
	}
	w.ev, w.enc, w.dec = mkckks.NewEvaluator(w.p), mkckks.NewEncryptor(w.p), mkckks.NewDecryptor(w.p)
	return w
}

type vec []complex128

func (w *vhWorld) msg(h *vh.H) (vec, *mkckks.Message) {
	m := mkckks.NewMessage(w.p)
	for i := range m.Value {
		m.Value[i] = complex(2*h.R.Float64()-1, 2*h.R.Float64()-1)
	}
	return vec(m.Value), m
}

func (w *vhWorld) ct(h *vh.H) (vec, *mkckks.Ciphertext) {
	v, m := w.msg(h)
	return v, w.enc.EncryptMsgNew(m, w.pk[vhIDs[h.R.Intn(2)]])
}

func rot(v vec, k int) vec {
	r := make(vec, len(v))
	for i := range r {
		r[i] = v[((i+k)%len(v)+len(v))%len(v)]
	}
	return r
}

func add(a, b vec) vec {
	r := make(vec, len(a))
	for i := range r {
		r[i] = a[i] + b[i]
	}
	return r
}

func mul(a, b vec) vec {
	r := make(vec, len(a))
	for i := range r {
		r[i] = a[i] * b[i]
	}
	return r
}

func (w *vhWorld) check(o *mkckks.Ciphertext, want vec) error {
	got := w.dec.Decrypt(o, w.sks).Value
	if len(got) != len(want) {
		return fmt.Errorf("%d slots", len(got))
	}
	for i := range want {
		if cmplx.IsNaN(got[i]) || cmplx.Abs(got[i]-want[i]) > 0.01 {
			return fmt.Errorf("slot %d is %v, expected %v", i, got[i], want[i])
		}
	}
	return nil
}

func TestVH_C20(t *testing.T) {
	h := vh.New(t)
	var w *vhWorld
	h.Case("setup", "keys", func() error { w = vhNew(); return nil })
	for first := true; w != nil && (first || h.More()); first = false {
		ev := w.ev
		img, ci := w.ct(h)
		ks, cks := make([]vec, 4), make([]*mkckks.Ciphertext, 4)
		hks := make([]*mkrlwe.HoistedCiphertext, 4)
		for i := range ks {
			ks[i], cks[i] = w.ct(h)
			hks[i] = ev.HoistedForm(cks[i])
		}
		h.Case("convolution", "random image and kernels of two parties", func() error {
			hi := ev.HoistedForm(ci)
			before := vh.Print(ci, hi, cks, hks)
			o := Convolution(ev, w.rlk, w.rtk, ci, hi, cks, hks)
			if before != vh.Print(ci, hi, cks, hks) {
				return fmt.Errorf("an input changed")
			}
			want := mul(img, ks[0])
			for i, k := range []int{1, 14, 15} {
				want = add(want, mul(rot(img, k), ks[i+1]))
			}
			want = add(want, rot(want, 2048))
			want = add(want, rot(want, 1024))
			return w.check(o, want)
		})
		n := 1 + h.R.Intn(6)
		if first || h.R.Intn(8) == 0 {
			n = 7 + h.R.Intn(25)
		}
		mats, cms, hms := make([]vec, n), make([]*mkckks.Ciphertext, n), make([]*mkrlwe.HoistedCiphertext, n)
		for i := range mats {
			mats[i], cms[i] = w.ct(h)
			hms[i] = ev.HoistedForm(cms[i])
		}
		bias, cb := w.ct(h)
		h.Case("fc1", fmt.Sprintf("random input, matrix of %d rows and bias of two parties", n), func() error {
			hi := ev.HoistedForm(ci)
			before := vh.Print(ci, hi, cms, hms, cb)
			o := FC1Layer(ev, w.rlk, w.rtk, ci, hi, cms, hms, cb)
			if before != vh.Print(ci, hi, cms, hms, cb) {
				return fmt.Errorf("an input changed")
			}
			want := mul(img, mats[0])
			for i := 1; i < n; i++ {
				want = add(want, mul(rot(img, 128*i), mats[i]))
			}
			for k := 1; k < 128; k *= 2 {
				want = add(want, rot(want, k))
			}
			return w.check(o, add(want, bias))
		})
		h.Case("fc2", "random input, matrix, mask and bias of two parties", func() error {
			mask, mm := w.msg(h)
			pm := w.enc.EncodeMsgNew(mm)
			before := vh.Print(ci, cms[0], cb, pm)
			o := FC2Layer(ev, w.rlk, w.rtk, ci, cms[0], cb, pm)
			if before != vh.Print(ci, cms[0], cb, pm) {
				return fmt.Errorf("an input changed")
			}
			want := mul(img, mask)
			for k := 1; k < 16; k *= 2 {
				want = add(want, rot(want, -k))
			}
			want = mul(want, mats[0])
			for k := 128; k < 128*64; k *= 2 {
				want = add(want, rot(want, k))
			}
			return w.check(o, add(want, bias))
		})
	}
	h.Done()
}
