// Package vh holds what the replay harnesses of all packages share: small parameter sets, exact big-integer
// oracles, fingerprints of operands and the reporting protocol.
package vh

import (
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

var seed = flag.Int64("vh.seed", 1, "seed")
var budget = flag.Float64("vh.budget", 20, "seconds")

// H runs the cases of one harness and reports failing inputs.
type H struct {
	T     *testing.T
	R     *rand.Rand
	name  string
	n     int
	fails map[string]bool
	end   time.Time
	start time.Time
}

func New(t *testing.T) *H {
	h := &H{T: t, R: rand.New(rand.NewSource(*seed)), name: t.Name(), fails: map[string]bool{}, start: time.Now()}
	h.end = h.start.Add(time.Duration(*budget * float64(time.Second)))
	return h
}

// More tells whether the time budget allows another round.
func (h *H) More() bool { return time.Now().Before(h.end) && len(h.fails) < 4 }

// Case runs one case; a panic inside it is a failure of that case.
func (h *H) Case(key, input string, f func() error) {
	h.n++
	if h.fails[key] {
		return
	}
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				where := ""
				for _, l := range st {
					if strings.Contains(l, "/repo/") && !strings.Contains(l, "vh_") && !strings.Contains(l, "/vh/") {
						where = strings.TrimSpace(l)
						break
					}
				}
				err = fmt.Errorf("panic: %v at %s", r, where)
			}
		}()
		return f()
	}()
	if err != nil {
		h.fails[key] = true
		fmt.Printf("VH-FAIL\t%s\t%s\t%s\n", key, input, strings.ReplaceAll(err.Error(), "\n", " "))
	} else if h.n <= 5 {
		fmt.Printf("VH-SAMPLE\t%s\t%s\n", key, input)
	}
}

// Refuses checks that f panics and changes nothing observable through fp.
func Refuses(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = true
		}
	}()
	f()
	return false
}

func (h *H) Done() {
	fmt.Printf("VH-DONE\t%d\n", h.n)
	os.Stdout.Sync()
	if len(h.fails) > 0 {
		h.T.Fail()
	}
}

// ------------------------------------------------------------------ parameter sets

// Set describes a parameter set: bit sizes of the ciphertext and auxiliary primes.
type Set struct {
	LogN       int
	LogQ, LogP []int
}

// CKKSSets: digit sizes 1, 2 and 3, complete and incomplete last groups.
var CKKSSets = []Set{
	{5, []int{55, 40, 40, 40}, []int{56, 56}},
	{5, []int{55, 40, 40, 40, 40}, []int{56, 56, 56, 56}},
	{4, []int{55, 40, 40}, []int{56, 56}},
	{5, []int{55, 40, 40, 40, 40, 40, 40}, []int{56, 56, 56, 56, 56, 56}},
	{6, []int{55, 40}, []int{56, 56}},
}

func Primes(logN int, logs []int, used map[uint64]bool) (ps []uint64) {
	for _, l := range logs {
		c := uint64(1)<<uint(l) + 1
		step := uint64(2) << uint(logN)
		for {
			c -= step
			if !used[c] && new(big.Int).SetUint64(c).ProbablyPrime(20) {
				used[c] = true
				ps = append(ps, c)
				break
			}
		}
	}
	return
}

// ------------------------------------------------------------------ big-integer polynomials

type Big []*big.Int

func Zero(n int) Big {
	r := make(Big, n)
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}

func Modulus(r *ring.Ring, level int) *big.Int {
	m := big.NewInt(1)
	for i := 0; i <= level; i++ {
		m.Mul(m, new(big.Int).SetUint64(r.Modulus[i]))
	}
	return m
}

// PolyBig reconstructs the integer polynomial (centered modulo the product of the primes up to level).
func PolyBig(r *ring.Ring, level int, p *ring.Poly, ntt, mform bool) Big {
	q := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		copy(q.Coeffs[i], p.Coeffs[i])
	}
	if ntt {
		r.InvNTTLvl(level, q, q)
	}
	if mform {
		r.InvMFormLvl(level, q, q)
	}
	return CRT(r.Modulus[:level+1], q.Coeffs)
}

func CRT(mods []uint64, c [][]uint64) Big {
	m := big.NewInt(1)
	for _, q := range mods {
		m.Mul(m, new(big.Int).SetUint64(q))
	}
	out := Zero(len(c[0]))
	for i, q := range mods {
		qb := new(big.Int).SetUint64(q)
		f := new(big.Int).Div(m, qb)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(f, qb), qb)
		f.Mul(f, inv)
		for j := range out {
			out[j].Add(out[j], new(big.Int).Mul(f, new(big.Int).SetUint64(c[i][j]%q)))
		}
	}
	return Center(out, m)
}

func Center(a Big, m *big.Int) Big {
	h := new(big.Int).Rsh(m, 1)
	r := make(Big, len(a))
	for i := range a {
		r[i] = new(big.Int).Mod(a[i], m)
		if r[i].Cmp(h) > 0 {
			r[i].Sub(r[i], m)
		}
	}
	return r
}

func Add(a, b Big) Big {
	r := make(Big, len(a))
	for i := range a {
		r[i] = new(big.Int).Add(a[i], b[i])
	}
	return r
}

func Sub(a, b Big) Big {
	r := make(Big, len(a))
	for i := range a {
		r[i] = new(big.Int).Sub(a[i], b[i])
	}
	return r
}

func Scale(a Big, c *big.Int) Big {
	r := make(Big, len(a))
	for i := range a {
		r[i] = new(big.Int).Mul(a[i], c)
	}
	return r
}

// Mul is the negacyclic product.
func Mul(a, b Big) Big {
	n := len(a)
	r := Zero(n)
	t := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			t.Mul(a[i], b[j])
			if i+j < n {
				r[i+j].Add(r[i+j], t)
			} else {
				r[i+j-n].Sub(r[i+j-n], t)
			}
		}
	}
	return r
}

// Auto is the image under X -> X^g.
func Auto(a Big, g int) Big {
	n := len(a)
	r := Zero(n)
	g = ((g % (2 * n)) + 2*n) % (2 * n)
	for i := range a {
		k := i * g % (2 * n)
		if k < n {
			r[k].Set(a[i])
		} else {
			r[k-n].Neg(a[i])
		}
	}
	return r
}

// Gal5 returns 5^k mod 2n for any integer k.
func Gal5(k, n int) int {
	k = ((k % (n / 2)) + n/2) % (n / 2)
	g := 1
	for i := 0; i < k; i++ {
		g = g * 5 % (2 * n)
	}
	return g
}

func MaxAbs(a Big) *big.Int {
	m := new(big.Int)
	for _, x := range a {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

// RoundDiv is the nearest integer to a*x/y, coefficient by coefficient.
func RoundDiv(a Big, x, y *big.Int) Big {
	r := make(Big, len(a))
	h := new(big.Int).Rsh(y, 1)
	for i := range a {
		t := new(big.Int).Mul(a[i], x)
		t.Add(t, h)
		r[i] = t.Div(t, y)
	}
	return r
}

// Near: |a - b| mod m is at most 2^bits everywhere.
func Near(a, b Big, m *big.Int, bits int) error {
	d := MaxAbs(Center(Sub(a, b), m))
	if d.BitLen() > bits {
		return fmt.Errorf("difference of %d bits, allowed %d", d.BitLen(), bits)
	}
	return nil
}

func Equal(a, b Big, m *big.Int) error {
	d := Center(Sub(a, b), m)
	for i := range d {
		if d[i].Sign() != 0 {
			return fmt.Errorf("coefficient %d differs by %v", i, d[i])
		}
	}
	return nil
}

// SamePoly compares residues of two polynomials modulo the primes up to level.
func SamePoly(r *ring.Ring, level int, a, b *ring.Poly) error {
	if len(a.Coeffs) <= level || len(b.Coeffs) <= level {
		return fmt.Errorf("polynomials have %d and %d primes, level %d expected", len(a.Coeffs), len(b.Coeffs), level)
	}
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j]%q != b.Coeffs[i][j]%q {
				return fmt.Errorf("prime %d coefficient %d: %d and %d", i, j, a.Coeffs[i][j], b.Coeffs[i][j])
			}
		}
	}
	return nil
}

// Uniform fills the polynomial with residues; with probability 1/4 each with extreme ones.
func Uniform(rg *rand.Rand, r *ring.Ring, level int, p *ring.Poly) {
	mode := rg.Intn(4)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := range p.Coeffs[i] {
			switch {
			case mode == 0 && rg.Intn(2) == 0:
				p.Coeffs[i][j] = []uint64{0, 1, q - 1, q >> 1, q>>1 + 1}[rg.Intn(5)]
			default:
				p.Coeffs[i][j] = rg.Uint64() % q
			}
		}
	}
}

func SetBig(r *ring.Ring, level int, a Big, p *ring.Poly) {
	for i := 0; i <= level; i++ {
		q := new(big.Int).SetUint64(r.Modulus[i])
		for j := range a {
			p.Coeffs[i][j] = new(big.Int).Mod(a[j], q).Uint64()
		}
	}
}

func RandBig(rg *rand.Rand, n int, bits int) Big {
	r := Zero(n)
	b := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	for i := range r {
		r[i].Rand(rg, b)
		if rg.Intn(2) == 0 {
			r[i].Neg(r[i])
		}
	}
	return r
}

// Secret returns the integer polynomial of a secret key stored in NTT and Montgomery form and checks that it is
// the same small polynomial under every prime of both chains.
func Secret(ringQ, ringP *ring.Ring, v rlwe.PolyQP) (Big, error) {
	s := PolyBig(ringQ, len(ringQ.Modulus)-1, v.Q, true, true)
	t := PolyBig(ringP, len(ringP.Modulus)-1, v.P, true, true)
	for i := range s {
		if s[i].Cmp(t[i]) != 0 {
			return s, fmt.Errorf("coefficient %d of the secret is %v modulo Q and %v modulo P", i, s[i], t[i])
		}
	}
	return s, nil
}

// Phase computes c0 + sum c_i s_i modulo the product of the first level+1 primes; all parts in the domain ntt.
func Phase(r *ring.Ring, level int, parts map[string]*ring.Poly, ntt bool, secrets map[string]Big) Big {
	ph := PolyBig(r, level, parts["0"], ntt, false)
	for id, p := range parts {
		if id == "0" {
			continue
		}
		ph = Add(ph, Mul(PolyBig(r, level, p, ntt, false), secrets[id]))
	}
	return Center(ph, Modulus(r, level))
}

// ------------------------------------------------------------------ fingerprints and sharing

var skip = map[string]bool{"ring.Ring": true, "rlwe.Parameters": true, "mkckks.Parameters": false, "ring.FastBasisExtender": true}

func walk(v reflect.Value, seen map[uintptr]bool, slice func(reflect.Value), leaf func(string)) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			leaf("nil")
			return
		}
		if seen[v.Pointer()] {
			leaf("seen")
			return
		}
		seen[v.Pointer()] = true
		if skip[v.Elem().Type().String()] {
			return
		}
		walk(v.Elem(), seen, slice, leaf)
	case reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), seen, slice, leaf)
		}
	case reflect.Struct:
		if skip[v.Type().String()] {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), seen, slice, leaf)
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		leaf(fmt.Sprintf("map%d", len(ks)))
		for _, k := range ks {
			leaf(fmt.Sprint(k))
			walk(v.MapIndex(k), seen, slice, leaf)
		}
	case reflect.Slice:
		leaf(fmt.Sprintf("slice%d", v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint64 || v.Type().Elem().Kind() == reflect.Complex128 || v.Type().Elem().Kind() == reflect.Int64 {
			slice(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen, slice, leaf)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen, slice, leaf)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		leaf(fmt.Sprint(v))
	}
}

// Print is a fingerprint of everything reachable from the values.
func Print(xs ...interface{}) string {
	h := fnv.New128a()
	for _, x := range xs {
		walk(reflect.ValueOf(x), map[uintptr]bool{}, func(s reflect.Value) {
			for i := 0; i < s.Len(); i++ {
				fmt.Fprint(h, s.Index(i), ",")
			}
		}, func(s string) { h.Write([]byte(s + ";")) })
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

func storage(x interface{}) map[uintptr]bool {
	r := map[uintptr]bool{}
	walk(reflect.ValueOf(x), map[uintptr]bool{}, func(s reflect.Value) {
		for i := 0; i < s.Cap(); i++ {
			r[s.Slice3(0, 0, s.Cap()).Pointer()+uintptr(i)*8] = true
			break
		}
		if s.Len() > 0 {
			r[s.Index(0).UnsafeAddr()] = true
			r[s.Index(s.Len()-1).UnsafeAddr()] = true
		}
	}, func(string) {})
	return r
}

// Shared tells whether two values share coefficient storage.
func Shared(x interface{}, ys ...interface{}) bool {
	a := storage(x)
	for _, y := range ys {
		for p := range storage(y) {
			if a[p] {
				return true
			}
		}
	}
	return false
}

// Subset picks a random subset, possibly empty unless min is positive.
func Subset(rg *rand.Rand, xs []string, min int) []string {
	for {
		var r []string
		for _, x := range xs {
			if rg.Intn(2) == 0 {
				r = append(r, x)
			}
		}
		if len(r) >= min {
			return r
		}
	}
}
