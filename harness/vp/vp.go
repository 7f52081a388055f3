// Package vp is the interface between harnesses and the symbolic engine. The engine intercepts every
// function of this package; compiled natively (for replay) the functions below run with concrete values.
package vp

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"os"
	"reflect"
	"sort"
	"strconv"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ring"
)

// State of a native run, set by the replay driver.
var (
	ReplayChoices []int
	ReplayVals    map[string]string
	ReplayMode    string
	ReplaySeed    uint64
	ReplayTier    int
	pos           int
	Fails         []string
)

func Reset() { pos = 0; Fails = nil; freshCalls = 0 }

func fail(label, format string, a ...interface{}) {
	if len(Fails) < 20 {
		Fails = append(Fails, label+": "+fmt.Sprintf(format, a...))
	}
}

// Pick returns each of 0..n-1; the engine explores all of them.
func Pick(name string, n int) int {
	if pos < len(ReplayChoices) {
		v := ReplayChoices[pos]
		pos++
		return v
	}
	pos++
	return 0
}

// Tier is 0 for the quick tier and 1 for the thorough tier.
func Tier() int { return ReplayTier }

func mix(s string, seed uint64) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

func value(name string, lo, hi *big.Int) *big.Int {
	if s, ok := ReplayVals[name]; ok {
		if v, ok := new(big.Int).SetString(s, 10); ok && v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return v
		}
	}
	switch ReplayMode {
	case "max":
		return new(big.Int).Set(hi)
	case "min":
		return new(big.Int).Set(lo)
	case "rand":
		r := new(big.Int)
		for k := uint64(0); k < 8; k++ {
			r.Lsh(r, 64)
			r.Or(r, new(big.Int).SetUint64(mix(name, ReplaySeed*131+k)))
		}
		w := new(big.Int).Sub(hi, lo)
		w.Add(w, big.NewInt(1))
		r.Mod(r, w)
		return r.Add(r, lo)
	}
	z := new(big.Int)
	if z.Cmp(lo) < 0 {
		return new(big.Int).Set(lo)
	}
	if z.Cmp(hi) > 0 {
		return new(big.Int).Set(hi)
	}
	return z
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int64) int64 { return value(name, big.NewInt(lo), big.NewInt(hi)).Int64() }

// U64 is an arbitrary integer in [lo,hi].
func U64(name string, lo, hi uint64) uint64 {
	return value(name, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)).Uint64()
}

// Real is an arbitrary real in [-b,b] (natively a multiple of 2^-10).
func Real(name string, b int64) float64 {
	v := value(name, big.NewInt(-b*1024), big.NewInt(b*1024))
	f, _ := new(big.Float).SetInt(v).Float64()
	return f / 1024
}

// Residues makes every residue of p an independent arbitrary value in [0,q).
func Residues(name string, p *ring.Poly, mods []uint64) {
	for j, q := range mods {
		for i := range p.Coeffs[j] {
			p.Coeffs[j][i] = U64(name+"["+strconv.Itoa(j)+"]["+strconv.Itoa(i)+"]", 0, q-1)
		}
	}
}

// Havoc makes every residue of p arbitrary: below q, or up to the largest value the operation that wrote it can have left there.
func Havoc(name string, p *ring.Poly, mods []uint64) {
	for j, q := range mods {
		for i := range p.Coeffs[j] {
			p.Coeffs[j][i] = U64(name+"["+strconv.Itoa(j)+"]["+strconv.Itoa(i)+"]", 0, q)
		}
	}
}

// Small makes every coefficient of p an arbitrary integer in [-b,b], represented modulo every modulus.
func Small(name string, p *ring.Poly, mods []uint64, b int64) {
	n := len(p.Coeffs[0])
	for i := 0; i < n; i++ {
		v := Int(name+"["+strconv.Itoa(i)+"]", -b, b)
		for j, q := range mods {
			if v < 0 {
				p.Coeffs[j][i] = (q - uint64(-v)%q) % q
			} else {
				p.Coeffs[j][i] = uint64(v) % q
			}
		}
	}
}

// Wide makes every coefficient of p an arbitrary integer in [0, product of mods), represented modulo every modulus of all.
func Wide(name string, p *ring.Poly, mods, all []uint64) {
	Q := big.NewInt(1)
	for _, q := range mods {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	Q.Sub(Q, big.NewInt(1))
	n := len(p.Coeffs[0])
	for i := 0; i < n; i++ {
		v := value(name+"["+strconv.Itoa(i)+"]", big.NewInt(0), Q)
		for j, q := range all {
			p.Coeffs[j][i] = new(big.Int).Mod(v, new(big.Int).SetUint64(q)).Uint64()
		}
	}
}

// Noise switches sampler outputs between arbitrary (symbolic) and fixed pseudo-random values. No effect natively.
func Noise(on bool) {}

// Uniform does the same for the uniform sampler. No effect natively.
func Uniform(on bool) {}

// MapOrder selects the iteration order of maps in the engine. No effect natively (Go randomises).
func MapOrder(k int) {}

// Exact makes the engine treat floats as reals.
func Exact() {}

// Native reports whether the harness runs natively.
func Native() bool { return true }

// True asserts b.
func True(label string, b bool) {
	if !b {
		fail(label, "false")
	}
}

// EqU asserts a == b.
func EqU(label string, a, b uint64) {
	if a != b {
		fail(label, "%d != %d", a, b)
	}
}

// EqInt asserts a == b.
func EqInt(label string, a, b int) {
	if a != b {
		fail(label, "%d != %d", a, b)
	}
}

// EqReal asserts |a-b| <= tol(1+|b|).
func EqReal(label string, a, b, tol float64) {
	if !(math.Abs(a-b) <= tol*(1+math.Abs(b))) {
		fail(label, "%v != %v", a, b)
	}
}

// EqF asserts that two concrete floats agree up to a relative error of 2^-40.
func EqF(label string, a, b float64) {
	if !(math.Abs(a-b) <= math.Ldexp(math.Max(math.Abs(a), math.Abs(b)), -40)) {
		fail(label, "%v != %v", a, b)
	}
}

// EqRow asserts equality modulo q, coefficient by coefficient.
func EqRow(label string, got, want []uint64, q uint64) {
	if len(got) != len(want) {
		fail(label, "lengths %d and %d", len(got), len(want))
		return
	}
	for i := range got {
		if got[i]%q != want[i]%q {
			fail(label, "coefficient %d: %d != %d (mod %d)", i, got[i]%q, want[i]%q, q)
			return
		}
	}
}

// EqPoly asserts equality modulo each of mods.
func EqPoly(label string, got, want *ring.Poly, mods []uint64) {
	if len(got.Coeffs) < len(mods) || len(want.Coeffs) < len(mods) {
		fail(label, "too few residue rows: %d and %d for %d moduli", len(got.Coeffs), len(want.Coeffs), len(mods))
		return
	}
	for j, q := range mods {
		EqRow(label+"/q"+strconv.Itoa(j), got.Coeffs[j], want.Coeffs[j], q)
	}
}

// Near asserts that got-want, centred modulo the product of mods, is at most 2^logB in absolute value.
// divs lists primes the code divides by on the way (a hint for the solver encoding).
func Near(label string, got, want *ring.Poly, mods, divs []uint64, logB int) {
	NearScaled(label, got, mods, nil, want, divs, logB)
}

// NearScaled asserts |D*got - t| <= 2^logB with D the product of drop, as integers modulo the product of mods and drop.
// t has residues modulo mods followed by drop.
func NearScaled(label string, got *ring.Poly, mods, drop []uint64, t *ring.Poly, divs []uint64, logB int) {
	near(label, got, mods, drop, t, logB, 0)
}

// NearDiv asserts |got - t/D| <= halves/2 (+2^-20) with D the product of drop; t has residues modulo mods followed by drop.
func NearDiv(label string, got *ring.Poly, mods, drop []uint64, t *ring.Poly, halves int) {
	near(label, got, mods, drop, t, 0, halves)
}

func near(label string, got *ring.Poly, mods, drop []uint64, t *ring.Poly, logB, halves int) {
	all := append(append([]uint64{}, mods...), drop...)
	if len(got.Coeffs) < len(mods) || len(t.Coeffs) < len(all) {
		fail(label, "too few residue rows: %d and %d for %d moduli", len(got.Coeffs), len(t.Coeffs), len(all))
		return
	}
	Q := big.NewInt(1)
	for _, q := range all {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	D := big.NewInt(1)
	for _, q := range drop {
		D.Mul(D, new(big.Int).SetUint64(q))
	}
	lim := new(big.Int).Lsh(big.NewInt(1), uint(logB))
	if halves > 0 {
		lim.Mul(D, big.NewInt(int64(halves)))
		lim.Rsh(lim, 1)
		lim.Add(lim, new(big.Int).Rsh(D, 20))
	}
	for i := range got.Coeffs[0] {
		x := new(big.Int)
		for j, q := range all {
			bq := new(big.Int).SetUint64(q)
			r := new(big.Int).SetUint64(t.Coeffs[j][i])
			r.Neg(r)
			if j < len(mods) {
				g := new(big.Int).SetUint64(got.Coeffs[j][i])
				r.Add(r, g.Mul(g, D))
			}
			r.Mod(r, bq)
			c := new(big.Int).Div(Q, bq)
			inv := new(big.Int).ModInverse(new(big.Int).Mod(c, bq), bq)
			r.Mul(r, inv)
			r.Mod(r, bq)
			x.Add(x, r.Mul(r, c))
		}
		x.Mod(x, Q)
		if new(big.Int).Lsh(x, 1).Cmp(Q) > 0 {
			x.Sub(x, Q)
		}
		if new(big.Int).Abs(x).Cmp(lim) > 0 {
			fail(label, "coefficient %d is off by %v (about 2^%d), allowed about 2^%d", i, x, x.BitLen(), lim.BitLen()-1)
			return
		}
	}
}

// Spread asserts that every coefficient of p can exceed b in absolute value; natively, that some coefficient does.
func Spread(label string, p *ring.Poly, mods []uint64, b uint64) {
	for i := range p.Coeffs[0] {
		for j, q := range mods {
			if c := p.Coeffs[j][i] % q; c > b && q-c > b {
				return
			}
		}
	}
	fail(label, "no coefficient exceeds %d", b)
}

// What Fresh saw in the executions so far: a coefficient with one value in all of them is not drawn at random.
type drawn struct {
	n    int
	vals []int64
	same []bool
}

var (
	freshCalls int
	freshLog   = map[string]*drawn{}
)

const freshRuns = 24

// Fresh asserts that the given rows are small (at most b in absolute value modulo each modulus), not all zero, and pairwise different.
func Fresh(label string, ps []*ring.Poly, mods []uint64, b uint64) {
	seen := map[string]bool{}
	freshCalls++
	for k, p := range ps {
		zero := true
		key := ""
		log := freshLog[label+strconv.Itoa(freshCalls)+"/"+strconv.Itoa(k)]
		if log == nil {
			log = &drawn{vals: make([]int64, len(p.Coeffs[0])), same: make([]bool, len(p.Coeffs[0]))}
			freshLog[label+strconv.Itoa(freshCalls)+"/"+strconv.Itoa(k)] = log
		}
		log.n++
		n := len(p.Coeffs[0])
		for i := 0; i < n; i++ {
			var first int64
			for j, q := range mods {
				c := p.Coeffs[j][i] % q
				v := int64(c)
				if c > q/2 {
					v = -int64(q - c)
				}
				if v > int64(b) || v < -int64(b) {
					fail(label, "row %d coefficient %d modulus %d: error %d exceeds %d", k, i, j, v, b)
					return
				}
				if j == 0 {
					first = v
				} else if v != first {
					fail(label, "row %d coefficient %d: residues disagree", k, i)
					return
				}
			}
			if first != 0 {
				zero = false
			}
			key += strconv.Itoa(int(first)) + ","
			log.same[i] = log.n == 1 || log.same[i] && log.vals[i] == first
			log.vals[i] = first
			if log.n >= freshRuns && log.same[i] {
				fail(label, "row %d coefficient %d: %d in all of %d executions", k, i, first, log.n)
				return
			}
		}
		if zero {
			fail(label, "row %d: error is identically zero", k)
			return
		}
		if seen[key] {
			fail(label, "row %d: error repeats an earlier row", k)
			return
		}
		seen[key] = true
	}
}

// NegMul is the negacyclic product of a and b modulo q (reference).
func NegMul(a, b []uint64, q uint64) []uint64 {
	n := len(a)
	r := make([]uint64, n)
	for i := range a {
		for j := range b {
			hi, lo := bits.Mul64(a[i]%q, b[j]%q)
			_, p := bits.Div64(hi, lo, q)
			k := i + j
			if k >= n {
				k -= n
				p = (q - p) % q
			}
			s, c := bits.Add64(r[k], p, 0)
			if c != 0 || s >= q {
				s -= q
			}
			r[k] = s
		}
	}
	return r
}

// MulMod is a*b modulo q.
func MulMod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a%q, b%q)
	_, p := bits.Div64(hi, lo, q)
	return p
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	p = true // also for panic(nil), which leaves nothing to recover
	defer func() { recover() }()
	f()
	return false
}

// Snap is a deep structural copy of values, for later comparison.
type Snap struct{ lines []string }

// Snapshot records the complete contents reachable from the arguments.
func Snapshot(vs ...interface{}) *Snap {
	s := &Snap{}
	seen := map[uintptr]bool{}
	for _, v := range vs {
		walk(reflect.ValueOf(v), &s.lines, seen)
	}
	return s
}

// Unchanged asserts that the contents reachable from the arguments are what Snapshot recorded.
func Unchanged(label string, s *Snap, vs ...interface{}) {
	t := Snapshot(vs...)
	if len(t.lines) != len(s.lines) {
		fail(label, "structure changed")
		return
	}
	for i := range t.lines {
		if t.lines[i] != s.lines[i] {
			fail(label, "contents changed: %s -> %s", s.lines[i], t.lines[i])
			return
		}
	}
}

func walk(v reflect.Value, out *[]string, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			*out = append(*out, "nil")
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		walk(v.Elem(), out, seen)
	case reflect.Interface:
		if v.IsNil() {
			*out = append(*out, "nil")
			return
		}
		walk(v.Elem(), out, seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), out, seen)
		}
	case reflect.Slice, reflect.Array:
		*out = append(*out, "len "+strconv.Itoa(v.Len()))
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), out, seen)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		*out = append(*out, "map "+strconv.Itoa(len(keys)))
		for _, k := range keys {
			*out = append(*out, fmt.Sprint(k))
			walk(v.MapIndex(k), out, seen)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		*out = append(*out, strconv.FormatUint(v.Uint(), 10))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, strconv.FormatInt(v.Int(), 10))
	case reflect.Float64, reflect.Float32:
		*out = append(*out, strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Complex128, reflect.Complex64:
		*out = append(*out, fmt.Sprint(v.Complex()))
	case reflect.String:
		*out = append(*out, v.String())
	case reflect.Bool:
		*out = append(*out, strconv.FormatBool(v.Bool()))
	}
}

// Disjoint asserts that no coefficient storage is reachable from both a and b.
func Disjoint(label string, a, b interface{}) {
	sa, sb := map[uintptr]bool{}, map[uintptr]bool{}
	storage(reflect.ValueOf(a), sa, map[uintptr]bool{})
	storage(reflect.ValueOf(b), sb, map[uintptr]bool{})
	for p := range sa {
		if sb[p] {
			fail(label, "shared storage")
			return
		}
	}
}

func storage(v reflect.Value, out, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		storage(v.Elem(), out, seen)
	case reflect.Interface:
		if !v.IsNil() {
			storage(v.Elem(), out, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			storage(v.Field(i), out, seen)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint64 {
			if v.Len() > 0 {
				out[v.Pointer()] = true
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			storage(v.Index(i), out, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			storage(v.Index(i), out, seen)
		}
	case reflect.Map:
		out[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			storage(v.MapIndex(k), out, seen)
		}
	}
}

var _ = unsafe.Pointer(nil)
var _ = os.Args

// AddMod is a+b modulo q.
func AddMod(a, b, q uint64) uint64 {
	s, c := bits.Add64(a%q, b%q, 0)
	if c != 0 || s >= q {
		s -= q
	}
	return s
}

// SubMod is a-b modulo q.
func SubMod(a, b, q uint64) uint64 { return AddMod(a, q-b%q, q) }

// Msg makes n arbitrary slots with real and imaginary parts in [-1,1].
func Msg(name string, n int) []complex128 {
	r := make([]complex128, n)
	for i := range r {
		r[i] = complex(Real(name+".re["+strconv.Itoa(i)+"]", 1), Real(name+".im["+strconv.Itoa(i)+"]", 1))
	}
	return r
}

// EqMsg asserts that the decoded message got is want, decoded modulo mods with the given scale, up to 2^logB/scale in every slot
// (natively with a factor for the embedding).
func EqMsg(label string, got, want []complex128, mods []uint64, scale float64, logB int) {
	if len(got) != len(want) {
		fail(label, "%d slots, expected %d", len(got), len(want))
		return
	}
	tol := math.Max(math.Ldexp(256, logB)/scale, 1e-9)
	for i := range got {
		d := got[i] - want[i]
		if !(math.Abs(real(d)) <= tol && math.Abs(imag(d)) <= tol) {
			fail(label, "slot %d: %v, expected %v", i, got[i], want[i])
			return
		}
	}
}

// Differ asserts that the two polynomials are not identical.
func Differ(label string, a, b *ring.Poly, mods []uint64) {
	for j, q := range mods {
		for i := range a.Coeffs[j] {
			if a.Coeffs[j][i]%q != b.Coeffs[j][i]%q {
				return
			}
		}
	}
	fail(label, "identical")
}
