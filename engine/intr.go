package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/big"
	"math/bits"
	"math/cmplx"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(m *Machine, fr *Frame, args []Value) Value

var intrinsics = map[string]intrFn{}
var globalInit = map[string]func(m *Machine, o *Obj){}

const ringP = "github.com/ldsec/lattigo/v2/ring."
const ringT = "(*github.com/ldsec/lattigo/v2/ring."

// ---------------- scalar modular arithmetic of lattigo's ring ----------------

func mredParams(q uint64) uint64 {
	r := uint64(1)
	for i := 0; i < 63; i++ {
		r *= q
		q *= q
	}
	return r
}

func natMRed(x, y, q, qInv uint64, lazy bool) uint64 {
	mhi, mlo := bits.Mul64(x, y)
	hhi, _ := bits.Mul64(mlo*qInv, q)
	r := mhi - hhi + q
	if !lazy && r >= q {
		r -= q
	}
	return r
}

func natBRed(x, y, q, u0, u1 uint64, lazy bool) uint64 {
	mhi, mlo := bits.Mul64(x, y)
	r := mhi * u0
	hhi, hlo := bits.Mul64(mlo, u0)
	r += hhi
	lhi, _ := bits.Mul64(mlo, u1)
	s0, c := bits.Add64(hlo, lhi, 0)
	r += c
	hhi, hlo = bits.Mul64(mhi, u1)
	r += hhi
	_, c = bits.Add64(hlo, s0, 0)
	r += c
	r = mlo - r*q
	if !lazy && r >= q {
		r -= q
	}
	return r
}

var invR = map[uint64]uint64{}

func (m *Machine) twoPow64(q uint64) (r, inv uint64) {
	if m.r64 == nil {
		m.r64 = map[uint64][2]uint64{}
	}
	if v, ok := m.r64[q]; ok {
		return v[0], v[1]
	}
	r = new(big.Int).Mod(two64, u64big(q)).Uint64()
	i := new(big.Int).ModInverse(u64big(r), u64big(q))
	if i == nil {
		panic(unsupported("modulus even"))
	}
	inv = i.Uint64()
	m.r64[q] = [2]uint64{r, inv}
	return
}

func (m *Machine) qOf(v Value) uint64 {
	if v.p != nil || v.u < 3 || v.u&1 == 0 {
		panic(unsupported("modulus is not a concrete odd number"))
	}
	m.sym.noteMod(v.u)
	return v.u
}

func bredOK(u Value, q uint64) bool {
	s, ok := u.p.(*Slice)
	if !ok || s.len < 2 {
		return false
	}
	big128 := new(big.Int).Lsh(bigOne, 128)
	big128.Quo(big128, u64big(q))
	hi := new(big.Int).Rsh(big128, 64).Uint64()
	lo := new(big.Int).And(big128, max64).Uint64()
	a, b := s.o.cells[s.off], s.o.cells[s.off+1]
	return a.p == nil && b.p == nil && a.u == hi && b.u == lo
}

func sliceU(u Value, i int) uint64 {
	s, ok := u.p.(*Slice)
	if !ok || i >= s.len {
		panic(rtPanic("index out of range [%d]", i))
	}
	if s.o.cells[s.off+i].p != nil {
		panic(unsupported("symbolic reduction parameter"))
	}
	return s.o.cells[s.off+i].u
}

func isPow2(x uint64) bool { return x != 0 && x&(x-1) == 0 }

func init() {
	mred := func(lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			x, y, qv, iv := a[0], a[1], a[2], a[3]
			if x.p == nil && y.p == nil && qv.p == nil && iv.p == nil {
				return Value{u: natMRed(x.u, y.u, qv.u, iv.u, lazy)}
			}
			q := m.qOf(qv)
			if iv.p != nil || iv.u != mredParams(q) {
				panic(unsupported("Montgomery reduction with foreign parameter"))
			}
			_, inv := m.twoPow64(q)
			_, xh := m.sym.rangeOf(x, false)
			_, yh := m.sym.rangeOf(y, false)
			f := rfScale(rfMul(m.sym.valRes(x, q), m.sym.valRes(y, q)), inv)
			mh := new(big.Int).Mul(xh, yh)
			mh.Rsh(mh, 64)
			// r = mhi - hhi + q with 0 <= hhi < q
			if mh.Cmp(u64big(q)) < 0 && !lazy {
				return m.sym.canonNode(f)
			}
			hi := new(big.Int).Add(mh, u64big(q))
			if hi.Cmp(max64) > 0 {
				panic(unsupported("Montgomery reduction may overflow"))
			}
			if !lazy {
				hi.Set(mh)
				if hi.Cmp(u64big(q-1)) < 0 {
					hi = u64big(q - 1)
				}
			}
			return m.sym.lazyNode(f, hi)
		}
	}
	intrinsics[ringP+"MRed"] = mred(false)
	intrinsics[ringP+"MRedConstant"] = mred(true)
	intrinsics[ringP+"CRed"] = func(m *Machine, fr *Frame, a []Value) Value {
		x, qv := a[0], a[1]
		if x.p == nil && qv.p == nil {
			if x.u >= qv.u {
				return Value{u: x.u - qv.u}
			}
			return x
		}
		q := m.qOf(qv)
		_, h := m.sym.rangeOf(x, false)
		if h.Cmp(u64big(q)) < 0 {
			return x
		}
		f := m.sym.valRes(x, q)
		hi := new(big.Int).Sub(h, u64big(q))
		if hi.Cmp(u64big(q)) < 0 {
			return m.sym.canonNode(f)
		}
		return m.sym.lazyNode(f, hi)
	}
	bredadd := func(lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			x, qv := a[0], a[1]
			if x.p == nil && qv.p == nil {
				u0 := sliceU(a[2], 0)
				mhi, _ := bits.Mul64(x.u, u0)
				r := x.u - mhi*qv.u
				if !lazy && r >= qv.u {
					r -= qv.u
				}
				return Value{u: r}
			}
			q := m.qOf(qv)
			if !bredOK(a[2], q) {
				panic(unsupported("Barrett reduction with foreign parameter"))
			}
			_, h := m.sym.rangeOf(x, false)
			if h.Cmp(u64big(q)) < 0 {
				return x
			}
			f := m.sym.valRes(x, q)
			if lazy {
				return m.sym.lazyNode(f, u64big(2*q-1))
			}
			return m.sym.canonNode(f)
		}
	}
	intrinsics[ringP+"BRedAdd"] = bredadd(false)
	intrinsics[ringP+"BRedAddConstant"] = bredadd(true)
	bred := func(lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			x, y, qv := a[0], a[1], a[2]
			if x.p == nil && y.p == nil && qv.p == nil {
				return Value{u: natBRed(x.u, y.u, qv.u, sliceU(a[3], 0), sliceU(a[3], 1), lazy)}
			}
			q := m.qOf(qv)
			if !bredOK(a[3], q) {
				panic(unsupported("Barrett reduction with foreign parameter"))
			}
			f := rfMul(m.sym.valRes(x, q), m.sym.valRes(y, q))
			if lazy {
				return m.sym.lazyNode(f, u64big(2*q-1))
			}
			return m.sym.canonNode(f)
		}
	}
	intrinsics[ringP+"BRed"] = bred(false)
	intrinsics[ringP+"BRedConstant"] = bred(true)
	mform := func(lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			x := a[0]
			if x.p == nil && a[1].p == nil {
				u0, u1 := sliceU(a[2], 0), sliceU(a[2], 1)
				mhi, _ := bits.Mul64(x.u, u1)
				r := -(x.u*u0 + mhi) * a[1].u
				if !lazy && r >= a[1].u {
					r -= a[1].u
				}
				return Value{u: r}
			}
			q := m.qOf(a[1])
			if !bredOK(a[2], q) {
				panic(unsupported("MForm with foreign parameter"))
			}
			r, _ := m.twoPow64(q)
			f := rfScale(m.sym.valRes(x, q), r)
			if lazy {
				return m.sym.lazyNode(f, u64big(2*q-1))
			}
			return m.sym.canonNode(f)
		}
	}
	intrinsics[ringP+"MForm"] = mform(false)
	intrinsics[ringP+"MFormConstant"] = mform(true)
	invmform := func(lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			x := a[0]
			if x.p == nil && a[1].p == nil && a[2].p == nil {
				r, _ := bits.Mul64(x.u*a[2].u, a[1].u)
				r = a[1].u - r
				if !lazy && r >= a[1].u {
					r -= a[1].u
				}
				return Value{u: r}
			}
			q := m.qOf(a[1])
			if a[2].p != nil || a[2].u != mredParams(q) {
				panic(unsupported("InvMForm with foreign parameter"))
			}
			_, inv := m.twoPow64(q)
			f := rfScale(m.sym.valRes(x, q), inv)
			if lazy {
				return m.sym.lazyNode(f, u64big(2*q-1))
			}
			return m.sym.canonNode(f)
		}
	}
	intrinsics[ringP+"InvMForm"] = invmform(false)
	intrinsics[ringP+"InvMFormConstant"] = invmform(true)

	ntt := func(inv, lazy bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			// coeffsIn, coeffsOut, N, psi, [nInv,] Q, mred, [bred]
			in, ok1 := a[0].p.(*Slice)
			out, ok2 := a[1].p.(*Slice)
			psi, ok3 := a[3].p.(*Slice)
			N := m.toInt(a[2])
			if !ok1 || !ok2 || !ok3 || in.len < 1 || out.len < 1 {
				panic(rtPanic("index out of range [0] with length 0"))
			}
			if in.off+N > len(in.o.cells) || out.off+N > len(out.o.cells) || psi.off+N > len(psi.o.cells) {
				panic(rtPanic("slice shorter than N in NTT"))
			}
			var q, qinv, ninv uint64
			if inv {
				ninv, q, qinv = a[4].u, a[5].u, a[6].u
			} else {
				q, qinv = a[4].u, a[5].u
			}
			m.sym.noteMod(q)
			if qinv != mredParams(q) {
				panic(unsupported("NTT with foreign parameters"))
			}
			tw := make([]uint64, N)
			for i := 0; i < N; i++ {
				c := psi.o.cells[psi.off+i]
				if c.p != nil {
					panic(unsupported("symbolic twiddle factor"))
				}
				tw[i] = c.u
			}
			conc := true
			lim := new(big.Int).Lsh(bigOne, 63)
			if inv {
				lim = u64big(2 * q)
			}
			for i := 0; i < N; i++ {
				c := in.o.cells[in.off+i]
				if c.p != nil {
					conc = false
				}
				if _, h := m.sym.rangeOf(c, false); h.Cmp(lim) >= 0 {
					panic(unsupported("NTT input out of the supported range"))
				}
			}
			if conc {
				x := make([]uint64, N)
				for i := range x {
					x[i] = in.o.cells[in.off+i].u % q
				}
				nttConcrete(x, tw, q, qinv, ninv, inv)
				for i := range x {
					m.store(out.o, out.off+i, Value{u: x[i]}, false)
				}
				return Value{}
			}
			_, r1 := m.twoPow64(q)
			x := make([]*ResForm, N)
			for i := range x {
				x[i] = m.sym.valRes(in.o.cells[in.off+i], q)
			}
			nttForms(x, tw, q, r1, ninv, inv)
			for i := range x {
				var v Value
				if lazy {
					v = m.sym.lazyNode(x[i], u64big(2*q-1))
				} else {
					v = m.sym.canonNode(x[i])
				}
				m.store(out.o, out.off+i, v, false)
			}
			return Value{}
		}
	}
	intrinsics[ringP+"NTT"] = ntt(false, false)
	intrinsics[ringP+"NTTLazy"] = ntt(false, true)
	intrinsics[ringP+"InvNTT"] = ntt(true, false)
	intrinsics[ringP+"InvNTTLazy"] = ntt(true, true)
}

// butterflies with reduction modulo q; twiddles in Montgomery form
func nttConcrete(x, tw []uint64, q, qinv, ninv uint64, inv bool) {
	N := len(x)
	if !inv {
		t := N
		for mm := 1; mm < N; mm <<= 1 {
			t >>= 1
			for i := 0; i < mm; i++ {
				F := tw[mm+i]
				for j := 2 * i * t; j < 2*i*t+t; j++ {
					V := natMRed(x[j+t], F, q, qinv, false)
					U := x[j]
					x[j] = addm(U, V, q)
					x[j+t] = addm(U, negm(V, q), q)
				}
			}
		}
		return
	}
	t := 1
	for mm := N; mm > 1; mm >>= 1 {
		h := mm >> 1
		j1 := 0
		for i := 0; i < h; i++ {
			F := tw[h+i]
			for j := j1; j < j1+t; j++ {
				U, V := x[j], x[j+t]
				x[j] = addm(U, V, q)
				x[j+t] = natMRed(addm(U, negm(V, q), q), F, q, qinv, false)
			}
			j1 += 2 * t
		}
		t <<= 1
	}
	for j := range x {
		x[j] = natMRed(x[j], ninv, q, qinv, false)
	}
}

func nttForms(x []*ResForm, tw []uint64, q, r1, ninv uint64, inv bool) {
	N := len(x)
	if !inv {
		t := N
		for mm := 1; mm < N; mm <<= 1 {
			t >>= 1
			for i := 0; i < mm; i++ {
				F := mulm(tw[mm+i], r1, q)
				for j := 2 * i * t; j < 2*i*t+t; j++ {
					U, V := x[j], x[j+t]
					x[j] = rfAddScaled(U, V, F)
					x[j+t] = rfAddScaled(U, V, negm(F, q))
				}
			}
		}
		return
	}
	t := 1
	neg1 := q - 1
	for mm := N; mm > 1; mm >>= 1 {
		h := mm >> 1
		j1 := 0
		for i := 0; i < h; i++ {
			F := mulm(tw[h+i], r1, q)
			for j := j1; j < j1+t; j++ {
				U, V := x[j], x[j+t]
				x[j] = rfAdd(U, V)
				x[j+t] = rfScale(rfAddScaled(U, V, neg1), F)
			}
			j1 += 2 * t
		}
		t <<= 1
	}
	c := mulm(ninv, r1, q)
	for j := range x {
		x[j] = rfScale(x[j], c)
	}
}

// ---------------- math/bits ----------------

func init() {
	u1 := func(f func(uint64) uint64) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if a[0].p != nil {
				panic(unsupported("bit operation on a symbolic value"))
			}
			return Value{u: f(a[0].u)}
		}
	}
	intrinsics["math/bits.Len64"] = u1(func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	intrinsics["math/bits.Len"] = u1(func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	intrinsics["math/bits.Len32"] = u1(func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	intrinsics["math/bits.Reverse64"] = u1(func(x uint64) uint64 { return bits.Reverse64(x) })
	intrinsics["math/bits.TrailingZeros64"] = u1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	intrinsics["math/bits.TrailingZeros"] = u1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	intrinsics["math/bits.LeadingZeros64"] = u1(func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	intrinsics["math/bits.OnesCount64"] = u1(func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })
	intrinsics["math/bits.OnesCount"] = u1(func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })
	intrinsics["math/bits.Mul64"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[0].p == nil && a[1].p == nil {
			h, l := bits.Mul64(a[0].u, a[1].u)
			return Value{p: Tuple{{u: h}, {u: l}}}
		}
		s := m.sym
		e := formMul(s.toForm(a[0]), s.toForm(a[1]))
		return s.split128(e)
	}
	rem := func(m *Machine, hi, lo Value, q uint64) Value {
		p := new(big.Int).Mod(two64, u64big(q)).Uint64()
		return m.sym.canonNode(rfAdd(rfScale(m.sym.valRes(hi, q), p), m.sym.valRes(lo, q)))
	}
	intrinsics["math/bits.Rem64"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[2].p != nil || a[2].u == 0 {
			panic(unsupported("division by a symbolic value or zero"))
		}
		if a[0].p == nil && a[1].p == nil {
			return Value{u: bits.Rem64(a[0].u, a[1].u, a[2].u)}
		}
		return rem(m, a[0], a[1], a[2].u)
	}
	intrinsics["math/bits.Div64"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[2].p != nil || a[2].u == 0 {
			panic(unsupported("division by a symbolic value or zero"))
		}
		q := a[2].u
		if _, h := m.sym.rangeOf(a[0], false); h.Cmp(u64big(q)) >= 0 {
			panic(unsupported("quotient may overflow"))
		}
		if a[0].p == nil && a[1].p == nil {
			x, r := bits.Div64(a[0].u, a[1].u, q)
			return Value{p: Tuple{{u: x}, {u: r}}}
		}
		s := m.sym
		r := rem(m, a[0], a[1], q)
		e := formAddScaled(formScale(s.toForm(a[0]), new(big.Rat).SetInt(two64)), s.toForm(a[1]), ratOne)
		e = formScale(formAddScaled(e, s.toForm(r), minusOne), new(big.Rat).SetFrac(bigOne, u64big(q)))
		return Value{p: Tuple{s.exprVal(e, new(big.Int), new(big.Int).Set(max64)), r}}
	}
	intrinsics["math/bits.Add64"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[0].p == nil && a[1].p == nil && a[2].p == nil {
			r, c := bits.Add64(a[0].u, a[1].u, a[2].u)
			return Value{p: Tuple{{u: r}, {u: c}}}
		}
		s := m.sym
		e := formAddScaled(formAddScaled(s.toForm(a[0]), s.toForm(a[1]), ratOne), s.toForm(a[2]), ratOne)
		t := s.split128(e).p.(Tuple)
		return Value{p: Tuple{t[1], t[0]}}
	}
	intrinsics["math/bits.Sub64"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[0].p == nil && a[1].p == nil && a[2].p == nil {
			r, c := bits.Sub64(a[0].u, a[1].u, a[2].u)
			return Value{p: Tuple{{u: r}, {u: c}}}
		}
		s := m.sym
		e := formAddScaled(formAddScaled(s.toForm(a[0]), s.toForm(a[1]), minusOne), s.toForm(a[2]), minusOne)
		lo := s.mkInt(e, 64, false)
		// borrow = (lo - e)/2^64
		f := formScale(formAddScaled(s.toForm(lo), e, minusOne), new(big.Rat).SetFrac(bigOne, two64))
		return Value{p: Tuple{lo, s.exprVal(f, new(big.Int), bigOne)}}
	}
}

// split128: exact nonnegative form e -> (hi, lo)
func (s *SymCtx) split128(e Form) Value {
	rl, rh := e.bounds()
	l, h := ratFloor(rl), ratFloor(rh)
	lo := s.mkInt(e, 64, false)
	if h.Cmp(max64) <= 0 && l.Sign() >= 0 {
		return Value{p: Tuple{{}, lo}}
	}
	f := formScale(formAddScaled(e, s.toForm(lo), minusOne), new(big.Rat).SetFrac(bigOne, two64))
	hl := new(big.Int).Rsh(l, 64)
	hh := new(big.Int).Rsh(h, 64)
	if c, ok := f.isConst(); ok {
		return Value{p: Tuple{{u: c.Num().Uint64()}, lo}}
	}
	return Value{p: Tuple{s.exprVal(f, hl, hh), lo}}
}

// ---------------- floats and complex numbers ----------------

type CSym struct{ re, im Value }

func (m *Machine) toF(v Value) (Form, *big.Rat) {
	switch p := v.p.(type) {
	case nil:
		return formConst(ratOfFloat(f64(v))), new(big.Rat)
	case *FSym:
		return p.f, p.err
	}
	panic(unsupported(fmt.Sprintf("float of %T", v.p)))
}

func absBound(f Form) *big.Rat {
	lo, hi := f.bounds()
	lo = new(big.Rat).Abs(lo)
	hi = new(big.Rat).Abs(hi)
	if lo.Cmp(hi) > 0 {
		return lo
	}
	return hi
}

var ulp53 = big.NewRat(1, 1<<53)

func (m *Machine) mkF(f Form, err *big.Rat) Value {
	if c, ok := f.isConst(); ok && err.Sign() == 0 {
		x, exact := c.Float64()
		if exact {
			return fval(x)
		}
	}
	if !m.exactReals {
		// rounding of this operation
		mx := new(big.Rat).Add(absBound(f), err)
		err = new(big.Rat).Add(err, mx.Mul(mx, ulp53))
	}
	return Value{p: &FSym{f: f, err: err}}
}

func (m *Machine) fbin(op interface{ String() string }, a, b Value) Value {
	if m.isReal(a, b) {
		return m.rbin(op.String(), a, b)
	}
	fa, ea := m.toF(a)
	fb, eb := m.toF(b)
	switch op.String() {
	case "+":
		if len(fa) == 0 && ea.Sign() == 0 {
			return b
		}
		if len(fb) == 0 && eb.Sign() == 0 {
			return a
		}
		return m.mkF(formAddScaled(fa, fb, ratOne), new(big.Rat).Add(ea, eb))
	case "-":
		if len(fb) == 0 && eb.Sign() == 0 {
			return a
		}
		return m.mkF(formAddScaled(fa, fb, minusOne), new(big.Rat).Add(ea, eb))
	case "*":
		e := new(big.Rat).Mul(absBound(fa), eb)
		e2 := new(big.Rat).Mul(absBound(fb), ea)
		e.Add(e, e2)
		e.Add(e, new(big.Rat).Mul(ea, eb))
		return m.mkF(formMul(fa, fb), e)
	case "/":
		c, ok := fb.isConst()
		if !ok || c.Sign() == 0 || eb.Sign() != 0 {
			if b.p == nil && f64(b) == 0 {
				panic(unsupported("symbolic float divided by zero"))
			}
			return m.symDiv(fa, ea, fb, eb)
		}
		e := new(big.Rat).Quo(ea, new(big.Rat).Abs(c))
		if q, ok := m.sym.modF[f64(b)]; ok && b.p == nil {
			qr := new(big.Rat).SetInt(u64big(q))
			d := new(big.Rat).Sub(new(big.Rat).Inv(qr), new(big.Rat).Inv(c))
			d.Abs(d)
			e.Add(e, d.Mul(d, absBound(fa)))
			c = qr
		}
		v := m.mkF(formScale(fa, new(big.Rat).Inv(c)), e)
		if f, ok := v.p.(*FSym); ok && e.Sign() == 0 {
			f.one = true
		}
		return v
	case "==", "!=", "<", "<=", ">", ">=":
		f := formAddScaled(fa, fb, minusOne)
		e := new(big.Rat).Add(ea, eb)
		lo, hi := f.bounds()
		lo.Sub(lo, e)
		hi.Add(hi, e)
		d := func(t, fls bool) (Value, bool) {
			if t {
				return bval(true), true
			}
			if fls {
				return bval(false), true
			}
			return Value{}, false
		}
		var v Value
		var ok bool
		switch op.String() {
		case "<":
			v, ok = d(hi.Sign() < 0, lo.Sign() >= 0)
		case "<=":
			v, ok = d(hi.Sign() <= 0, lo.Sign() > 0)
		case ">":
			v, ok = d(lo.Sign() > 0, hi.Sign() <= 0)
		case ">=":
			v, ok = d(lo.Sign() >= 0, hi.Sign() < 0)
		case "==":
			v, ok = d(lo.Sign() == 0 && hi.Sign() == 0, lo.Sign() > 0 || hi.Sign() < 0)
		case "!=":
			v, ok = d(lo.Sign() > 0 || hi.Sign() < 0, lo.Sign() == 0 && hi.Sign() == 0)
		}
		if ok {
			return v
		}
		return Value{p: &Cond{kind: 0, op: op.String(), f: f, fl: true}}
	}
	panic(unsupported("float operation " + op.String()))
}

// quotient of two symbolic reals: an opaque real node, hash-consed on the pair
func (m *Machine) symDiv(fa Form, ea *big.Rat, fb Form, eb *big.Rat) Value {
	if !m.exactReals {
		panic(unsupported("division by a symbolic float"))
	}
	key := "Q" + fb.key()
	n, ok := m.sym.digits[key]
	if !ok {
		lim := big.NewInt(1 << 20)
		n = m.sym.newNode(new(big.Int).Neg(lim), lim)
		n.def = "reciprocal"
		n.name = "1/(" + fb.String() + ")"
		m.sym.digits[key] = n
	}
	return m.mkF(formMul(fa, formNode(n)), new(big.Rat))
}

func (m *Machine) mergeFloat(c *Cond, a, b Value) Value {
	fa, ea := m.toF(a)
	fb, eb := m.toF(b)
	if formEq(fa, fb) {
		if ea.Cmp(eb) > 0 {
			return a
		}
		return b
	}
	al, ah := fa.bounds()
	bl, bh := fb.bounds()
	if bl.Cmp(al) < 0 {
		al = bl
	}
	if bh.Cmp(ah) > 0 {
		ah = bh
	}
	n := m.sym.newNode(ratFloor(al), ratCeil(ah))
	n.def = &iteDef{c, a, b}
	m.sym.ites = append(m.sym.ites, n)
	e := ea
	if eb.Cmp(e) > 0 {
		e = eb
	}
	return Value{p: &FSym{f: formNode(n), err: e}}
}

func (m *Machine) cparts(v Value) (Value, Value) {
	switch p := v.p.(type) {
	case *CSym:
		return p.re, p.im
	}
	z := cplx(v)
	return fval(real(z)), fval(imag(z))
}

func (m *Machine) mkC(re, im Value) Value {
	if re.p == nil && im.p == nil {
		return Value{p: complex(f64(re), f64(im))}
	}
	return Value{p: &CSym{re, im}}
}

func (m *Machine) mergeCplx(c *Cond, a, b Value) Value {
	ar, ai := m.cparts(a)
	br, bi := m.cparts(b)
	mg := func(x, y Value) Value {
		if sameValue(x, y) {
			return x
		}
		return m.mergeFloat(c, x, y)
	}
	return m.mkC(mg(ar, br), mg(ai, bi))
}

func (m *Machine) fop(op string, a, b Value) Value {
	if a.p == nil && b.p == nil {
		x, y := f64(a), f64(b)
		switch op {
		case "+":
			return fval(x + y)
		case "-":
			return fval(x - y)
		case "*":
			return fval(x * y)
		case "/":
			return fval(x / y)
		}
	}
	return m.fbin(opName(op), a, b)
}

type opName string

func (o opName) String() string { return string(o) }

func (m *Machine) cbin(op interface{ String() string }, a, b Value) Value {
	_, sa := a.p.(*CSym)
	_, sb := b.p.(*CSym)
	if !sa && !sb {
		x, y := cplx(a), cplx(b)
		switch op.String() {
		case "+":
			return Value{p: x + y}
		case "-":
			return Value{p: x - y}
		case "*":
			return Value{p: x * y}
		case "/":
			return Value{p: x / y}
		case "==":
			return bval(x == y)
		case "!=":
			return bval(x != y)
		}
	}
	ar, ai := m.cparts(a)
	br, bi := m.cparts(b)
	switch op.String() {
	case "+", "-":
		return m.mkC(m.fop(op.String(), ar, br), m.fop(op.String(), ai, bi))
	case "*":
		return m.mkC(m.fop("-", m.fop("*", ar, br), m.fop("*", ai, bi)), m.fop("+", m.fop("*", ar, bi), m.fop("*", ai, br)))
	case "/":
		if !sb && imag(cplx(b)) == 0 {
			return m.mkC(m.fop("/", ar, br), m.fop("/", ai, br))
		}
	}
	panic(unsupported("complex operation " + op.String()))
}

// ---------------- native functions ----------------

func fn1(f func(float64) float64) intrFn {
	return func(m *Machine, fr *Frame, a []Value) Value {
		if a[0].p != nil {
			panic(unsupported("transcendental function of a symbolic float"))
		}
		return fval(f(f64(a[0])))
	}
}

func init() {
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Log2": math.Log2, "Log": math.Log, "Exp": math.Exp, "Exp2": math.Exp2, "Floor": math.Floor,
		"Ceil": math.Ceil, "Round": math.Round, "Trunc": math.Trunc, "Sin": math.Sin, "Cos": math.Cos, "Log10": math.Log10, "Log1p": math.Log1p, "RoundToEven": math.RoundToEven} {
		intrinsics["math."+n] = fn1(f)
	}
	for _, n := range []string{"Floor", "Ceil"} {
		n, nat := n, intrinsics["math."+n]
		intrinsics["math."+n] = func(m *Machine, fr *Frame, a []Value) Value {
			f, ok := a[0].p.(*FSym)
			if !ok {
				return nat(m, fr, a)
			}
			L := big.NewInt(1)
			for _, t := range f.f {
				g := new(big.Int).GCD(nil, nil, L, t.c.Denom())
				L.Mul(L, new(big.Int).Div(t.c.Denom(), g))
			}
			if f.err.Sign() != 0 && (!f.one || new(big.Rat).Mul(f.err, new(big.Rat).SetInt(L)).Cmp(ratOne) >= 0) {
				panic(unsupported("rounding of an inexact symbolic float"))
			}
			n1 := formScale(f.f, new(big.Rat).SetInt(L))
			if n == "Ceil" {
				n1 = formAddScaled(n1, formConst(new(big.Rat).SetInt(new(big.Int).Sub(L, bigOne))), ratOne)
			}
			v := m.sym.mkInt(n1, 64, true)
			if L.Cmp(bigOne) != 0 && v.p != nil {
				v = m.divConst(v, L, 64, true)
			} else if v.p == nil {
				q := new(big.Int).Div(big.NewInt(int64(v.u)), L)
				return fval(float64(q.Int64()))
			}
			if v.p == nil {
				return fval(float64(int64(v.u)))
			}
			return Value{p: &FSym{f: m.sym.toForm(v), err: new(big.Rat), iv: &v}}
		}
	}
	intrinsics["math.Abs"] = func(m *Machine, fr *Frame, a []Value) Value {
		if a[0].p == nil {
			return fval(math.Abs(f64(a[0])))
		}
		f, _ := m.toF(a[0])
		c := &Cond{kind: 0, op: "<", f: f, fl: true}
		if v, ok := m.decide(c); ok {
			if v {
				return m.fop("-", fval(0), a[0])
			}
			return a[0]
		}
		return m.mergeFloat(c, m.fop("-", fval(0), a[0]), a[0])
	}
	f2 := func(f func(a, b float64) float64) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if a[0].p != nil || a[1].p != nil {
				panic(unsupported("binary math function of a symbolic float"))
			}
			return fval(f(f64(a[0]), f64(a[1])))
		}
	}
	pow := f2(math.Pow)
	intrinsics["math.Pow"] = func(m *Machine, fr *Frame, a []Value) Value {
		if _, ok := a[0].p.(*RNode); ok && a[1].p == nil {
			if e := f64(a[1]); e == math.Trunc(e) && e >= 0 && e <= 16 {
				r := fval(1)
				for i := 0; i < int(e); i++ {
					r = m.rbin("*", r, a[0])
				}
				return r
			} else if e == 0.5 {
				return m.sqrtR(a[0].p.(*RNode))
			}
		}
		return pow(m, fr, a)
	}
	sqrt := intrinsics["math.Sqrt"]
	intrinsics["math.Sqrt"] = func(m *Machine, fr *Frame, a []Value) Value {
		if n, ok := a[0].p.(*RNode); ok {
			return m.sqrtR(n)
		}
		return sqrt(m, fr, a)
	}
	intrinsics["math.Mod"] = f2(math.Mod)
	minmax := func(isMax bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if a[0].p == nil && a[1].p == nil {
				if isMax {
					return fval(math.Max(f64(a[0]), f64(a[1])))
				}
				return fval(math.Min(f64(a[0]), f64(a[1])))
			}
			op := "<"
			if isMax {
				op = ">"
			}
			c := m.fbin(opName(op), a[0], a[1])
			if c.p == nil {
				if c.u != 0 {
					return a[0]
				}
				return a[1]
			}
			return m.mergeFloat(c.p.(*Cond), a[0], a[1])
		}
	}
	intrinsics["math.Max"] = minmax(true)
	intrinsics["math.Min"] = minmax(false)
	intrinsics["math.Float64bits"] = func(m *Machine, fr *Frame, a []Value) Value { return m.conc(a[0]) }
	intrinsics["math.Float64frombits"] = func(m *Machine, fr *Frame, a []Value) Value { return m.conc(a[0]) }
	intrinsics["math.Float32frombits"] = func(m *Machine, fr *Frame, a []Value) Value {
		return fval(float64(math.Float32frombits(uint32(a[0].u))))
	}
	intrinsics["math.Inf"] = func(m *Machine, fr *Frame, a []Value) Value { return fval(math.Inf(int(a[0].u))) }
	intrinsics["math.NaN"] = func(m *Machine, fr *Frame, a []Value) Value { return fval(math.NaN()) }
	intrinsics["math.IsNaN"] = func(m *Machine, fr *Frame, a []Value) Value { return bval(a[0].p == nil && math.IsNaN(f64(a[0]))) }
	intrinsics["math.IsInf"] = func(m *Machine, fr *Frame, a []Value) Value {
		return bval(a[0].p == nil && math.IsInf(f64(a[0]), int(a[1].u)))
	}
	intrinsics["math.Modf"] = func(m *Machine, fr *Frame, a []Value) Value {
		m.conc(a[0])
		x, y := math.Modf(f64(a[0]))
		return Value{p: Tuple{fval(x), fval(y)}}
	}
	intrinsics["math/cmplx.Abs"] = func(m *Machine, fr *Frame, a []Value) Value {
		if _, ok := a[0].p.(*CSym); ok {
			panic(unsupported("modulus of a symbolic complex"))
		}
		return fval(cmplx.Abs(cplx(a[0])))
	}
	intrinsics["strconv.Itoa"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(strconv.Itoa(m.toInt(a[0]))) }
	intrinsics["strconv.FormatInt"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strconv.FormatInt(int64(a[0].u), int(a[1].u)))
	}
	intrinsics["strconv.FormatUint"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strconv.FormatUint(a[0].u, int(a[1].u)))
	}
	intrinsics["strconv.Atoi"] = func(m *Machine, fr *Frame, a []Value) Value {
		x, err := strconv.Atoi(str(a[0]))
		return Value{p: Tuple{{u: uint64(x)}, m.errVal(err)}}
	}
	intrinsics["strings.Split"] = func(m *Machine, fr *Frame, a []Value) Value { return m.strSlice(strings.Split(str(a[0]), str(a[1]))) }
	intrinsics["strings.Fields"] = func(m *Machine, fr *Frame, a []Value) Value { return m.strSlice(strings.Fields(str(a[0]))) }
	intrinsics["strings.TrimSpace"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(strings.TrimSpace(str(a[0]))) }
	intrinsics["strings.HasPrefix"] = func(m *Machine, fr *Frame, a []Value) Value { return bval(strings.HasPrefix(str(a[0]), str(a[1]))) }
	intrinsics["strings.HasSuffix"] = func(m *Machine, fr *Frame, a []Value) Value { return bval(strings.HasSuffix(str(a[0]), str(a[1]))) }
	intrinsics["strings.Contains"] = func(m *Machine, fr *Frame, a []Value) Value { return bval(strings.Contains(str(a[0]), str(a[1]))) }
	intrinsics["strings.Compare"] = func(m *Machine, fr *Frame, a []Value) Value {
		return Value{u: uint64(int64(strings.Compare(str(a[0]), str(a[1]))))}
	}
	void := func(m *Machine, fr *Frame, a []Value) Value { return Value{p: Tuple{{}, {}}} }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		intrinsics[n] = void
	}
	intrinsics["fmt.Sprintf"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(m.format(str(a[0]), a[1])) }
	intrinsics["fmt.Sprint"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(m.format("", a[0])) }
	intrinsics["fmt.Sprintln"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(m.format("", a[0]) + "\n") }
	intrinsics["fmt.Errorf"] = func(m *Machine, fr *Frame, a []Value) Value {
		return m.errVal(fmt.Errorf("%s", m.format(str(a[0]), a[1])))
	}
	intrinsics["errors.New"] = func(m *Machine, fr *Frame, a []Value) Value { return m.errVal(fmt.Errorf("%s", str(a[0]))) }
	nop := func(m *Machine, fr *Frame, a []Value) Value { return Value{} }
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "runtime.GC", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "time.Sleep", "runtime.ReadMemStats"} {
		intrinsics[n] = nop
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		n := n
		intrinsics[n] = func(m *Machine, fr *Frame, a []Value) Value { panic(&goPanic{msg: n}) }
	}
	intrinsics["time.Now"] = func(m *Machine, fr *Frame, a []Value) Value { return m.zero(fr.fi.fn.Signature.Results().At(0).Type()) }
	intrinsics["time.Since"] = nop
	intrinsics["(time.Time).Sub"] = nop
	intrinsics["(time.Duration).Seconds"] = nop
	intrinsics["(time.Duration).String"] = func(m *Machine, fr *Frame, a []Value) Value { return sval("0s") }
	intrinsics["(time.Time).UnixNano"] = nop
	intrinsics["(time.Time).Unix"] = nop
	intrinsics["(time.Duration).Milliseconds"] = nop
	// sorting by reflection
	intrinsics["sort.Slice"] = func(m *Machine, fr *Frame, a []Value) Value {
		ifc := a[0].p.(*Iface)
		s, _ := ifc.v.p.(*Slice)
		if s == nil {
			return Value{}
		}
		cl := a[1].p.(*Closure)
		// insertion sort calling less on the live slice
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				r := m.call(cl.fn, cl.bind, []Value{{u: uint64(j)}, {u: uint64(j - 1)}})
				if r.p != nil {
					panic(unsupported("sorting with a symbolic comparison"))
				}
				if r.u == 0 {
					break
				}
				for k := 0; k < s.es; k++ {
					x, y := s.o.cells[s.off+j*s.es+k], s.o.cells[s.off+(j-1)*s.es+k]
					m.store(s.o, s.off+j*s.es+k, y, false)
					m.store(s.o, s.off+(j-1)*s.es+k, x, false)
				}
			}
		}
		return Value{}
	}
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	sortBasic := func(less func(a, b Value) bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			s, _ := a[0].p.(*Slice)
			if s == nil {
				return Value{}
			}
			c := append([]Value(nil), s.o.cells[s.off:s.off+s.len]...)
			sort.SliceStable(c, func(i, j int) bool { return less(c[i], c[j]) })
			for i := range c {
				m.store(s.o, s.off+i, c[i], false)
			}
			return Value{}
		}
	}
	intrinsics["sort.Ints"] = sortBasic(func(a, b Value) bool { return int64(a.u) < int64(b.u) })
	intrinsics["sort.Strings"] = sortBasic(func(a, b Value) bool { return str(a) < str(b) })
	intrinsics["sort.Float64s"] = sortBasic(func(a, b Value) bool { return f64(a) < f64(b) })
	intrinsics["reflect.DeepEqual"] = func(m *Machine, fr *Frame, a []Value) Value {
		panic(unsupported("reflect.DeepEqual"))
	}
}

func (m *Machine) conc(v Value) Value {
	if v.p != nil {
		panic(unsupported("symbolic value where a concrete one is needed"))
	}
	return v
}

func (m *Machine) strSlice(ss []string) Value {
	o := m.newObj(len(ss))
	for i, s := range ss {
		o.cells[i] = sval(s)
	}
	return Value{p: &Slice{o: o, len: len(ss), cap: len(ss), es: 1}}
}

type errType struct{}

// errVal builds a non-nil error of a private dynamic type
func (m *Machine) errVal(err error) Value {
	if err == nil {
		return Value{}
	}
	t := m.errT()
	o := m.newObj(1)
	o.cells[0] = sval(err.Error())
	return Value{p: &Iface{t, Value{p: o}}}
}

func (m *Machine) errT() types.Type {
	p := m.prog.ImportedPackage("errors")
	if p != nil {
		if t := p.Type("errorString"); t != nil {
			return types.NewPointer(t.Type())
		}
	}
	return types.NewPointer(types.Typ[types.String])
}

func (m *Machine) goValue(v Value) any {
	ifc, _ := v.p.(*Iface)
	if ifc == nil {
		return nil
	}
	if isSym(ifc.v) {
		return "<symbolic>"
	}
	if b, ok := ifc.t.Underlying().(*types.Basic); ok {
		fk, _, sg := kindOf(b)
		switch fk {
		case 0:
			if sg {
				return int64(ifc.v.u)
			}
			return ifc.v.u
		case 1:
			if ifc.v.p != nil {
				return "<symbolic>"
			}
			return f64(ifc.v)
		case 2:
			return str(ifc.v)
		case 3:
			if _, ok := ifc.v.p.(*CSym); ok {
				return "<symbolic>"
			}
			return cplx(ifc.v)
		case 4:
			return ifc.v.u != 0
		}
	}
	if o, ok := ifc.v.p.(*Obj); ok && len(o.cells) == 1 {
		if s, ok := o.cells[0].p.(string); ok {
			return s
		}
	}
	return ifc.t.String()
}

func (m *Machine) format(f string, args Value) string {
	s, _ := args.p.(*Slice)
	var vs []any
	if s != nil {
		for i := 0; i < s.len; i++ {
			vs = append(vs, m.goValue(s.o.cells[s.off+i]))
		}
	}
	if f == "" {
		return fmt.Sprint(vs...)
	}
	return fmt.Sprintf(f, vs...)
}

// nativeIntrinsic handles functions without SSA bodies (packages that are not encoded).
func nativeIntrinsic(fn *ssa.Function) intrFn {
	if fn.Signature.Recv() != nil {
		if p := recvPkg(fn); p == "math/big" {
			return bigMethod(fn)
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math/big" {
		switch fn.Name() {
		case "NewInt":
			return func(m *Machine, fr *Frame, a []Value) Value {
				return m.bigVal(big.NewInt(int64(m.conc(a[0]).u)), 2)
			}
		case "NewFloat":
			return func(m *Machine, fr *Frame, a []Value) Value {
				return m.bigVal(big.NewFloat(f64(m.conc(a[0]))), 8)
			}
		}
	}
	name := fn.String()
	if fn.Name() == "init" {
		return func(m *Machine, fr *Frame, a []Value) Value { return Value{} }
	}
	return func(m *Machine, fr *Frame, a []Value) Value { panic(unsupported("external function " + name)) }
}

func recvPkg(fn *ssa.Function) string {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (m *Machine) bigVal(x any, cells int) Value {
	o := m.newObj(cells)
	o.nat = map[int]any{0: x}
	return Value{p: o}
}

func (m *Machine) bigOf(v Value, t types.Type) any {
	o, ok := v.p.(*Obj)
	if !ok {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	if x, ok := o.nat[int(v.u)]; ok {
		return x
	}
	if o.nat == nil {
		o.nat = map[int]any{}
	}
	var x any
	switch t.(*types.Pointer).Elem().(*types.Named).Obj().Name() {
	case "Int":
		x = new(big.Int)
	case "Float":
		x = new(big.Float)
	case "Rat":
		x = new(big.Rat)
	}
	o.nat[int(v.u)] = x
	return x
}

func isBigPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func bigMethod(fn *ssa.Function) intrFn {
	sig := fn.Signature
	name := fn.Name()
	return func(m *Machine, fr *Frame, a []Value) Value {
		if m.logging > 0 {
			panic(unsupported("math/big under a symbolic branch"))
		}
		rt := sig.Recv().Type()
		if !isBigPtr(rt) {
			panic(unsupported("math/big method " + fn.String()))
		}
		recv := m.bigOf(a[0], rt)
		var in []reflect.Value
		mv := reflect.ValueOf(recv).MethodByName(name)
		if !mv.IsValid() {
			panic(unsupported("math/big method " + fn.String()))
		}
		back := map[any]Value{recv: a[0]}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			v := a[i+1]
			switch {
			case isBigPtr(t):
				if v.p == nil {
					in = append(in, reflect.Zero(mv.Type().In(i)))
					continue
				}
				x := m.bigOf(v, t)
				back[x] = v
				in = append(in, reflect.ValueOf(x))
			default:
				fk, _, sg := kindOf(t)
				m.concOrStr(v)
				switch fk {
				case 0:
					if sg {
						in = append(in, reflect.ValueOf(int64(v.u)).Convert(mv.Type().In(i)))
					} else {
						in = append(in, reflect.ValueOf(v.u).Convert(mv.Type().In(i)))
					}
				case 1:
					in = append(in, reflect.ValueOf(f64(v)).Convert(mv.Type().In(i)))
				case 2:
					in = append(in, reflect.ValueOf(str(v)))
				case 4:
					in = append(in, reflect.ValueOf(v.u != 0))
				default:
					panic(unsupported("math/big argument of " + fn.String()))
				}
			}
		}
		out := mv.Call(in)
		conv := func(r reflect.Value) Value {
			switch x := r.Interface().(type) {
			case *big.Int:
				if x == nil {
					return Value{}
				}
				if v, ok := back[x]; ok {
					return v
				}
				return m.bigVal(x, 2)
			case *big.Float:
				if x == nil {
					return Value{}
				}
				if v, ok := back[x]; ok {
					return v
				}
				return m.bigVal(x, 8)
			}
			switch r.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int32, reflect.Int64:
				return Value{u: uint64(r.Int())}
			case reflect.Uint, reflect.Uint8, reflect.Uint64:
				return Value{u: r.Uint()}
			case reflect.Float64, reflect.Float32:
				return fval(r.Float())
			case reflect.Bool:
				return bval(r.Bool())
			case reflect.String:
				return sval(r.String())
			}
			panic(unsupported("math/big result of " + fn.String()))
		}
		if len(out) == 0 {
			return Value{}
		}
		if len(out) == 1 {
			return conv(out[0])
		}
		t := make(Tuple, len(out))
		for i := range out {
			t[i] = conv(out[i])
		}
		return Value{p: t}
	}
}

func (m *Machine) concOrStr(v Value) {
	switch v.p.(type) {
	case nil, string:
		return
	}
	panic(unsupported("symbolic argument of math/big"))
}

// ---------------- randomness ----------------

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

type polyView struct{ rows []*Slice }

// polyOf gives the coefficient rows of a *ring.Poly
func (m *Machine) polyOf(v Value) polyView {
	o, ok := v.p.(*Obj)
	if !ok {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	cs, _ := o.cells[v.u].p.(*Slice)
	var r polyView
	if cs == nil {
		return r
	}
	for i := 0; i < cs.len; i++ {
		s, _ := cs.o.cells[cs.off+i].p.(*Slice)
		r.rows = append(r.rows, s)
	}
	return r
}

func (m *Machine) ringModuli(v Value, level int) []uint64 {
	o, ok := v.p.(*Obj)
	if !ok {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	off := m.fieldByName(m.typRing(), "Modulus")
	s, _ := o.cells[int(v.u)+off].p.(*Slice)
	if s == nil || level+1 > s.len {
		panic(rtPanic("slice bounds out of range [:%d]", level+1))
	}
	r := make([]uint64, level+1)
	for i := range r {
		r[i] = s.o.cells[s.off+i].u
		m.sym.noteMod(r[i])
	}
	return r
}

func (m *Machine) typRing() types.Type {
	return m.namedType("github.com/ldsec/lattigo/v2/ring", "Ring")
}

func (m *Machine) namedType(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	return p.Type(name).Type()
}

func (m *Machine) fieldByName(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return m.fieldOff(s, i)
		}
	}
	panic(unsupported("field " + name))
}

func (m *Machine) row(p polyView, j, n int) *Slice {
	if j >= len(p.rows) {
		panic(rtPanic("index out of range [%d] with length %d", j, len(p.rows)))
	}
	if p.rows[j] == nil || p.rows[j].len < n {
		panic(rtPanic("index out of range [%d]", n-1))
	}
	return p.rows[j]
}

// prngKeyed marks the state of a generator whose key the program chose: its output is known to everyone.
type prngKeyed struct{}

// stream reads the generator of a sampler: the state it is in (advancing it) and whether its output is unpredictable.
func (m *Machine) stream(sampler Value, typ string) (st uint64, secret bool) {
	o, ok := sampler.p.(*Obj)
	if !ok {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	tt := m.namedType("github.com/ldsec/lattigo/v2/ring", typ)
	f, ok := o.cells[int(sampler.u)+m.fieldByName(tt, "baseSampler")].p.(*Iface)
	if !ok {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	g, ok := f.v.p.(*Obj)
	if !ok || !strings.HasSuffix(f.t.String(), "utils.KeyedPRNG") {
		panic(unsupported("random generator " + f.t.String()))
	}
	c := int(f.v.u) + m.sizeOf(m.namedType("github.com/ldsec/lattigo/v2/utils", "KeyedPRNG")) - 1
	v := g.cells[c]
	_, keyed := v.p.(prngKeyed)
	st = v.u
	next := v.u
	splitmix(&next)
	m.store(g, c, Value{u: next, p: v.p}, false)
	m.store(g, int(f.v.u), Value{u: g.cells[int(f.v.u)].u + 1}, false)
	return st, !keyed
}

// sampleSmall draws N small integers: symbolic atoms, the same ones for the same state of a generator, or seeded values
func (m *Machine) sampleSmall(kind string, n int, bound int64, st uint64, secret bool) []Value {
	key := fmt.Sprintf("%s %d %d %x", kind, n, bound, st)
	if r, ok := m.draws[key]; ok {
		return r
	}
	m.nsample++
	r := make([]Value, n)
	if m.draws == nil {
		m.draws = map[string][]Value{}
	}
	m.draws[key] = r
	for i := range r {
		if m.symNoise && secret {
			nd := m.sym.newNode(big.NewInt(-bound), big.NewInt(bound))
			nd.name = fmt.Sprintf("%s#%d[%d]", kind, m.nsample, i)
			nd.def = "noise:" + kind
			m.sym.atomID(nd)
			r[i] = Value{p: nd}
		} else {
			x := splitmix(&st)
			r[i] = Value{u: uint64(int64(x%uint64(2*bound+1)) - bound)}
		}
	}
	return r
}

func (m *Machine) putSmall(v Value, q uint64, mul uint64, old Value, add bool) Value {
	var f *ResForm
	if v.p == nil {
		x := int64(v.u)
		var u uint64
		if x < 0 {
			u = q - uint64(-x)%q
			u %= q
		} else {
			u = uint64(x) % q
		}
		f = rfConst(u, q)
	} else {
		f = m.sym.nodeRes(v.p.(*Node), q)
	}
	f = rfScale(f, mul)
	if add {
		f = rfAdd(f, m.sym.valRes(old, q))
	}
	return m.sym.canonNode(f)
}

func init() {
	gauss := func(add bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			level := m.toInt(a[1])
			p := m.polyOf(a[2])
			mods := m.ringModuli(a[3], level)
			n := m.ringN(a[3])
			bound := int64(m.toInt(a[5]))
			if a[0].p == nil {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			st, secret := m.stream(a[0], "GaussianSampler")
			vals := m.sampleSmall("gauss", n, bound, st, secret)
			for j, q := range mods {
				row := m.row(p, j, n)
				for i := 0; i < n; i++ {
					m.store(row.o, row.off+i, m.putSmall(vals[i], q, 1, row.o.cells[row.off+i], add), false)
				}
			}
			return Value{}
		}
	}
	intrinsics[ringT+"GaussianSampler).readLvl"] = gauss(false)
	intrinsics[ringT+"GaussianSampler).ReadAndAddFromDistLvl"] = gauss(true)
	tern := func(sparse bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			o, ok := a[0].p.(*Obj)
			if !ok {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			tt := m.namedType("github.com/ldsec/lattigo/v2/ring", "TernarySampler")
			base := int(a[0].u)
			ring := o.cells[base+m.fieldByName(tt, "baseSampler")+m.baseRingOff()]
			level := m.toInt(a[1])
			p := m.polyOf(a[2])
			mods := m.ringModuli(ring, level)
			n := m.ringN(ring)
			mv := o.cells[base+m.fieldByName(tt, "matrixValues")].p.(*Slice)
			pr := f64(o.cells[base+m.fieldByName(tt, "p")])
			hw := m.toInt(o.cells[base+m.fieldByName(tt, "hw")])
			var vals []Value
			st, secret := m.stream(a[0], "TernarySampler")
			var drawn map[int]bool
			if sparse || !m.symNoise || !secret {
				m.nsample++
				vals = make([]Value, n)
				if sparse {
					if hw > n {
						hw = n
					}
					drawn = map[int]bool{}
					idx := make([]int, n)
					for i := range idx {
						idx[i] = i
					}
					for k := 0; k < hw; k++ {
						j := k + int(splitmix(&st)%uint64(n-k))
						idx[k], idx[j] = idx[j], idx[k]
						drawn[idx[k]] = true
						vals[idx[k]] = Value{u: 1}
						if splitmix(&st)&1 == 1 {
							vals[idx[k]] = Value{u: ^uint64(0)}
						}
					}
				} else {
					if pr == 0 {
						panic(&goPanic{msg: "cannot sample -> p = 0"})
					}
					for i := range vals {
						x := splitmix(&st)
						if float64(x>>11)/(1<<53) >= pr {
							vals[i] = Value{u: 1}
							if x&1 == 1 {
								vals[i] = Value{u: ^uint64(0)}
							}
						}
					}
				}
			} else {
				if pr == 0 {
					panic(&goPanic{msg: "cannot sample -> p = 0"})
				}
				vals = m.sampleSmall("ternary", n, 1, st, secret)
			}
			for j, q := range mods {
				row := m.row(p, j, n)
				mul := mv.o.cells[mv.off+3*j+1].u
				for i := 0; i < n; i++ {
					if drawn != nil && !drawn[i] {
						continue // the sparse sampler leaves the other coefficients as they are
					}
					m.store(row.o, row.off+i, m.putSmall(vals[i], q, mul, Value{}, false), false)
				}
			}
			return Value{}
		}
	}
	intrinsics[ringT+"TernarySampler).sampleProba"] = tern(false)
	intrinsics[ringT+"TernarySampler).sampleSparse"] = tern(true)
	uni := func(lvl bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			o, ok := a[0].p.(*Obj)
			if !ok {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			tt := m.namedType("github.com/ldsec/lattigo/v2/ring", "UniformSampler")
			ring := o.cells[int(a[0].u)+m.fieldByName(tt, "baseSampler")+m.baseRingOff()]
			var p polyView
			level := 0
			if lvl {
				level = m.toInt(a[1])
				p = m.polyOf(a[2])
			} else {
				p = m.polyOf(a[1])
				level = len(p.rows) - 1
			}
			mods := m.ringModuli(ring, level)
			n := m.ringN(ring)
			st, secret := m.stream(a[0], "UniformSampler")
			m.nsample++
			for j, q := range mods {
				row := m.row(p, j, n)
				for i := 0; i < n; i++ {
					var v Value
					if m.symUniform && secret {
						nd := m.sym.newNode(new(big.Int), u64big(q-1))
						nd.name = fmt.Sprintf("uniform#%d[%d][%d]", m.nsample, j, i)
						nd.def = "noise:uniform"
						m.sym.atomID(nd)
						v = Value{p: nd}
					} else {
						v = Value{u: splitmix(&st) % q}
					}
					m.store(row.o, row.off+i, v, false)
				}
			}
			return Value{}
		}
	}
	intrinsics[ringT+"UniformSampler).Read"] = uni(false)
	intrinsics[ringT+"UniformSampler).ReadLvl"] = uni(true)

	const up = "github.com/ldsec/lattigo/v2/utils."
	newPRNG := func(m *Machine, seed uint64, key any) Value {
		t := m.namedType("github.com/ldsec/lattigo/v2/utils", "KeyedPRNG")
		o := m.newObj(m.sizeOf(t))
		o.cells[len(o.cells)-1] = Value{u: seed, p: key}
		return Value{p: Tuple{{p: o}, {}}}
	}
	intrinsics[up+"NewPRNG"] = func(m *Machine, fr *Frame, a []Value) Value { return newPRNG(m, splitmix(&m.prng), nil) }
	intrinsics[up+"NewKeyedPRNG"] = func(m *Machine, fr *Frame, a []Value) Value {
		h := fnv.New64a()
		if s, ok := a[0].p.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				h.Write([]byte{byte(s.o.cells[s.off+i].u)})
			}
		}
		return newPRNG(m, h.Sum64(), prngKeyed{})
	}
	intrinsics["(*"+up+"KeyedPRNG).Clock"] = func(m *Machine, fr *Frame, a []Value) Value {
		o, ok := a[0].p.(*Obj)
		if !ok {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		b := int(a[0].u)
		c := b + m.sizeOf(m.namedType("github.com/ldsec/lattigo/v2/utils", "KeyedPRNG")) - 1
		st := o.cells[c].u
		if s, ok := a[1].p.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				m.store(s.o, s.off+i, Value{u: splitmix(&st) & 0xff}, false)
			}
		}
		m.store(o, c, Value{u: st, p: o.cells[c].p}, false)
		m.store(o, b, Value{u: o.cells[b].u + 1}, false)
		return Value{}
	}
	rd := func(m *Machine, fr *Frame, a []Value) Value {
		s, _ := a[0].p.(*Slice)
		n := 0
		if s != nil {
			n = s.len
			for i := 0; i < s.len; i++ {
				m.store(s.o, s.off+i, Value{u: splitmix(&m.prng) & 0xff}, false)
			}
		}
		return Value{p: Tuple{{u: uint64(n)}, {}}}
	}
	intrinsics["crypto/rand.Read"] = rd
	intrinsics["math/rand.Read"] = rd
	intrinsics["math/rand.Seed"] = func(m *Machine, fr *Frame, a []Value) Value { return Value{} }
	intrinsics["math/rand.Float64"] = func(m *Machine, fr *Frame, a []Value) Value {
		return fval(float64(splitmix(&m.prng)>>11) / (1 << 53))
	}
	intrinsics["math/rand.Intn"] = func(m *Machine, fr *Frame, a []Value) Value {
		return Value{u: splitmix(&m.prng) % a[0].u}
	}
}

func (m *Machine) ringN(v Value) int {
	o := v.p.(*Obj)
	return m.toInt(o.cells[int(v.u)+m.fieldByName(m.typRing(), "N")])
}

func (m *Machine) baseRingOff() int {
	t := m.prog.ImportedPackage("github.com/ldsec/lattigo/v2/ring").Type("baseSampler").Type()
	return m.fieldByName(t, "baseRing")
}
