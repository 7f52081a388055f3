package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Residue forms: polynomials over atoms with coefficients modulo q.
// q == 0 stands for 2^64.
// A monomial is packed in a uint64: up to three 21-bit atom ids, descending.
// ---------------------------------------------------------------------------

type rterm struct{ k, c uint64 }

type ResForm struct {
	q uint64
	t []rterm // sorted by k ascending, no zero coefficients
}

const idBits = 21
const idMask = 1<<idBits - 1

func monoMul(a, b uint64) uint64 {
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	var v [6]uint64
	n := 0
	// both descending with zeros at the end
	ai := [3]uint64{a >> (2 * idBits), (a >> idBits) & idMask, a & idMask}
	bi := [3]uint64{b >> (2 * idBits), (b >> idBits) & idMask, b & idMask}
	i, j := 0, 0
	for i < 3 || j < 3 {
		var x uint64
		if j >= 3 || (i < 3 && ai[i] >= bi[j]) {
			x = ai[i]
			i++
		} else {
			x = bi[j]
			j++
		}
		if x != 0 {
			v[n] = x
			n++
		}
	}
	if n > 3 {
		panic(unsupported("monomial of degree > 3"))
	}
	return v[0]<<(2*idBits) | v[1]<<idBits | v[2]
}

func monoAtoms(k uint64) []int {
	var r []int
	for _, x := range [3]uint64{k >> (2 * idBits), (k >> idBits) & idMask, k & idMask} {
		if x != 0 {
			r = append(r, int(x))
		}
	}
	return r
}

func monoOf(id int) uint64 { return uint64(id) << (2 * idBits) }

func addm(a, b, q uint64) uint64 {
	if q == 0 {
		return a + b
	}
	s, c := bits.Add64(a, b, 0)
	if c != 0 || s >= q {
		s -= q
	}
	return s
}
func negm(a, q uint64) uint64 {
	if q == 0 {
		return -a
	}
	if a == 0 {
		return 0
	}
	return q - a
}
func mulm(a, b, q uint64) uint64 {
	if q == 0 {
		return a * b
	}
	hi, lo := bits.Mul64(a, b)
	if hi == 0 {
		return lo % q
	}
	return bits.Rem64(hi, lo, q)
}

func rfConst(c, q uint64) *ResForm {
	if q != 0 {
		c %= q
	}
	if c == 0 {
		return &ResForm{q: q}
	}
	return &ResForm{q: q, t: []rterm{{0, c}}}
}

func rfAdd(a, b *ResForm) *ResForm { return rfAddScaled(a, b, 1) }

// a + s*b
func rfAddScaled(a, b *ResForm, s uint64) *ResForm {
	q := a.q
	if len(b.t) == 0 || s == 0 {
		return a
	}
	if len(a.t) == 0 && s == 1 {
		return b
	}
	r := make([]rterm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		if j >= len(b.t) || (i < len(a.t) && a.t[i].k < b.t[j].k) {
			r = append(r, a.t[i])
			i++
		} else if i >= len(a.t) || b.t[j].k < a.t[i].k {
			c := b.t[j].c
			if s != 1 {
				c = mulm(c, s, q)
			}
			if c != 0 {
				r = append(r, rterm{b.t[j].k, c})
			}
			j++
		} else {
			c := b.t[j].c
			if s != 1 {
				c = mulm(c, s, q)
			}
			c = addm(a.t[i].c, c, q)
			if c != 0 {
				r = append(r, rterm{a.t[i].k, c})
			}
			i++
			j++
		}
	}
	return &ResForm{q, r}
}

func rfScale(a *ResForm, s uint64) *ResForm {
	if a.q != 0 {
		s %= a.q
	}
	if s == 1 || len(a.t) == 0 {
		return a
	}
	if s == 0 {
		return &ResForm{q: a.q}
	}
	r := make([]rterm, 0, len(a.t))
	for _, t := range a.t {
		if c := mulm(t.c, s, a.q); c != 0 {
			r = append(r, rterm{t.k, c})
		}
	}
	return &ResForm{a.q, r}
}

func rfSub(a, b *ResForm) *ResForm { return rfAddScaled(a, b, negm(1, a.q)) }

func rfMul(a, b *ResForm) *ResForm {
	q := a.q
	if len(a.t) == 0 || len(b.t) == 0 {
		return &ResForm{q: q}
	}
	if len(a.t) == 1 && a.t[0].k == 0 {
		return rfScale(b, a.t[0].c)
	}
	if len(b.t) == 1 && b.t[0].k == 0 {
		return rfScale(a, b.t[0].c)
	}
	if len(a.t)*len(b.t) > 40_000_000 {
		panic(unsupported("polynomial product too large"))
	}
	r := make([]rterm, 0, len(a.t)*len(b.t))
	for _, x := range a.t {
		for _, y := range b.t {
			r = append(r, rterm{monoMul(x.k, y.k), mulm(x.c, y.c, q)})
		}
	}
	return rfNorm(q, r)
}

func rfNorm(q uint64, r []rterm) *ResForm {
	sort.Slice(r, func(i, j int) bool { return r[i].k < r[j].k })
	o := r[:0]
	for i := 0; i < len(r); {
		k := r[i].k
		var c uint64
		for ; i < len(r) && r[i].k == k; i++ {
			c = addm(c, r[i].c, q)
		}
		if c != 0 {
			o = append(o, rterm{k, c})
		}
	}
	if cap(o) > 2*len(o)+16 {
		o = append([]rterm(nil), o...)
	}
	return &ResForm{q, o}
}

func rfEq(a, b *ResForm) bool {
	if a.q != b.q || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func rfHash(a *ResForm) uint64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], a.q)
	h.Write(b[:8])
	for _, t := range a.t {
		binary.LittleEndian.PutUint64(b[:8], t.k)
		binary.LittleEndian.PutUint64(b[8:], t.c)
		h.Write(b[:])
	}
	return h.Sum64()
}

func (a *ResForm) isConst() (uint64, bool) {
	if len(a.t) == 0 {
		return 0, true
	}
	if len(a.t) == 1 && a.t[0].k == 0 {
		return a.t[0].c, true
	}
	return 0, false
}

// ---------------------------------------------------------------------------
// Nodes: integer valued symbolic quantities with an interval, and residue
// definitions for some moduli. A node that is used where no residue
// definition is known becomes an atom (a solver variable).
// ---------------------------------------------------------------------------

type Node struct {
	id     int
	atom   int // 0 = none yet
	lo, hi *big.Int
	res    []*ResForm              // known residue definitions (keyed by their q)
	lazy   func(q uint64) *ResForm // optional: compute residue definition on demand (nil = none)
	lazyNo map[uint64]bool
	name   string
	canon  uint64 // non-zero: value is the canonical residue modulo canon (1 = modulo 2^64)
	def    any    // provenance (for reports and candidate generation)
}

type iteDef struct {
	c    *Cond
	a, b Value
}

type fterm struct {
	n [3]*Node // by id descending, nil padded
	c *big.Rat
}

// Form: exact rational combination of node monomials. Sorted by node ids.
type Form []fterm

type Expr struct {
	f      Form
	lo, hi *big.Int
}

type FSym struct { // symbolic float64: exact real form, absolute error bound
	f   Form
	err *big.Rat
	iv  *Value // the same number as an integer
	one bool   // the exact real rounded once: rounding is monotone, so it never crosses an integer
}

var ratOne = big.NewRat(1, 1)
var bigOne = big.NewInt(1)
var two64 = new(big.Int).Lsh(bigOne, 64)
var max64 = new(big.Int).Sub(two64, bigOne)

func ftermCmp(a, b *fterm) int {
	for i := 0; i < 3; i++ {
		var x, y int
		if a.n[i] != nil {
			x = a.n[i].id
		}
		if b.n[i] != nil {
			y = b.n[i].id
		}
		if x != y {
			if x < y {
				return -1
			}
			return 1
		}
	}
	return 0
}

func formConst(c *big.Rat) Form {
	if c.Sign() == 0 {
		return nil
	}
	return Form{{c: c}}
}

func formNode(n *Node) Form { return Form{{n: [3]*Node{n}, c: ratOne}} }

func formAddScaled(a, b Form, s *big.Rat) Form {
	r := make(Form, 0, len(a)+len(b))
	i, j := 0, 0
	one := s.Cmp(ratOne) == 0
	sc := func(c *big.Rat) *big.Rat {
		if one {
			return c
		}
		return new(big.Rat).Mul(c, s)
	}
	for i < len(a) || j < len(b) {
		var c int
		if i >= len(a) {
			c = 1
		} else if j >= len(b) {
			c = -1
		} else {
			c = ftermCmp(&a[i], &b[j])
		}
		switch {
		case c < 0:
			r = append(r, a[i])
			i++
		case c > 0:
			if x := sc(b[j].c); x.Sign() != 0 {
				r = append(r, fterm{b[j].n, x})
			}
			j++
		default:
			x := new(big.Rat).Add(a[i].c, sc(b[j].c))
			if x.Sign() != 0 {
				r = append(r, fterm{a[i].n, x})
			}
			i++
			j++
		}
	}
	return r
}

func formScale(a Form, s *big.Rat) Form {
	if s.Sign() == 0 {
		return nil
	}
	r := make(Form, len(a))
	for i := range a {
		r[i] = fterm{a[i].n, new(big.Rat).Mul(a[i].c, s)}
	}
	return r
}

func formMul(a, b Form) Form {
	var r Form
	for i := range a {
		for j := range b {
			var v [6]*Node
			n := 0
			for _, x := range a[i].n {
				if x != nil {
					v[n] = x
					n++
				}
			}
			for _, x := range b[j].n {
				if x != nil {
					v[n] = x
					n++
				}
			}
			if n > 3 {
				panic(unsupported("exact monomial of degree > 3"))
			}
			sort.Slice(v[:n], func(x, y int) bool { return v[x].id > v[y].id })
			r = append(r, fterm{[3]*Node{v[0], v[1], v[2]}, new(big.Rat).Mul(a[i].c, b[j].c)})
		}
	}
	sort.Slice(r, func(i, j int) bool { return ftermCmp(&r[i], &r[j]) < 0 })
	o := Form{}
	for i := 0; i < len(r); {
		c := r[i].c
		j := i + 1
		for ; j < len(r) && ftermCmp(&r[i], &r[j]) == 0; j++ {
			c = new(big.Rat).Add(c, r[j].c)
		}
		if c.Sign() != 0 {
			o = append(o, fterm{r[i].n, c})
		}
		i = j
	}
	return o
}

func (f Form) isConst() (*big.Rat, bool) {
	if len(f) == 0 {
		return new(big.Rat), true
	}
	if len(f) == 1 && f[0].n[0] == nil {
		return f[0].c, true
	}
	return nil, false
}

func formEq(a, b Form) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if ftermCmp(&a[i], &b[i]) != 0 || a[i].c.Cmp(b[i].c) != 0 {
			return false
		}
	}
	return true
}

func (f Form) String() string {
	var sb strings.Builder
	for i, t := range f {
		if i > 0 {
			sb.WriteString(" + ")
		}
		sb.WriteString(t.c.RatString())
		for _, n := range t.n {
			if n != nil {
				fmt.Fprintf(&sb, "*n%d", n.id)
			}
		}
	}
	return sb.String()
}

func (f Form) key() string {
	var sb strings.Builder
	for _, t := range f {
		sb.WriteString(t.c.RatString())
		for _, n := range t.n {
			if n != nil {
				fmt.Fprintf(&sb, "*%d", n.id)
			}
		}
		sb.WriteByte('+')
	}
	return sb.String()
}

// interval of a form, as rationals
func (f Form) bounds() (lo, hi *big.Rat) {
	lo, hi = new(big.Rat), new(big.Rat)
	for _, t := range f {
		tl, th := new(big.Int).Set(bigOne), new(big.Int).Set(bigOne)
		for i := 0; i < 3 && t.n[i] != nil; {
			n := t.n[i]
			m := 1
			for i+m < 3 && t.n[i+m] == n {
				m++
			}
			nl, nh := powRange(n.lo, n.hi, m)
			tl, th = mulRange(tl, th, nl, nh)
			i += m
		}
		rl, rh := new(big.Rat).SetInt(tl), new(big.Rat).SetInt(th)
		if t.c.Sign() < 0 {
			rl, rh = rh, rl
		}
		lo.Add(lo, rl.Mul(rl, t.c))
		hi.Add(hi, rh.Mul(rh, t.c))
	}
	return
}

func powRange(lo, hi *big.Int, m int) (*big.Int, *big.Int) {
	if m == 1 {
		return lo, hi
	}
	if m == 2 {
		a, b := new(big.Int).Mul(lo, lo), new(big.Int).Mul(hi, hi)
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		if lo.Sign() < 0 && hi.Sign() > 0 {
			a = new(big.Int)
		}
		return a, b
	}
	l2, h2 := powRange(lo, hi, m-1)
	return mulRange(l2, h2, lo, hi)
}

func mulRange(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	var lo, hi *big.Int
	for _, x := range []*big.Int{al, ah} {
		for _, y := range []*big.Int{bl, bh} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean: m>=0, denom>0 => floor
	return q
}
func ratCeil(r *big.Rat) *big.Int {
	f := ratFloor(new(big.Rat).Neg(r))
	return f.Neg(f)
}

func u64big(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// ---------------------------------------------------------------------------
// Symbolic context of one run
// ---------------------------------------------------------------------------

type SymCtx struct {
	nextID  int
	atoms   []*Node // index = atom id
	intern  map[uint64][]*Node
	mod64   map[uint64][]*Node
	digits  map[string]*Node
	lookups map[string]*Node
	moduli  map[uint64]bool
	modF    map[float64]uint64
	vars    map[string]*Node
	varList []string
	ites    []*Node
	facts   map[string]bool
}

func newSymCtx() *SymCtx {
	return &SymCtx{nextID: 1, atoms: []*Node{nil}, intern: map[uint64][]*Node{}, mod64: map[uint64][]*Node{}, digits: map[string]*Node{}, lookups: map[string]*Node{},
		moduli: map[uint64]bool{}, modF: map[float64]uint64{}, vars: map[string]*Node{}, facts: map[string]bool{}}
}

func (s *SymCtx) noteMod(q uint64) {
	if !s.moduli[q] {
		s.moduli[q] = true
		s.modF[float64(q)] = q
	}
}

func (s *SymCtx) newNode(lo, hi *big.Int) *Node {
	n := &Node{id: s.nextID, lo: lo, hi: hi}
	s.nextID++
	return n
}

func (s *SymCtx) variable(name string, lo, hi *big.Int) *Node {
	if n, ok := s.vars[name]; ok {
		return n
	}
	n := s.newNode(lo, hi)
	n.name = name
	s.vars[name] = n
	s.varList = append(s.varList, name)
	return n
}

// residue of node modulo q as a residue form
func (s *SymCtx) nodeRes(n *Node, q uint64) *ResForm {
	if r := s.nodeDef(n, q); r != nil {
		return r
	}
	return &ResForm{q: q, t: []rterm{{monoOf(s.atomID(n)), 1 % maxq(q)}}}
}

func maxq(q uint64) uint64 {
	if q == 0 {
		return ^uint64(0)
	}
	return q
}

func (s *SymCtx) nodeDef(n *Node, q uint64) *ResForm {
	for _, r := range n.res {
		if r.q == q {
			return r
		}
	}
	if n.lazy != nil && !n.lazyNo[q] {
		if r := n.lazy(q); r != nil {
			n.res = append(n.res, r)
			return r
		}
		if n.lazyNo == nil {
			n.lazyNo = map[uint64]bool{}
		}
		n.lazyNo[q] = true
	}
	if n.lo.Cmp(n.hi) == 0 {
		return rfConst(bigMod(n.lo, q), q)
	}
	return nil
}

func bigMod(x *big.Int, q uint64) uint64 {
	m := two64
	if q != 0 {
		m = u64big(q)
	}
	return new(big.Int).Mod(x, m).Uint64()
}

func (s *SymCtx) atomID(n *Node) int {
	if n.atom != 0 {
		return n.atom
	}
	if n.canon != 0 {
		q := n.canon
		if q == 1 {
			q = 0
		}
		var f *ResForm
		for _, r := range n.res {
			if r.q == q {
				f = r
			}
		}
		if f != nil {
			// the canonical residue of a single atom already in range is that atom
			if len(f.t) == 1 && f.t[0].c == 1 {
				if as := monoAtoms(f.t[0].k); len(as) == 1 {
					a := s.atoms[as[0]]
					if a.lo.Sign() >= 0 && (q == 0 && a.hi.Cmp(max64) <= 0 || q != 0 && a.hi.Cmp(u64big(q)) < 0) {
						n.atom = as[0]
						return n.atom
					}
				}
			}
			h := rfHash(f)
			for _, m := range s.intern[h] {
				if m.canon == n.canon && rfEq(s.nodeDef(m, q), f) {
					n.atom = m.atom
					return n.atom
				}
			}
			defer func() { s.intern[h] = append(s.intern[h], n) }()
		}
	}
	n.atom = len(s.atoms)
	if n.atom > idMask {
		panic(unsupported("too many atoms"))
	}
	s.atoms = append(s.atoms, n)
	return n.atom
}

// residue form of an exact form. nil if a denominator is not invertible.
func (s *SymCtx) flatten(f Form, q uint64) *ResForm {
	acc := &ResForm{q: q}
	var bulk []rterm
	for i := range f {
		c, ok := ratMod(f[i].c, q)
		if !ok {
			return nil
		}
		if c == 0 {
			continue
		}
		var r *ResForm
		for _, n := range f[i].n {
			if n == nil {
				break
			}
			x := s.nodeRes(n, q)
			if r == nil {
				r = x
			} else {
				r = rfMul(r, x)
			}
		}
		if r == nil {
			r = rfConst(1, q)
		}
		if len(f) > 6 {
			for _, t := range r.t {
				bulk = append(bulk, rterm{t.k, mulm(t.c, c, q)})
			}
		} else {
			acc = rfAddScaled(acc, r, c)
		}
	}
	if bulk != nil {
		return rfNorm(q, bulk)
	}
	return acc
}

func ratMod(c *big.Rat, q uint64) (uint64, bool) {
	m := two64
	if q != 0 {
		m = u64big(q)
	}
	if c.IsInt() {
		return new(big.Int).Mod(c.Num(), m).Uint64(), true
	}
	d := new(big.Int).ModInverse(c.Denom(), m)
	if d == nil {
		return 0, false
	}
	d.Mul(d, c.Num())
	return d.Mod(d, m).Uint64(), true
}

// canonical residue node for a residue form (value in [0,q))
func (s *SymCtx) canonNode(f *ResForm) Value {
	if c, ok := f.isConst(); ok {
		return Value{u: c}
	}
	q := f.q
	if q != 0 {
		s.noteMod(q)
	}
	// a single atom already in range
	if len(f.t) == 1 && f.t[0].c == 1 {
		if as := monoAtoms(f.t[0].k); len(as) == 1 {
			a := s.atoms[as[0]]
			if a.lo.Sign() >= 0 && (q == 0 && a.hi.Cmp(max64) <= 0 || q != 0 && a.hi.Cmp(u64big(q)) < 0) {
				return Value{p: a}
			}
		}
	}
	if q == 0 {
		h := rfHash(f)
		for _, n := range s.mod64[h] {
			if rfEq(n.res[0], f) {
				return Value{p: n}
			}
		}
		n := s.newNode(new(big.Int), max64)
		n.res = []*ResForm{f}
		n.canon = 1
		s.mod64[h] = append(s.mod64[h], n)
		return Value{p: n}
	}
	n := s.newNode(new(big.Int), u64big(q-1))
	n.res = []*ResForm{f}
	n.canon = q
	return Value{p: n}
}

// node with known residue and a given range (not necessarily canonical)
func (s *SymCtx) lazyNode(f *ResForm, hi *big.Int) Value {
	if hi.Cmp(u64big(f.q)) < 0 {
		return s.canonNode(f)
	}
	s.noteMod(f.q)
	n := s.newNode(new(big.Int), hi)
	n.res = []*ResForm{f}
	return Value{p: n}
}

func (s *SymCtx) toForm(v Value) Form {
	switch p := v.p.(type) {
	case nil:
		return formConst(new(big.Rat).SetInt(u64big(v.u)))
	case *Node:
		return formNode(p)
	case *Expr:
		return p.f
	}
	panic(unsupported(fmt.Sprintf("toForm %T", v.p)))
}

func isSym(v Value) bool {
	switch v.p.(type) {
	case *Node, *Expr:
		return true
	}
	return false
}

func (s *SymCtx) rangeOf(v Value, signed bool) (lo, hi *big.Int) {
	switch p := v.p.(type) {
	case *Node:
		return p.lo, p.hi
	case *Expr:
		return p.lo, p.hi
	}
	if signed {
		x := big.NewInt(int64(v.u))
		return x, x
	}
	x := u64big(v.u)
	return x, x
}

// residue of a value modulo q
func (s *SymCtx) valRes(v Value, q uint64) *ResForm {
	switch p := v.p.(type) {
	case nil:
		if q == 0 {
			return rfConst(v.u, 0)
		}
		return rfConst(v.u%q, q)
	case *Node:
		return s.nodeRes(p, q)
	case *Expr:
		if r := s.flatten(p.f, q); r != nil {
			return r
		}
		return s.nodeRes(s.nodeFor(p), q)
	}
	panic(unsupported(fmt.Sprintf("residue of %T", v.p)))
}

// nodeFor turns an exact expression into an opaque node (hash-consed on its form)
func (s *SymCtx) nodeFor(e *Expr) *Node {
	k := "E" + e.f.key()
	if n, ok := s.digits[k]; ok {
		return n
	}
	n := s.newNode(e.lo, e.hi)
	f := e.f
	n.lazy = func(q uint64) *ResForm { return s.flatten(f, q) }
	n.def = e
	s.digits[k] = n
	return n
}

// mkInt builds a value of an integer type (width w, signedness) from an exact form, wrapping if needed.
func (s *SymCtx) mkInt(f Form, w uint, signed bool) Value {
	if c, ok := f.isConst(); ok {
		if !c.IsInt() {
			panic(unsupported("non-integral constant"))
		}
		m := new(big.Int).Lsh(bigOne, w)
		x := new(big.Int).Mod(c.Num(), m)
		u := x.Uint64()
		if signed && w < 64 && u>>(w-1) != 0 {
			u |= ^uint64(0) << w
		}
		return Value{u: u}
	}
	rl, rh := f.bounds()
	lo, hi := ratCeil(rl), ratFloor(rh)
	var tl, th *big.Int
	if signed {
		th = new(big.Int).Lsh(bigOne, w-1)
		tl = new(big.Int).Neg(th)
		th.Sub(th, bigOne)
	} else {
		tl = new(big.Int)
		th = new(big.Int).Lsh(bigOne, w)
		th.Sub(th, bigOne)
	}
	if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return s.exprVal(f, lo, hi)
	}
	// maybe stripping inner mod-2^64 nodes brings the value back in range
	if w == 64 {
		if g, ok := s.strip64(f); ok {
			rl, rh := g.bounds()
			lo, hi := ratCeil(rl), ratFloor(rh)
			if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
				return s.exprVal(g, lo, hi)
			}
			// shift by a multiple of 2^64 if the whole interval lies in one window
			k := ratFloor(new(big.Rat).SetFrac(lo, two64))
			sh := new(big.Int).Mul(k, two64)
			if !signed && new(big.Int).Sub(hi, sh).Cmp(max64) <= 0 {
				g = formAddScaled(g, formConst(new(big.Rat).SetInt(sh)), big.NewRat(-1, 1))
				return s.exprVal(g, new(big.Int).Sub(lo, sh), new(big.Int).Sub(hi, sh))
			}
		}
		if !signed {
			r := s.flatten(f, 0)
			if r == nil {
				n := s.newNode(new(big.Int), max64)
				n.def = f // equal to f modulo 2^64
				n.canon = 1
				return Value{p: n}
			}
			v := s.canonNode(r)
			if n, ok := v.p.(*Node); ok && n.canon == 1 {
				if n.def == nil {
					n.def = f
				} else if d, ok := n.def.(Form); ok && d.key() != f.key() {
					// the same value written differently: keep this form for the merge of branches
					c := s.newNode(n.lo, n.hi)
					c.res, c.canon, c.def = n.res, 1, f
					return Value{p: c}
				}
			}
			return v
		}
	}
	if !signed {
		m := uint64(1) << w
		r := s.flatten(f, m)
		if r == nil {
			n := s.newNode(new(big.Int), u64big(m-1))
			return Value{p: n}
		}
		return s.canonNode(r)
	}
	panic(unsupported("signed symbolic overflow"))
}

// strip64 replaces canonical mod-2^64 nodes that carry an exact provenance form by that form (equal modulo 2^64)
func (s *SymCtx) strip64(f Form) (Form, bool) {
	ch := false
	var g Form
	for _, t := range f {
		if t.n[0] != nil && t.n[1] == nil && t.c.IsInt() {
			if d, ok := t.n[0].def.(Form); ok && t.n[0].canon == 1 {
				g = formAddScaled(g, d, t.c)
				ch = true
				continue
			}
		}
		g = formAddScaled(g, Form{t}, ratOne)
	}
	return g, ch
}

func (s *SymCtx) exprVal(f Form, lo, hi *big.Int) Value {
	if len(f) == 1 && f[0].n[0] != nil && f[0].n[1] == nil && f[0].c.Cmp(ratOne) == 0 {
		return Value{p: f[0].n[0]}
	}
	if lo.Cmp(hi) == 0 {
		return Value{u: new(big.Int).And(lo, max64).Uint64()}
	}
	return Value{p: &Expr{f, lo, hi}}
}
