package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Value is one cell or register. p == nil: scalar bits in u (or the zero value of any type).
type Value struct {
	u uint64
	p any
}

type Obj struct {
	cells []Value
	nat   map[int]any // native payloads (math/big values) by offset
	ro    bool
	id    int
}

type Slice struct {
	o             *Obj
	off, len, cap int
	es            int
}

type SymPtr struct { // pointer into an array at a symbolic index
	o    *Obj
	off  int
	n    int
	idx  Value
	es   int
	sign bool
}

type Agg []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type MapV struct {
	m    map[any]*mapEnt
	seq  int
	id   int
	kIsF bool
}
type mapEnt struct {
	k, v Value
	seq  int
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  func(m *Machine, args []Value) Value
}

type Iter struct {
	keys []Value
	vals func(k Value) (Value, bool)
	i    int
	str  []rune
	idx  []int
}

type Cond struct {
	kind int // 0 cmp f OP 0 ; 1 not a ; 2 ite(c,a,b) ; 3 and ; 4 or
	op   string
	f    Form
	a, b Value
	c    *Cond
	fl   bool
}

type poison struct{ why string }

type unsupErr struct{ msg string }

func (e *unsupErr) Error() string { return "unsupported: " + e.msg }

func unsupported(msg string) *unsupErr { return &unsupErr{msg} }

type goPanic struct {
	v   Value
	msg string
	rt  bool

	recovered bool
}

func rtPanic(format string, a ...any) *goPanic {
	return &goPanic{msg: "runtime error: " + fmt.Sprintf(format, a...), rt: true}
}

func f64(v Value) float64  { return math.Float64frombits(v.u) }
func fval(f float64) Value { return Value{u: math.Float64bits(f)} }
func bval(b bool) Value {
	if b {
		return Value{u: 1}
	}
	return Value{}
}
func sval(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func str(v Value) string {
	if v.p == nil {
		return ""
	}
	return v.p.(string)
}

func cplx(v Value) complex128 {
	if v.p == nil {
		return 0
	}
	return v.p.(complex128)
}

// ---- map helpers ----
func mapKey(k Value) any {
	switch p := k.p.(type) {
	case nil:
		return k.u
	case string:
		return p
	case *Iface:
		return [2]any{p.t.String(), mapKey(p.v)}
	case *Obj:
		return [2]any{p, k.u}
	case Agg:
		s := ""
		for _, x := range p {
			s += fmt.Sprintf("%v|", mapKey(x))
		}
		return "agg:" + s
	}
	panic(unsupported(fmt.Sprintf("map key %T", k.p)))
}

func sortedEntries(mv *MapV) []*mapEnt {
	es := make([]*mapEnt, 0, len(mv.m))
	for _, e := range mv.m {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		a, b := es[i].k, es[j].k
		as, ok1 := a.p.(string)
		bs, ok2 := b.p.(string)
		if ok1 || ok2 {
			if as != bs {
				return as < bs
			}
		}
		if int64(a.u) != int64(b.u) {
			return int64(a.u) < int64(b.u)
		}
		return es[i].seq < es[j].seq
	})
	return es
}

// ---- float forms ----
func ratOfFloat(f float64) *big.Rat {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		panic(unsupported("non-finite float in symbolic expression"))
	}
	return new(big.Rat).SetFloat64(f)
}
