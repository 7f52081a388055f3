package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k uint8 // 0 const, 1 reg, 2 global, 3 func, 4 builtin, 5 freevar
	i int
	v Value
	s ssa.Value
}

type cinstr struct {
	ins  ssa.Instruction
	dst  int
	ops  []opnd
	i, j int
	t    types.Type
	w    uint // integer width of result/operand
	sg   bool // signed
	fk   int  // basic kind class: 0 int, 1 float, 2 string, 3 complex, 4 bool, 5 other
	flag bool
}

type cblock struct {
	phis []cinstr
	ins  []cinstr
}

type fnInfo struct {
	fn    *ssa.Function
	nreg  int
	idx   map[ssa.Value]int
	blk   []cblock
	ipdom []int // -1 = exit
	name  string
	intr  func(m *Machine, fr *Frame, args []Value) Value
	calls int
}

type Frame struct {
	fi     *fnInfo
	env    []Value
	bind   []Value
	defers []func()
	steps  int
	loops  map[int]int
}

type logEnt struct {
	o   *Obj
	off int
	old Value
	fl  bool
	mv  *MapV
	key any
	ent *mapEnt
}

type Machine struct {
	prog       *ssa.Program
	sym        *SymCtx
	infos      map[*ssa.Function]*fnInfo
	globals    map[*ssa.Global]*Obj
	sizes      map[types.Type]int
	nobj       int
	logging    int
	log        []logEnt
	pc         []pcEnt
	steps      int64
	maxSteps   int64
	nextTick   int64
	deadline   time.Time
	depth      int
	mapOrder   int // 0 asc, 1 desc, 2 rotated ...
	encoded    map[string]int
	run        *Run
	initDone   map[*ssa.Package]bool
	methods    map[string]*ssa.Function
	prng       uint64
	draws      map[string][]Value
	panicking  *goPanic
	nsample    int
	tags       map[any]any
	forks      int
	inInit     bool
	r64        map[uint64][2]uint64
	exactReals bool
	reals      *realCtx
	files      map[string]string // what the program may open
	printed    Value             // the last integer printed
	symNoise   bool
	symUniform bool
	stk        [4096]*fnInfo
	cur        ssa.Instruction
}

type pcEnt struct {
	c   *Cond
	neg bool
}

func NewMachine(prog *ssa.Program) *Machine {
	return &Machine{prog: prog, sym: newSymCtx(), infos: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Obj{}, sizes: map[types.Type]int{},
		encoded: map[string]int{}, initDone: map[*ssa.Package]bool{}, methods: map[string]*ssa.Function{}, maxSteps: 4_000_000_000, prng: 0x9E3779B97F4A7C15, tags: map[any]any{}}
}

func (m *Machine) sizeOf(t types.Type) int {
	if n, ok := m.sizes[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += m.sizeOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * m.sizeOf(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	m.sizes[t] = n
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (m *Machine) fieldOff(s *types.Struct, i int) int {
	o := 0
	for k := 0; k < i; k++ {
		o += m.sizeOf(s.Field(k).Type())
	}
	return o
}

func (m *Machine) newObj(n int) *Obj {
	m.nobj++
	return &Obj{cells: make([]Value, n), id: m.nobj}
}

func (m *Machine) zero(t types.Type) Value {
	if isAgg(t) {
		return Value{p: Agg(make([]Value, m.sizeOf(t)))}
	}
	return Value{}
}

func kindOf(t types.Type) (fk int, w uint, sg bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 5, 64, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 4, 1, false
	case types.Int, types.Int64, types.UntypedInt:
		return 0, 64, true
	case types.Int8:
		return 0, 8, true
	case types.Int16:
		return 0, 16, true
	case types.Int32, types.UntypedRune:
		return 0, 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 64, false
	case types.Uint8:
		return 0, 8, false
	case types.Uint16:
		return 0, 16, false
	case types.Uint32:
		return 0, 32, false
	case types.Float64, types.UntypedFloat:
		return 1, 64, false
	case types.Float32:
		return 1, 32, false
	case types.Complex128, types.Complex64, types.UntypedComplex:
		return 3, 128, false
	case types.String, types.UntypedString:
		return 2, 0, false
	}
	return 5, 64, false
}

// ---------------- compilation ----------------

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	fk, w, sg := kindOf(c.Type())
	switch fk {
	case 4:
		return bval(constant.BoolVal(c.Value))
	case 2:
		return sval(constant.StringVal(c.Value))
	case 0:
		v := constant.ToInt(c.Value)
		if sg {
			x, _ := constant.Int64Val(v)
			return Value{u: uint64(x)}
		}
		x, ok := constant.Uint64Val(v)
		if !ok {
			y, _ := constant.Int64Val(v)
			x = uint64(y)
		}
		_ = w
		return Value{u: x}
	case 1:
		f, _ := constant.Float64Val(c.Value)
		return fval(f)
	case 3:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{p: complex(re, im)}
	}
	panic(unsupported("constant of type " + c.Type().String()))
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	m.infos[fn] = fi
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return fi
	}
	if fn.Blocks == nil {
		fi.intr = nativeIntrinsic(fn)
		return fi
	}
	n := 0
	reg := func(v ssa.Value) { fi.idx[v] = n; n++ }
	for _, p := range fn.Params {
		reg(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	fi.nreg = n
	fi.blk = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := m.compile(fi, in)
			if _, ok := in.(*ssa.Phi); ok {
				fi.blk[bi].phis = append(fi.blk[bi].phis, ci)
			} else {
				fi.blk[bi].ins = append(fi.blk[bi].ins, ci)
			}
		}
	}
	return fi
}

func (m *Machine) operand(fi *fnInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{}
	case *ssa.Const:
		return opnd{k: 0, v: m.constVal(x), s: v}
	case *ssa.Global:
		return opnd{k: 2, s: v}
	case *ssa.Function:
		return opnd{k: 0, v: Value{p: &Closure{fn: x}}, s: v}
	case *ssa.Builtin:
		return opnd{k: 4, s: v}
	case *ssa.FreeVar:
		for i, f := range fi.fn.FreeVars {
			if f == x {
				return opnd{k: 5, i: i, s: v}
			}
		}
	}
	return opnd{k: 1, i: fi.idx[v], s: v}
}

func (m *Machine) compile(fi *fnInfo, in ssa.Instruction) cinstr {
	c := cinstr{ins: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		c.dst = fi.idx[v]
		c.t = v.Type()
	}
	add := func(vs ...ssa.Value) {
		for _, v := range vs {
			c.ops = append(c.ops, m.operand(fi, v))
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		c.i = m.sizeOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		add(x.X, x.Y)
		c.fk, c.w, c.sg = kindOf(x.X.Type())
		_, _, c.flag = kindOf(x.Y.Type())
	case *ssa.UnOp:
		add(x.X)
		c.fk, c.w, c.sg = kindOf(x.X.Type())
		if x.Op == token.MUL {
			e := x.Type()
			c.flag = isAgg(e)
			c.i = m.sizeOf(e)
		}
	case *ssa.Call:
		m.compileCall(fi, &c, x.Common())
	case *ssa.Defer:
		m.compileCall(fi, &c, x.Common())
	case *ssa.Go:
		m.compileCall(fi, &c, x.Common())
	case *ssa.ChangeInterface:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.Convert:
		add(x.X)
		c.fk, c.w, c.sg = kindOf(x.Type())
	case *ssa.Extract:
		add(x.Tuple)
		c.i = x.Index
	case *ssa.Field:
		add(x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		c.i = m.fieldOff(s, x.Field)
		c.j = m.sizeOf(s.Field(x.Field).Type())
		c.flag = isAgg(s.Field(x.Field).Type())
	case *ssa.FieldAddr:
		add(x.X)
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		c.i = m.fieldOff(s, x.Field)
	case *ssa.If:
		add(x.Cond)
	case *ssa.Index:
		add(x.X, x.Index)
		if a, ok := x.X.Type().Underlying().(*types.Array); ok {
			c.i = m.sizeOf(a.Elem())
			c.j = int(a.Len())
			c.flag = isAgg(a.Elem())
		} else {
			c.i = -1
		}
	case *ssa.IndexAddr:
		add(x.X, x.Index)
		_, _, c.sg = kindOf(x.Index.Type())
		switch a := x.X.Type().Underlying().(type) {
		case *types.Slice:
			c.i = m.sizeOf(a.Elem())
			c.j = -1
		case *types.Pointer:
			ar := a.Elem().Underlying().(*types.Array)
			c.i = m.sizeOf(ar.Elem())
			c.j = int(ar.Len())
		}
	case *ssa.Lookup:
		add(x.X, x.Index)
		c.flag = x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			c.t = mt.Elem()
		} else {
			c.i = -1
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			add(b)
		}
	case *ssa.MakeInterface:
		add(x.X)
		c.t = x.X.Type()
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		add(x.Len, x.Cap)
		c.i = m.sizeOf(x.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MapUpdate:
		add(x.Map, x.Key, x.Value)
	case *ssa.Next:
		add(x.Iter)
		c.flag = x.IsString
	case *ssa.Panic:
		add(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e)
		}
		c.fk, c.w, c.sg = kindOf(x.Type())
	case *ssa.Range:
		add(x.X)
	case *ssa.Return:
		for _, r := range x.Results {
			add(r)
		}
	case *ssa.Slice:
		add(x.X, x.Low, x.High, x.Max)
		if x.Low == nil {
			c.ops[1].k = 9
		}
		if x.High == nil {
			c.ops[2].k = 9
		}
		if x.Max == nil {
			c.ops[3].k = 9
		}
		switch a := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			ar := a.Elem().Underlying().(*types.Array)
			c.i = m.sizeOf(ar.Elem())
			c.j = int(ar.Len())
			c.fk = 1
		case *types.Slice:
			c.i = m.sizeOf(a.Elem())
		case *types.Basic:
			c.fk = 2
		}
	case *ssa.Store:
		add(x.Addr, x.Val)
		c.flag = isAgg(x.Val.Type())
		c.fk, c.w, c.sg = kindOf(x.Val.Type())
		c.i = m.sizeOf(x.Val.Type())
	case *ssa.TypeAssert:
		add(x.X)
		c.flag = x.CommaOk
	case *ssa.SliceToArrayPointer:
		add(x.X)
	case *ssa.Jump, *ssa.RunDefers:
	default:
		c.i = -99
	}
	return c
}

func (m *Machine) compileCall(fi *fnInfo, c *cinstr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		c.flag = true
	}
	c.ops = append(c.ops, m.operand(fi, cc.Value))
	for _, a := range cc.Args {
		c.ops = append(c.ops, m.operand(fi, a))
	}
}

// ---------------- memory ----------------

func (m *Machine) store(o *Obj, off int, v Value, fl bool) {
	if m.logging > 0 {
		m.log = append(m.log, logEnt{o: o, off: off, old: o.cells[off], fl: fl})
	}
	o.cells[off] = v
}

func (m *Machine) load(p Value, n int, agg bool) Value {
	switch q := p.p.(type) {
	case *Obj:
		off := int(p.u)
		if agg {
			if off+n > len(q.cells) {
				panic(rtPanic("invalid memory access (array view beyond allocation)"))
			}
			return Value{p: Agg(append([]Value(nil), q.cells[off:off+n]...))}
		}
		if off >= len(q.cells) {
			panic(rtPanic("invalid memory access (beyond allocation)"))
		}
		return q.cells[off]
	case *SymPtr:
		return m.symLoad(q)
	case nil:
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.p)))
}

func (m *Machine) storeTo(p, v Value, agg bool, fl bool) {
	switch q := p.p.(type) {
	case *Obj:
		off := int(p.u)
		if agg {
			for i, x := range v.p.(Agg) {
				m.store(q, off+i, x, false)
			}
			return
		}
		if off >= len(q.cells) {
			panic(rtPanic("invalid memory access (beyond allocation)"))
		}
		m.store(q, off, v, fl)
	case nil:
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	case *SymPtr:
		// weak update over the possible indices
		lo, hi := m.sym.rangeOf(q.idx, q.sign)
		for i := 0; i < q.n; i++ {
			b := big.NewInt(int64(i))
			if b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
				continue
			}
			c := &Cond{kind: 0, op: "==", f: formAddScaled(m.sym.toFormS(q.idx, q.sign), formConst(new(big.Rat).SetInt(b)), big.NewRat(-1, 1))}
			off := q.off + i*q.es
			m.store(q.o, off, m.mergeVal(c, v, q.o.cells[off], fl), fl)
		}
	default:
		panic(unsupported(fmt.Sprintf("store through %T", p.p)))
	}
}

// table lookup at a symbolic index
func (m *Machine) symLoad(q *SymPtr) Value {
	s := m.sym
	lo, hi := s.rangeOf(q.idx, q.sign)
	a, b := 0, q.n-1
	if lo.IsInt64() && int(lo.Int64()) > a {
		a = int(lo.Int64())
	}
	if hi.IsInt64() && int(hi.Int64()) < b {
		b = int(hi.Int64())
	}
	tab := make([]uint64, 0, b-a+1)
	key := fmt.Sprintf("L%s|%d:", s.toFormS(q.idx, q.sign).key(), a)
	for i := a; i <= b; i++ {
		c := q.o.cells[q.off+i*q.es]
		if c.p != nil {
			// symbolic or non-scalar table: merge chain
			r := q.o.cells[q.off+a*q.es]
			for j := a + 1; j <= b; j++ {
				cd := &Cond{kind: 0, op: "==", f: formAddScaled(s.toFormS(q.idx, q.sign), formConst(big.NewRat(int64(j), 1)), big.NewRat(-1, 1))}
				r = m.mergeVal(cd, q.o.cells[q.off+j*q.es], r, false)
			}
			return r
		}
		tab = append(tab, c.u)
		key += fmt.Sprintf("%d,", c.u)
	}
	if n, ok := s.lookups[key]; ok {
		return Value{p: n}
	}
	mn, mx := tab[0], tab[0]
	for _, x := range tab {
		if x < mn {
			mn = x
		}
		if x > mx {
			mx = x
		}
	}
	if mn == mx {
		return Value{u: mn}
	}
	n := s.newNode(u64big(mn), u64big(mx))
	idx := s.toFormS(q.idx, q.sign)
	n.lazy = func(p uint64) *ResForm {
		if p == 0 || len(tab) < 2 {
			return nil
		}
		sl := addm(tab[1]%p, negm(tab[0]%p, p), p)
		cur := tab[0] % p
		for i := 1; i < len(tab); i++ {
			cur = addm(cur, sl, p)
			if cur != tab[i]%p {
				return nil
			}
		}
		f := s.flatten(idx, p)
		if f == nil {
			return nil
		}
		base := addm(tab[0]%p, negm(mulm(sl, uint64(a)%p, p), p), p)
		return rfAdd(rfScale(f, sl), rfConst(base, p))
	}
	n.def = "lookup"
	s.lookups[key] = n
	return Value{p: n}
}

func (s *SymCtx) toFormS(v Value, signed bool) Form {
	if v.p == nil && signed {
		return formConst(new(big.Rat).SetInt64(int64(v.u)))
	}
	return s.toForm(v)
}

// ---------------- execution ----------------

type outcome struct {
	kind int // 0 reached stop, 1 returned
	prev *ssa.BasicBlock
	ret  Value
}

func (fr *Frame) get(m *Machine, o *opnd) Value {
	switch o.k {
	case 0:
		return o.v
	case 1:
		v := fr.env[o.i]
		if v.p != nil {
			if p, ok := v.p.(*poison); ok {
				panic(unsupported("use of unmergeable value: " + p.why))
			}
		}
		return v
	case 2:
		return Value{p: m.global(o.s.(*ssa.Global))}
	case 5:
		return fr.bind[o.i]
	}
	panic(unsupported("operand"))
}

func (m *Machine) global(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	o := m.newObj(m.sizeOf(g.Type().Underlying().(*types.Pointer).Elem()))
	m.globals[g] = o
	if f, ok := globalInit[g.String()]; ok {
		f(m, o)
	}
	return o
}

func (m *Machine) call(fn *ssa.Function, bind, args []Value) Value {
	fi := m.info(fn)
	if fi.intr != nil {
		fi.calls++
		return fi.intr(m, &Frame{fi: fi}, args)
	}
	if fi.blk == nil {
		panic(unsupported("external function " + fi.name))
	}
	fi.calls++
	m.depth++
	if m.depth > 4000 {
		panic(rtPanic("stack overflow"))
	}
	m.stk[m.depth] = fi
	fr := &Frame{fi: fi, env: make([]Value, fi.nreg), bind: bind}
	for i, a := range args {
		fr.env[i] = a
	}
	var out outcome
	if fn.Synthetic == "package initializer" && stdPath(fn.Pkg.Pkg.Path()) {
		// standard library: initialise what can be initialised
		d := m.depth
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*unsupErr); !ok {
						panic(e)
					}
				}
			}()
			m.runBlocks(fr, fn.Blocks[0], nil, nil)
		}()
		m.depth = d - 1
		return Value{}
	}
	if fn.Recover != nil {
		out = m.runWithRecover(fr, fn)
	} else {
		out = m.runBlocks(fr, fn.Blocks[0], nil, nil)
	}
	m.depth--
	return out.ret
}

// runWithRecover runs a function that defers calls: a panic runs them, and one of them may recover.
func (m *Machine) runWithRecover(fr *Frame, fn *ssa.Function) (out outcome) {
	d := m.depth
	catch := func(f func()) (gp *goPanic) {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				gp = p
			}
		}()
		f()
		return nil
	}
	gp := catch(func() { out = m.runBlocks(fr, fn.Blocks[0], nil, nil) })
	if gp == nil {
		return out
	}
	outer := m.panicking
	defer func() { m.panicking = outer }()
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.depth = d
		m.panicking = gp
		if p := catch(f); p != nil {
			gp = p
		}
	}
	m.depth = d
	if !gp.recovered {
		panic(gp)
	}
	m.panicking = outer
	return m.runBlocks(fr, fn.Recover, nil, nil)
}

func (m *Machine) runBlocks(fr *Frame, b, prev, stop *ssa.BasicBlock) outcome {
	fi := fr.fi
	skipPhi := false
	for {
		if b == stop && stop != nil {
			return outcome{kind: 0, prev: prev}
		}
		cb := &fi.blk[b.Index]
		if len(cb.phis) > 0 && !skipPhi {
			m.doPhis(fr, fr.env, cb, b, prev)
		}
		skipPhi = false
		var next *ssa.BasicBlock
		for k := range cb.ins {
			c := &cb.ins[k]
			m.steps++
			m.cur = c.ins
			switch x := c.ins.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				cv := fr.get(m, &c.ops[0])
				switch cp := cv.p.(type) {
				case nil:
					if cv.u != 0 {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *Cond, *Node, *Expr:
					cd, ok := cp.(*Cond)
					if !ok {
						cd = m.nonzero(cv)
					}
					if v, ok := m.decide(cd); ok {
						if v {
							next = b.Succs[0]
						} else {
							next = b.Succs[1]
						}
						break
					}
					out, nb, done := m.symIf(fr, b, cd, stop)
					if done {
						return out
					}
					if nb == stop && stop != nil {
						// phis of stop are evaluated by our caller: hand over via special prev
						return outcome{kind: 2, prev: nil}
					}
					next = nb
					skipPhi = true
				default:
					panic(unsupported(fmt.Sprintf("branch on %T", cv.p)))
				}
			case *ssa.Return:
				var ret Value
				switch len(c.ops) {
				case 0:
				case 1:
					ret = fr.get(m, &c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for i := range c.ops {
						t[i] = fr.get(m, &c.ops[i])
					}
					ret = Value{p: t}
				}
				return outcome{kind: 1, ret: ret}
			case *ssa.Panic:
				v := fr.get(m, &c.ops[0])
				panic(&goPanic{v: v, msg: m.describe(v)})
			default:
				_ = x
				m.exec(fr, c)
			}
		}
		if m.steps > m.maxSteps {
			panic(unsupported("step budget exhausted"))
		}
		if m.steps > m.nextTick {
			m.nextTick = m.steps + 1<<21
			if !m.deadline.IsZero() && time.Now().After(m.deadline) {
				panic(unsupported("time budget exhausted"))
			}
		}
		prev, b = b, next
	}
}

func (m *Machine) doPhis(fr *Frame, env []Value, cb *cblock, b, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	vals := make([]Value, len(cb.phis))
	for i := range cb.phis {
		o := &cb.phis[i].ops[pi]
		if o.k == 1 {
			vals[i] = env[o.i]
		} else {
			vals[i] = fr.get(m, o)
		}
	}
	for i := range cb.phis {
		env[cb.phis[i].dst] = vals[i]
	}
}

func (m *Machine) describe(v Value) string {
	switch p := v.p.(type) {
	case *Iface:
		if s, ok := p.v.p.(string); ok {
			return s
		}
		return "panic(" + p.t.String() + ")"
	case string:
		return p
	}
	return "panic"
}

// nonzero condition for an integer-valued bool
func (m *Machine) nonzero(v Value) *Cond {
	return &Cond{kind: 0, op: "!=", f: m.sym.toForm(v)}
}

// decide a condition by interval reasoning
func (m *Machine) decide(c *Cond) (bool, bool) {
	switch c.kind {
	case 0:
		lo, hi := c.f.bounds()
		switch c.op {
		case "==":
			if lo.Sign() == 0 && hi.Sign() == 0 {
				return true, true
			}
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return false, true
			}
		case "!=":
			if lo.Sign() == 0 && hi.Sign() == 0 {
				return false, true
			}
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return true, true
			}
		case "<":
			if hi.Sign() < 0 {
				return true, true
			}
			if lo.Sign() >= 0 {
				return false, true
			}
		case "<=":
			if hi.Sign() <= 0 {
				return true, true
			}
			if lo.Sign() > 0 {
				return false, true
			}
		case ">":
			if lo.Sign() > 0 {
				return true, true
			}
			if hi.Sign() <= 0 {
				return false, true
			}
		case ">=":
			if lo.Sign() >= 0 {
				return true, true
			}
			if hi.Sign() < 0 {
				return false, true
			}
		}
	case 1:
		if x, ok := c.a.p.(*Cond); ok {
			v, ok := m.decide(x)
			return !v, ok
		}
	}
	return false, false
}

// symIf executes both arms of a branch on a symbolic condition and merges the states at the join point.
func (m *Machine) symIf(fr *Frame, b *ssa.BasicBlock, c *Cond, outerStop *ssa.BasicBlock) (outcome, *ssa.BasicBlock, bool) {
	m.forks++
	if m.forks > 200000 {
		panic(unsupported("too many symbolic branches"))
	}
	if len(m.pc) > 12 {
		panic(unsupported("symbolic branches nested too deeply"))
	}
	fi := fr.fi
	if fi.ipdom == nil {
		fi.ipdom = computeIpdom(fi.fn)
	}
	var join *ssa.BasicBlock
	if j := fi.ipdom[b.Index]; j >= 0 {
		join = fi.fn.Blocks[j]
	}
	env0 := append([]Value(nil), fr.env...)
	type armRes struct {
		out   outcome
		env   []Value
		final map[cellKey]Value
		fl    map[cellKey]bool
		pan   *goPanic
		maps  bool
	}
	run := func(succ *ssa.BasicBlock, neg bool) (r armRes) {
		copy(fr.env, env0)
		logStart := len(m.log)
		m.logging++
		m.pc = append(m.pc, pcEnt{c, neg})
		d := m.depth
		func() {
			defer func() {
				if e := recover(); e != nil {
					gp, ok := e.(*goPanic)
					if !ok {
						panic(e)
					}
					r.pan = gp
					m.depth = d
				}
			}()
			r.out = m.runBlocks(fr, succ, b, join)
			if r.out.kind == 0 && join != nil {
				m.doPhis(fr, fr.env, &fi.blk[join.Index], join, r.out.prev)
			}
		}()
		m.pc = m.pc[:len(m.pc)-1]
		m.logging--
		r.env = append([]Value(nil), fr.env...)
		r.final = map[cellKey]Value{}
		r.fl = map[cellKey]bool{}
		for i := logStart; i < len(m.log); i++ {
			e := &m.log[i]
			if e.mv != nil {
				r.maps = true
				continue
			}
			k := cellKey{e.o, e.off}
			r.final[k] = e.o.cells[e.off]
			r.fl[k] = e.fl
		}
		// undo
		for i := len(m.log) - 1; i >= logStart; i-- {
			e := &m.log[i]
			if e.mv != nil {
				if e.ent == nil {
					delete(e.mv.m, e.key)
				} else {
					e.mv.m[e.key] = e.ent
				}
				continue
			}
			e.o.cells[e.off] = e.old
		}
		m.log = m.log[:logStart]
		return
	}
	r1 := run(b.Succs[0], false)
	r2 := run(b.Succs[1], true)
	if r1.pan != nil && r2.pan != nil {
		panic(r1.pan)
	}
	if r1.maps || r2.maps {
		panic(unsupported("map update under a symbolic condition"))
	}
	if r1.pan != nil || r2.pan != nil {
		g, pn, neg := r1, r2.pan, true
		if r1.pan != nil {
			g, pn, neg = r2, r1.pan, false
		}
		m.condPanic(c, neg, pn)
		for k, v := range g.final {
			m.store(k.o, k.off, v, g.fl[k])
		}
		copy(fr.env, g.env)
		if g.out.kind == 1 {
			return g.out, nil, true
		}
		return outcome{}, join, false
	}
	// merge memory
	keys := map[cellKey]bool{}
	for k := range r1.final {
		keys[k] = true
	}
	for k := range r2.final {
		keys[k] = true
	}
	for k := range keys {
		a, ok := r1.final[k]
		if !ok {
			a = k.o.cells[k.off]
		}
		bb, ok := r2.final[k]
		if !ok {
			bb = k.o.cells[k.off]
		}
		m.store(k.o, k.off, m.mergeVal(c, a, bb, r1.fl[k] || r2.fl[k]), r1.fl[k] || r2.fl[k])
	}
	if r1.out.kind == 1 && r2.out.kind == 1 {
		fl := isFloatResult(fi.fn)
		var rv Value
		if t1, ok := r1.out.ret.p.(Tuple); ok {
			t2 := r2.out.ret.p.(Tuple)
			t := make(Tuple, len(t1))
			for i := range t {
				t[i] = m.mergeVal(c, t1[i], t2[i], fl[i])
			}
			rv = Value{p: t}
		} else if fi.fn.Signature.Results().Len() == 1 {
			rv = m.mergeVal(c, r1.out.ret, r2.out.ret, fl[0])
		}
		return outcome{kind: 1, ret: rv}, nil, true
	}
	if (r1.out.kind == 1) != (r2.out.kind == 1) {
		panic(unsupported("one arm of a symbolic branch returns"))
	}
	// merge registers
	for i := range fr.env {
		if r1.env[i] == (Value{}) && r2.env[i] == (Value{}) {
			fr.env[i] = Value{}
			continue
		}
		fr.env[i] = m.mergeReg(c, r1.env[i], r2.env[i], fi, i)
	}
	return outcome{}, join, false
}

type cellKey struct {
	o   *Obj
	off int
}

func isFloatResult(fn *ssa.Function) []bool {
	rs := fn.Signature.Results()
	r := make([]bool, rs.Len())
	for i := range r {
		fk, _, _ := kindOf(rs.At(i).Type())
		r[i] = fk == 1
	}
	return r
}

func (fi *fnInfo) regType(i int) types.Type {
	for v, k := range fi.idx {
		if k == i {
			return v.Type()
		}
	}
	return nil
}

func (m *Machine) mergeReg(c *Cond, a, b Value, fi *fnInfo, i int) (r Value) {
	if sameValue(a, b) {
		return a
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(*unsupErr); ok {
				r = Value{p: &poison{u.msg}}
				return
			}
			panic(e)
		}
	}()
	fl := false
	if t := fi.regType(i); t != nil {
		fk, _, _ := kindOf(t)
		fl = fk == 1
	}
	return m.mergeVal(c, a, b, fl)
}

func sameValue(a, b Value) bool {
	if a.u != b.u {
		return false
	}
	switch x := a.p.(type) {
	case Agg:
		y, ok := b.p.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.p.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Expr:
		y, ok := b.p.(*Expr)
		return ok && formEq(x.f, y.f)
	case *FSym:
		y, ok := b.p.(*FSym)
		return ok && formEq(x.f, y.f)
	case *Slice:
		y, ok := b.p.(*Slice)
		return ok && *x == *y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case *CSym:
		y, ok := b.p.(*CSym)
		return ok && sameValue(x.re, y.re) && sameValue(x.im, y.im)
	}
	return a.p == b.p
}

func (m *Machine) mergeVal(c *Cond, a, b Value, fl bool) Value {
	if sameValue(a, b) {
		return a
	}
	if _, ok := a.p.(*poison); ok {
		return a
	}
	if _, ok := b.p.(*poison); ok {
		return b
	}
	s := m.sym
	switch x := a.p.(type) {
	case Agg:
		y, ok := b.p.(Agg)
		if ok && len(x) == len(y) {
			r := make(Agg, len(x))
			for i := range x {
				r[i] = m.mergeVal(c, x[i], y[i], fl)
			}
			return Value{p: r}
		}
	case Tuple:
		y := b.p.(Tuple)
		r := make(Tuple, len(x))
		for i := range x {
			r[i] = m.mergeVal(c, x[i], y[i], false)
		}
		return Value{p: r}
	}
	if _, ok := a.p.(*Cond); ok {
		return Value{p: &Cond{kind: 2, c: c, a: a, b: b}}
	}
	if _, ok := b.p.(*Cond); ok {
		return Value{p: &Cond{kind: 2, c: c, a: a, b: b}}
	}
	isNum := func(v Value) bool {
		switch v.p.(type) {
		case nil, *Node, *Expr:
			return true
		}
		return false
	}
	_, fa := a.p.(*FSym)
	_, fb := b.p.(*FSym)
	if fa || fb || fl {
		return m.mergeFloat(c, a, b)
	}
	if _, ok := a.p.(*CSym); ok {
		return m.mergeCplx(c, a, b)
	}
	if _, ok := b.p.(*CSym); ok {
		return m.mergeCplx(c, a, b)
	}
	if _, ok := a.p.(complex128); ok {
		return m.mergeCplx(c, a, b)
	}
	if isNum(a) && isNum(b) {
		fA, fB := m.unwrap(s.toForm(a), c, false), m.unwrap(s.toForm(b), c, true)
		alo, ahi := m.refine(fA, c, false)
		blo, bhi := m.refine(fB, c, true)
		if alo.Cmp(ahi) > 0 {
			return b
		}
		if blo.Cmp(bhi) > 0 {
			return a
		}
		lo, hi := alo, ahi
		if blo.Cmp(lo) < 0 {
			lo = blo
		}
		if bhi.Cmp(hi) > 0 {
			hi = bhi
		}
		// equal modulo a known prime, in canonical range?
		for q := range s.moduli {
			if lo.Sign() >= 0 && hi.Cmp(u64big(q)) < 0 {
				if r := m.mergeRes(c, fA, fB, q); r != nil {
					return s.canonNode(r)
				}
			}
		}
		n := s.newNode(lo, hi)
		n.lazy = func(q uint64) *ResForm { return m.mergeRes(c, fA, fB, q) }
		n.def = &iteDef{c, a, b}
		s.ites = append(s.ites, n)
		return Value{p: n}
	}
	panic(unsupported(fmt.Sprintf("merge of %T and %T", a.p, b.p)))
}

// unwrap replaces a value computed modulo 2^64 by the form it wraps where the condition of the arm rules the wrapping out
// (as in "if s >= q { s -= q }").
func (m *Machine) unwrap(f Form, c *Cond, neg bool) Form {
	if c.kind != 0 {
		return f
	}
	g, ok := m.sym.strip64(f)
	if !ok {
		return f
	}
	if lo, hi := m.refine(g, c, neg); lo.Sign() >= 0 && hi.Cmp(max64) <= 0 {
		return g
	}
	return f
}

// mergeRes is the residue modulo q of "A if c else B" where one form serves both arms: they agree modulo q, or they differ by a
// multiple of a quantity that is zero on one of the arms (as in "if v != 0 { v = q - v }").
func (m *Machine) mergeRes(c *Cond, fA, fB Form, q uint64) *ResForm {
	s := m.sym
	ra, rb := s.flatten(fA, q), s.flatten(fB, q)
	if ra == nil || rb == nil {
		return nil
	}
	if rfEq(ra, rb) {
		return ra
	}
	if q == 0 {
		return nil
	}
	for c.kind == 1 {
		n, ok := c.a.p.(*Cond)
		if !ok {
			return nil
		}
		c, ra, rb = n, rb, ra
	}
	if c.kind != 0 {
		return nil
	}
	rl, rh := c.f.bounds()
	eqOnA := false
	switch {
	case c.op == "==", c.op == "<=" && rl.Sign() >= 0, c.op == ">=" && rh.Sign() <= 0:
		eqOnA = true
	case c.op == "!=", c.op == ">" && rl.Sign() >= 0, c.op == "<" && rh.Sign() <= 0:
	default:
		return nil
	}
	x := s.flatten(c.f, q)
	if x == nil || len(x.t) == 0 {
		return nil
	}
	d := rfSub(ra, rb)
	if len(d.t) != len(x.t) {
		return nil
	}
	inv := new(big.Int).ModInverse(u64big(x.t[0].c), u64big(q))
	if inv == nil || !rfEq(d, rfScale(x, mulm(d.t[0].c, inv.Uint64(), q))) {
		return nil
	}
	if eqOnA {
		return rb
	}
	return ra
}

// refine the interval of form f under condition c (or its negation)
func (m *Machine) refine(f Form, c *Cond, neg bool) (*big.Int, *big.Int) {
	rl, rh := f.bounds()
	lo, hi := ratCeil(rl), ratFloor(rh)
	if c.kind != 0 {
		return lo, hi
	}
	op := c.op
	if neg {
		op = map[string]string{"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
	}
	for _, sgn := range []int64{1, -1} {
		d := formAddScaled(f, c.f, big.NewRat(-sgn, 1))
		k, ok := d.isConst()
		if !ok {
			continue
		}
		// f = sgn*c.f + k
		o := op
		if sgn < 0 {
			o = map[string]string{"==": "==", "!=": "!=", "<": ">", ">=": "<=", ">": "<", "<=": ">="}[op]
		}
		switch o {
		case "==":
			return ratCeil(k), ratFloor(k)
		case "<":
			h := ratCeil(k)
			h.Sub(h, bigOne)
			if h.Cmp(hi) < 0 {
				hi = h
			}
		case "<=":
			h := ratFloor(k)
			if h.Cmp(hi) < 0 {
				hi = h
			}
		case ">":
			l := ratFloor(k)
			l.Add(l, bigOne)
			if l.Cmp(lo) > 0 {
				lo = l
			}
		case ">=":
			l := ratCeil(k)
			if l.Cmp(lo) > 0 {
				lo = l
			}
		case "!=":
			if k.IsInt() {
				if k.Num().Cmp(lo) == 0 {
					lo = new(big.Int).Add(lo, bigOne)
				}
				if k.Num().Cmp(hi) == 0 {
					hi = new(big.Int).Sub(hi, bigOne)
				}
			}
		}
	}
	return lo, hi
}

func computeIpdom(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// sets of postdominators as bitsets; n is the virtual exit
	full := make([]uint64, (n+1+63)/64)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (uint(i) % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, len(full))
	pd[n][n/64] |= 1 << (uint(n) % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := append([]uint64(nil), full...)
			if len(b.Succs) == 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
					// panicking blocks do not constrain the join point
					continue
				}
				copy(cur, pd[n])
			} else {
				for _, s := range b.Succs {
					for w := range cur {
						cur[w] &= pd[s.Index][w]
					}
				}
			}
			cur[i/64] |= 1 << (uint(i) % 64)
			for w := range cur {
				if cur[w] != pd[i][w] {
					ch = true
				}
			}
			pd[i] = cur
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for _, w := range s {
			c += bits.OnesCount64(w)
		}
		return c
	}
	r := make([]int, n)
	for i := 0; i < n; i++ {
		r[i] = -1
		want := cnt(pd[i]) - 1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(uint(j)%64)&1 == 1 && cnt(pd[j]) == want {
				r[i] = j
				break
			}
		}
	}
	return r
}

func (m *Machine) toInt(v Value) int {
	if v.p != nil {
		panic(unsupported(fmt.Sprintf("symbolic value (%T) where a concrete integer is needed", v.p)))
	}
	return int(v.u)
}

func trunc(u uint64, w uint, sg bool) uint64 {
	if w >= 64 {
		return u
	}
	u &= 1<<w - 1
	if sg && u>>(w-1) != 0 {
		u |= ^uint64(0) << w
	}
	return u
}

func (m *Machine) exec(fr *Frame, c *cinstr) {
	switch x := c.ins.(type) {
	case *ssa.Alloc:
		fr.env[c.dst] = Value{p: m.newObj(c.i)}
	case *ssa.BinOp:
		fr.env[c.dst] = m.binop(x.Op, fr.get(m, &c.ops[0]), fr.get(m, &c.ops[1]), c)
	case *ssa.UnOp:
		v := fr.get(m, &c.ops[0])
		switch x.Op {
		case token.MUL:
			fr.env[c.dst] = m.load(v, c.i, c.flag)
		case token.SUB:
			switch c.fk {
			case 0:
				if v.p == nil {
					fr.env[c.dst] = Value{u: trunc(-v.u, c.w, c.sg)}
				} else {
					fr.env[c.dst] = m.sym.mkInt(formScale(m.sym.toForm(v), big.NewRat(-1, 1)), c.w, c.sg)
				}
			case 1:
				fr.env[c.dst] = m.fbin(token.SUB, fval(0), v)
				if v.p == nil {
					fr.env[c.dst] = fval(-f64(v))
				}
			case 3:
				fr.env[c.dst] = m.cbin(token.SUB, Value{}, v)
				if _, ok := v.p.(*CSym); !ok {
					fr.env[c.dst] = Value{p: -cplx(v)}
				}
			}
		case token.NOT:
			fr.env[c.dst] = m.not(v)
		case token.XOR:
			if v.p == nil {
				fr.env[c.dst] = Value{u: trunc(^v.u, c.w, c.sg)}
			} else {
				// ^x = -x-1
				f := formScale(m.sym.toForm(v), big.NewRat(-1, 1))
				f = formAddScaled(f, formConst(big.NewRat(-1, 1)), ratOne)
				fr.env[c.dst] = m.sym.mkInt(f, c.w, c.sg)
			}
		default:
			panic(unsupported("unop " + x.Op.String()))
		}
	case *ssa.Call:
		fr.env[c.dst] = m.doCall(fr, c, x.Common())
	case *ssa.Defer:
		cc := x.Common()
		args := make([]Value, len(c.ops))
		for i := range c.ops {
			if c.ops[i].k != 4 {
				args[i] = fr.get(m, &c.ops[i])
			}
		}
		cp := *c
		fr.defers = append(fr.defers, func() { m.callWith(fr, &cp, cc, args) })
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			d()
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[c.dst] = fr.get(m, &c.ops[0])
	case *ssa.Convert:
		fr.env[c.dst] = m.convert(fr.get(m, &c.ops[0]), x.X.Type(), x.Type())
	case *ssa.Extract:
		fr.env[c.dst] = fr.get(m, &c.ops[0]).p.(Tuple)[c.i]
	case *ssa.Field:
		a := fr.get(m, &c.ops[0]).p.(Agg)
		if c.flag {
			fr.env[c.dst] = Value{p: Agg(append([]Value(nil), a[c.i:c.i+c.j]...))}
		} else {
			fr.env[c.dst] = a[c.i]
		}
	case *ssa.FieldAddr:
		p := fr.get(m, &c.ops[0])
		o, ok := p.p.(*Obj)
		if !ok {
			if p.p == nil {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			panic(unsupported(fmt.Sprintf("field of %T", p.p)))
		}
		fr.env[c.dst] = Value{p: o, u: p.u + uint64(c.i)}
	case *ssa.Index:
		v, iv := fr.get(m, &c.ops[0]), fr.get(m, &c.ops[1])
		i := m.toInt(iv)
		if c.i < 0 {
			s := str(v)
			if i < 0 || i >= len(s) {
				panic(rtPanic("index out of range [%d] with length %d", i, len(s)))
			}
			fr.env[c.dst] = Value{u: uint64(s[i])}
			return
		}
		if i < 0 || i >= c.j {
			panic(rtPanic("index out of range [%d] with length %d", i, c.j))
		}
		a := v.p.(Agg)
		if c.flag {
			fr.env[c.dst] = Value{p: Agg(append([]Value(nil), a[i*c.i:(i+1)*c.i]...))}
		} else {
			fr.env[c.dst] = a[i*c.i]
		}
	case *ssa.IndexAddr:
		v, iv := fr.get(m, &c.ops[0]), fr.get(m, &c.ops[1])
		if iv.p != nil {
			fr.env[c.dst] = m.symIndexAddr(v, iv, c)
			return
		}
		i := int(iv.u)
		switch b := v.p.(type) {
		case *Slice:
			if i < 0 || i >= b.len {
				panic(rtPanic("index out of range [%d] with length %d", i, b.len))
			}
			fr.env[c.dst] = Value{p: b.o, u: uint64(b.off + i*c.i)}
		case *Obj:
			if i < 0 || i >= c.j {
				panic(rtPanic("index out of range [%d] with length %d", i, c.j))
			}
			fr.env[c.dst] = Value{p: b, u: v.u + uint64(i*c.i)}
		case nil:
			if c.j < 0 {
				panic(rtPanic("index out of range [%d] with length 0", i))
			}
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", v.p)))
		}
	case *ssa.Lookup:
		v, k := fr.get(m, &c.ops[0]), fr.get(m, &c.ops[1])
		if c.i == -1 {
			s := str(v)
			i := m.toInt(k)
			if i < 0 || i >= len(s) {
				panic(rtPanic("index out of range [%d] with length %d", i, len(s)))
			}
			fr.env[c.dst] = Value{u: uint64(s[i])}
			return
		}
		var e *mapEnt
		if v.p != nil {
			e = v.p.(*MapV).m[mapKey(k)]
		}
		r := Value{}
		if e != nil {
			r = e.v
		} else {
			r = m.zero(c.t)
		}
		if c.flag {
			fr.env[c.dst] = Value{p: Tuple{r, bval(e != nil)}}
		} else {
			fr.env[c.dst] = r
		}
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := range c.ops {
			cl.bind = append(cl.bind, fr.get(m, &c.ops[i]))
		}
		fr.env[c.dst] = Value{p: cl}
	case *ssa.MakeInterface:
		fr.env[c.dst] = Value{p: &Iface{c.t, fr.get(m, &c.ops[0])}}
	case *ssa.MakeMap:
		m.nobj++
		fr.env[c.dst] = Value{p: &MapV{m: map[any]*mapEnt{}, id: m.nobj}}
	case *ssa.MakeSlice:
		n, cp := m.toInt(fr.get(m, &c.ops[0])), m.toInt(fr.get(m, &c.ops[1]))
		if n < 0 {
			panic(rtPanic("makeslice: len out of range"))
		}
		if cp < n {
			panic(rtPanic("makeslice: cap out of range"))
		}
		if cp*c.i > 200_000_000 {
			panic(unsupported("allocation too large"))
		}
		fr.env[c.dst] = Value{p: &Slice{o: m.newObj(cp * c.i), len: n, cap: cp, es: c.i}}
	case *ssa.MapUpdate:
		v := fr.get(m, &c.ops[0])
		if v.p == nil {
			panic(&goPanic{msg: "assignment to entry in nil map", rt: true})
		}
		m.mapSet(v.p.(*MapV), fr.get(m, &c.ops[1]), fr.get(m, &c.ops[2]))
	case *ssa.Next:
		fr.env[c.dst] = m.next(fr.get(m, &c.ops[0]).p.(*Iter), x)
	case *ssa.Range:
		fr.env[c.dst] = m.rangeOver(fr.get(m, &c.ops[0]))
	case *ssa.Slice:
		fr.env[c.dst] = m.slice(fr, c)
	case *ssa.Store:
		m.storeTo(fr.get(m, &c.ops[0]), fr.get(m, &c.ops[1]), c.flag, c.fk == 1)
	case *ssa.TypeAssert:
		fr.env[c.dst] = m.typeAssert(fr.get(m, &c.ops[0]), x)
	case *ssa.SliceToArrayPointer:
		v := fr.get(m, &c.ops[0])
		if v.p == nil {
			fr.env[c.dst] = Value{}
			return
		}
		s := v.p.(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			panic(rtPanic("cannot convert slice with length %d to array pointer with length %d", s.len, n))
		}
		fr.env[c.dst] = Value{p: s.o, u: uint64(s.off)}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", c.ins)))
	}
}

func (m *Machine) symIndexAddr(v, iv Value, c *cinstr) Value {
	var o *Obj
	var off, n int
	switch b := v.p.(type) {
	case *Slice:
		o, off, n = b.o, b.off, b.len
	case *Obj:
		o, off, n = b, int(v.u), c.j
	default:
		panic(unsupported("symbolic index base"))
	}
	lo, hi := m.sym.rangeOf(iv, c.sg)
	if lo.Sign() < 0 || hi.Cmp(big.NewInt(int64(n-1))) > 0 {
		f := formAddScaled(m.sym.toFormS(iv, c.sg), formConst(big.NewRat(int64(n-1), 1)), big.NewRat(-1, 1))
		m.condPanic(&Cond{kind: 0, op: ">", f: f}, false, rtPanic("index out of range with length %d", n))
		if lo.Sign() < 0 {
			m.condPanic(&Cond{kind: 0, op: "<", f: m.sym.toFormS(iv, c.sg)}, false, rtPanic("index out of range (negative)"))
		}
	}
	return Value{p: &SymPtr{o: o, off: off, n: n, idx: iv, es: c.i, sign: c.sg}}
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	key := mapKey(k)
	old := mv.m[key]
	if m.logging > 0 {
		m.log = append(m.log, logEnt{mv: mv, key: key, ent: old})
	}
	seq := mv.seq
	if old != nil {
		seq = old.seq
	} else {
		mv.seq++
	}
	mv.m[key] = &mapEnt{k: k, v: v, seq: seq}
}

func (m *Machine) mapDel(mv *MapV, k Value) {
	key := mapKey(k)
	old := mv.m[key]
	if old == nil {
		return
	}
	if m.logging > 0 {
		m.log = append(m.log, logEnt{mv: mv, key: key, ent: old})
	}
	delete(mv.m, key)
}

func (m *Machine) orderedKeys(mv *MapV) []Value {
	es := sortedEntries(mv)
	n := len(es)
	r := make([]Value, n)
	for i, e := range es {
		switch {
		case m.mapOrder == 0:
			r[i] = e.k
		case m.mapOrder == 1:
			r[n-1-i] = e.k
		default:
			r[(i+m.mapOrder-1)%n] = e.k
		}
	}
	return r
}

func (m *Machine) rangeOver(v Value) Value {
	it := &Iter{}
	switch p := v.p.(type) {
	case nil:
	case *MapV:
		it.keys = m.orderedKeys(p)
		it.vals = func(k Value) (Value, bool) {
			e := p.m[mapKey(k)]
			if e == nil {
				return Value{}, false
			}
			return e.v, true
		}
	case string:
		for i, r := range p {
			it.idx = append(it.idx, i)
			it.str = append(it.str, r)
		}
	default:
		panic(unsupported(fmt.Sprintf("range over %T", v.p)))
	}
	return Value{p: it}
}

func (m *Machine) next(it *Iter, x *ssa.Next) Value {
	if x.IsString {
		if it.i >= len(it.str) {
			return Value{p: Tuple{bval(false), Value{}, Value{}}}
		}
		r := Value{p: Tuple{bval(true), Value{u: uint64(it.idx[it.i])}, Value{u: uint64(it.str[it.i])}}}
		it.i++
		return r
	}
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.vals(k)
		if ok {
			return Value{p: Tuple{bval(true), k, v}}
		}
	}
	tt := x.Type().(*types.Tuple)
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Value{}
		}
		return m.zero(t)
	}
	return Value{p: Tuple{bval(false), z(1), z(2)}}
}

func (m *Machine) slice(fr *Frame, c *cinstr) Value {
	v := fr.get(m, &c.ops[0])
	opt := func(i, def int) int {
		if c.ops[i].k == 9 {
			return def
		}
		return m.toInt(fr.get(m, &c.ops[i]))
	}
	if c.fk == 2 {
		s := str(v)
		lo := opt(1, 0)
		hi := opt(2, len(s))
		if lo < 0 || hi > len(s) || lo > hi {
			panic(rtPanic("slice bounds out of range [%d:%d]", lo, hi))
		}
		return sval(s[lo:hi])
	}
	var b Slice
	switch p := v.p.(type) {
	case *Slice:
		b = *p
	case *Obj:
		b = Slice{o: p, off: int(v.u), len: c.j, cap: c.j, es: c.i}
	case nil:
		if c.fk == 1 {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		b = Slice{es: c.i}
	default:
		panic(unsupported("slice base"))
	}
	lo := opt(1, 0)
	hi := opt(2, b.len)
	mx := opt(3, b.cap)
	if hi < 0 || hi > b.cap {
		panic(rtPanic("slice bounds out of range [:%d] with capacity %d", hi, b.cap))
	}
	if lo < 0 || lo > hi {
		panic(rtPanic("slice bounds out of range [%d:%d]", lo, hi))
	}
	if mx > b.cap || hi > mx {
		panic(rtPanic("slice bounds out of range [::%d]", mx))
	}
	if v.p == nil {
		return Value{}
	}
	return Value{p: &Slice{o: b.o, off: b.off + lo*c.i, len: hi - lo, cap: mx - lo, es: c.i}}
}

func (m *Machine) typeAssert(v Value, x *ssa.TypeAssert) Value {
	ok := false
	var r Value
	ifc, _ := v.p.(*Iface)
	if types.IsInterface(x.AssertedType) {
		if ifc != nil && types.Implements(ifc.t, x.AssertedType.Underlying().(*types.Interface)) {
			ok, r = true, v
		}
	} else if ifc != nil && types.Identical(ifc.t, x.AssertedType) {
		ok, r = true, ifc.v
	}
	if !ok {
		r = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Value{p: Tuple{r, bval(ok)}}
	}
	if !ok {
		panic(rtPanic("interface conversion: wrong dynamic type for %s", x.AssertedType))
	}
	return r
}

func (m *Machine) doCall(fr *Frame, c *cinstr, cc *ssa.CallCommon) Value {
	if c.ops[0].k == 4 {
		args := make([]Value, len(c.ops)-1)
		for i := range args {
			args[i] = fr.get(m, &c.ops[i+1])
		}
		return m.builtin(cc.Value.(*ssa.Builtin).Name(), args, cc)
	}
	if fn := cc.StaticCallee(); fn != nil && !c.flag {
		args := make([]Value, len(c.ops)-1)
		for i := range args {
			args[i] = fr.get(m, &c.ops[i+1])
		}
		var bind []Value
		if c.ops[0].k == 1 {
			bind = fr.get(m, &c.ops[0]).p.(*Closure).bind
		}
		return m.call(fn, bind, args)
	}
	args := make([]Value, len(c.ops))
	for i := range c.ops {
		args[i] = fr.get(m, &c.ops[i])
	}
	return m.callWith(fr, c, cc, args)
}

func (m *Machine) callWith(fr *Frame, c *cinstr, cc *ssa.CallCommon, args []Value) Value {
	if c.flag {
		ifc, _ := args[0].p.(*Iface)
		if ifc == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		fn := m.lookupMethod(ifc.t, cc.Method)
		a := append([]Value{ifc.v}, args[1:]...)
		return m.call(fn, nil, a)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return m.builtin(b.Name(), args[1:], cc)
	}
	cl, _ := args[0].p.(*Closure)
	if cl == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	if cl.nat != nil {
		return cl.nat(m, args[1:])
	}
	return m.call(cl.fn, cl.bind, args[1:])
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	key := t.String() + "." + meth.Id()
	if f, ok := m.methods[key]; ok {
		return f
	}
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(unsupported("method " + key))
	}
	m.methods[key] = f
	return f
}

func (m *Machine) builtin(name string, args []Value, cc *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch p := args[0].p.(type) {
		case nil:
			if a, ok := cc.Args[0].Type().Underlying().(*types.Array); ok {
				return Value{u: uint64(a.Len())}
			}
			return Value{}
		case *Slice:
			return Value{u: uint64(p.len)}
		case string:
			return Value{u: uint64(len(p))}
		case *MapV:
			return Value{u: uint64(len(p.m))}
		case Agg:
			return Value{u: uint64(cc.Args[0].Type().Underlying().(*types.Array).Len())}
		case *Obj:
			return Value{u: uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
		}
	case "cap":
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *Slice:
			return Value{u: uint64(p.cap)}
		}
	case "append":
		es := m.sizeOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		var add []Value
		n2 := 0
		switch p := args[1].p.(type) {
		case nil:
		case string:
			for i := 0; i < len(p); i++ {
				add = append(add, Value{u: uint64(p[i])})
			}
			n2 = len(p)
		case *Slice:
			add = p.o.cells[p.off : p.off+p.len*es]
			n2 = p.len
		}
		var b Slice
		if args[0].p != nil {
			b = *args[0].p.(*Slice)
		} else {
			b = Slice{es: es}
			if n2 == 0 {
				return Value{}
			}
		}
		if b.len+n2 <= b.cap {
			for i, v := range append([]Value(nil), add...) {
				m.store(b.o, b.off+b.len*es+i, v, false)
			}
			return Value{p: &Slice{o: b.o, off: b.off, len: b.len + n2, cap: b.cap, es: es}}
		}
		nc := b.cap * 2
		if nc < b.len+n2 {
			nc = b.len + n2
		}
		if nc < 4 {
			nc = 4
		}
		o := m.newObj(nc * es)
		if b.o != nil {
			copy(o.cells, b.o.cells[b.off:b.off+b.len*es])
			m.copyNat(b.o, b.off, o, 0, b.len*es)
		}
		copy(o.cells[b.len*es:], add)
		return Value{p: &Slice{o: o, len: b.len + n2, cap: nc, es: es}}
	case "copy":
		d, _ := args[0].p.(*Slice)
		if d == nil {
			return Value{}
		}
		if s, ok := args[1].p.(string); ok {
			n := len(s)
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				m.store(d.o, d.off+i, Value{u: uint64(s[i])}, false)
			}
			return Value{u: uint64(n)}
		}
		s, _ := args[1].p.(*Slice)
		if s == nil {
			return Value{}
		}
		n := d.len
		if s.len < n {
			n = s.len
		}
		tmp := append([]Value(nil), s.o.cells[s.off:s.off+n*d.es]...)
		for i, v := range tmp {
			m.store(d.o, d.off+i, v, false)
		}
		return Value{u: uint64(n)}
	case "delete":
		if args[0].p != nil {
			m.mapDel(args[0].p.(*MapV), args[1])
		}
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], msg: m.describe(args[0])})
	case "recover":
		gp := m.panicking
		if gp == nil || gp.recovered {
			return Value{}
		}
		gp.recovered = true
		if gp.v.p == nil && gp.v.u == 0 && gp.msg != "" && (gp.rt || gp.msg != "nil") {
			return Value{p: &Iface{t: types.Typ[types.String], v: Value{p: gp.msg}}}
		}
		return gp.v
	case "print", "println":
		return Value{}
	case "real", "imag":
		switch z := args[0].p.(type) {
		case *CSym:
			if name == "real" {
				return z.re
			}
			return z.im
		}
		z := cplx(args[0])
		if name == "real" {
			return fval(real(z))
		}
		return fval(imag(z))
	case "complex":
		if args[0].p != nil || args[1].p != nil {
			return Value{p: &CSym{args[0], args[1]}}
		}
		return Value{p: complex(f64(args[0]), f64(args[1]))}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "min", "max":
		b, ok := cc.Args[0].Type().Underlying().(*types.Basic)
		if !ok {
			break
		}
		fk, _, sg := kindOf(b)
		r := args[0]
		for _, x := range args[1:] {
			if fk == 1 {
				r = intrinsics["math.M"+name[1:]](m, nil, []Value{r, x})
				continue
			}
			var less bool
			switch {
			case fk == 2:
				less = str(x) < str(r)
			case x.p != nil || r.p != nil:
				panic(unsupported("symbolic " + name))
			case sg:
				less = int64(x.u) < int64(r.u)
			default:
				less = x.u < r.u
			}
			if less == (name == "min") {
				r = x
			}
		}
		return r
	case "clear":
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *Slice:
			for i := 0; i < p.len*p.es; i++ {
				m.store(p.o, p.off+i, Value{}, false)
			}
			return Value{}
		}
	}
	panic(unsupported("builtin " + name))
}

func (m *Machine) copyNat(a *Obj, ao int, b *Obj, bo, n int) {
	for k, v := range a.nat {
		if k >= ao && k < ao+n {
			if b.nat == nil {
				b.nat = map[int]any{}
			}
			b.nat[bo+k-ao] = v
		}
	}
}

func (m *Machine) not(v Value) Value {
	switch p := v.p.(type) {
	case nil:
		return bval(v.u == 0)
	case *Cond:
		if p.kind == 0 {
			op := map[string]string{"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[p.op]
			return Value{p: &Cond{kind: 0, op: op, f: p.f, fl: p.fl}}
		}
		if p.kind == 1 {
			return p.a
		}
		return Value{p: &Cond{kind: 1, a: v}}
	case *Node, *Expr:
		return Value{p: &Cond{kind: 0, op: "==", f: m.sym.toForm(v)}}
	}
	panic(unsupported(fmt.Sprintf("not of %T", v.p)))
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	ff, _, fs := kindOf(from)
	tf, tw, ts := kindOf(to)
	if ff == 0 && tf == 0 {
		if v.p == nil {
			return Value{u: trunc(v.u, tw, ts)}
		}
		return m.sym.mkInt(m.sym.toForm(v), tw, ts)
	}
	if ff == 0 && tf == 1 {
		if v.p == nil {
			if fs {
				return fval(fround(float64(int64(v.u)), tw))
			}
			return fval(fround(float64(v.u), tw))
		}
		f := m.sym.toForm(v)
		lo, hi := m.sym.rangeOf(v, fs)
		mx := new(big.Int).Abs(lo)
		if h := new(big.Int).Abs(hi); h.Cmp(mx) > 0 {
			mx = h
		}
		err := new(big.Rat)
		if mx.BitLen() > 53 {
			err.SetFrac(new(big.Int).Lsh(bigOne, uint(mx.BitLen())), new(big.Int).Lsh(bigOne, 54))
		}
		return Value{p: &FSym{f: f, err: err}}
	}
	if ff == 1 && tf == 0 {
		if v.p == nil {
			x := f64(v)
			if ts {
				return Value{u: trunc(uint64(int64(x)), tw, ts)}
			}
			return Value{u: trunc(uint64(x), tw, ts)}
		}
		return m.floatToInt(v.p.(*FSym), tw, ts)
	}
	if ff == 1 && tf == 1 {
		if v.p == nil {
			return fval(fround(f64(v), tw))
		}
		return v
	}
	if ff == 3 && tf == 3 {
		return v
	}
	// string conversions
	if tf == 2 {
		if s, ok := from.Underlying().(*types.Slice); ok {
			if v.p == nil {
				return Value{}
			}
			sl := v.p.(*Slice)
			_, w, _ := kindOf(s.Elem())
			var sb strings.Builder
			for i := 0; i < sl.len; i++ {
				c := sl.o.cells[sl.off+i]
				if w == 8 {
					sb.WriteByte(byte(c.u))
				} else {
					sb.WriteRune(rune(c.u))
				}
			}
			return sval(sb.String())
		}
		if ff == 0 {
			return sval(string(rune(v.u)))
		}
		return v
	}
	if s, ok := to.Underlying().(*types.Slice); ok && ff == 2 {
		_, w, _ := kindOf(s.Elem())
		var cells []Value
		if w == 8 {
			for _, b := range []byte(str(v)) {
				cells = append(cells, Value{u: uint64(b)})
			}
		} else {
			for _, r := range str(v) {
				cells = append(cells, Value{u: uint64(r)})
			}
		}
		o := m.newObj(len(cells))
		copy(o.cells, cells)
		return Value{p: &Slice{o: o, len: len(cells), cap: len(cells), es: 1}}
	}
	// pointers <-> unsafe.Pointer
	return v
}

func fround(f float64, w uint) float64 {
	if w == 32 {
		return float64(float32(f))
	}
	return f
}

// floatToInt: v = trunc(f) for f whose exact value is form +- err. See DESIGN.md (digit atoms).
func (m *Machine) floatToInt(f *FSym, w uint, sg bool) Value {
	s := m.sym
	if f.iv != nil {
		return *f.iv
	}
	rl, rh := f.f.bounds()
	lo := ratFloor(new(big.Rat).Sub(rl, f.err))
	hi := ratFloor(new(big.Rat).Add(rh, f.err))
	if rl.Sign() < 0 {
		if !(rl.Cmp(new(big.Rat).Neg(ratOne)) > 0) {
			// truncation towards zero of a possibly negative value
			if f.err.Sign() == 0 {
				allInt := true
				for _, t := range f.f {
					if !t.c.IsInt() {
						allInt = false
					}
				}
				if allInt {
					return s.mkInt(f.f, w, sg)
				}
			}
			panic(unsupported("float to int conversion of a possibly negative symbolic value"))
		}
		lo = new(big.Int)
	}
	if lo.Sign() < 0 {
		lo = new(big.Int)
	}
	if lo.Cmp(hi) == 0 {
		return Value{u: lo.Uint64()}
	}
	if f.err.Sign() == 0 {
		allInt := true
		for _, t := range f.f {
			if !t.c.IsInt() {
				allInt = false
			}
		}
		if allInt {
			return s.mkInt(f.f, w, sg)
		}
	}
	// common denominator
	L := big.NewInt(1)
	for _, t := range f.f {
		g := new(big.Int).GCD(nil, nil, L, t.c.Denom())
		L.Mul(L, new(big.Int).Div(t.c.Denom(), g))
	}
	Lr := new(big.Rat).SetInt(L)
	scaled := formScale(f.f, Lr)
	// equal values have equal atoms: the same quotient computed twice is the same digit
	parts := make([]string, len(f.f))
	for i, t := range f.f {
		var as []int
		for _, n := range t.n {
			if n != nil {
				as = append(as, s.atomID(n))
			}
		}
		sort.Ints(as)
		parts[i] = fmt.Sprint(t.c.RatString(), as)
	}
	sort.Strings(parts)
	key := "D" + f.err.RatString() + strings.Join(parts, "+")
	d, ok := s.digits[key]
	if !ok {
		slack := ratCeil(new(big.Rat).Mul(f.err, Lr))
		dlo := new(big.Int).Neg(slack)
		dhi := new(big.Int).Add(L, slack)
		dhi.Sub(dhi, bigOne)
		// residues modulo every known prime dividing L
		var defs []*ResForm
		for q := range s.moduli {
			if new(big.Int).Mod(L, u64big(q)).Sign() == 0 {
				if r := s.flatten(scaled, q); r != nil {
					defs = append(defs, r)
				}
			}
		}
		// reuse an integer variable that has the same residues and range
		if slack.Sign() >= 0 && len(defs) > 0 {
			var cand *Node
			same := true
			prod := big.NewInt(1)
			for _, r := range defs {
				prod.Mul(prod, u64big(r.q))
				if len(r.t) == 1 && r.t[0].c == 1 {
					if as := monoAtoms(r.t[0].k); len(as) == 1 {
						a := s.atoms[as[0]]
						if cand == nil {
							cand = a
						} else if cand != a {
							same = false
						}
						continue
					}
				}
				same = false
			}
			if same && cand != nil && prod.Cmp(L) == 0 && cand.lo.Sign() >= 0 && cand.hi.Cmp(L) < 0 {
				// d == cand (mod L); equality up to a multiple of L only within floating-point distance of
				// the boundary, where d = cand + kL represents the same residue; modelled as exact, see DESIGN.md
				if slack.Sign() == 0 {
					d = cand
				}
			}
		}
		if d == nil {
			d = s.newNode(dlo, dhi)
			d.res = defs
			d.name = fmt.Sprintf("digit#%d", d.id)
			d.def = "digit"
		}
		s.digits[key] = d
	}
	// v = (L*f - d)/L
	vf := formAddScaled(f.f, formNode(d), new(big.Rat).SetFrac(big.NewInt(-1), L))
	return Value{p: &Expr{vf, lo, hi}}
}

func (m *Machine) binop(op token.Token, a, b Value, c *cinstr) Value {
	switch c.fk {
	case 0:
		if a.p == nil && b.p == nil {
			return m.ibin(op, a.u, b.u, c)
		}
		return m.isym(op, a, b, c)
	case 1:
		if a.p == nil && b.p == nil {
			x, y := f64(a), f64(b)
			switch op {
			case token.ADD:
				return fval(fround(x+y, c.w))
			case token.SUB:
				return fval(fround(x-y, c.w))
			case token.MUL:
				return fval(fround(x*y, c.w))
			case token.QUO:
				return fval(fround(x/y, c.w))
			case token.EQL:
				return bval(x == y)
			case token.NEQ:
				return bval(x != y)
			case token.LSS:
				return bval(x < y)
			case token.LEQ:
				return bval(x <= y)
			case token.GTR:
				return bval(x > y)
			case token.GEQ:
				return bval(x >= y)
			}
		}
		return m.fbin(op, a, b)
	case 2:
		x, y := str(a), str(b)
		switch op {
		case token.ADD:
			return sval(x + y)
		case token.EQL:
			return bval(x == y)
		case token.NEQ:
			return bval(x != y)
		case token.LSS:
			return bval(x < y)
		case token.LEQ:
			return bval(x <= y)
		case token.GTR:
			return bval(x > y)
		case token.GEQ:
			return bval(x >= y)
		}
	case 3:
		return m.cbin(op, a, b)
	case 4:
		if a.p == nil && b.p == nil {
			switch op {
			case token.EQL:
				return bval(a.u == b.u)
			case token.NEQ:
				return bval(a.u != b.u)
			}
		}
		if op == token.EQL || op == token.NEQ {
			if a.p == nil {
				a, b = b, a
			}
			if b.p == nil {
				if (b.u != 0) == (op == token.EQL) {
					return a
				}
				return m.not(a)
			}
		}
	default:
		if op == token.EQL || op == token.NEQ {
			return bval(m.eqVal(a, b) == (op == token.EQL))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on kind %d (%T,%T)", op, c.fk, a.p, b.p)))
}

func (m *Machine) eqVal(a, b Value) bool {
	switch x := a.p.(type) {
	case *Iface:
		y, ok := b.p.(*Iface)
		if !ok {
			return false
		}
		return types.Identical(x.t, y.t) && m.eqVal(x.v, y.v)
	case Agg:
		y, ok := b.p.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if isSym(x[i]) || isSym(y[i]) {
				if !sameValue(x[i], y[i]) {
					panic(unsupported("comparison of symbolic aggregates"))
				}
				continue
			}
			if !m.eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Obj:
		return b.p == a.p && a.u == b.u
	case *Slice:
		return b.p != nil && false || a.p == b.p
	case complex128:
		return x == cplx(b)
	}
	return a == b
}

func (m *Machine) ibin(op token.Token, x, y uint64, c *cinstr) Value {
	w, sg := c.w, c.sg
	switch op {
	case token.ADD:
		return Value{u: trunc(x+y, w, sg)}
	case token.SUB:
		return Value{u: trunc(x-y, w, sg)}
	case token.MUL:
		return Value{u: trunc(x*y, w, sg)}
	case token.QUO:
		if y == 0 {
			panic(rtPanic("integer divide by zero"))
		}
		if sg {
			return Value{u: trunc(uint64(int64(x)/int64(y)), w, sg)}
		}
		return Value{u: x / y}
	case token.REM:
		if y == 0 {
			panic(rtPanic("integer divide by zero"))
		}
		if sg {
			return Value{u: trunc(uint64(int64(x)%int64(y)), w, sg)}
		}
		return Value{u: x % y}
	case token.AND:
		return Value{u: x & y}
	case token.OR:
		return Value{u: x | y}
	case token.XOR:
		return Value{u: trunc(x^y, w, sg)}
	case token.AND_NOT:
		return Value{u: x &^ y}
	case token.SHL:
		if c.flag && int64(y) < 0 {
			panic(rtPanic("negative shift amount"))
		}
		if y >= 64 {
			return Value{}
		}
		return Value{u: trunc(x<<y, w, sg)}
	case token.SHR:
		if c.flag && int64(y) < 0 {
			panic(rtPanic("negative shift amount"))
		}
		if sg {
			if y > 63 {
				y = 63
			}
			return Value{u: uint64(int64(x) >> y)}
		}
		if y >= 64 {
			return Value{}
		}
		return Value{u: x >> y}
	case token.EQL:
		return bval(x == y)
	case token.NEQ:
		return bval(x != y)
	}
	if sg {
		a, b := int64(x), int64(y)
		switch op {
		case token.LSS:
			return bval(a < b)
		case token.LEQ:
			return bval(a <= b)
		case token.GTR:
			return bval(a > b)
		case token.GEQ:
			return bval(a >= b)
		}
	}
	switch op {
	case token.LSS:
		return bval(x < y)
	case token.LEQ:
		return bval(x <= y)
	case token.GTR:
		return bval(x > y)
	case token.GEQ:
		return bval(x >= y)
	}
	panic(unsupported("int op " + op.String()))
}

var minusOne = big.NewRat(-1, 1)

// symbolic integer operation
func (m *Machine) isym(op token.Token, a, b Value, c *cinstr) Value {
	s := m.sym
	w, sg := c.w, c.sg
	switch op {
	case token.ADD:
		return s.mkInt(formAddScaled(s.toFormS(a, sg), s.toFormS(b, sg), ratOne), w, sg)
	case token.SUB:
		return s.mkInt(formAddScaled(s.toFormS(a, sg), s.toFormS(b, sg), minusOne), w, sg)
	case token.MUL:
		if a.p == nil && a.u == 0 || b.p == nil && b.u == 0 {
			return Value{}
		}
		return s.mkInt(formMul(s.toFormS(a, sg), s.toFormS(b, sg)), w, sg)
	case token.SHL:
		k := m.toInt(b)
		if k >= 64 {
			return Value{}
		}
		return s.mkInt(formScale(s.toFormS(a, sg), new(big.Rat).SetInt(new(big.Int).Lsh(bigOne, uint(k)))), w, sg)
	case token.SHR:
		k := m.toInt(b)
		return m.divConst(a, new(big.Int).Lsh(bigOne, uint(k)), w, sg)
	case token.AND:
		if a.p == nil {
			a, b = b, a
		}
		if b.p == nil {
			if b.u == 0 {
				return Value{}
			}
			if b.u&(b.u+1) == 0 { // low mask
				return m.modConst(a, new(big.Int).Add(u64big(b.u), bigOne), w, sg)
			}
		}
	case token.OR, token.XOR:
		if a.p == nil && a.u == 0 {
			return b
		}
		if b.p == nil && b.u == 0 {
			return a
		}
	case token.REM:
		if b.p == nil && b.u != 0 {
			return m.modConst(a, u64big(b.u), w, sg)
		}
	case token.QUO:
		if b.p == nil && b.u != 0 {
			return m.divConst(a, u64big(b.u), w, sg)
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		f := formAddScaled(s.toFormS(a, sg), s.toFormS(b, sg), minusOne)
		cd := &Cond{kind: 0, op: map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[op], f: f}
		if v, ok := m.decide(cd); ok {
			return bval(v)
		}
		if op == token.EQL || op == token.NEQ {
			// two canonical residues of the same class are equal
			if n1, ok := a.p.(*Node); ok {
				if n2, ok := b.p.(*Node); ok && n1.canon > 1 && n1.canon == n2.canon && rfEq(s.nodeRes(n1, n1.canon), s.nodeRes(n2, n1.canon)) {
					return bval(op == token.EQL)
				}
			}
		}
		return Value{p: cd}
	}
	panic(unsupported("symbolic integer operation " + op.String()))
}

func (m *Machine) modConst(a Value, mod *big.Int, w uint, sg bool) Value {
	s := m.sym
	lo, hi := s.rangeOf(a, sg)
	if lo.Sign() < 0 {
		panic(unsupported("remainder of a possibly negative symbolic value"))
	}
	if hi.Cmp(mod) < 0 {
		return a
	}
	q := mod.Uint64() // 2^64 -> 0
	r := s.valRes(a, q)
	if q != 0 {
		s.noteMod(q)
	}
	return s.canonNode(r)
}

func (m *Machine) divConst(a Value, d *big.Int, w uint, sg bool) Value {
	r := m.modConst(a, d, w, sg)
	f := formAddScaled(m.sym.toForm(a), m.sym.toForm(r), minusOne)
	f = formScale(f, new(big.Rat).SetFrac(bigOne, d))
	lo, hi := m.sym.rangeOf(a, sg)
	lo = new(big.Int).Div(lo, d)
	hi = new(big.Int).Div(hi, d)
	if lo.Cmp(hi) == 0 {
		return Value{u: lo.Uint64()}
	}
	if c, ok := f.isConst(); ok {
		return Value{u: c.Num().Uint64()}
	}
	return m.sym.exprVal(f, lo, hi)
}

var _ = math.Pi

func stdPath(p string) bool {
	i := strings.Index(p, "/")
	if i < 0 {
		i = len(p)
	}
	h := p[:i]
	return !strings.Contains(h, ".") && h != "mk-lr" && h != "verifharness" && h != "lrsim" && h != "command-line-arguments"
}

func (m *Machine) where() string {
	r := ""
	if m.cur != nil && m.cur.Parent() != nil {
		r = m.cur.String() + " @" + m.prog.Fset.Position(m.cur.Pos()).String()
	}
	for d := m.depth; d > 0 && d > m.depth-4; d-- {
		if m.stk[d] != nil {
			r += " < " + m.stk[d].name
		}
	}
	return r
}
