package main

import (
	"bytes"
	"fmt"
	"go/types"
	"io"
	"strconv"
	"strings"
)

// Files, numbers in text and printed results, for whole programs run inside the engine.

type simFile struct {
	data string
	pos  int
}

func (m *Machine) bytesOf(v Value) []byte {
	cs := cellsOf(v)
	b := make([]byte, len(cs))
	for i, c := range cs {
		if c.p != nil {
			panic(unsupported("symbolic byte"))
		}
		b[i] = byte(c.u)
	}
	return b
}

func (m *Machine) byteSlice(s string) Value {
	o := m.newObj(len(s))
	for i := 0; i < len(s); i++ {
		o.cells[i] = Value{u: uint64(s[i])}
	}
	return Value{p: &Slice{o: o, len: len(s), cap: len(s), es: 1}}
}

func fileName(s string) string { return strings.TrimPrefix(s, "./") }

// ioEOF is the program's io.EOF
func (m *Machine) ioEOF() Value {
	p := m.prog.ImportedPackage("io")
	if p == nil || p.Var("EOF") == nil {
		return m.errVal(io.EOF)
	}
	g := m.global(p.Var("EOF"))
	return g.cells[0]
}

func (m *Machine) notePrinted(v Value) {
	s, _ := v.p.(*Slice)
	if s == nil {
		return
	}
	for i := 0; i < s.len; i++ {
		ifc, _ := s.o.cells[s.off+i].p.(*Iface)
		if ifc == nil {
			continue
		}
		b, ok := ifc.t.Underlying().(*types.Basic)
		if !ok {
			continue
		}
		if _, named := ifc.t.(*types.Named); named {
			continue
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			m.printed = ifc.v
		case b.Info()&types.IsString != 0:
			for _, w := range strings.Fields(str(ifc.v)) {
				if n, err := strconv.Atoi(w); err == nil {
					m.printed = Value{u: uint64(int64(n))}
				}
			}
		}
	}
}

func init() {
	def := func(n string, f intrFn) { intrinsics[vpPkg+n] = f }
	def("RealText", func(m *Machine, fr *Frame, a []Value) Value {
		r := m.rc()
		v := Value{p: r.variable(str(a[0]), int64(a[1].u))}
		t := fmt.Sprintf("0.70710678%05d", len(r.text))
		r.text[t] = v
		return Value{p: Tuple{sval(t), v}}
	})
	def("RunMain", func(m *Machine, fr *Frame, a []Value) Value {
		m.files = map[string]string{str(a[0]): str(a[1])}
		m.printed = Value{u: ^uint64(0)}
		cl := a[2].p.(*Closure)
		m.call(cl.fn, cl.bind, nil)
		m.files = nil
		return m.printed
	})
	def("IsZero", func(m *Machine, fr *Frame, a []Value) Value { return bval(isZeroF(a[0])) })
	intrinsics["strconv.FormatFloat"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strconv.FormatFloat(f64(m.conc(a[0])), byte(a[1].u), int(int64(a[2].u)), int(a[3].u)))
	}
	out := func(i int) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			m.notePrinted(a[i])
			return Value{p: Tuple{{}, {}}}
		}
	}
	intrinsics["fmt.Println"] = out(0)
	intrinsics["fmt.Print"] = out(0)
	intrinsics["fmt.Printf"] = out(1)
	intrinsics["fmt.Fprintln"] = out(1)
	intrinsics["fmt.Fprint"] = out(1)
	intrinsics["fmt.Fprintf"] = out(2)
	intrinsics["strconv.ParseFloat"] = func(m *Machine, fr *Frame, a []Value) Value {
		if v, ok := m.rc().text[str(a[0])]; ok {
			return Value{p: Tuple{v, {}}}
		}
		x, err := strconv.ParseFloat(str(a[0]), int(a[1].u))
		return Value{p: Tuple{fval(x), m.errVal(err)}}
	}
	intrinsics["strconv.ParseInt"] = func(m *Machine, fr *Frame, a []Value) Value {
		x, err := strconv.ParseInt(str(a[0]), int(a[1].u), int(a[2].u))
		return Value{p: Tuple{{u: uint64(x)}, m.errVal(err)}}
	}
	open := func(m *Machine, fr *Frame, a []Value) Value {
		d, ok := m.files[fileName(str(a[0]))]
		if !ok {
			return Value{p: Tuple{{}, m.errVal(fmt.Errorf("open %s: no such file or directory", str(a[0])))}}
		}
		o := m.newObj(1)
		o.nat = map[int]any{0: &simFile{data: d}}
		return Value{p: Tuple{{p: o}, {}}}
	}
	intrinsics["os.Open"] = open
	intrinsics["os.OpenFile"] = open
	rd := func(m *Machine, fr *Frame, a []Value) Value {
		d, ok := m.files[fileName(str(a[0]))]
		if !ok {
			return Value{p: Tuple{{}, m.errVal(fmt.Errorf("open %s: no such file or directory", str(a[0])))}}
		}
		return Value{p: Tuple{m.byteSlice(d), {}}}
	}
	intrinsics["os.ReadFile"] = rd
	intrinsics["io/ioutil.ReadFile"] = rd
	intrinsics["(*os.File).Close"] = func(m *Machine, fr *Frame, a []Value) Value { return Value{} }
	intrinsics["(*os.File).Read"] = func(m *Machine, fr *Frame, a []Value) Value {
		o, _ := a[0].p.(*Obj)
		if o == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		f := o.nat[0].(*simFile)
		s, _ := a[1].p.(*Slice)
		if s == nil || s.len == 0 {
			return Value{p: Tuple{{}, {}}}
		}
		n := len(f.data) - f.pos
		if n == 0 {
			return Value{p: Tuple{{}, m.ioEOF()}}
		}
		if n > s.len {
			n = s.len
		}
		for i := 0; i < n; i++ {
			m.store(s.o, s.off+i, Value{u: uint64(f.data[f.pos+i])}, false)
		}
		f.pos += n
		return Value{p: Tuple{{u: uint64(n)}, {}}}
	}
	const ba = "internal/bytealg."
	idx := func(n int) Value { return Value{u: uint64(int64(n))} }
	intrinsics[ba+"IndexByte"] = func(m *Machine, fr *Frame, a []Value) Value {
		s, _ := a[0].p.(*Slice)
		if s != nil {
			for i := 0; i < s.len; i++ {
				if c := s.o.cells[s.off+i]; c.p == nil && byte(c.u) == byte(a[1].u) {
					return idx(i)
				}
			}
		}
		return idx(-1)
	}
	intrinsics["bytes.IndexByte"] = intrinsics[ba+"IndexByte"]
	intrinsics["bytes.Equal"] = func(m *Machine, fr *Frame, a []Value) Value {
		return bval(bytes.Equal(m.bytesOf(a[0]), m.bytesOf(a[1])))
	}
	intrinsics["bytes.Compare"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(bytes.Compare(m.bytesOf(a[0]), m.bytesOf(a[1])))
	}
	intrinsics["bytes.Index"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(bytes.Index(m.bytesOf(a[0]), m.bytesOf(a[1])))
	}
	intrinsics["bytes.LastIndexByte"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(bytes.LastIndexByte(m.bytesOf(a[0]), byte(a[1].u)))
	}
	intrinsics["bytes.Count"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(bytes.Count(m.bytesOf(a[0]), m.bytesOf(a[1])))
	}
	intrinsics["strings.IndexByte"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(strings.IndexByte(str(a[0]), byte(a[1].u)))
	}
	intrinsics["strings.Index"] = func(m *Machine, fr *Frame, a []Value) Value { return idx(strings.Index(str(a[0]), str(a[1]))) }
	intrinsics["strings.LastIndex"] = func(m *Machine, fr *Frame, a []Value) Value {
		return idx(strings.LastIndex(str(a[0]), str(a[1])))
	}
	intrinsics["strings.Count"] = func(m *Machine, fr *Frame, a []Value) Value { return idx(strings.Count(str(a[0]), str(a[1]))) }
	intrinsics["strings.ReplaceAll"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strings.ReplaceAll(str(a[0]), str(a[1]), str(a[2])))
	}
	intrinsics["strings.Trim"] = func(m *Machine, fr *Frame, a []Value) Value { return sval(strings.Trim(str(a[0]), str(a[1]))) }
	intrinsics["strings.TrimRight"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strings.TrimRight(str(a[0]), str(a[1])))
	}
	intrinsics["strings.Repeat"] = func(m *Machine, fr *Frame, a []Value) Value {
		return sval(strings.Repeat(str(a[0]), int(int64(a[1].u))))
	}
	intrinsics["strings.Join"] = func(m *Machine, fr *Frame, a []Value) Value {
		var ss []string
		for _, c := range cellsOf(a[0]) {
			ss = append(ss, str(c))
		}
		return sval(strings.Join(ss, str(a[1])))
	}
}
