package lrprog

import (
	"strconv"

	"verifharness/vp"
)

// C19_read: every cell of the file arbitrary, every label; the table readData returns is the file's.
func C19_read() {
	n := 3
	t := vhNewTable(n, "1")
	for i := 0; i < n; i++ {
		for j := 0; j < vhDoc.features; j++ {
			t.sym(i, j)
		}
	}
	l := vp.Pick("labels", 4)
	for i := 0; i < n; i++ {
		t.setLabel(i, vhLabels[(l+i)%4])
	}
	s := vhDefaults()
	s.data = n
	vhConfigure(s)
	var x [][]complex128
	var y []complex128
	vp.RunMain(vhDoc.file, t.csv(), func() { x, y = readData("./" + vhDoc.file) })
	vp.EqInt("number of records", len(x), n)
	vp.EqInt("number of labels", len(y), n)
	for i := 0; i < n; i++ {
		vp.EqInt("features of record "+strconv.Itoa(i), len(x[i]), vhDoc.features)
		for j := 0; j < vhDoc.features; j++ {
			at := "record " + strconv.Itoa(i) + " column " + strconv.Itoa(j)
			vp.EqReal(at, real(x[i][j]), t.x[i][j], 0)
			vp.EqReal(at+" imaginary", imag(x[i][j]), 0, 0)
		}
		vp.EqReal("label of record "+strconv.Itoa(i), real(y[i]), float64((l+i)%4), 0)
	}
}

// C19_refuse: a cell that is no number, anywhere in the file.
func C19_refuse() {
	n := 3
	t := vhNewTable(n, "1")
	for i := 0; i < n; i++ {
		t.record(i)
	}
	bad := []string{"abc", "", "1.5x", "1,5", "--1"}[vp.Pick("text", 5)]
	i := vp.Pick("record", n)
	j := []int{0, vhDoc.features - 1, -1}[vp.Pick("column", 3)]
	if j < 0 {
		t.label[i] = bad
	} else {
		t.own(i)
		t.text[i][j] = bad
	}
	s := vhDefaults()
	s.data = n
	vhConfigure(s)
	refused := vp.Panics(func() {
		vp.RunMain(vhDoc.file, t.csv(), func() { readData("./" + vhDoc.file) })
	})
	vp.True("malformed number refused", refused)
}

// C19_pack: one iteration (or the hard-wired number); whole columns of the batch arbitrary, all label combinations; the model
// component of every column, read off through the prediction for a unit vector, involves exactly the batch's own cells and labels.
func C19_pack() {
	s, t := vhPickShape(1)
	c := vp.Pick("columns", (vhDoc.features+1)/2)
	if vp.Tier() > 0 && vhDoc.features > 8 {
		c = (c + vhDoc.features/2*vp.Pick("half", 2)) % vhDoc.features
	}
	a, b := c, (c+vhDoc.features/2)%vhDoc.features
	for i := 0; i < s.train && i < 4; i++ {
		if i >= 2 && vhDoc.fixedIters > 0 || i > 0 && vhDoc.fixedIters > 0 && vhDoc.normalised && b != 1 && b != 3 && b != 5 && b < 17 {
			break
		}
		if vhDoc.fixedIters == 0 {
			t.sym(i, a)
		}
		t.sym(i, b)
	}
	if vhDoc.fixedIters > 0 {
		vhPickLabels(t, 1+vp.Tier())
	} else {
		vhPickLabels(t, 2+vp.Tier())
	}
	k := []int{b, a}[vp.Pick("component", 1+vp.Tier())]
	t.unit(s.sample(), k)
	vhRun(t, s)
}
