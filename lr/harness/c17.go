package lrprog

import "verifharness/vp"

var vhLabels = []string{"0", "1", "2", "3"}

// fill gives the training records (and the one inference uses) concrete values that all fit exactly in a float64.
func vhFill(n int) *vhTable {
	t := vhNewTable(vhSmallest(n), "1")
	for i := 0; i < n; i++ {
		t.record(i)
	}
	return t
}

func (t *vhTable) record(i int) {
	t.own(i)
	for j := 0; j < vhDoc.features; j++ {
		x := float64((i*7+j*5+i*j*3+i*i*j)%11-5) / 4
		if vhDoc.normalised && j < 17 {
			x *= 4
			if i%2 == 0 {
				x += 6 // every standardised column varies by more than one
			}
		}
		t.set(i, j, x)
	}
	t.setLabel(i, vhLabels[(i*i+i/2)%3])
}

// unit makes record i the j-th unit vector
func (t *vhTable) unit(i, j int) {
	for k := 0; k < vhDoc.features; k++ {
		t.set(i, k, 0)
	}
	t.set(i, j, 1)
}

// sample is the record whose prediction the program outputs (the last one if it outputs all)
func (s vhShape) sample() int {
	if vhDoc.sample >= 0 {
		return vhDoc.sample
	}
	return s.data - 1
}

// shapes lists the sizes explored: batches of one and several ciphertexts, partly filled ciphertexts, several batches, a remainder.
func vhShapes(iters int) []vhShape {
	if !vhDoc.anySlots {
		return []vhShape{{0, 2, 2, iters, vhDoc.logSlots}, {0, 4, 4, iters, vhDoc.logSlots}, {0, 3, 3, iters, vhDoc.logSlots}}
	}
	c := vhDoc.logColumns
	return []vhShape{
		{0, 4, 2, iters, c + 1}, // two batches, each one full ciphertext
		{0, 8, 4, iters, c + 1}, // two batches of two ciphertexts
		{0, 4, 1, iters, c + 2}, // four batches of one record, ciphertexts partly empty
		{0, 4, 4, iters, c + 2}, // one batch, used again in every iteration
		{0, 5, 2, iters, c + 1}, // a record left over
		{0, 6, 3, iters, c + 1}, // batches that do not fill their last ciphertext
	}
}

func vhPickShape(iters int) (vhShape, *vhTable) {
	ss := vhShapes(iters)
	if vhDoc.fixedIters > 0 {
		for i := range ss {
			ss[i].iters = vhDoc.fixedIters
		}
	}
	s := ss[vp.Pick("shape", len(ss))]
	n := s.train
	if vhDoc.sample < 0 {
		n++
	}
	t := vhFill(n)
	s.data = len(t.x)
	return s, t
}

func vhPickLabels(t *vhTable, n int) {
	l := vp.Pick("labels", 1<<n)
	for i := 0; i < n; i++ {
		t.setLabel(i, vhLabels[(l>>i&1)*(1+i%3)])
	}
}

// C17_one: one iteration from the zero model, every feature of the batch and of the predicted record arbitrary.
func C17_one() {
	s, t := vhPickShape(1)
	vhPickLabels(t, 2)
	if vhDoc.fixedIters > 0 {
		// the program does not allow fewer iterations: one arbitrary feature and, for the record predicted, all of them
		t.sym(0, 1)
		for j := 17; j < vhDoc.features; j++ {
			t.sym(s.sample(), j)
		}
		vhRun(t, s)
		return
	}
	for i := 0; i < 2 && i < s.batch; i++ {
		for j := 0; j < vhDoc.features; j++ {
			if !vhDoc.normalised || j%8 == 1 || j == 2 {
				t.sym(i, j)
			}
		}
	}
	for j := 0; j < vhDoc.features; j++ {
		if !vhDoc.normalised || j >= 15 {
			t.sym(s.sample(), j)
		}
	}
	vhRun(t, s)
}

// C17_two: two iterations, four arbitrary cells in two records; the model is read off through predictions for unit vectors.
func C17_two() {
	s, t := vhPickShape(2)
	cols := [][3]int{{0, 3, 5}, {1, 6, 2}}
	if vhDoc.normalised {
		cols = [][3]int{{1, 19, 6}, {5, 17, 16}}
	}
	c := cols[vp.Pick("columns", 2)]
	a, b := 0, s.train-1
	t.sym(a, c[0])
	t.sym(b, c[1])
	if vhDoc.fixedIters > 0 {
		// two cells: three iterations of three are out of the solver's reach
	} else if vp.Pick("cells", 2) == 1 {
		t.sym(a, c[1])
	} else {
		t.sym(b, c[0])
	}
	t.unit(s.sample(), c[vp.Pick("component", 3)])
	vhRun(t, s)
}

// C17_deep: up to the full number of iterations, one arbitrary cell.
func C17_deep() {
	iters := 3 + vp.Pick("iterations", 2)
	if vhDoc.iters < iters {
		iters = vhDoc.iters
	}
	s, t := vhPickShape(iters)
	cells := [][2]int{{0, 3}, {s.train - 1, 1}, {s.batch - 1, 5}}
	if vhDoc.normalised {
		cells = append(cells, [2]int{0, 16}, [2]int{s.train - 1, 19})
	}
	c := cells[vp.Pick("cell", len(cells))]
	t.sym(c[0], c[1])
	t.unit(s.sample(), []int{c[1], 0}[vp.Pick("component", 2)])
	vhRun(t, s)
}

// C17_default: the program exactly as shipped: its own sizes, ring, batches and iterations.
func C17_default() {
	s := vhDefaults()
	if vhDoc.sample < 0 {
		s.data = s.train // every record is predicted: leave the others out
	}
	t := vhNewTable(s.data, "1")
	rows := []int{0, 1, s.batch - 1, s.train - 1, s.sample()}
	if s.batch < s.train {
		rows = append(rows, s.batch, 2*s.batch+1, 3*s.batch)
	}
	if s.train < s.data {
		rows = append(rows, s.train)
	}
	for _, i := range rows {
		t.record(i)
		for j := 0; j < vhDoc.features; j++ {
			t.set(i, j, t.x[i][j]*16)
		}
	}
	if vhDoc.sample < 0 && vp.Tier() == 0 {
		t.sym(s.train-1, 3)
	} else {
		t.sym(rows[vp.Pick("record", 4)], 3)
	}
	vhRun(t, s)
}
