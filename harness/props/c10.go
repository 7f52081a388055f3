package props

import (
	"mk-lr/mkckks"

	"verifharness/vp"
)

type rescaleCase struct{ sc, min float64 }

// around every decision point of the rule: no, one, two, three divisions; just below and above half the minimum
var rescaleCases = []rescaleCase{
	{1 << 40, 1 << 40}, {1 << 80, 1 << 40}, {1 << 79, 1 << 40}, {1 << 78, 1 << 40}, {1 << 119, 1 << 40}, {1 << 120, 1 << 40},
	{1 << 118, 1 << 40}, {1 << 60, 1 << 19}, {1 << 41, 1}, {1 << 40, 0.25}, {1 << 100, 1 << 21}, {1 << 45, 1 << 6},
	{1 << 160, 1 << 40}, {3 << 78, 1 << 40}, {1 << 50, 1 << 30}, {1 << 30, 1 << 45},
}

// checkRescale: every component is the operand's component divided with rounding.
func (e *env) checkRescale(label string, out *mkckks.Ciphertext, in *mkckks.Ciphertext, mask, level int, sc, min float64) {
	nd := e.drops(sc, level, min)
	if !e.hasParties(label, out.Ciphertext, mask, level-nd) {
		return
	}
	want := sc
	for i := 0; i < nd; i++ {
		want /= float64(e.Q[level-i])
	}
	vp.EqF(label+": scale", out.Scale, want)
	for _, id := range append([]string{"0"}, parties(mask)...) {
		if nd == 0 {
			vp.EqPoly(label+": component "+id, out.Value[id], in.Value[id], e.Q[:level+1])
		} else {
			vp.NearDiv(label+": component "+id, out.Value[id], e.Q[:level-nd+1], e.Q[level-nd+1:level+1], in.Value[id], 1)
		}
	}
}

// C10_new: RescaleNew, for every party set, level and scale case.
func C10_new() {
	e := newEnv(4, 4, 2)
	mask := []int{0, 1, 3, 7}[vp.Pick("parties", 3+vp.Tier())]
	l := 3 - vp.Pick("level", 3)
	c := rescaleCases[vp.Pick("scales", len(rescaleCases))]
	ct := e.symCT("c", mask, l, c.sc)
	in := ct.CopyNew()
	snap := vp.Snapshot(ct)
	out, err := mkckks.NewEvaluator(e.p).RescaleNew(ct, c.min)
	vp.True("no error", err == nil)
	vp.Unchanged("operand", snap, ct)
	vp.Disjoint("result and operand", out, ct)
	e.checkRescale("rescaled", out, in, mask, l, c.sc, c.min)
}

// C10_inplace: the output is the input.
func C10_inplace() {
	e := newEnv(4, 4, 2)
	mask := []int{1, 3, 0}[vp.Pick("parties", 2+vp.Tier())]
	l := 3 - vp.Pick("level", 3)
	c := rescaleCases[vp.Pick("scales", len(rescaleCases))]
	ct := e.symCT("c", mask, l, c.sc)
	in := ct.CopyNew()
	err := mkckks.NewEvaluator(e.p).Rescale(ct, c.min, ct)
	vp.True("no error", err == nil)
	e.checkRescale("rescaled", ct, in, mask, l, c.sc, c.min)
}

// C10_into: another ciphertext, with old contents, of the same level or (when there is something to divide) of a higher one,
// receives the result.
func C10_into() {
	e := newEnv(4, 3, 2)
	l := 2 - vp.Pick("level", 2)
	c := rescaleCases[vp.Pick("scales", len(rescaleCases))]
	lo := l
	if l == 1 && c.sc >= 1<<80 {
		lo = l + vp.Pick("higher", 2)
	}
	ct := e.symCT("c", 3, l, c.sc)
	in := ct.CopyNew()
	out := e.symCT("old", 3, lo, 7)
	snap := vp.Snapshot(ct)
	err := mkckks.NewEvaluator(e.p).Rescale(ct, c.min, out)
	vp.True("no error", err == nil)
	vp.Unchanged("operand", snap, ct)
	vp.Disjoint("result and operand", out, ct)
	e.checkRescale("rescaled", out, in, 3, l, c.sc, c.min)
}

// C10_errors: refused arguments are reported as errors.
func C10_errors() {
	e := newEnv(4, 3, 2)
	k := vp.Pick("case", 5)
	l := []int{0, 1, 2, 0, 1}[k]
	sc := []float64{1 << 50, 1 << 90, 0, 1 << 90, 1 << 90}[k]
	min := []float64{1 << 40, 0, 1 << 40, 1, -1}[k]
	ct := e.symCT("c", 1, l, sc)
	ev := mkckks.NewEvaluator(e.p)
	_, err := ev.RescaleNew(ct, min)
	vp.True("RescaleNew reports an error", err != nil)
	snap := vp.Snapshot(ct)
	vp.True("Rescale reports an error", ev.Rescale(ct, min, ct) != nil)
	vp.Unchanged("operand", snap, ct)
}

// C10_history: one evaluator rescales ciphertexts of different levels in a row.
func C10_history() {
	e := newEnv(4, 4, 2)
	ev := mkckks.NewEvaluator(e.p)
	for i := 0; i < 2; i++ {
		l := 3 - vp.Pick("level", 3)
		c := []rescaleCase{{1 << 80, 1 << 40}, {1 << 120, 1 << 40}}[vp.Pick("scales", 2)]
		ct := e.symCT("c"+itoa(i), 1+2*i, l, c.sc)
		in := ct.CopyNew()
		out, err := ev.RescaleNew(ct, c.min)
		vp.True("no error", err == nil)
		e.checkRescale("rescaled", out, in, 1+2*i, l, c.sc, c.min)
	}
}

// C10_size: another ring degree.
func C10_size() {
	e := newEnv(5+vp.Pick("logN", 1+vp.Tier()), 3, 2)
	c := []rescaleCase{{1 << 80, 1 << 40}, {1 << 120, 1 << 40}}[vp.Pick("scales", 2)]
	ct := e.symCT("c", 1, 2, c.sc)
	in := ct.CopyNew()
	out, err := mkckks.NewEvaluator(e.p).RescaleNew(ct, c.min)
	vp.True("no error", err == nil)
	e.checkRescale("rescaled", out, in, 1, 2, c.sc, c.min)
}
