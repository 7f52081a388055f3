package props

import (
	"math"
	"mk-lr/mkckks"
	"verifharness/vp"
)

var maskPairs = [][2]int{{1, 1}, {1, 2}, {3, 1}, {1, 3}, {3, 6}, {0, 1}, {2, 0}, {7, 2}, {4, 7}}

var scalePairs = [][2]float64{{1 << 40, 1 << 40}, {1 << 45, 1 << 40}, {1 << 40, 1 << 43}, {3 << 39, 1 << 40}, {1 << 40, 7 << 38}, {1 << 42, 3 << 40}}

func pickMasks() (int, int) {
	if vp.Tier() == 0 {
		m := maskPairs[vp.Pick("parties", len(maskPairs))]
		return m[0], m[1]
	}
	k := vp.Pick("parties", 64)
	return k % 8, k / 8
}

func addSub(sub bool) {
	e := newEnv(4, 3, 2)
	ma, mb := pickMasks()
	lv := vp.Pick("levels", 5)
	la, lb := []int{2, 2, 1, 0, 0}[lv], []int{2, 1, 2, 2, 0}[lv]
	sc := scalePairs[vp.Pick("scales", len(scalePairs))]
	vp.MapOrder(vp.Pick("order", 2))
	a := e.symCT("a", ma, la, sc[0])
	b := e.symCT("b", mb, lb, sc[1])
	ev := mkckks.NewEvaluator(e.p)
	snap := vp.Snapshot(a, b)
	var r *mkckks.Ciphertext
	if sub {
		r = ev.SubNew(a, b)
	} else {
		r = ev.AddNew(a, b)
	}
	vp.Unchanged("operands", snap, a, b)
	checkAddSub(e, sub, r, a, b, ma, mb)
}

// checkAddSub: every component is the (scaled) sum or difference of the operands' components.
func checkAddSub(e *env, sub bool, r, a, b *mkckks.Ciphertext, ma, mb int) {
	l := a.Level()
	if b.Level() < l {
		l = b.Level()
	}
	ka, kb := uint64(1), uint64(1)
	if x := math.Floor(b.Scale / a.Scale); x > 1 {
		ka = uint64(x)
	}
	if x := math.Floor(a.Scale / b.Scale); x > 1 {
		kb = uint64(x)
	}
	if !e.hasParties("result", r.Ciphertext, ma|mb, l) {
		return
	}
	vp.EqF("scale", r.Scale, math.Max(a.Scale, b.Scale))
	mods := e.Q[:l+1]
	for _, id := range append([]string{"0"}, parties(ma|mb)...) {
		want := newPoly(e.N, l+1)
		if p, ok := a.Value[id]; ok {
			want = e.scaleP(p, ka, mods)
		}
		if p, ok := b.Value[id]; ok {
			if sub {
				want = e.subP(want, e.scaleP(p, kb, mods), mods)
			} else {
				want = e.addP(want, e.scaleP(p, kb, mods), mods)
			}
		}
		vp.EqPoly("component "+id, r.Value[id], want, mods)
	}
}

func C04_add() { addSub(false) }
func C04_sub() { addSub(true) }

// C04_same: both operands are the same ciphertext object.
func C04_same() {
	e := newEnv(4, 2, 2)
	m := vp.Pick("parties", 4)
	l := vp.Pick("level", 2)
	sub := vp.Pick("sub", 2) == 1
	a := e.symCT("a", m, l, scale)
	ev := mkckks.NewEvaluator(e.p)
	var r *mkckks.Ciphertext
	if sub {
		r = ev.SubNew(a, a)
	} else {
		r = ev.AddNew(a, a)
	}
	checkAddSub(e, sub, r, a, a, m, m)
}
