package lrprog

import (
	"strconv"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/vp"
)

func vhSumWorld(logSlots int) (mkckks.Parameters, *mkckks.Evaluator, *mkrlwe.RelinearizationKeySet, *mkrlwe.RotationKeySet, *mkckks.Encryptor, *mkrlwe.IDSet) {
	lit := PN15QP880
	vhSetParams(&lit, logSlots)
	cp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		panic(err)
	}
	p := mkckks.NewParameters(cp)
	g := mkckks.NewKeyGenerator(p)
	rlks, rks := mkrlwe.NewRelinearizationKeyKeySet(p.Parameters), mkrlwe.NewRotationKeySet()
	ids := mkrlwe.NewIDSet()
	for i := 0; i < 2; i++ {
		id := "company" + strconv.Itoa(i)
		ids.Add(id)
		sk, _ := g.GenKeyPair(id)
		rlks.AddRelinearizationKey(g.GenRelinearizationKey(sk, g.GenSecretKey(id)))
		g.GenDefaultRotationKeys(sk, rks)
	}
	return p, mkckks.NewEvaluator(p), rlks, rks, mkckks.NewEncryptor(p), ids
}

func vhArbitrary(n int) []complex128 {
	v := make([]complex128, n)
	for i := range v {
		v[i] = complex(vp.Real("re["+strconv.Itoa(i)+"]", 1), vp.Real("im["+strconv.Itoa(i)+"]", 1))
	}
	return v
}

func vhEqSlots(label string, got, want []complex128) {
	if len(got) != len(want) {
		vp.True(label+": number of slots", false)
		return
	}
	for i := range got {
		vp.EqReal(label+" re["+strconv.Itoa(i)+"]", real(got[i]), real(want[i]), 1e-9)
		vp.EqReal(label+" im["+strconv.Itoa(i)+"]", imag(got[i]), imag(want[i]), 1e-9)
	}
}

func vhPickMatrix() (logSlots, rows, cols int) {
	logSlots = 1 + vp.Pick("log of slots", 6+2*vp.Tier())
	logCols := vp.Pick("log of columns", logSlots+1)
	return logSlots, 1 << (logSlots - logCols), 1 << logCols
}

// C18_rows: every slot of the row sum, every power-of-two shape, all slots arbitrary complex numbers.
func C18_rows() {
	logSlots, rows, cols := vhPickMatrix()
	p, eval, _, rks, _, ids := vhSumWorld(logSlots)
	v := vhArbitrary(1 << logSlots)
	in := mkckks.FromSlots(p, v, ids)
	out := SumRowVec(eval, rks, in, rows, cols)
	want := make([]complex128, len(v))
	for i := range want {
		for r := 0; r < rows; r++ {
			want[i] += v[r*cols+i%cols]
		}
	}
	vhEqSlots("row sum", out.Slots(), want)
}

// C18_cols: every slot of the masked column sum.
func C18_cols() {
	logSlots, rows, cols := vhPickMatrix()
	p, eval, rlks, rks, enc, ids := vhSumWorld(logSlots)
	v := vhArbitrary(1 << logSlots)
	in := mkckks.FromSlots(p, v, ids)
	msg := mkckks.NewMessage(p)
	for i := range msg.Value {
		if i%cols == 0 {
			msg.Value[i] = 1
		}
	}
	out := SumColVec(eval, rlks, rks, in, enc.EncodeMsgNew(msg), rows, cols)
	want := make([]complex128, len(v))
	for i := range want {
		for c := 0; c < cols; c++ {
			want[i] += v[i/cols*cols+c]
		}
	}
	vhEqSlots("column sum", out.Slots(), want)
}

// C18_full: the program's own shape in its own ring; arbitrary values where rows and columns meet their edges.
func C18_full() {
	cols := 1 << vhDoc.logColumns
	rows := 1 << (vhDoc.logSlots - vhDoc.logColumns)
	p, eval, rlks, rks, enc, ids := vhSumWorld(vhDoc.logSlots)
	v := make([]complex128, rows*cols)
	for _, r := range []int{0, 1, rows/2 - 1, rows / 2, rows - 1} {
		for _, c := range []int{0, 1, cols/2 - 1, cols - 1} {
			v[r*cols+c] = complex(vp.Real("re["+strconv.Itoa(r)+"]["+strconv.Itoa(c)+"]", 1), 0)
		}
	}
	in := mkckks.FromSlots(p, v, ids)
	var got []complex128
	want := make([]complex128, len(v))
	if vp.Pick("sum", 2) == 0 {
		got = SumRowVec(eval, rks, in, rows, cols).Slots()
		for c := 0; c < cols; c++ {
			var s complex128
			for r := 0; r < rows; r++ {
				s += v[r*cols+c]
			}
			for r := 0; r < rows; r++ {
				want[r*cols+c] = s
			}
		}
	} else {
		msg := mkckks.NewMessage(p)
		for i := range msg.Value {
			if i%cols == 0 {
				msg.Value[i] = 1
			}
		}
		got = SumColVec(eval, rlks, rks, in, enc.EncodeMsgNew(msg), rows, cols).Slots()
		for r := 0; r < rows; r++ {
			var s complex128
			for c := 0; c < cols; c++ {
				s += v[r*cols+c]
			}
			for c := 0; c < cols; c++ {
				want[r*cols+c] = s
			}
		}
	}
	for _, r := range []int{0, 1, 2, rows/2 - 1, rows / 2, rows - 2, rows - 1} {
		vhEqSlots("row "+strconv.Itoa(r), got[r*cols:(r+1)*cols], want[r*cols:(r+1)*cols])
	}
}
