package lrprog

import (
	"math"
	"strconv"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"verifharness/vp"
)

// The four programs' hyperparameters as documented in their headers; the adapters (adapt_*.go) fill them in.
type vhDocumented struct {
	file        string
	features    int
	gamma       float64
	eta         []float64
	iters       int  // default number of iterations
	data        int  // default number of records
	batch       int  // default batch size
	train       int  // default number of training records
	sample      int  // record that inference is run on; -1: all of them
	normalised  bool // columns are standardised
	unbiased    bool // by the sample (n-1) standard deviation
	logSlots    int
	anySlots    bool // the slot count can be chosen
	fixedIters  int  // hard-wired number of iterations
	logColumns  int
	needsSample int // records that must exist
}

const vhC3doc, vhC1doc, vhC0doc = -0.0015, 0.15, 0.5

// table is the content of the data file.
type vhTable struct {
	x     [][]float64
	text  [][]string
	label []string
	y     []float64
}

func vhNewTable(n int, label string) *vhTable {
	t := &vhTable{}
	zt := make([]string, vhDoc.features)
	zx := make([]float64, vhDoc.features)
	for j := range zt {
		zt[j] = "0"
	}
	for i := 0; i < n; i++ {
		t.x = append(t.x, zx)
		t.text = append(t.text, zt)
		t.label = append(t.label, "0")
		t.y = append(t.y, 1)
		t.setLabel(i, label)
	}
	return t
}

// own gives record i storage of its own before it is changed
func (t *vhTable) own(i int) {
	t.x[i] = append([]float64{}, t.x[i]...)
	t.text[i] = append([]string{}, t.text[i]...)
}

func (t *vhTable) set(i, j int, x float64) {
	t.own(i)
	t.x[i][j] = x
	t.text[i][j] = strconv.FormatFloat(x, 'g', -1, 64)
}

func (t *vhTable) sym(i, j int) {
	t.own(i)
	t.text[i][j], t.x[i][j] = vp.RealText("x["+strconv.Itoa(i)+"]["+strconv.Itoa(j)+"]", 1)
}

func (t *vhTable) setLabel(i int, l string) {
	t.label[i] = l
	t.y[i] = 0
	if l == "0" {
		t.y[i] = 1
	}
}

func (t *vhTable) csv() string {
	var b []byte
	for j := 0; j < vhDoc.features; j++ {
		b = append(b, "f"...)
		b = append(b, strconv.Itoa(j)...)
		b = append(b, ',')
	}
	b = append(b, "target\n"...)
	for i := range t.text {
		for _, s := range t.text[i] {
			b = append(b, s...)
			b = append(b, ',')
		}
		b = append(b, t.label[i]...)
		b = append(b, '\n')
	}
	return string(b)
}

// shape is one choice of sizes.
type vhShape struct {
	data, train, batch, iters, logSlots int
}

func vhDefaults() vhShape {
	return vhShape{vhDoc.data, vhDoc.train, vhDoc.batch, vhDoc.iters, vhDoc.logSlots}
}

// standardise returns the features as the documented preprocessing leaves them.
func (t *vhTable) standardise(n int) [][]float64 {
	if !vhDoc.normalised {
		return t.x
	}
	z := make([][]float64, len(t.x))
	for i := range z {
		z[i] = append([]float64{}, t.x[i]...)
	}
	for j := 0; j < vhDoc.features && j < 17; j++ {
		if j == 1 || j == 3 || j == 5 {
			continue
		}
		mean, v := 0.0, 0.0
		for i := 0; i < n; i++ {
			mean += t.x[i][j]
		}
		mean /= float64(n)
		for i := 0; i < n; i++ {
			d := t.x[i][j] - mean
			v += d * d
		}
		d := n
		if vhDoc.unbiased {
			d = n - 1
		}
		sd := math.Sqrt(v / float64(d))
		for i := range z {
			z[i][j] = (z[i][j] - mean) / sd
		}
	}
	return z
}

// train is the documented algorithm: Nesterov's accelerated gradient on batch a mod (train/batch) in iteration a.
func vhTrain(z [][]float64, y []float64, s vhShape) []float64 {
	f := vhDoc.features
	beta, v := make([]float64, f), make([]float64, f)
	batches := s.train / s.batch
	k := vhDoc.gamma / float64(s.batch)
	for a := 0; a < s.iters; a++ {
		b := a % batches
		g := make([]float64, f)
		for i := b * s.batch; i < (b+1)*s.batch; i++ {
			zero := true
			m := 0.0
			for j := 0; j < f; j++ {
				m += z[i][j] * v[j]
				if !vp.IsZero(z[i][j]) {
					zero = false
				}
			}
			if zero {
				continue
			}
			// sigmoid(m) - y, for y in {0,1}: c3 m^3 + c1 m + c0 - y
			r := vhC3doc*m*m*m + vhC1doc*m + (vhC0doc - y[i])
			for j := 0; j < f; j++ {
				g[j] -= k * r * z[i][j]
			}
		}
		eta := vhDoc.eta[a]
		for j := 0; j < f; j++ {
			old := beta[j]
			beta[j] = v[j] + g[j]
			v[j] = (1-eta)*(v[j]+g[j]) + eta*old
		}
	}
	return beta
}

func vhPredict(beta, x []float64) float64 {
	s := 0.0
	for j := range beta {
		s += beta[j] * x[j]
	}
	return vhC3doc*s*s*s + vhC1doc*s + vhC0doc
}

// run executes the program on t and checks what it outputs.
func vhRun(t *vhTable, s vhShape) {
	vhConfigure(s)
	mkckks.Decrypted = nil
	printed := vp.RunMain(vhDoc.file, t.csv(), main)
	z := t.standardise(vhNormOver(s))
	beta := vhTrain(z, t.y, s)
	lo, hi := vhDoc.sample, vhDoc.sample+1
	if vhDoc.sample < 0 {
		lo, hi = 0, s.data
	}
	out := mkckks.Decrypted
	if len(out) < hi-lo {
		vp.True("inference decrypts its result", false)
		return
	}
	out = out[len(out)-(hi-lo):]
	correct := 0
	for i := lo; i < hi; i++ {
		got := real(out[i-lo][0])
		vp.EqReal("prediction for record "+strconv.Itoa(i), got, vhPredict(beta, z[i]), 1e-9)
		if (got >= 0.5) == (t.y[i] == 1) {
			correct++
		}
	}
	vp.EqInt("printed number of correct predictions", printed, correct)
}

func vhSetParams(lit *ckks.ParametersLiteral, logSlots int) {
	lit.LogN = logSlots + 1
	lit.LogSlots = logSlots
}

func vhSmallest(records int) int {
	if records < vhDoc.needsSample {
		return vhDoc.needsSample
	}
	return records
}
