// Package ring stands in for lattigo's ring.
package ring

type Ring struct {
	N       int
	Modulus []uint64
}

type Poly struct{ Coeffs [][]uint64 }

func (r *Ring) NewPoly() *Poly {
	p := &Poly{make([][]uint64, len(r.Modulus))}
	for i := range p.Coeffs {
		p.Coeffs[i] = make([]uint64, r.N)
	}
	return p
}
