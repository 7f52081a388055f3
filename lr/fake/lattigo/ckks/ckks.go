// Package ckks stands in for lattigo's ckks: exact slot vectors instead of polynomials.
package ckks

import (
	"errors"

	"github.com/ldsec/lattigo/v2/ring"
)

type ParametersLiteral struct {
	LogN     int
	Q        []uint64
	P        []uint64
	LogQ     []int
	LogP     []int
	LogSlots int
	Scale    float64
	Sigma    float64
}

type Parameters struct {
	logN, logSlots, maxLevel int
	scale                    float64
	ringQ, ringP             *ring.Ring
}

func NewParametersFromLiteral(l ParametersLiteral) (Parameters, error) {
	if l.LogN < 1 || l.LogN > 20 || l.LogSlots < 0 || l.LogSlots >= l.LogN || len(l.Q) == 0 {
		return Parameters{}, errors.New("invalid parameters")
	}
	return Parameters{l.LogN, l.LogSlots, len(l.Q) - 1, l.Scale, &ring.Ring{N: 1 << l.LogN, Modulus: l.Q}, &ring.Ring{N: 1 << l.LogN, Modulus: l.P}}, nil
}

func (p Parameters) LogN() int         { return p.logN }
func (p Parameters) N() int            { return 1 << p.logN }
func (p Parameters) LogSlots() int     { return p.logSlots }
func (p Parameters) Slots() int        { return 1 << p.logSlots }
func (p Parameters) Scale() float64    { return p.scale }
func (p Parameters) MaxLevel() int     { return p.maxLevel }
func (p Parameters) QCount() int       { return p.maxLevel + 1 }
func (p Parameters) PCount() int       { return len(p.ringP.Modulus) }
func (p Parameters) QPCount() int      { return p.QCount() + p.PCount() }
func (p Parameters) MaxSlots() int     { return p.N() >> 1 }
func (p Parameters) MaxLogSlots() int  { return p.logN - 1 }
func (p Parameters) Q() []uint64       { return append([]uint64{}, p.ringQ.Modulus...) }
func (p Parameters) P() []uint64       { return append([]uint64{}, p.ringP.Modulus...) }
func (p Parameters) RingQ() *ring.Ring { return p.ringQ }
func (p Parameters) RingP() *ring.Ring { return p.ringP }

// Plaintext is an encoded slot vector.
type Plaintext struct {
	Slots []complex128
	Scale float64
	level int
}

func NewPlaintext(p Parameters, level int, scale float64) *Plaintext {
	return &Plaintext{make([]complex128, p.Slots()), scale, level}
}

func (p *Plaintext) Level() int                 { return p.level }
func (p *Plaintext) ScalingFactor() float64     { return p.Scale }
func (p *Plaintext) SetScalingFactor(s float64) { p.Scale = s }
