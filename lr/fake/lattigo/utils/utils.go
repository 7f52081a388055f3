// Package utils stands in for lattigo's utils.
package utils

type PRNG interface{ Clock(b []byte) }

type KeyedPRNG struct{ seed uint64 }

func (*KeyedPRNG) Clock(b []byte) {}

func NewPRNG() (*KeyedPRNG, error)                { return &KeyedPRNG{}, nil }
func NewKeyedPRNG(key []byte) (*KeyedPRNG, error) { return &KeyedPRNG{}, nil }

func MinInt(a, b int) int {
	if a <= b {
		return a
	}
	return b
}

func MaxInt(a, b int) int {
	if a >= b {
		return a
	}
	return b
}

func MinUint64(a, b uint64) uint64 {
	if a <= b {
		return a
	}
	return b
}

func MaxUint64(a, b uint64) uint64 {
	if a >= b {
		return a
	}
	return b
}

func MaxFloat64(a, b float64) float64 {
	if a >= b {
		return a
	}
	return b
}

func MinFloat64(a, b float64) float64 {
	if a <= b {
		return a
	}
	return b
}
