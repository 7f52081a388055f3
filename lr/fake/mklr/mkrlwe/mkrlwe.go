// Package mkrlwe stands in for the repository's mkrlwe: which party holds which key, and nothing of the keys' contents.
package mkrlwe

import (
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
)

type Parameters struct {
	CKKS ckks.Parameters
	CRS  map[int]bool
}

func NewParameters(p ckks.Parameters) Parameters {
	r := Parameters{p, map[int]bool{0: true, -1: true, -2: true, -3: true}}
	for i := 0; i < p.LogN()-1; i++ {
		r.CRS[1<<i] = true
	}
	return r
}

func (p Parameters) LogN() int     { return p.CKKS.LogN() }
func (p Parameters) N() int        { return p.CKKS.N() }
func (p Parameters) MaxLevel() int { return p.CKKS.MaxLevel() }
func (p Parameters) QCount() int   { return p.CKKS.QCount() }
func (p Parameters) PCount() int   { return p.CKKS.PCount() }
func (p Parameters) QPCount() int  { return p.CKKS.QPCount() }
func (p Parameters) Q() []uint64   { return p.CKKS.Q() }
func (p Parameters) P() []uint64   { return p.CKKS.P() }
func (p Parameters) Gamma() int    { return 2 }
func (p Parameters) Alpha() int    { return p.PCount() / p.Gamma() }
func (p Parameters) Beta(levelQ int) int {
	a := p.Alpha()
	return (levelQ + a) / a
}
func (p Parameters) RingQ() *ring.Ring { return p.CKKS.RingQ() }
func (p Parameters) RingP() *ring.Ring { return p.CKKS.RingP() }

// AddCRS adds a common reference string entry (in the reduced form in which keys and rotations look it up).
func (p *Parameters) AddCRS(idx int) { p.CRS[p.Reduce(idx)] = true }

// Reduce maps a rotation amount into [0, N/2).
func (p Parameters) Reduce(idx int) int {
	n := p.N() / 2
	return ((idx % n) + n) % n
}

type IDSet struct{ Value map[string]struct{} }

func NewIDSet() *IDSet { return &IDSet{map[string]struct{}{}} }
func (s *IDSet) Has(v string) bool {
	_, ok := s.Value[v]
	return ok
}
func (s *IDSet) Add(v string) {
	if v == "0" {
		panic("reserved id")
	}
	s.Value[v] = struct{}{}
}
func (s *IDSet) Remove(v string) { delete(s.Value, v) }
func (s *IDSet) Size() int       { return len(s.Value) }
func (s *IDSet) CopyNew() *IDSet {
	r := NewIDSet()
	for v := range s.Value {
		r.Value[v] = struct{}{}
	}
	return r
}
func (s *IDSet) Union(t *IDSet) *IDSet {
	r := s.CopyNew()
	for v := range t.Value {
		r.Value[v] = struct{}{}
	}
	return r
}
func (s *IDSet) Intersection(t *IDSet) *IDSet {
	r := NewIDSet()
	for v := range s.Value {
		if t.Has(v) {
			r.Value[v] = struct{}{}
		}
	}
	return r
}

type SecretKey struct {
	ID string
	g  *KeyGenerator
}
type PublicKey struct{ ID string }
type RelinearizationKey struct{ ID string }
type RotationKey struct {
	ID     string
	RotIdx uint
}
type ConjugationKey struct{ ID string }

type KeyGenerator struct{ params Parameters }

func NewKeyGenerator(p Parameters) *KeyGenerator { return &KeyGenerator{p} }

func (g *KeyGenerator) GenSecretKey(id string) *SecretKey         { return &SecretKey{id, g} }
func (g *KeyGenerator) GenSecretKeyGaussian(id string) *SecretKey { return &SecretKey{id, g} }
func (g *KeyGenerator) GenSecretKeySparse(hw int, id string) *SecretKey {
	return &SecretKey{id, g}
}
func (g *KeyGenerator) GenSecretKeyWithDistrib(p float64, id string) *SecretKey {
	return &SecretKey{id, g}
}
func (g *KeyGenerator) GenPublicKey(sk *SecretKey) *PublicKey { return &PublicKey{sk.ID} }
func (g *KeyGenerator) GenKeyPair(id string) (*SecretKey, *PublicKey) {
	return &SecretKey{id, g}, &PublicKey{id}
}
func (g *KeyGenerator) GenKeyPairSparse(hw int, id string) (*SecretKey, *PublicKey) {
	return &SecretKey{id, g}, &PublicKey{id}
}
func (sk *SecretKey) CopyNew() *SecretKey { return &SecretKey{sk.ID, sk.g} }
func (pk *PublicKey) CopyNew() *PublicKey { return &PublicKey{pk.ID} }
func (g *KeyGenerator) GenRelinearizationKey(sk, r *SecretKey) *RelinearizationKey {
	if sk.ID != r.ID {
		panic("relinearization key of two parties")
	}
	return &RelinearizationKey{sk.ID}
}
func (g *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) *RotationKey {
	rotidx = g.params.Reduce(rotidx)
	if !g.params.CRS[rotidx] {
		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
	}
	return &RotationKey{sk.ID, uint(rotidx)}
}
func (g *KeyGenerator) GenDefaultRotationKeys(sk *SecretKey, set *RotationKeySet) {
	for i := 0; i < g.params.LogN()-1; i++ {
		set.AddRotationKey(g.GenRotationKey(1<<i, sk))
	}
}
func (g *KeyGenerator) GenConjugationKey(sk *SecretKey) *ConjugationKey {
	return &ConjugationKey{sk.ID}
}

type SecretKeySet struct{ Value map[string]*SecretKey }

func NewSecretKeySet() *SecretKeySet              { return &SecretKeySet{map[string]*SecretKey{}} }
func (s *SecretKeySet) AddSecretKey(k *SecretKey) { s.Value[k.ID] = k }
func (s *SecretKeySet) DelSecretKey(id string)    { delete(s.Value, id) }
func (s *SecretKeySet) GetSecretKey(id string) *SecretKey {
	k, ok := s.Value[id]
	if !ok {
		panic("cannot GetSecretKey: there is no secret key with given id")
	}
	return k
}

type PublicKeySet struct{ Value map[string]*PublicKey }

func NewPublicKeyKeySet() *PublicKeySet           { return &PublicKeySet{map[string]*PublicKey{}} }
func (s *PublicKeySet) AddPublicKey(k *PublicKey) { s.Value[k.ID] = k }
func (s *PublicKeySet) DelPublicKey(id string)    { delete(s.Value, id) }
func (s *PublicKeySet) GetPublicKey(id string) *PublicKey {
	k, ok := s.Value[id]
	if !ok {
		panic("cannot GetPublicKey: there is no public key with given id")
	}
	return k
}

type RelinearizationKeySet struct {
	Value map[string]*RelinearizationKey
}

func NewRelinearizationKeyKeySet(p Parameters) *RelinearizationKeySet {
	return &RelinearizationKeySet{map[string]*RelinearizationKey{}}
}
func (s *RelinearizationKeySet) AddRelinearizationKey(k *RelinearizationKey) { s.Value[k.ID] = k }
func (s *RelinearizationKeySet) DelRelinearizationKey(id string)             { delete(s.Value, id) }
func (s *RelinearizationKeySet) GetRelinearizationKey(id string) *RelinearizationKey {
	k, ok := s.Value[id]
	if !ok {
		panic("cannot GetRelinearizationKey: there is no relinearization key with given id")
	}
	return k
}

type rotKey struct {
	id  string
	rot uint
}

type RotationKeySet struct{ keys map[rotKey]*RotationKey }

func NewRotationKeySet() *RotationKeySet                     { return &RotationKeySet{map[rotKey]*RotationKey{}} }
func (s *RotationKeySet) AddRotationKey(k *RotationKey)      { s.keys[rotKey{k.ID, k.RotIdx}] = k }
func (s *RotationKeySet) DelRotationKey(id string, rot uint) { delete(s.keys, rotKey{id, rot}) }
func (s *RotationKeySet) GetRotationKey(id string, rot uint) *RotationKey {
	k, ok := s.keys[rotKey{id, rot}]
	if !ok {
		panic("cannot GetRotationKey: there is no rotation key with given id and amount")
	}
	return k
}

type ConjugationKeySet struct{ Value map[string]*ConjugationKey }

func NewConjugationKeySet() *ConjugationKeySet {
	return &ConjugationKeySet{map[string]*ConjugationKey{}}
}
func (s *ConjugationKeySet) AddConjugationKey(k *ConjugationKey) { s.Value[k.ID] = k }
func (s *ConjugationKeySet) DelConjugationKey(id string)         { delete(s.Value, id) }
func (s *ConjugationKeySet) GetConjugationKey(id string) *ConjugationKey {
	k, ok := s.Value[id]
	if !ok {
		panic("cannot GetConjugationKey: there is no conjugation key with given id")
	}
	return k
}

type HoistedCiphertext struct{ Of interface{} }

func NewHoistedCiphertext() *HoistedCiphertext { return &HoistedCiphertext{} }
