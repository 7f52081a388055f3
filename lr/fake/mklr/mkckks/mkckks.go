// Package mkckks stands in for the repository's mkckks: the ideal behaviour that properties C01-C12 establish for it.
// A ciphertext is its exact slot vector, its level and its parties; operations need the keys of all parties involved,
// every multiplication consumes a level, and a rotation needs a dedicated key or the power-of-two keys it is made of.
package mkckks

import (
	"errors"
	"fmt"

	"github.com/ldsec/lattigo/v2/ckks"

	"mk-lr/mkrlwe"
)

// Decrypted lists the slot vectors decrypted so far, for the harness.
var Decrypted [][]complex128

type Parameters struct {
	mkrlwe.Parameters
}

func NewParameters(p ckks.Parameters) Parameters { return Parameters{mkrlwe.NewParameters(p)} }

func (p Parameters) Scale() float64 { return p.CKKS.Scale() }
func (p Parameters) Slots() int     { return p.CKKS.Slots() }
func (p Parameters) LogSlots() int  { return p.CKKS.LogSlots() }

func NewKeyGenerator(p Parameters) *mkrlwe.KeyGenerator { return mkrlwe.NewKeyGenerator(p.Parameters) }

type Message struct{ Value []complex128 }

func NewMessage(p Parameters) *Message { return &Message{make([]complex128, p.Slots())} }
func (m *Message) Slots() int          { return len(m.Value) }

type Ciphertext struct {
	slots []complex128
	level int
	ids   *mkrlwe.IDSet
	Scale float64
}

func (c *Ciphertext) Level() int             { return c.level }
func (c *Ciphertext) IDSet() *mkrlwe.IDSet   { return c.ids.CopyNew() }
func (c *Ciphertext) ScalingFactor() float64 { return c.Scale }

// SetScalingFactor declares another scale: the slots are read relative to it.
func (c *Ciphertext) SetScalingFactor(scale float64) {
	for i, x := range c.slots {
		c.slots[i] = x * complex(c.Scale/scale, 0)
	}
	c.Scale = scale
}

func (c *Ciphertext) CopyNew() *Ciphertext {
	return &Ciphertext{append([]complex128{}, c.slots...), c.level, c.ids.CopyNew(), c.Scale}
}

func NewCiphertext(p Parameters, ids *mkrlwe.IDSet, level int, scale float64) *Ciphertext {
	return &Ciphertext{make([]complex128, p.Slots()), level, ids.CopyNew(), scale}
}

func pad(p Parameters, v []complex128) []complex128 {
	if len(v) > p.Slots() {
		panic("cannot Encode: too many values for the given number of slots")
	}
	r := make([]complex128, p.Slots())
	copy(r, v)
	return r
}

type Encryptor struct{ params Parameters }

func NewEncryptor(p Parameters) *Encryptor { return &Encryptor{p} }

func (e *Encryptor) EncodeMsgNew(msg *Message) *ckks.Plaintext {
	pt := ckks.NewPlaintext(e.params.CKKS, e.params.MaxLevel(), e.params.Scale())
	pt.Slots = pad(e.params, msg.Value)
	return pt
}

func (e *Encryptor) EncryptMsg(msg *Message, pk *mkrlwe.PublicKey, ct *Ciphertext) {
	ct.slots = pad(e.params, msg.Value)
	ct.ids.Add(pk.ID)
}

func (e *Encryptor) EncryptMsgNew(msg *Message, pk *mkrlwe.PublicKey) *Ciphertext {
	ct := NewCiphertext(e.params, mkrlwe.NewIDSet(), e.params.MaxLevel(), e.params.Scale())
	e.EncryptMsg(msg, pk, ct)
	return ct
}

func (e *Encryptor) EncryptMsgNewExpand(msg *Message, pk *mkrlwe.PublicKey, ids *mkrlwe.IDSet) *Ciphertext {
	ct := NewCiphertext(e.params, ids, e.params.MaxLevel(), e.params.Scale())
	e.EncryptMsg(msg, pk, ct)
	return ct
}

func (e *Encryptor) EncryptPtxt(pt *ckks.Plaintext, pk *mkrlwe.PublicKey, ct *Ciphertext) {
	ct.slots = append([]complex128{}, pt.Slots...)
	ct.ids.Add(pk.ID)
}

type Decryptor struct{ params Parameters }

func NewDecryptor(p Parameters) *Decryptor { return &Decryptor{p} }

func (d *Decryptor) Decrypt(ct *Ciphertext, sks *mkrlwe.SecretKeySet) *Message {
	for id := range ct.ids.Value {
		sks.GetSecretKey(id)
	}
	Decrypted = append(Decrypted, append([]complex128{}, ct.slots...))
	return &Message{append([]complex128{}, ct.slots...)}
}

// PartialDecrypt removes one party's part; its secret key must be of a party of the ciphertext.
func (d *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
	if !ct.ids.Has(sk.ID) {
		panic("PartialDecrypt: the ciphertext has no component of this party")
	}
	ct.ids.Remove(sk.ID)
}

type Evaluator struct{ params Parameters }

func NewEvaluator(p Parameters) *Evaluator { return &Evaluator{p} }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func vecAdd(a, b, r []complex128) {
	for i := range r {
		r[i] = a[i] + b[i]
	}
}

func vecSub(a, b, r []complex128) {
	for i := range r {
		r[i] = a[i] - b[i]
	}
}

func vecMul(a, b, r []complex128) {
	for i := range r {
		r[i] = a[i] * b[i]
	}
}

func (e *Evaluator) AddNew(a, b *Ciphertext) *Ciphertext {
	r := &Ciphertext{make([]complex128, len(a.slots)), min(a.level, b.level), a.ids.Union(b.ids), a.Scale}
	vecAdd(a.slots, b.slots, r.slots)
	return r
}

func (e *Evaluator) SubNew(a, b *Ciphertext) *Ciphertext {
	r := &Ciphertext{make([]complex128, len(a.slots)), min(a.level, b.level), a.ids.Union(b.ids), a.Scale}
	vecSub(a.slots, b.slots, r.slots)
	return r
}

func down(level int) int {
	if level < 1 {
		panic("no level left for a multiplication")
	}
	return level - 1
}

func (e *Evaluator) MulRelinNew(a, b *Ciphertext, rlks *mkrlwe.RelinearizationKeySet) *Ciphertext {
	r := &Ciphertext{make([]complex128, len(a.slots)), down(min(a.level, b.level)), a.ids.Union(b.ids), a.Scale}
	for id := range r.ids.Value {
		rlks.GetRelinearizationKey(id)
	}
	vecMul(a.slots, b.slots, r.slots)
	return r
}

func (e *Evaluator) MulPtxtNew(a *Ciphertext, pt *ckks.Plaintext) *Ciphertext {
	r := &Ciphertext{make([]complex128, len(a.slots)), down(min(a.level, pt.Level())), a.ids.CopyNew(), a.Scale}
	vecMul(a.slots, pt.Slots, r.slots)
	return r
}

func (e *Evaluator) RotateNew(a *Ciphertext, rot int, rks *mkrlwe.RotationKeySet) *Ciphertext {
	rot = e.params.Reduce(rot)
	if rot == 0 {
		return a.CopyNew()
	}
	for id := range a.ids.Value {
		if e.params.CRS[rot] {
			rks.GetRotationKey(id, uint(rot))
		} else {
			for k := 1; k <= rot; k *= 2 {
				if rot&k != 0 {
					rks.GetRotationKey(id, uint(k))
				}
			}
		}
	}
	n := len(a.slots)
	r := &Ciphertext{make([]complex128, n), a.level, a.ids.CopyNew(), a.Scale}
	rot %= n
	copy(r.slots, a.slots[rot:])
	copy(r.slots[n-rot:], a.slots[:rot])
	return r
}

func (e *Evaluator) ConjugateNew(a *Ciphertext, cks *mkrlwe.ConjugationKeySet) *Ciphertext {
	r := a.CopyNew()
	for id := range a.ids.Value {
		cks.GetConjugationKey(id)
	}
	for i, x := range r.slots {
		r.slots[i] = complex(real(x), -imag(x))
	}
	return r
}

func (e *Evaluator) HoistedForm(a *Ciphertext) *mkrlwe.HoistedCiphertext {
	return &mkrlwe.HoistedCiphertext{Of: a}
}

func (e *Evaluator) MulRelinHoistedNew(a, b *Ciphertext, ah, bh *mkrlwe.HoistedCiphertext, rlks *mkrlwe.RelinearizationKeySet) *Ciphertext {
	if ah != nil && ah.Of != interface{}(a) || bh != nil && bh.Of != interface{}(b) {
		panic("hoisted form of another ciphertext")
	}
	return e.MulRelinNew(a, b, rlks)
}

func (e *Evaluator) RotateHoistedNew(a *Ciphertext, rot int, ah *mkrlwe.HoistedCiphertext, rks *mkrlwe.RotationKeySet) *Ciphertext {
	if ah != nil && ah.Of != interface{}(a) {
		panic("hoisted form of another ciphertext")
	}
	return e.RotateNew(a, rot, rks)
}

func (e *Evaluator) DropLevel(a *Ciphertext, levels int) {
	if levels > a.level {
		panic("cannot drop more levels than there are")
	}
	a.level -= levels
}

func (e *Evaluator) DropLevelNew(a *Ciphertext, levels int) *Ciphertext {
	r := a.CopyNew()
	e.DropLevel(r, levels)
	return r
}

// Rescale has nothing to divide by: products are rescaled as they are made.
func (e *Evaluator) Rescale(a *Ciphertext, minScale float64, out *Ciphertext) error {
	if minScale <= 0 || a.Scale == 0 || a.level == 0 {
		return errors.New("cannot Rescale")
	}
	*out = *a.CopyNew()
	return nil
}

func (e *Evaluator) RescaleNew(a *Ciphertext, minScale float64) (*Ciphertext, error) {
	out := a.CopyNew()
	return out, e.Rescale(a, minScale, out)
}

// MultByConst keeps the level: the scale grows for a fractional constant.
func (e *Evaluator) MultByConst(a *Ciphertext, constant interface{}, out *Ciphertext) {
	var c complex128
	switch x := constant.(type) {
	case complex128:
		c = x
	case float64:
		c = complex(x, 0)
	case int:
		c = complex(float64(x), 0)
	case int64:
		c = complex(float64(x), 0)
	case uint64:
		c = complex(float64(x), 0)
	default:
		panic(fmt.Sprintf("constant of type %T", constant))
	}
	s := make([]complex128, len(a.slots))
	for i, x := range a.slots {
		s[i] = x * c
	}
	out.slots, out.level, out.ids, out.Scale = s, min(a.level, out.level), a.ids.CopyNew(), a.Scale
}

// FromSlots builds a ciphertext of given contents, for the harness.
func FromSlots(p Parameters, v []complex128, ids *mkrlwe.IDSet) *Ciphertext {
	return &Ciphertext{pad(p, v), p.MaxLevel(), ids.CopyNew(), p.Scale()}
}

// Slots shows the contents, for the harness.
func (c *Ciphertext) Slots() []complex128 { return c.slots }
