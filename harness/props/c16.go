package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

var setNames = []string{"alice", "bob", "", "0"}

// isSet asserts that s is exactly the set given by mask over setNames.
func isSet(label string, s *mkrlwe.IDSet, mask int) {
	n := 0
	for i, id := range setNames {
		in := mask>>uint(i)&1 == 1
		if in {
			n++
		}
		vp.True(label+": membership of "+id, s.Has(id) == in)
		_, raw := s.Value[id]
		vp.True(label+": raw membership of "+id, raw == in)
	}
	vp.True(label+": no stranger", !s.Has("mallory"))
	vp.EqInt(label+": size", s.Size(), n)
}

func mkSet(mask int) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for i := 0; i < 3; i++ {
		if mask>>uint(i)&1 == 1 {
			s.Add(setNames[i])
		}
	}
	return s
}

// C16_sets: a history of set operations over two sets against the set algebra; every result is independent of its
// arguments, and no argument changes.
func C16_sets() {
	m := []int{vp.Pick("first set", 8), vp.Pick("second set", 8)}
	sets := []*mkrlwe.IDSet{mkSet(m[0]), mkSet(m[1])}
	for step := 0; step < 2+vp.Tier(); step++ {
		op := vp.Pick("operation", 7)
		switch op {
		case 0:
			m = append(m, m[0]|m[1])
			sets = append(sets, sets[0].Union(sets[1]))
		case 1:
			m = append(m, m[0]&m[1])
			sets = append(sets, sets[0].Intersection(sets[1]))
		case 2:
			m = append(m, m[0])
			sets = append(sets, sets[0].CopyNew())
		case 3:
			// swap the roles
			m[0], m[1] = m[1], m[0]
			sets[0], sets[1] = sets[1], sets[0]
		default:
			// change the newest set
			i := len(sets) - 1
			k := op - 4
			if m[i]>>uint(k)&1 == 1 {
				sets[i].Remove(setNames[k])
				sets[i].Remove(setNames[k])
				m[i] &^= 1 << uint(k)
			} else {
				sets[i].Add(setNames[k])
				sets[i].Add(setNames[k])
				m[i] |= 1 << uint(k)
			}
		}
		for i := range sets {
			isSet("after step "+itoa(step)+" set "+itoa(i), sets[i], m[i])
		}
	}
}

// C16_zero: the reserved name is refused and leaves the set as it was.
func C16_zero() {
	m := vp.Pick("set", 8)
	s := mkSet(m)
	vp.True("Add(\"0\") refuses", vp.Panics(func() { s.Add("0") }))
	isSet("after the refusal", s, m)
	s.Remove("0")
	isSet("after removing the reserved name", s, m)
}

// rest of a ciphertext map
func sameShape(label string, ct *mkrlwe.Ciphertext, mask, level int, e *env) bool {
	return e.hasParties(label, ct, mask, level)
}

// C16_pad: padding adds zero components at the ciphertext's level and domain for the new parties only.
func C16_pad() {
	e := newEnv(4, 3, 2)
	m, x := vp.Pick("parties", 8), vp.Pick("padding", 8)
	level := vp.Pick("level", 3)
	ntt := vp.Pick("ntt", 2) == 1
	ct := e.symCT("ct", m, level, scale)
	for _, c := range ct.Value {
		c.IsNTT = ntt
	}
	ref := ct.CopyNew()
	set := ids(x)
	snap := vp.Snapshot(set)
	ct.PadCiphertext(set)
	vp.Unchanged("the party set", snap, set)
	if !e.hasParties("padded", ct.Ciphertext, m|x, level) {
		return
	}
	isParties("padded", ct.IDSet(), m|x)
	vp.EqF("scale", ct.Scale, scale)
	mods := e.Q[:level+1]
	vp.EqPoly("c0", ct.Value["0"], ref.Value["0"], mods)
	for _, id := range parties(m | x) {
		c := ct.Value[id]
		vp.True("domain of "+id, c.IsNTT == ntt)
		vp.EqInt("degree of "+id, len(c.Coeffs[0]), e.N)
		if old, ok := ref.Value[id]; ok {
			vp.EqPoly("component of "+id, c, old, mods)
		} else {
			vp.EqPoly("component of "+id, c, newPoly(e.N, level+1), mods)
		}
	}
	var cs []*ring.Poly
	for _, id := range parties(m | x) {
		cs = append(cs, ct.Value[id])
	}
	for i := range cs {
		vp.Disjoint("component and c0", cs[i], ct.Value["0"])
		for j := 0; j < i; j++ {
			vp.Disjoint("two components", cs[i], cs[j])
		}
	}
}

func isParties(label string, s *mkrlwe.IDSet, mask int) {
	vp.EqInt(label+": number of parties", s.Size(), len(parties(mask)))
	for i, n := range names {
		vp.True(label+": party "+n, s.Has(n) == (mask>>uint(i)&1 == 1))
	}
	vp.True(label+": reserved name", !s.Has("0"))
}

// C16_ct: creation, copying, accessors of ciphertexts.
func C16_ct() {
	e := newEnv(4, 3, 2)
	m := vp.Pick("parties", 8)
	level := vp.Pick("level", 3)
	mods := e.Q[:level+1]
	var z *mkrlwe.Ciphertext
	kind := vp.Pick("constructor", 3)
	switch kind {
	case 0:
		z = mkrlwe.NewCiphertext(e.p.Parameters, ids(m), level)
	case 1:
		z = mkrlwe.NewCiphertextNTT(e.p.Parameters, ids(m), level)
	default:
		c := mkckks.NewCiphertext(e.p, ids(m), level, scale)
		vp.EqF("scale", c.ScalingFactor(), scale)
		c.SetScalingFactor(2 * scale)
		vp.EqF("set scale", c.ScalingFactor(), 2*scale)
		vp.EqF("set scale (field)", c.Scale, 2*scale)
		z = c.Ciphertext
	}
	if !e.hasParties("new", z, m, level) {
		return
	}
	vp.EqInt("Level()", z.Level(), level)
	isParties("IDSet()", z.IDSet(), m)
	for _, id := range append(parties(m), "0") {
		vp.EqPoly("new component "+id, z.Value[id], newPoly(e.N, level+1), mods)
		vp.True("domain", z.Value[id].IsNTT == (kind == 1))
	}

	ct := e.symCT("ct", m, level, scale)
	for _, c := range ct.Value {
		c.IsNTT = kind == 1
	}
	snap := vp.Snapshot(ct)
	cp := ct.CopyNew()
	vp.Unchanged("the original", snap, ct)
	vp.Unchanged("the copy", snap, cp)
	vp.Disjoint("copy and original", cp, ct)
	// changing the copy leaves the original alone
	cp.Value["0"].Coeffs[0][0] = vp.U64("x", 0, e.Q[0]-1)
	cp.Value["mallory"] = newPoly(e.N, level+1)
	cp.Scale = 3
	vp.Unchanged("the original", snap, ct)

	// copying into an existing ciphertext of the same shape
	dst := e.symCT("dst", m, level, scale)
	dst.Copy(ct.Ciphertext)
	vp.Unchanged("the original after Copy", snap, ct)
	vp.Disjoint("copied storage", dst, ct)
	for _, id := range append(parties(m), "0") {
		vp.EqPoly("copied component "+id, dst.Value[id], ct.Value[id], mods)
	}
}

// C16_keycopy: copies of keys are equal to and independent of the original.
func C16_keycopy() {
	e := newEnv(4, 3, 2)
	id := names[vp.Pick("party", 3)]
	if vp.Pick("kind", 2) == 0 {
		sk := mkrlwe.NewSecretKey(e.p.Parameters, id)
		vp.True("id", sk.ID == id)
		e.fill("sk", sk.Value)
		snap := vp.Snapshot(sk)
		cp := sk.CopyNew()
		vp.Unchanged("copy of the secret key", snap, cp)
		vp.Disjoint("copy and original", sk, cp)
		cp.Value.Q.Coeffs[0][0] = vp.U64("x", 0, e.Q[0]-1)
		cp.ID = "x"
		vp.Unchanged("the original", snap, sk)
	} else {
		pk := mkrlwe.NewPublicKey(e.p.Parameters, id)
		vp.True("id", pk.ID == id)
		e.fill("pk0", pk.Value[0])
		e.fill("pk1", pk.Value[1])
		snap := vp.Snapshot(pk)
		cp := pk.CopyNew()
		vp.Unchanged("copy of the public key", snap, cp)
		vp.Disjoint("copy and original", pk, cp)
		cp.Value[1].P.Coeffs[0][0] = vp.U64("x", 0, e.P[0]-1)
		cp.ID = "x"
		vp.Unchanged("the original", snap, pk)
	}
}

func (e *env) fill(name string, p rlwe.PolyQP) {
	vp.Residues(name+".Q", p.Q, e.Q)
	vp.Residues(name+".P", p.P, e.P)
}

// keyset is one of the four key sets with a key per party, seen through add, delete and get.
type keyset struct {
	add func(k int)
	del func(id string)
	get func(id string) int // index of the key returned
}

// C16_keysets: whatever is added and deleted, a party's key is the one last added and not deleted since.
func C16_keysets() {
	e := newEnv(4, 2, 2)
	kind := vp.Pick("kind", 4)
	owners := []string{"alice", "bob", "alice"}
	var ks keyset
	switch kind {
	case 0:
		set := mkrlwe.NewSecretKeySet()
		var keys []*mkrlwe.SecretKey
		for _, o := range owners {
			keys = append(keys, mkrlwe.NewSecretKey(e.p.Parameters, o))
		}
		ks.add = func(k int) { set.AddSecretKey(keys[k]) }
		ks.del = func(id string) { set.DelSecretKey(id) }
		ks.get = func(id string) int {
			g := set.GetSecretKey(id)
			for i, k := range keys {
				if g == k {
					return i
				}
			}
			return -1
		}
	case 1:
		set := mkrlwe.NewPublicKeyKeySet()
		var keys []*mkrlwe.PublicKey
		for _, o := range owners {
			keys = append(keys, mkrlwe.NewPublicKey(e.p.Parameters, o))
		}
		ks.add = func(k int) { set.AddPublicKey(keys[k]) }
		ks.del = func(id string) { set.DelPublicKey(id) }
		ks.get = func(id string) int {
			g := set.GetPublicKey(id)
			for i, k := range keys {
				if g == k {
					return i
				}
			}
			return -1
		}
	case 2:
		set := mkrlwe.NewRelinearizationKeyKeySet(e.p.Parameters)
		var keys []*mkrlwe.RelinearizationKey
		for _, o := range owners {
			keys = append(keys, mkrlwe.NewRelinearizationKey(e.p.Parameters, o))
		}
		ks.add = func(k int) { set.AddRelinearizationKey(keys[k]) }
		ks.del = func(id string) { set.DelRelinearizationKey(id) }
		ks.get = func(id string) int {
			g := set.GetRelinearizationKey(id)
			for i, k := range keys {
				if g == k {
					return i
				}
			}
			return -1
		}
	default:
		set := mkrlwe.NewConjugationKeySet()
		var keys []*mkrlwe.ConjugationKey
		for _, o := range owners {
			keys = append(keys, mkrlwe.NewConjugationKey(e.p.Parameters, o))
		}
		ks.add = func(k int) { set.AddConjugationKey(keys[k]) }
		ks.del = func(id string) { set.DelConjugationKey(id) }
		ks.get = func(id string) int {
			g := set.GetConjugationKey(id)
			for i, k := range keys {
				if g == k {
					return i
				}
			}
			return -1
		}
	}
	model := map[string]int{}
	for step := 0; step < 3+vp.Tier(); step++ {
		op := vp.Pick("operation", 5)
		if op < 3 {
			ks.add(op)
			model[owners[op]] = op
		} else {
			id := []string{"alice", "bob"}[op-3]
			ks.del(id)
			delete(model, id)
		}
		for _, id := range []string{"alice", "bob", "carol"} {
			label := "step " + itoa(step) + " key of " + id
			want, in := model[id]
			got := -2
			refused := vp.Panics(func() { got = ks.get(id) })
			vp.True(label+": refused exactly when absent", refused == !in)
			if in && !refused {
				vp.EqInt(label, got, want)
			}
		}
	}
}

// C16_rotset: the same for rotation keys, which are kept per party and amount.
func C16_rotset() {
	e := newEnv(4, 2, 2)
	set := mkrlwe.NewRotationKeySet()
	owners := []string{"alice", "bob", "alice", "alice"}
	amounts := []uint{1, 1, 3, 1}
	var keys []*mkrlwe.RotationKey
	for i := range owners {
		k := mkrlwe.NewRotationKey(e.p.Parameters, amounts[i], owners[i])
		vp.True("owner", k.ID == owners[i])
		vp.True("amount", k.RotIdx == amounts[i])
		keys = append(keys, k)
	}
	type slot struct {
		id string
		k  uint
	}
	model := map[slot]int{}
	for step := 0; step < 3+vp.Tier(); step++ {
		op := vp.Pick("operation", 7)
		if op < 4 {
			set.AddRotationKey(keys[op])
			model[slot{owners[op], amounts[op]}] = op
		} else {
			s := []slot{{"alice", 1}, {"alice", 3}, {"bob", 1}}[op-4]
			set.DelRotationKey(s.id, s.k)
			delete(model, s)
		}
		for _, s := range []slot{{"alice", 1}, {"alice", 3}, {"bob", 1}, {"bob", 3}, {"carol", 1}, {"alice", 0}} {
			label := "step " + itoa(step) + " key of " + s.id + " for " + itoa(int(s.k))
			want, in := model[s]
			var got *mkrlwe.RotationKey
			refused := vp.Panics(func() { got = set.GetRotationKey(s.id, s.k) })
			vp.True(label+": refused exactly when absent", refused == !in)
			if in && !refused {
				vp.True(label, got == keys[want])
			}
		}
	}
}
