// C07: the hash functions compute their definition on every message
package main

import (
	"fmt"
	"sync"

	"gkr-mimc/common"
	"gkr-mimc/hash"
	"verif/gen"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type algo struct {
	name   string
	t      int
	hash   func([]fr.Element) fr.Element
	ref    func([]fr.Element) fr.Element
	update func(state, block []fr.Element)
	refUp  func(state, block []fr.Element) []fr.Element
}

var partials = map[int]int{2: 82, 4: 83, 8: 84}

func algos() []algo {
	a := []algo{{"mimc", 1, hash.MimcHash, ref.Mimc,
		func(s, b []fr.Element) { hash.MimcUpdateInplace(&s[0], b[0]) },
		func(s, b []fr.Element) []fr.Element {
			return []fr.Element{ref.Add(ref.MimcPerm(s[0], b[0]), ref.Add(s[0], b[0]))}
		}},
		{"challenge", 1, common.GetChallenge, ref.Mimc, nil, nil}}
	for _, p := range []struct {
		t int
		h *hash.PoseidonHasher
	}{{2, &hash.PoseidonT2}, {4, &hash.PoseidonT4}, {8, &hash.PoseidonT8}} {
		p := p
		a = append(a, algo{fmt.Sprintf("poseidon%d", p.t), p.t, p.h.Hash,
			func(m []fr.Element) fr.Element { return ref.Poseidon(m, p.t) }, p.h.Update,
			func(s, b []fr.Element) []fr.Element { return ref.PoseidonUpdate(s, b, 8, partials[p.t]) }})
	}
	for _, p := range []struct {
		t int
		h *hash.GMimcHasher
	}{{2, &hash.GMimcT2}, {4, &hash.GMimcT4}, {8, &hash.GMimcT8}} {
		p := p
		a = append(a, algo{fmt.Sprintf("gmimc%d", p.t), p.t, p.h.Hash,
			func(m []fr.Element) fr.Element { return ref.GMimc(m, p.t) }, p.h.UpdateInplace,
			ref.GMimcUpdate})
	}
	return a
}

// parameters checks that the shared parameters are intact
func parameters(t vt.T) {
	if len(hash.Arks) != len(ref.Arks) {
		t.Fatalf("%d round constants instead of %d", len(hash.Arks), len(ref.Arks))
	}
	for i := range hash.Arks {
		if hash.Arks[i] != ref.Arks[i] {
			t.Fatalf("round constant %d is %v instead of %v", i, gen.S(hash.Arks[i]), gen.S(ref.Arks[i]))
		}
	}
}

func one(t vt.T, a algo, msg []fr.Element) {
	// A message at the beginning of a larger array, whose rest must not matter
	backing := make([]fr.Element, len(msg)+9)
	copy(backing, msg)
	for i := len(msg); i < len(backing); i++ {
		backing[i] = ref.U(uint64(3 + i))
	}
	before := gen.Clone(backing)
	want := a.ref(msg)
	if got := a.hash(backing[:len(msg)]); got != want {
		t.Fatalf("%s of %v (%d elements) is %v, expected %v", a.name, gen.Show(msg), len(msg), gen.S(got), gen.S(want))
	}
	if !gen.Equal(backing, before) {
		t.Fatalf("%s modifies the message %v (%d elements)", a.name, gen.Show(msg), len(msg))
	}
	if got := a.hash(gen.Clone(msg)); got != want {
		t.Fatalf("%s of %v (%d elements) is %v the second time, expected %v", a.name, gen.Show(msg), len(msg), gen.S(got), gen.S(want))
	}
}

func update(t vt.T, a algo, state, block []fr.Element) {
	// The state is in the middle of a larger array, not to be touched
	backing := make([]fr.Element, a.t+6)
	for i := range backing {
		backing[i] = ref.U(uint64(7 * i))
	}
	copy(backing[3:], state)
	want := gen.Clone(backing)
	copy(want[3:], a.refUp(state, block))
	b := gen.Clone(block)
	a.update(backing[3:3+a.t], b)
	if !gen.Equal(b, block) {
		t.Fatalf("the update of %s modifies its block %v", a.name, gen.Show(block))
	}
	if !gen.Equal(backing, want) {
		t.Fatalf("the update of %s on state %v and block %v gives %v (with its neighbours), expected %v", a.name, gen.Show(state), gen.Show(block), gen.Show(backing), gen.Show(want))
	}
}

func blocks(t *rapid.T, c *vt.C) {
	switch gen.IntU(t, 0, 4, "what") {
	case 0: // S-box and rounds
		s := gen.Vec(t, gen.IntU(t, 1, 9, "n"), "state")
		keys := gen.Vec(t, len(s), "keys")
		ark := gen.Fr(t, "ark")
		c.Case(t, !gen.IsZero(s), func() string { return "rounds of " + gen.Show(s) + gen.Show(keys) + gen.S(ark) })
		x := gen.Clone(s)
		hash.SBoxInplace(&x[0])
		if x[0] != ref.Pow(s[0], 7) {
			t.Fatalf("S-box of %v is %v", gen.S(s[0]), gen.S(x[0]))
		}
		x = gen.Clone(s)
		hash.FullRoundInPlace(x)
		for i := range x {
			if x[i] != ref.Pow(s[i], 7) {
				t.Fatalf("full round of %v: %v", gen.Show(s), gen.Show(x))
			}
		}
		x = gen.Clone(s)
		hash.PartialRoundInplace(x)
		if x[0] != ref.Pow(s[0], 7) || !gen.Equal(x[1:], s[1:]) {
			t.Fatalf("partial round of %v: %v", gen.Show(s), gen.Show(x))
		}
		x = gen.Clone(s)
		k := gen.Clone(keys)
		hash.AddArkAndKeysInplace(x, k, ark)
		for i := range x {
			if x[i] != ref.Add(ref.Add(s[i], keys[i]), ark) || k[i] != keys[i] {
				t.Fatalf("addition of the keys and round constant: %v + %v + %v gives %v", gen.Show(s), gen.Show(keys), gen.S(ark), gen.Show(x))
			}
		}
	case 1: // circular permutation
		s := gen.Vec(t, gen.IntU(t, 1, 20, "n"), "state")
		c.Case(t, len(s) > 1, func() string { return "circular permutation of " + gen.Show(s) })
		x := gen.Clone(s)
		hash.InPlaceCircularPermutation(x)
		if !gen.Equal(x, append(gen.Clone(s[1:]), s[0])) {
			t.Fatalf("circular permutation of %v: %v", gen.Show(s), gen.Show(x))
		}
	case 2: // matrices
		n, m := gen.IntU(t, 1, 9, "rows"), gen.IntU(t, 1, 9, "cols")
		mat := make([][]fr.Element, n)
		for i := range mat {
			mat[i] = gen.Vec(t, m, fmt.Sprintf("row%d", i))
		}
		v := gen.Vec(t, m, "vec")
		c.Case(t, !gen.IsZero(v), func() string { return fmt.Sprintf("matrix %d x %d %v * %v", n, m, gen.Show(mat[0]), gen.Show(v)) })
		m2, v2 := gen.Clone2(mat), gen.Clone(v)
		got := hash.MatrixMultiplication(m2, v2)
		if !gen.Equal2(m2, mat) || !gen.Equal(v2, v) {
			t.Fatalf("the product modifies its arguments")
		}
		for i := range mat {
			var want fr.Element
			for j := range v {
				want = ref.Add(want, ref.Mul(mat[i][j], v[j]))
			}
			if len(got) != n || got[i] != want {
				t.Fatalf("product of a %d x %d matrix: row %d is wrong", n, m, i)
			}
		}
	case 3:
		n := gen.IntU(t, 1, 24, "t")
		c.Case(t, n > 1, func() string { return fmt.Sprintf("MDS matrix of size %d", n) })
		m := hash.GenerateMDSMatrix(n)
		if !gen.Equal2(m, ref.Cauchy(n)) {
			t.Fatalf("wrong MDS matrix of size %d", n)
		}
	default:
		x, k := gen.Fr(t, "x"), gen.Fr(t, "k")
		c.Case(t, true, func() string { return "permutation of " + gen.S(x) + " key " + gen.S(k) })
		y := x
		hash.MimcPermutationInPlace(&y, k)
		if y != ref.MimcPerm(x, k) {
			t.Fatalf("MiMC permutation of %v with key %v: %v, expected %v", gen.S(x), gen.S(k), gen.S(y), gen.S(ref.MimcPerm(x, k)))
		}
	}
	parameters(t)
}

func main() {
	as := algos()
	show := func(a algo, msg []fr.Element) string {
		return fmt.Sprintf("%s of %d: %s", a.name, len(msg), gen.Show(msg))
	}
	var fixed []vt.Fixed
	for _, a := range as {
		a := a
		fixed = append(fixed, vt.Fixed{Name: a.name, Run: func(t vt.T, c *vt.C) {
			parameters(t)
			s := gen.SplitMix(4)
			for n := 0; n <= 66; n++ {
				msg := make([]fr.Element, n)
				one(t, a, msg)
				for i := range msg {
					msg[i] = s.Fr()
				}
				one(t, a, msg)
				c.Label("every length")
			}
		}})
	}
	vt.Main(vt.Check{
		Property: "C07",
		Scale:    5,
		Rule: "A case is a hash function and a message (0 to 64 elements, up to 5000 in the family long; random, special, zero, sparse, repeated values), compared with an independent implementation with pinned constants; or a state and a block for an update function; or arguments of the building blocks; or a list of messages hashed concurrently. " +
			"It is non-trivial if the message is not empty and not all zero (the state and block not both zero for updates).",
		Assumptions: []string{"the constants and numbers of rounds of the base commit are the specified ones"},
		Families: []vt.Family{
			{Name: "lengths", Fixed: fixed},
			{Name: "message", Quick: 24000, Thorough: 400000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				a := as[gen.IntU(t, 0, len(as)-1, "algo")]
				n := gen.Size(t, 0, 64, "n")
				if rapid.Bool().Draw(t, "multiple") { // around the multiples of the block size
					n = a.t*gen.IntU(t, 0, 6, "blocks") + gen.IntU(t, 0, 2, "more")
				}
				msg := gen.Vec(t, n, "msg")
				c.Case(t, n > 0 && !gen.IsZero(msg), func() string { return show(a, msg) })
				c.Label("%s", a.name)
				c.LabelIf(n > 0 && n%a.t == 0, "full blocks")
				one(t, a, msg)
				parameters(t)
			}},
			{Name: "long", Quick: 64, Thorough: 1000, Shards: 8, MinPerShard: 4, Prop: func(t *rapid.T, c *vt.C) {
				a := as[gen.IntU(t, 0, len(as)-1, "algo")]
				n := gen.UpTo(t, 100, 5000, 140000, "n")
				msg := gen.RandVec(t, n, "msg")
				c.Case(t, true, func() string { return show(a, msg) })
				one(t, a, msg)
			}},
			{Name: "update", Quick: 16000, Thorough: 300000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				a := as[gen.IntU(t, 0, len(as)-1, "algo")]
				if a.update == nil {
					a = as[0]
				}
				state, block := gen.Vec(t, a.t, "state"), gen.Vec(t, a.t, "block")
				c.Case(t, !gen.IsZero(state) || !gen.IsZero(block), func() string {
					return fmt.Sprintf("update of %s %s %s", a.name, gen.Show(state), gen.Show(block))
				})
				update(t, a, state, block)
				parameters(t)
			}},
			{Name: "blocks", Quick: 16000, Thorough: 300000, Shards: 8, Prop: blocks},
			{Name: "concurrent", Quick: 160, Thorough: 3000, Shards: 8, Race: true, Prop: func(t *rapid.T, c *vt.C) {
				k := gen.IntU(t, 2, 12, "k")
				which := make([]int, k)
				msgs := make([][]fr.Element, k)
				for i := range msgs {
					which[i] = gen.IntU(t, 0, len(as)-1, "algo")
					msgs[i] = gen.Vec(t, gen.IntU(t, 0, 20, "n"), "msg")
				}
				c.Case(t, true, func() string {
					s := "concurrently:"
					for i := range msgs {
						s += " " + show(as[which[i]], msgs[i])
					}
					return s
				})
				got := make([]fr.Element, k)
				var wg sync.WaitGroup
				for i := range msgs {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						got[i] = as[which[i]].hash(msgs[i])
					}(i)
				}
				wg.Wait()
				for i := range msgs {
					if want := as[which[i]].ref(msgs[i]); got[i] != want {
						t.Fatalf("%s computed concurrently gives %v instead of %v", show(as[which[i]], msgs[i]), gen.S(got[i]), gen.S(want))
					}
				}
			}},
		},
	})
}
