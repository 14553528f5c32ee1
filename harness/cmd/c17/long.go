package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/cases"
	"verif/gen"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Long histories: an operation on small data repeated more than 2^16 times by a
// process gives each time the result it gave at first.

// longOp makes an operation: f(data) must depend on the data only
type longOp struct {
	name string
	n    int // repetitions
	make func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element
}

func randVec(s *gen.SplitMix, n int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = s.Fr()
	}
	return r
}

func boolean(b bool) []fr.Element {
	if b {
		return []fr.Element{ref.One()}
	}
	return []fr.Element{{}}
}

func proofValues(p gkr.Proof) []fr.Element {
	var r []fr.Element
	for i := range p.SumcheckProofs {
		for _, q := range p.SumcheckProofs[i].PolyCoeffs {
			r = append(r, q...)
		}
		r = append(r, p.ClaimsLeft[i], p.ClaimsRight[i])
	}
	return r
}

// smallCase is a layer with two gates, on two instances
func smallCase(s *gen.SplitMix, chunks int) *cases.Case {
	spec := ref.Circuit{Layers: []ref.Layer{{
		Gates: []ref.Gate{{Kind: ref.KMul}, {Kind: ref.KCopy}},
		Wires: []ref.Wire{{L: 0, R: 0, O: 0, G: 0}, {L: 0, R: 0, O: 0, G: 1}},
	}}}
	return cases.Make(spec, 1, chunks, 1+int(s.Next()%3), s.Next())
}

var longOps = []longOp{
	{"mimc", 140000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		m := randVec(s, int(s.Next()%3))
		return func() []fr.Element { return []fr.Element{hash.MimcHash(m)} }
	}},
	{"poseidon", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		m := randVec(s, 1+int(s.Next()%2))
		return func() []fr.Element { return []fr.Element{hash.PoseidonT2.Hash(m)} }
	}},
	{"gmimc", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		m := randVec(s, 1+int(s.Next()%2))
		return func() []fr.Element { return []fr.Element{hash.GMimcT2.Hash(m)} }
	}},
	{"eq", 140000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		q, h := randVec(s, 2), randVec(s, 2)
		return func() []fr.Element {
			e := polynomial.GetFoldedEqTable(q)
			return append(e.Table, polynomial.EvalEq(q, h))
		}
	}},
	{"univariate", 140000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		v, x := randVec(s, 1+int(s.Next()%4)), s.Fr()
		return func() []fr.Element {
			p := polynomial.InterpolateOnRange(v)
			return append(gen.Clone(p), polynomial.EvaluatePolynomial(p, x))
		}
	}},
	{"tables", 140000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		b, q, h := polynomial.NewBookKeepingTable(randVec(s, 4)), randVec(s, 2), randVec(s, 1)
		return func() []fr.Element {
			d := b.DeepCopy()
			d.Fold(q[0])
			l, r := b.EvaluateLeftAndRight(nil, q, append([]fr.Element{h[0]}, q[0]))
			return append(d.Table, b.Evaluate(q), l, r)
		}
	}},
	{"chunked", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		b, q := polynomial.NewBookKeepingTable(randVec(s, 4)), randVec(s, 2)
		chunks := []polynomial.BookKeepingTable{b.InterleavedChunk(0, 2), b.InterleavedChunk(1, 2)}
		core := 1 + int(s.Next()%3)
		return func() []fr.Element {
			r := []fr.Element{polynomial.EvaluateChunked(chunks, q)}
			for _, t := range polynomial.GetChunkedEqTable(q, 2, core) {
				r = append(r, t.Table...)
			}
			return r
		}
	}},
	{"gates", 140000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		gates := []circuit.Gate{circuit.AddGate{}, circuit.MulGate{}, circuit.CopyGate{}, circuit.NewCipherGate(s.Fr())}
		v := randVec(s, 3)
		return func() []fr.Element {
			r := make([]fr.Element, 5*len(gates))
			for i, g := range gates {
				g.Eval(&r[5*i], &v[0], &v[1])
				g.EvalManyVL(r[5*i+1:5*i+3], v[1:], &v[0])
				g.EvalManyVR(r[5*i+3:5*i+5], &v[0], v[1:])
			}
			return r
		}
	}},
	{"assign", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		k := smallCase(s, 1+int(s.Next()%2))
		in := k.Inputs()
		return func() []fr.Element {
			a := k.Circuit.Assign(in, k.NCore)
			var r []fr.Element
			for _, c := range a.Values[1] {
				r = append(r, c...)
			}
			return r
		}
	}},
	{"prove", 35000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		k := smallCase(s, 1+int(s.Next()%2))
		p := gkr.NewProver(k.Circuit, k.Circuit.Assign(k.Inputs(), 1))
		return func() []fr.Element { return proofValues(p.Prove(k.PCore)) }
	}},
	{"verify", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		k := smallCase(s, 1+int(s.Next()%2))
		_, proof := k.Prove()
		in, out := k.Inputs(), k.Outputs()
		want := s.Next()%2 == 0
		if !want {
			switch x := s.Fr(); s.Next() % 3 {
			case 0:
				out[0][0] = ref.Add(out[0][0], x)
			case 1:
				proof.ClaimsLeft[0] = ref.Add(proof.ClaimsLeft[0], x)
			case 2:
				proof.SumcheckProofs[0].PolyCoeffs[0][0] = ref.Add(proof.SumcheckProofs[0].PolyCoeffs[0][0], x)
			}
		}
		if *shared == nil { // one verifier for all the proofs
			v := gkr.NewVerifier(k.BN, k.Circuit)
			*shared = &v
		}
		v := (*shared).(*gkr.Verifier)
		if got := v.Verify(proof, in, out); got != want {
			t.Fatalf("verdict %v instead of %v", got, want)
		}
		return func() []fr.Element { return boolean(v.Verify(proof, in, out)) }
	}},
	{"sumcheck", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		p := sumcheck.Proof{PolyCoeffs: [][]fr.Element{randVec(s, 2), randVec(s, 3)}}
		claim := ref.Add(p.PolyCoeffs[0][0], ref.Sum(p.PolyCoeffs[0]))
		refgkr.Consistent(p.PolyCoeffs[1], ref.PolyEval(p.PolyCoeffs[0], ref.Mimc(p.PolyCoeffs[0])))
		if s.Next()%2 == 0 {
			p.PolyCoeffs[1][0] = ref.Add(p.PolyCoeffs[1][0], s.Fr())
		}
		return func() []fr.Element {
			ok, qPrime, qL, qR, last := sumcheck.Verifier{}.Verify(claim, p, 2, 0)
			r := boolean(ok)
			if ok {
				r = append(append(append(append(r, qPrime...), qL...), qR...), last)
			}
			return r
		}
	}},
	{"helpers", 70000, func(t *rapid.T, s *gen.SplitMix, shared *interface{}) func() []fr.Element {
		x := randVec(s, 2)
		n, w := int(s.Next()%50), 1+int(s.Next()%6)
		return func() []fr.Element {
			r := []fr.Element{common.GetChallenge(x), common.Uint64ToFr(uint64(n))}
			for _, v := range common.FrToGenericArray(x) {
				var e fr.Element
				e.SetInterface(v)
				r = append(r, e)
			}
			for _, c := range common.IntoChunkRanges(w, n) {
				r = append(r, ref.U(uint64(c.Begin)), ref.U(uint64(c.End)))
			}
			var e fr.Element
			e.SetString(common.PrettyStringFr(x[0]))
			return append(r, e, ref.U(uint64(common.Log2Ceil(n+1))), ref.U(uint64(common.Log2Floor(n+1))))
		}
	}},
}

func long(o longOp) func(t *rapid.T, c *vt.C) {
	return func(t *rapid.T, c *vt.C) {
		seed := rapid.Uint64().Draw(t, "seed")
		s := gen.SplitMix(seed)
		n := o.n + gen.IntU(t, 0, o.n/16, "more")
		c.Case(t, true, func() string { return fmt.Sprintf("%s, %d times on 4 inputs, seed %d", o.name, n, seed) })
		var shared interface{}
		fs := make([]func() []fr.Element, 4)
		want := make([][]fr.Element, len(fs))
		for i := range fs {
			fs[i] = o.make(t, &s, &shared)
			want[i] = gen.Clone(fs[i]())
		}
		for k := 0; k < n; k++ {
			i := 0
			if s.Next()%32 == 0 {
				i = int(s.Next() % uint64(len(fs)))
			}
			if got := fs[i](); !gen.Equal(got, want[i]) {
				t.Fatalf("%s: repetition %d gives %v, the first one %v", o.name, k, gen.Show(got), gen.Show(want[i]))
			}
		}
	}
}

func longFamilies() []vt.Family {
	var r []vt.Family
	for _, o := range longOps {
		r = append(r, vt.Family{Name: "long-" + o.name, Quick: 1, Thorough: 8, Shards: 1, MinPerShard: 1, Prop: long(o)})
	}
	return r
}
