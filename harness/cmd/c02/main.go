// C02: wrong inputs, outputs or circuit are rejected
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// tamper changes a flat table of 2^bG values of n instances, seen as the given
// number of chunks
func tamper(t *rapid.T, x []fr.Element, n, chunks int, what string) ([]fr.Element, string) {
	x = gen.Clone(x)
	size := len(x)
	idx := func(l string) int { return gen.IntU(t, 0, size-1, what+l) }
	inst := func(l string) int { return gen.IntU(t, 0, n-1, what+l) }
	w := size / n
	switch gen.IntU(t, 0, 9, what+".kind") {
	case 0, 1: // a single value
		i, d := idx(".i"), gen.Delta(t, what+".d")
		x[i] = ref.Add(x[i], d)
		return x, fmt.Sprintf("value %d + %v", i, gen.S(d))
	case 2: // several values, independently
		k := gen.IntU(t, 2, 5, what+".n")
		for ; k > 0; k-- {
			i := idx(fmt.Sprintf(".i%d", k))
			x[i] = ref.Add(x[i], gen.Delta(t, fmt.Sprintf("%s.d%d", what, k)))
		}
		return x, "several values"
	case 3: // opposite changes of two values: their sum does not change
		i, j, d := idx(".i"), idx(".j"), gen.Delta(t, what+".d")
		x[i], x[j] = ref.Add(x[i], d), ref.Sub(x[j], d)
		return x, fmt.Sprintf("values %d and %d, same sum", i, j)
	case 4: // two values swapped
		i, j := idx(".i"), idx(".j")
		x[i], x[j] = x[j], x[i]
		return x, fmt.Sprintf("swap of the values %d and %d", i, j)
	case 5: // two instances swapped
		i, j := inst(".i"), inst(".j")
		for g := 0; g < w; g++ {
			x[g*n+i], x[g*n+j] = x[g*n+j], x[g*n+i]
		}
		return x, fmt.Sprintf("swap of the instances %d and %d", i, j)
	case 6: // two of the values swapped in all the instances
		i, j := gen.IntU(t, 0, w-1, what+".gi"), gen.IntU(t, 0, w-1, what+".gj")
		for h := 0; h < n; h++ {
			x[i*n+h], x[j*n+h] = x[j*n+h], x[i*n+h]
		}
		return x, fmt.Sprintf("swap of the values %d and %d of all the instances", i, j)
	case 7: // chunks swapped
		i, j := gen.IntU(t, 0, chunks-1, what+".ci"), gen.IntU(t, 0, chunks-1, what+".cj")
		c := gen.Chunk(x, chunks)
		c[i], c[j] = c[j], c[i]
		return gen.Unchunk(c), fmt.Sprintf("swap of the chunks %d and %d of %d", i, j, chunks)
	case 8: // an instance repeats another
		i, j := inst(".i"), inst(".j")
		for g := 0; g < w; g++ {
			x[g*n+i] = x[g*n+j]
		}
		return x, fmt.Sprintf("instance %d replaced by instance %d", i, j)
	default: // all changed
		switch gen.IntU(t, 0, 3, what+".all") {
		case 0:
			return make([]fr.Element, size), "all zero"
		case 1:
			d := gen.Delta(t, what+".d")
			for i := range x {
				x[i] = ref.Add(x[i], d)
			}
			return x, fmt.Sprintf("all + %v", gen.S(d))
		case 2:
			for i := range x {
				x[i] = gen.Neg(x[i])
			}
			return x, "all negated"
		}
		return gen.RandVec(t, size, what+".rand"), "random"
	}
}

// correct tells whether the statement is true
func correct(spec ref.Circuit, in, out []fr.Element, n int) bool {
	l := spec.Eval(in, n)
	return gen.Equal(l[len(l)-1], out)
}

func statement(t *rapid.T, c *vt.C, cs *cases.Case) {
	n := cs.N()
	in, out := cs.Flat, cs.Out()
	what := ""
	side := gen.IntU(t, 0, 4, "side")
	if side != 1 {
		out, what = tamper(t, out, n, cs.Chunks, "out")
		what = "outputs: " + what
	}
	if side == 1 || side == 2 {
		var w string
		in, w = tamper(t, in, n, cs.Chunks, "in")
		what += " inputs: " + w
	}
	// The prover may prove the wrong assignment rather than the right one
	cheat := gen.IntU(t, 0, 2, "cheat")
	ci, co := 1<<gen.IntU(t, 0, cs.BN, "ci"), 1<<gen.IntU(t, 0, cs.BN, "co")
	if cs.BN >= 16 && rapid.Bool().Draw(t, "split") {
		ci, co = cs.N(), cs.N()
	}
	wrong := !correct(cs.Spec, in, out, n)
	c.Case(t, wrong, func() string { return fmt.Sprintf("%s (cheat %d) %v", what, cheat, cs) })
	c.LabelIf(!wrong, "statement still true")
	a := cs.Circuit.Assign(cs.Inputs(), cs.NCore)
	switch cheat {
	case 1: // proof of an assignment whose first and last layers are the tampered ones
		a.Values[0] = gen.Chunk(in, cs.Chunks)
		a.Values[len(a.Values)-1] = gen.Chunk(out, cs.Chunks)
	case 2: // honest proof for the tampered inputs
		a = cs.Circuit.Assign(gen.Chunk(in, cs.Chunks), cs.NCore)
	}
	p := gkr.NewProver(cs.Circuit, a)
	proof := p.Prove(cs.PCore)
	v := gkr.NewVerifier(cs.BN, cs.Circuit)
	if v.Verify(proof, gen.Chunk(in, ci), gen.Chunk(out, co)) && wrong {
		if sameChallenges(cs, proof, in, out) {
			c.LabelIf(true, "known finding inputs-kernel, by equal challenges")
			return
		}
		t.Fatalf("accepted a wrong statement: %s\ninputs %v\noutputs %v\ncheat=%d %v", what, gen.Show(in), gen.Show(out), cheat, cs)
	}
}

// sameChallenges recognises an instance of the known finding inputs-kernel that
// is met without computing anything from the challenges: the challenge of a
// round is a hash of its polynomial only, so that two equal polynomials (zero)
// give two coordinates of the final points that are equal, and changes of the
// inputs that are antisymmetric in these coordinates keep the extensions. It is
// so only if the reference verifier, that checks the whole protocol, accepts.
func sameChallenges(cs *cases.Case, p gkr.Proof, in, out []fr.Element) bool {
	if refgkr.Verify(cs.Spec, cs.BN, p, in, out) != nil {
		return false
	}
	_, ch, _ := refgkr.Rounds(fr.Element{}, p.SumcheckProofs[0].PolyCoeffs)
	for i := range ch {
		for j := range ch[:i] {
			if ch[i] == ch[j] {
				return true
			}
		}
	}
	return false
}

// other verifies the proof of a circuit against another circuit
func other(t *rapid.T, c *vt.C, cs *cases.Case) {
	spec := ref.Circuit{}
	for _, l := range cs.Spec.Layers {
		spec.Layers = append(spec.Layers, ref.Layer{
			Gates: append([]ref.Gate{}, l.Gates...),
			Wires: append([]ref.Wire{}, l.Wires...),
		})
	}
	k := gen.IntU(t, 0, len(spec.Layers)-1, "layer")
	l := &spec.Layers[k]
	w := gen.IntU(t, 0, len(l.Wires)-1, "wire")
	in, outs := 1<<l.BGIn(), 1<<l.BGOut()
	what := ""
	switch gen.IntU(t, 0, 7, "change") {
	case 0:
		l.Wires[w].L = gen.IntU(t, 0, in-1, "l")
		what = "left input of a wire"
	case 1:
		l.Wires[w].R = gen.IntU(t, 0, in-1, "r")
		what = "right input of a wire"
	case 2:
		l.Wires[w].O = gen.IntU(t, 0, outs-1, "o")
		what = "output of a wire"
	case 3:
		l.Gates[l.Wires[w].G] = gen.GateOf(t, gen.AllKinds, nil, "g")
		what = "gate"
	case 4:
		g := &l.Gates[l.Wires[w].G]
		g.A = gen.NearFr(t, &g.A, "a")
		what = "constant of a gate"
	case 5:
		l.Wires = append(l.Wires, l.Wires[w])
		what = "duplicated wire"
	case 6:
		if len(l.Wires) > 1 {
			l.Wires = append(l.Wires[:w:w], l.Wires[w+1:]...)
		}
		what = "removed wire"
	default:
		if k > 0 {
			spec.Layers[k], spec.Layers[k-1] = spec.Layers[k-1], spec.Layers[k]
		}
		what = "swapped layers"
	}
	// Only well-formed circuits with tables of the same sizes
	ok := spec.Layers[0].BGIn() == cs.BGIn() && spec.Layers[len(spec.Layers)-1].BGOut() == cs.BGOut()
	for i := 1; i < len(spec.Layers); i++ {
		ok = ok && spec.Layers[i].BGIn() == spec.Layers[i-1].BGOut()
	}
	if !ok {
		c.Case(t, false, func() string { return "" })
		c.Label("not well-formed")
		return
	}
	wrong := !correct(spec, cs.Flat, cs.Out(), cs.N())
	c.Case(t, wrong, func() string { return fmt.Sprintf("%s of layer %d: %v instead of %v", what, k, spec, cs) })
	_, proof := cs.Prove()
	v := gkr.NewVerifier(cs.BN, real.Circuit(spec))
	if v.Verify(proof, cs.Inputs(), cs.Outputs()) && wrong {
		t.Fatalf("accepted the proof of another circuit: %s of layer %d\n%v\n%v", what, k, spec, cs)
	}
}

// sizes verifies with another batch size, or tables of another size
func sizes(t *rapid.T, c *vt.C, cs *cases.Case) {
	in, out := cs.Inputs(), cs.Outputs()
	bN := cs.BN
	what := ""
	resize := func(x [][]fr.Element, l string) ([][]fr.Element, string) {
		flat := gen.Unchunk(x)
		switch gen.IntU(t, 0, 5, l) {
		case 0: // longer, by zeros
			return gen.Chunk(append(gen.Clone(flat), make([]fr.Element, len(flat))...), len(x)), "twice as large"
		case 1:
			return gen.Chunk(append(gen.Clone(flat), gen.Clone(flat)...), len(x)), "repeated twice"
		case 2: // additional chunks
			return append(gen.Clone2(x), gen.Clone2(x)...), "twice the chunks"
		case 3:
			return gen.Chunk(append(make([]fr.Element, len(flat)), flat...), len(x)), "preceded by zeros"
		case 4: // one chunk longer than the others
			y := gen.Clone2(x)
			k := gen.IntU(t, 0, len(y)-1, l+".k")
			y[k] = append(y[k], gen.Delta(t, l+".v"))
			return y, "one more value"
		default:
			if len(flat) < 2*len(x) {
				return append(gen.Clone2(x), x[0]), "one more chunk"
			}
			return gen.Chunk(flat[:len(flat)/2], len(x)), "half as large"
		}
	}
	switch gen.IntU(t, 0, 3, "what") {
	case 0:
		in, what = resize(in, "in")
		what = "inputs " + what
	case 1:
		out, what = resize(out, "out")
		what = "outputs " + what
	case 2:
		in, what = resize(in, "in")
		var w string
		out, w = resize(out, "out")
		what = "inputs " + what + ", outputs " + w
	default:
		d := gen.IntU(t, 1, 2, "d")
		if bN >= d && rapid.Bool().Draw(t, "less") {
			bN -= d
		} else {
			bN += d
		}
		what = fmt.Sprintf("batch size 2^%d instead of 2^%d", bN, cs.BN)
	}
	c.Case(t, true, func() string { return what + " " + cs.String() })
	_, proof := cs.Prove()
	v := gkr.NewVerifier(bN, cs.Circuit)
	if v.Verify(proof, in, out) {
		t.Fatalf("accepted %s\n%v", what, cs)
	}
}

// positions changes every single value of the inputs and outputs of a case
func positions(build func() *cases.Case, delta fr.Element) func(t vt.T, c *vt.C) {
	return func(t vt.T, c *vt.C) {
		cs := build()
		_, proof := cs.Prove()
		verify := func(in, out []fr.Element) bool {
			v := gkr.NewVerifier(cs.BN, cs.Circuit)
			return v.Verify(proof, gen.Chunk(in, cs.Chunks), gen.Chunk(out, cs.Chunks))
		}
		if !verify(cs.Flat, cs.Out()) {
			t.Fatalf("honest proof rejected\n%v", cs)
		}
		for i := range cs.Flat {
			x := gen.Clone(cs.Flat)
			x[i] = ref.Add(x[i], delta)
			c.Label("position of the inputs")
			if verify(x, cs.Out()) {
				if correct(cs.Spec, x, cs.Out(), cs.N()) {
					continue
				}
				t.Fatalf("accepted with the input %d changed by %v\n%v", i, gen.S(delta), cs)
			}
		}
		for i := range cs.Out() {
			x := gen.Clone(cs.Out())
			x[i] = ref.Add(x[i], delta)
			c.Label("position of the outputs")
			if verify(cs.Flat, x) {
				t.Fatalf("accepted with the output %d changed by %v\n%v", i, gen.S(delta), cs)
			}
			// Every swap
			for j := 0; j < i && len(x) <= 64; j++ {
				y := gen.Clone(cs.Out())
				y[i], y[j] = y[j], y[i]
				if y[i] != y[j] && verify(cs.Flat, y) {
					t.Fatalf("accepted with the outputs %d and %d swapped\n%v", i, j, cs)
				}
			}
		}
	}
}

// every changes every single value of the inputs and outputs of a batch, split
// in any number of chunks by the prover and by the verifier
func every(t *rapid.T, c *vt.C) {
	cs := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, "c")}
	cs.Flat, cs.BN, cs.Chunks = gen.Batch(t, cs.BGIn(), 6, "b")
	n := cs.N()
	period := n
	if gen.IntU(t, 0, 1, "periodic") == 0 {
		// The same instances again and again
		period = 1 << gen.IntU(t, 0, cs.BN, "period")
		for i := range cs.Flat {
			cs.Flat[i] = cs.Flat[i/n*n+i%n%period]
		}
	}
	cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
	cs.Finish()
	ci, co := cs.Chunks, cs.Chunks
	if gen.IntU(t, 0, 1, "other") == 0 {
		ci, co = 1<<gen.IntU(t, 0, cs.BN, "ci"), 1<<gen.IntU(t, 0, cs.BN, "co")
	}
	d := gen.Delta(t, "d")
	c.Case(t, n > 1, func() string {
		return fmt.Sprintf("each value + %v, period %d, verified in %d and %d chunks: %v", gen.S(d), period, ci, co, cs)
	})
	_, proof := cs.Prove()
	in, out := gen.Chunk(cs.Flat, ci), gen.Chunk(cs.Out(), co)
	v := gkr.NewVerifier(cs.BN, cs.Circuit)
	if !v.Verify(proof, in, out) {
		c.Label("honest proof rejected (see C01)")
		return
	}
	for i := range cs.Out() {
		x := &out[i%co][i/co]
		y := *x
		*x = ref.Add(y, d)
		if v.Verify(proof, in, out) {
			t.Fatalf("accepted with the output %d + %v, in %d chunks\n%v", i, gen.S(d), co, cs)
		}
		*x = y
	}
	flat := gen.Clone(cs.Flat)
	for i := range flat {
		x := &in[i%ci][i/ci]
		y := *x
		*x = ref.Add(y, d)
		flat[i] = *x
		if v.Verify(proof, in, out) && !correct(cs.Spec, flat, cs.Out(), n) {
			t.Fatalf("accepted with the input %d + %v, in %d chunks\n%v", i, gen.S(d), ci, cs)
		}
		*x, flat[i] = y, y
	}
}

// initial checks the initial point at any size: it gives each output a weight, that
// is not null, and two outputs do not have the same (opposite changes would cancel)
func initial(t *rapid.T, c *vt.C) {
	bN, bG := gen.UpTo(t, 0, 12, 40, "bN"), gen.UpTo(t, 0, 5, 16, "bG")
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, bG)
	if len(qPrime) != bN || len(q) != bG {
		t.Fatalf("initial point of %d and %d coordinates for bN=%d bG=%d", len(qPrime), len(q), bN, bG)
	}
	point := append(append([]fr.Element{}, q...), qPrime...)
	n := len(point)
	i := gen.IntU(t, 0, 1<<n-1, "i")
	j := i
	for k := gen.IntU(t, 0, n, "flips"); k > 0; k-- {
		j ^= 1 << gen.IntU(t, 0, n-1, fmt.Sprintf("flip%d", k))
	}
	c.Case(nil, n > 0, func() string { return fmt.Sprintf("bN=%d bG=%d outputs %d and %d", bN, bG, i, j) })
	c.LabelIf(i != j, "two outputs")
	a, b := ref.EqBits(point, i), ref.EqBits(point, j)
	if a == (fr.Element{}) || b == (fr.Element{}) {
		t.Fatalf("bN=%d bG=%d: an output among %d and %d is left unchecked by the initial claim", bN, bG, i, j)
	}
	if i != j && (a == b || a == ref.Sub(fr.Element{}, b)) {
		t.Fatalf("bN=%d bG=%d: outputs %d and %d have the same weight in the initial claim", bN, bG, i, j)
	}
}

// findings probes the known finding: the initial point does not depend on the
// statement, nor do the challenges
func findings(string) []vt.Finding {
	cs := cases.Make(cases.AddMul(), 2, 2, 1, 77)
	_, proof := cs.Prove()
	verify := func(in, out []fr.Element) bool {
		v := gkr.NewVerifier(cs.BN, cs.Circuit)
		return v.Verify(proof, gen.Chunk(in, 2), gen.Chunk(out, 2))
	}
	var r []vt.Finding

	qPrime, q := gkr.GetInitialQPrimeAndQ(cs.BN, cs.BGOut())
	point := append(append([]fr.Element{}, q...), qPrime...)
	out := gen.Clone(cs.Out())
	out[0] = ref.Add(out[0], ref.EqBits(point, 1))
	out[1] = ref.Sub(out[1], ref.EqBits(point, 0))
	r = append(r, vt.Finding{
		Key:     "outputs-kernel",
		Present: out[0] != cs.Out()[0] && verify(cs.Flat, out),
		What:    "wrong outputs with the right evaluation at the initial point (a constant) are accepted with an honest proof: the challenges do not depend on the statement",
	})

	_, ch, _ := refgkr.Rounds(fr.Element{}, proof.SumcheckProofs[0].PolyCoeffs)
	bg := cs.BGIn()
	pL := append(append([]fr.Element{}, ch[:bg]...), ch[2*bg:]...)
	pR := append(append([]fr.Element{}, ch[bg:2*bg]...), ch[2*bg:]...)
	// positions 0, 1 and the upper half: cross product
	pos := []int{0, 1, len(cs.Flat) - 1}
	var a, b [3]fr.Element
	for k, i := range pos {
		a[k], b[k] = ref.EqBits(pL, i), ref.EqBits(pR, i)
	}
	in := gen.Clone(cs.Flat)
	for k := range pos {
		x, y := (k+1)%3, (k+2)%3
		in[pos[k]] = ref.Add(in[pos[k]], ref.Sub(ref.Mul(a[x], b[y]), ref.Mul(a[y], b[x])))
	}
	r = append(r, vt.Finding{
		Key:     "inputs-kernel",
		Present: !correct(cs.Spec, in, cs.Out(), cs.N()) && verify(in, cs.Out()),
		What:    "wrong inputs with the right evaluations at the final points of an honest proof are accepted: the challenges do not depend on the statement",
	})
	return r
}

func main() {
	var fixed []vt.Fixed
	for _, name := range cases.Names {
		for bN := 0; bN <= 4; bN++ {
			for k, d := range []fr.Element{gen.U(1), gen.Neg(gen.U(1)), {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}} {
				name, bN, d := name, bN, d
				fixed = append(fixed, vt.Fixed{Name: fmt.Sprintf("%s-bN%d-delta%d", name, bN, k), Run: positions(func() *cases.Case {
					return cases.Make(cases.Named[name](), bN, 1<<(bN/2), 2, 5)
				}, d)})
			}
		}
	}
	mimc := cases.Mimc()
	fixed = append(fixed, vt.Fixed{Name: "mimc-bN2", Run: positions(func() *cases.Case {
		cs := cases.Make(mimc, 2, 2, 2, 5)
		cs.Circuit = examples.CreateMimcCircuit()
		return cs
	}, gen.U(1))})
	vt.Main(vt.Check{
		Property: "C02",
		Scale:    3,
		Rule: "A case is a circuit, a batch, its proof and a tampered statement: changed inputs or outputs (one value, several, same sum, swaps of values, instances, chunks, outputs, replicated instances, all), honest proofs as well as proofs of the inconsistent assignment; each single value of a batch in turn, in any chunks; another circuit that differs by one wire, gate, constant or layer; another batch size or tables of another size; the initial point of any size, which must give each output a weight of its own. " +
			"It is non-trivial if the reference evaluation says that the outputs are not those of the inputs (or sizes do not match); then it must be rejected.",
		Assumptions: []string{"a false acceptance of probability about 2^-250 per case does not happen", "tampering that is computed from the (public) challenges is the known finding, see KNOWN_FINDINGS.txt"},
		Findings:    findings,
		Families: []vt.Family{
			{Name: "positions", Fixed: fixed},
			{Name: "initial", Quick: 8000, Thorough: 200000, Shards: 8, Prop: initial},
			{Name: "every", Quick: 1600, Thorough: 30000, Shards: 8, Prop: every},
			{Name: "statement", Quick: 32000, Thorough: 300000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				statement(t, c, cases.Draw(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, 4))
			}},
			{Name: "wide", Quick: 800, Thorough: 16000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				statement(t, c, cases.Draw(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: gen.UpTo(t, 3, 3, 5, "maxbg"), MaxTable: 13}, 2))
			}},
			{Name: "tall", Quick: 800, Thorough: 16000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				statement(t, c, cases.Draw(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, gen.IntU(t, 5, 9, "maxbN")))
			}},
			{Name: "huge", Quick: 96, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				statement(t, c, cases.Huge(t, 17))
			}},
			{Name: "deep", Quick: 800, Thorough: 16000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				k := cases.Draw(t, gen.CircuitOpts{MaxLayers: 24, MaxBG: 1}, 2)
				if rapid.Bool().Draw(t, "deepcircuit") {
					other(t, c, k)
				} else {
					statement(t, c, k)
				}
			}},
			{Name: "circuit", Quick: 12000, Thorough: 200000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				other(t, c, cases.Draw(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, 3))
			}},
			{Name: "size", Quick: 8000, Thorough: 120000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				sizes(t, c, cases.Draw(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, 4))
			}},
			{Name: "mimc", Quick: 80, Thorough: 1000, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				cs := &cases.Case{Spec: mimc}
				cs.Flat, cs.BN, cs.Chunks = gen.Batch(t, 1, 4, "b")
				cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				cs.Layers = cs.Spec.Eval(cs.Flat, cs.N())
				cs.Circuit = examples.CreateMimcCircuit()
				statement(t, c, cs)
			}},
			{Name: "large", Quick: 40, Thorough: 400, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				cs := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 1, MaxBG: 1, Kinds: gen.NativeKinds}, "c")}
				cs.BN = gen.IntU(t, 10, 13, "bN")
				cs.Chunks = 1 << gen.IntU(t, 0, 3, "logchunks")
				cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				cs.Flat = gen.RandVec(t, 1<<(cs.BN+cs.BGIn()), "inputs")
				cs.Finish()
				statement(t, c, cs)
			}},
		},
	})
}
