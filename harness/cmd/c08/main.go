// C08: all the evaluation forms of the gates agree, and respect the declared degrees
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	sgkr "gkr-mimc/snark/gkr"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

func batch(t *rapid.T, c *vt.C) {
	g := gen.GateOf(t, gen.NativeKinds, nil, "g")
	n := gen.Size(t, 0, 20, "n")
	if gen.IntU(t, 0, 9, "long") == 0 {
		n = gen.Size(t, 20, 300, "longn")
	}
	manyValues(t, c, g, gen.Vec(t, n, "xs"))
}

func manyValues(t *rapid.T, c *vt.C, g ref.Gate, xs []fr.Element) {
	n := len(xs)
	y := gen.Fr(t, "y")
	if g.Kind == ref.KCipher && gen.IntU(t, 0, 5, "cancel") == 0 {
		y = gen.Neg(g.A)
	}
	c.Case(t, n > 0 && !(gen.IsZero(xs) && y.IsZero()), func() string {
		return fmt.Sprintf("%v of %v and %v", g, gen.Show(xs), gen.S(y))
	})
	c.Label("%d", g.Kind)
	r := real.Gate(g)
	junk := func(k int) []fr.Element {
		d := make([]fr.Element, k)
		for i := range d {
			d[i] = ref.U(uint64(1000 + i))
		}
		return d
	}
	in, yy := gen.Clone(xs), y
	left := junk(n)
	r.EvalManyVL(left, in, &yy)
	right := junk(n)
	r.EvalManyVR(right, &yy, in)
	for i := range xs {
		one := ref.U(77)
		r.Eval(&one, &in[i], &yy)
		if want := g.Eval(xs[i], y); one != want || left[i] != want {
			t.Fatalf("%v(%v, %v) = %v; single %v, batch on the left %v (value %d of %d)", g, gen.S(xs[i]), gen.S(y), gen.S(want), gen.S(one), gen.S(left[i]), i, n)
		}
		one = ref.U(77)
		r.Eval(&one, &yy, &in[i])
		if want := g.Eval(y, xs[i]); one != want || right[i] != want {
			t.Fatalf("%v(%v, %v) = %v; single %v, batch on the right %v (value %d of %d)", g, gen.S(y), gen.S(xs[i]), gen.S(want), gen.S(one), gen.S(right[i]), i, n)
		}
	}
	if !gen.Equal(in, xs) || yy != y {
		t.Fatalf("%v modifies its inputs", g)
	}
}

// degrees checks that the gate is a polynomial of the declared degree, along
// lines of the left, right, or both values
func degrees(t *rapid.T, c *vt.C) {
	g := gen.GateOf(t, gen.NativeKinds, nil, "g")
	l, r := gen.Fr(t, "l"), gen.Fr(t, "r")
	dl, dr := gen.NonZero(t, "dl"), gen.NonZero(t, "dr")
	xs := gen.Vec(t, 3, "x")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%v on the lines from (%v, %v) in the direction (%v, %v)", g, gen.S(l), gen.S(r), gen.S(dl), gen.S(dr))
	})
	rg := real.Gate(g)
	degL, degR, degP := rg.Degrees()
	for k, d := range []struct {
		deg    int
		dl, dr fr.Element
	}{{degL, dl, fr.Element{}}, {degR, fr.Element{}, dr}, {degP, dl, dr}} {
		if d.deg < 0 || d.deg > 10 {
			t.Fatalf("degree %d of %v", d.deg, g)
		}
		at := func(x fr.Element) fr.Element {
			var v fr.Element
			a, b := ref.Add(l, ref.Mul(x, d.dl)), ref.Add(r, ref.Mul(x, d.dr))
			rg.Eval(&v, &a, &b)
			return v
		}
		vals := make([]fr.Element, d.deg+1)
		for i := range vals {
			vals[i] = at(ref.U(uint64(i)))
		}
		for _, x := range append(xs, ref.U(uint64(d.deg+1)), ref.U(99)) {
			if ref.Lagrange(vals, x) != at(x) {
				t.Fatalf("%v is not of degree %d on a line of type %d (left, right, both) from (%v, %v) direction (%v, %v)", g, d.deg, k, gen.S(l), gen.S(r), gen.S(d.dl), gen.S(d.dr))
			}
		}
	}
}

func ids(t *rapid.T, c *vt.C) {
	a := gen.GateOf(t, gen.NativeKinds, nil, "a")
	near := a.A
	b := gen.GateOf(t, gen.NativeKinds, &near, "b")
	if rapid.Bool().Draw(t, "ciphers") {
		a.Kind, b.Kind = ref.KCipher, ref.KCipher
		b.A = gen.NearFr(t, &a.A, "b.ark")
	}
	if gen.IntU(t, 0, 4, "same") == 0 {
		b = a
	}
	c.Case(t, a.Kind == b.Kind, func() string { return fmt.Sprintf("%v %v", a.Key(), b.Key()) })
	same := a.Key() == b.Key()
	c.LabelIf(same, "same gate")
	if (real.Gate(a).ID() == real.Gate(b).ID()) != same {
		t.Fatalf("gates %v (constant %v) and %v (constant %v): IDs %q and %q", a, gen.S(a.A), b, gen.S(b.A), real.Gate(a).ID(), real.Gate(b).ID())
	}
}

func combinator(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 0, 6, "n")
	var specs []ref.Gate
	var gates []circuit.Gate
	for i := 0; i < n; i++ {
		g := gen.GateOf(t, gen.AllKinds, nil, fmt.Sprintf("g%d", i))
		specs, gates = append(specs, g), append(gates, real.Gate(g))
	}
	statics := gen.Vec(t, n, "statics")
	l, r, e := gen.Fr(t, "l"), gen.Fr(t, "r"), gen.Fr(t, "eq")
	c.Case(t, n > 0 && !e.IsZero() && !gen.IsZero(statics), func() string {
		return fmt.Sprintf("%v * sum of %v * %v (%v, %v)", gen.S(e), gen.Show(statics), specs, gen.S(l), gen.S(r))
	})
	var want fr.Element
	for i, g := range specs {
		want = ref.Add(want, ref.Mul(statics[i], g.Eval(l, r)))
	}
	want = ref.Mul(want, e)
	s, ll, rr, ee := gen.Clone(statics), l, r, e
	if got := circuit.EvaluateCombinator(&ll, &rr, &ee, gates, s); got != want {
		t.Fatalf("combination of %v at (%v, %v): %v instead of %v", specs, gen.S(l), gen.S(r), gen.S(got), gen.S(want))
	}
	if !gen.Equal(s, statics) || ll != l || rr != r || ee != e {
		t.Fatalf("EvaluateCombinator modifies its arguments")
	}
}

// operand turns variables into one: a variable, a linear expression, a constant
func operand(cs *frontend.ConstraintSystem, kind int, x, y frontend.Variable, k fr.Element) frontend.Variable {
	switch kind {
	case 1:
		return cs.Add(x, y)
	case 2:
		return cs.Sub(x, y)
	case 3:
		return cs.Add(cs.Mul(x, y), cs.Constant(k))
	}
	return x
}

func operandVal(kind int, x, y, k fr.Element) fr.Element {
	switch kind {
	case 1:
		return ref.Add(x, y)
	case 2:
		return ref.Sub(x, y)
	case 3:
		return ref.Add(ref.Mul(x, y), k)
	}
	return x
}

func snark(t *rapid.T, c *vt.C) {
	g := gen.GateOf(t, gen.NativeKinds, nil, "g")
	kl, kr := gen.IntU(t, 0, 3, "kl"), gen.IntU(t, 0, 3, "kr")
	k := gen.Fr(t, "k")
	gadget := 0
	if g.Kind == ref.KCopy || g.Kind == ref.KCipher {
		gadget = gen.IntU(t, 0, 1, "gadget")
	}
	same := gen.IntU(t, 0, 3, "same") == 0
	x := make([][]fr.Element, 3)
	d := make([]fr.Element, 3)
	for i := range x {
		x[i] = gen.Vec(t, 2, fmt.Sprintf("x%d", i))
		d[i] = gen.Delta(t, fmt.Sprintf("d%d", i))
	}
	c.Case(t, true, func() string {
		return fmt.Sprintf("SNARK %v (gadget %d, operands %d %d %v same %v) values %v %v %v", g, gadget, kl, kr, gen.S(k), same, gen.Show(x[0]), gen.Show(x[1]), gen.Show(x[2]))
	})
	c.Label("gate %d gadget %d", g.Kind, gadget)
	// Two evaluations, to see that the first one does not spoil its operands
	sys, err := snk.Compile(2, 4, func(cs *frontend.ConstraintSystem, v []frontend.Variable) []frontend.Variable {
		l, r := operand(cs, kl, v[0], v[1], k), operand(cs, kr, v[1], v[0], k)
		if same {
			r = l
		}
		eval := func(l, r frontend.Variable) frontend.Variable {
			if gadget == 1 {
				if g.Kind == ref.KCopy {
					return sgkr.CopyGate()(cs, l, r)
				}
				return sgkr.CipherGate(g.A)(cs, l, r)
			}
			return real.Gate(g).GnarkEval(cs, l, r)
		}
		return []frontend.Variable{eval(l, r), eval(r, l), l, r}
	})
	if err != nil {
		t.Fatalf("%v does not compile: %v", g, err)
	}
	for i := range x {
		l, r := operandVal(kl, x[i][0], x[i][1], k), operandVal(kr, x[i][1], x[i][0], k)
		if same {
			r = l
		}
		y := []fr.Element{g.Eval(l, r), g.Eval(r, l), l, r}
		if !sys.Solved(x[i], y) {
			t.Fatalf("SNARK %v (gadget %d): not satisfied by the right values, left %v right %v result %v", g, gadget, gen.S(l), gen.S(r), gen.S(y[0]))
		}
		for j := 0; j < 2; j++ {
			z := gen.Clone(y)
			z[j] = ref.Add(z[j], d[i])
			if sys.Solved(x[i], z) {
				t.Fatalf("SNARK %v (gadget %d): satisfied by a wrong result, left %v right %v result %v instead of %v", g, gadget, gen.S(l), gen.S(r), gen.S(z[j]), gen.S(y[j]))
			}
		}
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C08",
		Scale:    2,
		Rule: "batch: a gate and up to 20 values on each side, compared with the definition of the gate; degrees: a line of left, right or both values, where the gate must be the interpolation of its first degree+1 values; ids: two gates, often with close constants; combinator: random gates and coefficients; snark: the gate inside a constraint system on variables or expressions, satisfied by the right result and not by another one. " +
			"Non-trivial: values are not all zero; for ids, gates of the same kind.",
		Assumptions: []string{"the destination of an evaluation is not one of its operands"},
		Families: []vt.Family{
			{Name: "batch", Quick: 60000, Thorough: 1000000, Shards: 8, Prop: batch},
			{Name: "huge", Quick: 40, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				g := gen.GateOf(t, gen.NativeKinds, nil, "g")
				manyValues(t, c, g, gen.RandVec(t, gen.Size(t, 4000, 140000, "n"), "xs"))
			}},
			{Name: "degrees", Quick: 30000, Thorough: 400000, Shards: 8, Prop: degrees},
			{Name: "ids", Quick: 60000, Thorough: 1000000, Shards: 8, Prop: ids},
			{Name: "combinator", Quick: 40000, Thorough: 600000, Shards: 8, Prop: combinator},
			{Name: "snark", Quick: 6000, Thorough: 100000, Shards: 8, Prop: snark},
		},
	})
}
