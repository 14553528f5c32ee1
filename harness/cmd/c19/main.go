// C19: the SNARK hash and polynomial gadgets equal their native counterparts
package main

import (
	"fmt"

	"gkr-mimc/common"
	nhash "gkr-mimc/hash"
	npoly "gkr-mimc/polynomial"
	"gkr-mimc/snark/hash"
	"gkr-mimc/snark/polynomial"
	"verif/gen"
	"verif/ref"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type variable = frontend.Variable

// gadget is a gadget with its definition
type gadget struct {
	name string
	nArg int
	// build may return several evaluations
	build func(cs *frontend.ConstraintSystem, a []variable) []variable
	value func(a []fr.Element) []fr.Element
}

// run compiles the gadget on generated operands; the results must be the
// expected ones, and no other
func run(t *rapid.T, c *vt.C, g gadget) {
	nX := g.nArg
	if nX == 0 || gen.IntU(t, 0, 3, "few") == 0 {
		nX = gen.IntU(t, 1, 4, "nx")
	}
	ex := snk.DrawExprs(t, g.nArg, nX, "args")
	type inst struct {
		x     []fr.Element
		d     fr.Element
		wrong int
	}
	ins := make([]inst, 5)
	nY := -1
	for i := range ins {
		l := fmt.Sprintf("v%d", i)
		ins[i] = inst{x: gen.Vec(t, nX, l), d: gen.Delta(t, l+".delta"), wrong: gen.IntU(t, 0, 1000, l+".wrong")}
	}
	c.Case(t, g.nArg > 0 && !(gen.IsZero(ins[0].x) && gen.IsZero(ins[1].x) && gen.IsZero(ins[2].x)), func() string {
		return fmt.Sprintf("%s of %v at %v, %v, %v", g.name, ex, gen.Show(ins[0].x), gen.Show(ins[1].x), gen.Show(ins[2].x))
	})
	want := make([][]fr.Element, len(ins))
	for i := range ins {
		a := snk.Vals(ex, ins[i].x)
		b := gen.Clone(a)
		want[i] = g.value(b)
		if !gen.Equal(a, b) {
			t.Fatalf("harness: the native function modified its arguments")
		}
		nY = len(want[i])
	}
	sys, err := snk.Compile(nX, nY, func(cs *frontend.ConstraintSystem, x []variable) []variable {
		return g.build(cs, snk.Vars(cs, ex, x))
	})
	if err != nil {
		t.Fatalf("%s of %v does not compile: %v", g.name, ex, err)
	}
	for i, in := range ins {
		y := gen.Clone(want[i])
		if !sys.Solved(in.x, y) {
			t.Fatalf("%s of %v at %v: not satisfied by %v", g.name, ex, gen.Show(in.x), gen.Show(y))
		}
		k := in.wrong % len(y)
		y[k] = ref.Add(y[k], in.d)
		if sys.Solved(in.x, y) {
			t.Fatalf("%s of %v at %v: satisfied by %v at output %d instead of %v", g.name, ex, gen.Show(in.x), gen.S(y[k]), k, gen.S(want[i][k]))
		}
	}
}

func mimc(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 0, 7, "len")
	if gen.IntU(t, 0, 7, "long") == 0 {
		n = gen.Size(t, 8, 34, "longlen")
	}
	c.Label("length %d", n)
	run(t, c, gadget{fmt.Sprintf("MimcHash/%d", n), n,
		func(cs *frontend.ConstraintSystem, a []variable) []variable {
			// twice: the arguments are not altered
			return []variable{hash.MimcHash(cs, a...), hash.MimcHash(cs, a...)}
		},
		func(a []fr.Element) []fr.Element {
			h := ref.Mimc(a)
			if g := nhash.MimcHash(gen.Clone(a)); g != h {
				t.Fatalf("native MimcHash(%v) = %v instead of %v", gen.Show(a), gen.S(g), gen.S(h))
			}
			return []fr.Element{h, h}
		}})
}

func eq(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 0, 8, 40, "n")
	c.Label("n=%d", n)
	run(t, c, gadget{fmt.Sprintf("EqEval/%d", n), 2 * n,
		func(cs *frontend.ConstraintSystem, a []variable) []variable {
			r := []variable{polynomial.EqEval(cs, a[:n], a[n:]), polynomial.EqEval(cs, a[n:], a[:n])}
			for i := 0; i < n; i++ {
				r = append(r, polynomial.UnivariateEqEval(cs, a[i], a[n+i]))
			}
			return r
		},
		func(a []fr.Element) []fr.Element {
			e := ref.Eq(a[:n], a[n:])
			if g := npoly.EvalEq(gen.Clone(a[:n]), gen.Clone(a[n:])); g != e {
				t.Fatalf("native EvalEq(%v, %v) = %v instead of %v", gen.Show(a[:n]), gen.Show(a[n:]), gen.S(g), gen.S(e))
			}
			r := []fr.Element{e, e}
			for i := 0; i < n; i++ {
				r = append(r, ref.Eq(a[i:i+1], a[n+i:n+i+1]))
			}
			return r
		}})
}

func univariate(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 0, 12, 300, "degree") + 1
	c.Label("degree %d", n-1)
	run(t, c, gadget{fmt.Sprintf("univariate of degree %d", n-1), n + 2,
		func(cs *frontend.ConstraintSystem, a []variable) []variable {
			u := polynomial.NewUnivariate(a[:n:n])
			return []variable{u.Eval(cs, a[n]), u.ZeroAndOne(cs), u.Eval(cs, a[n+1]), u.Eval(cs, a[n]), u.ZeroAndOne(cs)}
		},
		func(a []fr.Element) []fr.Element {
			p := a[:n]
			x, y := ref.PolyEval(p, a[n]), ref.PolyEval(p, a[n+1])
			if g := npoly.EvaluatePolynomial(gen.Clone(p), a[n]); g != x {
				t.Fatalf("native EvaluatePolynomial(%v, %v) = %v instead of %v", gen.Show(p), gen.S(a[n]), gen.S(g), gen.S(x))
			}
			z := ref.Add(p[0], ref.Sum(p))
			return []fr.Element{x, z, y, x, z}
		}})
}

// plain: evaluation and folding of a multilinear polynomial, with a history of
// evaluations on the same object
func plain(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 0, 5, 9, "dim")
	size := 1 << n
	var ops []int
	for i := gen.IntU(t, 1, 4, "nops"); i > 0; i-- {
		ops = append(ops, gen.IntU(t, 0, 3, fmt.Sprintf("op%d", i)))
	}
	last := gen.IntU(t, 0, n, "folds")
	c.Label("dim %d", n)
	// two points and the table
	run(t, c, gadget{fmt.Sprintf("multilinear of dimension %d, operations %v, %d folds", n, ops, last), 2*n + size,
		func(cs *frontend.ConstraintSystem, a []variable) []variable {
			p, q, tab := a[:n:n], a[n:2*n:2*n], a[2*n:]
			m := polynomial.NewMultilinearByValues(append([]variable{}, tab...))
			var r []variable
			for _, op := range ops {
				switch op {
				case 0:
					r = append(r, m.Eval(cs, p))
				case 1:
					r = append(r, m.Eval(cs, q))
				case 2: // a copy is independent
					d := m.DeepCopy()
					for _, x := range p {
						d.Fold(cs, x)
					}
					if len(d.Table) != 1 {
						panic(fmt.Sprintf("%d values after %d folds", len(d.Table), n))
					}
					r = append(r, d.Table[0])
				case 3:
					d := m.DeepCopy()
					m, d = d, m
					if n > 0 {
						d.Fold(cs, q[0])
					}
					r = append(r, m.Eval(cs, q))
				}
			}
			for k := 0; k < last; k++ {
				m.Fold(cs, p[k])
			}
			return append(r, m.Table...)
		},
		func(a []fr.Element) []fr.Element {
			p, q, tab := a[:n], a[n:2*n], a[2*n:]
			atP, atQ := ref.MLE(tab, p), ref.MLE(tab, q)
			b := npoly.NewBookKeepingTable(gen.Clone(tab))
			if g := b.Evaluate(gen.Clone(p)); g != atP {
				t.Fatalf("native Evaluate(%v, %v) = %v instead of %v", gen.Show(tab), gen.Show(p), gen.S(g), gen.S(atP))
			}
			var r []fr.Element
			for _, op := range ops {
				r = append(r, []fr.Element{atP, atQ, atP, atQ}[op])
			}
			f := gen.Clone(tab)
			for k := 0; k < last; k++ {
				f = ref.FoldTable(f, p[k])
			}
			return append(r, f...)
		}})
}

// mixed: evaluation at two points that share their last coordinates
func mixed(t *rapid.T, c *vt.C) {
	g, h := gen.UpTo(t, 0, 3, 4, "bG"), gen.UpTo(t, 0, 3, 6, "bN")
	c.Label("bG=%d bN=%d", g, h)
	size := 1 << (g + h)
	run(t, c, gadget{fmt.Sprintf("mixed evaluation, bG=%d bN=%d", g, h), 2*g + h + size,
		func(cs *frontend.ConstraintSystem, a []variable) []variable {
			qL, qR, qP, tab := a[:g:g], a[g:2*g:2*g], a[2*g:2*g+h:2*g+h], a[2*g+h:]
			m := polynomial.NewMultilinearByValues(append([]variable{}, tab...))
			l, r := m.EvalMixed(cs, qL, qR, qP)
			r2, l2 := m.EvalMixed(cs, qR, qL, qP)
			return []variable{l, r, l2, r2, m.Eval(cs, append(append([]variable{}, qL...), qP...))}
		},
		func(a []fr.Element) []fr.Element {
			qL, qR, qP, tab := a[:g], a[g:2*g], a[2*g:2*g+h], a[2*g+h:]
			l := ref.MLE(tab, append(gen.Clone(qL), qP...))
			r := ref.MLE(tab, append(gen.Clone(qR), qP...))
			for _, n := range []int{1, 1 << h} {
				nl, nr := npoly.EvaluateMixedChunked(bkts(tab, n), gen.Clone(qP), gen.Clone(qL), gen.Clone(qR))
				if nl != l || nr != r {
					t.Fatalf("native mixed evaluation of %v at %v %v %v with %d chunks: %v and %v instead of %v and %v", gen.Show(tab), gen.Show(qL), gen.Show(qR), gen.Show(qP), n, gen.S(nl), gen.S(nr), gen.S(l), gen.S(r))
				}
			}
			return []fr.Element{l, r, l, r, l}
		}})
}

func bkts(tab []fr.Element, n int) []npoly.BookKeepingTable {
	var r []npoly.BookKeepingTable
	for _, c := range gen.Chunk(tab, n) {
		r = append(r, npoly.NewBookKeepingTable(c))
	}
	return r
}

// witness: polynomials assigned from values or chunks
type wit struct {
	M          polynomial.MultilinearByValues
	U          polynomial.Univariate
	X, YM, YU  variable
	QL, QR, QP []variable
	L, R       variable
}

func allocWit(g, h, deg int) *wit {
	return &wit{
		M: polynomial.AllocateMultilinear(g + h), U: polynomial.AllocateUnivariate(deg),
		QL: make([]variable, g), QR: make([]variable, g), QP: make([]variable, h),
	}
}

// Define the constraints
func (w *wit) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	l, r := w.M.EvalMixed(cs, w.QL, w.QR, w.QP)
	cs.AssertIsEqual(l, w.L)
	cs.AssertIsEqual(r, w.R)
	cs.AssertIsEqual(w.U.Eval(cs, w.X), w.YU)
	return nil
}

func refuses(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			why = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

func witness(t *rapid.T, c *vt.C) {
	g, h, deg := gen.UpTo(t, 0, 3, 6, "bG"), gen.UpTo(t, 0, 4, 8, "bN"), gen.UpTo(t, 0, 9, 30, "deg")
	size := 1 << (g + h)
	tab := gen.Vec(t, size, "table")
	// any number of chunks
	chunks := 1 << gen.IntU(t, 0, g+h, "logchunks")
	how := gen.IntU(t, 0, 2, "how")
	qL, qR, qP := gen.Point(t, g, "qL"), gen.Point(t, g, "qR"), gen.Point(t, h, "qP")
	co, x := gen.Vec(t, deg+1, "coeffs"), gen.Fr(t, "x")
	k, d := gen.IntU(t, 0, 2, "wrong"), gen.Delta(t, "delta")
	c.Case(t, !gen.IsZero(tab), func() string {
		return fmt.Sprintf("bG=%d bN=%d table=%v chunks=%d how=%d at %v %v %v; polynomial %v at %v", g, h, gen.Show(tab), chunks, how, gen.Show(qL), gen.Show(qR), gen.Show(qP), gen.Show(co), gen.S(x))
	})
	c.LabelIf(how > 0, "chunked")
	r, err := snk.Circuit(allocWit(g, h, deg))
	if err != nil {
		t.Fatalf("does not compile: %v", err)
	}
	y := []fr.Element{ref.MLE(tab, append(gen.Clone(qL), qP...)), ref.MLE(tab, append(gen.Clone(qR), qP...)), ref.PolyEval(co, x)}
	solved := func(y []fr.Element) bool {
		w := allocWit(g, h, deg)
		if how == 0 {
			w.M.Assign(common.FrToGenericArray(tab))
		} else {
			w.M.AssignFromChunkedBKT(gen.Chunk(tab, chunks))
		}
		w.U.Assign(co)
		w.X.Assign(x)
		w.YM.Assign(0)
		for i := range qL {
			w.QL[i].Assign(qL[i])
			w.QR[i].Assign(qR[i])
		}
		for i := range qP {
			w.QP[i].Assign(qP[i])
		}
		w.L.Assign(y[0])
		w.R.Assign(y[1])
		w.YU.Assign(y[2])
		ok, err := snk.Satisfied(r, w)
		if err != nil {
			t.Fatalf("witness: %v", err)
		}
		return ok
	}
	if !solved(y) {
		t.Fatalf("not satisfied by the native values: bG=%d bN=%d chunks=%d how=%d", g, h, chunks, how)
	}
	y[k] = ref.Add(y[k], d)
	if solved(y) {
		t.Fatalf("satisfied by a wrong value: bG=%d bN=%d chunks=%d how=%d, output %d", g, h, chunks, how, k)
	}
	// Other sizes are refused
	w := allocWit(g, h, deg)
	n := gen.IntU(t, 0, 2*size, "othersize")
	if why := refuses(func() { w.M.Assign(common.FrToGenericArray(make([]fr.Element, n))) }); (why != "") != (n != size) {
		t.Fatalf("assignment of %d values to a polynomial of %d values: %q", n, size, why)
	}
	m := gen.IntU(t, 0, 2*deg+2, "otherdeg")
	if why := refuses(func() { w.U.Assign(make([]fr.Element, m)) }); (why != "") != (m != deg+1) {
		t.Fatalf("assignment of %d coefficients to a polynomial of degree %d: %q", m, deg, why)
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C19",
		Rule: "A gadget and a shape, on operands that are inputs, sums, products or constants, possibly the same one several times; compiled once, then solved for five vectors of inputs (often special values): satisfied by the values of the native function (itself compared with the definition), not satisfied when one output is off by any difference. The gadgets are evaluated several times on the same objects and all results constrained. witness: polynomials assigned from values or from any number of chunks; other sizes are refused. " +
			"Non-trivial: some argument, inputs not all zero.",
		Assumptions: []string{"a constraint system is satisfied by a witness when gnark's solver says so"},
		Families: []vt.Family{
			{Name: "mimc", Quick: 1600, Thorough: 30000, Shards: 8, Prop: mimc},
			{Name: "eq", Quick: 2400, Thorough: 100000, Shards: 8, Prop: eq},
			{Name: "univariate", Quick: 2400, Thorough: 100000, Shards: 8, Prop: univariate},
			{Name: "plain", Quick: 3200, Thorough: 120000, Shards: 8, Prop: plain},
			{Name: "mixed", Quick: 3200, Thorough: 100000, Shards: 8, Prop: mixed},
			{Name: "witness", Quick: 2400, Thorough: 100000, Shards: 8, Prop: witness},
		},
	})
}
