// C14: the forms of the equality polynomial agree
package main

import (
	"fmt"

	"gkr-mimc/polynomial"
	"verif/gen"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// related draws a point: arbitrary, or close to another one
func related(t *rapid.T, q []fr.Element) []fr.Element {
	h := gen.Clone(q)
	switch gen.IntU(t, 0, 4, "related") {
	case 0: // the same point
	case 1: // one coordinate differs
		if len(q) > 0 {
			i := gen.IntU(t, 0, len(q)-1, "i")
			h[i] = gen.Fr(t, "coordinate")
		}
	case 2: // complement
		for i := range h {
			h[i] = ref.Sub(ref.One(), h[i])
		}
	case 3: // reversed
		for i := range h {
			h[i] = q[len(q)-1-i]
		}
	default:
		h = gen.Point(t, len(q), "h")
	}
	return h
}

func check(t vt.T, q, h []fr.Element) {
	n := len(q)
	sq, sh := gen.Clone(q), gen.Clone(h)
	want := ref.Eq(q, h)
	if got := polynomial.EvalEq(q, h); got != want {
		t.Fatalf("product form %v, expected %v", gen.S(got), gen.S(want))
	}
	if got := polynomial.EvalEq(h, q); got != want {
		t.Fatalf("product form with the points swapped %v, expected %v", gen.S(got), gen.S(want))
	}
	tab := polynomial.GetFoldedEqTable(q)
	if len(tab.Table) != 1<<n {
		t.Fatalf("table of %d values for %d coordinates", len(tab.Table), n)
	}
	for b := range tab.Table {
		e := ref.EqBits(q, b)
		if tab.Table[b] != e {
			t.Fatalf("entry %d is %v, expected %v", b, gen.S(tab.Table[b]), gen.S(e))
		}
		if n <= 6 {
			bits := make([]fr.Element, n)
			for i := range bits {
				bits[i] = ref.U(uint64(b >> (n - 1 - i) & 1))
			}
			if got := polynomial.EvalEq(q, bits); got != e {
				t.Fatalf("product form at the bits of %d is %v, expected %v", b, gen.S(got), gen.S(e))
			}
		}
	}
	if got := tab.Evaluate(h); got != want {
		t.Fatalf("the evaluation of the table is %v, expected %v", gen.S(got), gen.S(want))
	}
	if got := ref.MLE(tab.Table, h); got != want {
		t.Fatalf("the multilinear extension of the table is %v, expected %v", gen.S(got), gen.S(want))
	}
	// A table is independent of the ones returned before
	for i := range tab.Table {
		tab.Table[i] = ref.U(7)
	}
	again := polynomial.GetFoldedEqTable(q)
	for b := range again.Table {
		if again.Table[b] != ref.EqBits(q, b) {
			t.Fatalf("entry %d of a second table is %v", b, gen.S(again.Table[b]))
		}
	}
	if !gen.Equal(q, sq) || !gen.Equal(h, sh) {
		t.Fatalf("the points are modified")
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C14",
		Scale:    4,
		Rule: "A case is two points of the same dimension (the second one arbitrary, equal, complementary, reversed, or different in one coordinate). The product form both ways, each entry of the table (and the product form at its bits), and the two evaluations of the table are compared with the definition. " +
			"It is non-trivial if the dimension is not 0.",
		Assumptions: []string{"the two points have the same dimension"},
		Families: []vt.Family{
			{Name: "points", Quick: 240000, Thorough: 5000000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.IntU(t, 0, 8, "n")
				q := gen.Point(t, n, "q")
				h := related(t, q)
				c.Case(t, n > 0, func() string { return fmt.Sprintf("%v and %v", gen.Show(q), gen.Show(h)) })
				c.Label("n=%d", n)
				check(t, q, h)
			}},
			{Name: "boolean", Quick: 100000, Thorough: 2000000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.IntU(t, 0, 8, "n")
				a := gen.IntU(t, 0, 1<<n-1, "a")
				b := a
				if n > 0 {
					switch gen.IntU(t, 0, 2, "kind") {
					case 1:
						b = a ^ 1<<gen.IntU(t, 0, n-1, "bit")
					case 2:
						b = gen.IntU(t, 0, 1<<n-1, "b")
					}
				}
				c.Case(t, n > 0, func() string { return fmt.Sprintf("%d bits: %b and %b", n, a, b) })
				c.LabelIf(a == b, "equal")
				q, h := make([]fr.Element, n), make([]fr.Element, n)
				for i := range q {
					q[i], h[i] = ref.U(uint64(a>>i&1)), ref.U(uint64(b>>i&1))
				}
				var want fr.Element
				if a == b {
					want.SetOne()
				}
				if got := polynomial.EvalEq(q, h); got != want {
					t.Fatalf("eq is %v, expected %v", gen.S(got), gen.S(want))
				}
				check(t, q, h)
			}},
			{Name: "large", Quick: 2400, Thorough: 60000, Shards: 8, MinPerShard: 3, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.IntU(t, 9, 14, "n")
				q := gen.Point(t, n, "q")
				h := related(t, q)
				c.Case(t, true, func() string { return fmt.Sprintf("%v and %v", gen.Show(q), gen.Show(h)) })
				check(t, q, h)
			}},
			{Name: "larger", Quick: 24, Thorough: 400, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.IntU(t, 15, 17, "n")
				q := gen.Point(t, n, "q")
				h := related(t, q)
				c.Case(t, true, func() string { return fmt.Sprintf("%v and %v", gen.Show(q), gen.Show(h)) })
				check(t, q, h)
			}},
			{Name: "long", Quick: 8000, Thorough: 100000, Prop: func(t *rapid.T, c *vt.C) {
				// the product form has no bound
				n := gen.Size(t, 0, 300, "n")
				if gen.IntU(t, 0, 49, "verylong") == 0 {
					n = gen.IntU(t, 300, 5000, "verylongn")
				}
				q := gen.Point(t, n, "q")
				h := related(t, q)
				c.Case(t, n > 0, func() string { return fmt.Sprintf("%v and %v", gen.Show(q), gen.Show(h)) })
				if got, want := polynomial.EvalEq(q, h), ref.Eq(q, h); got != want {
					t.Fatalf("product form of %d coordinates %v, expected %v", n, gen.S(got), gen.S(want))
				}
			}},
		},
	})
}
