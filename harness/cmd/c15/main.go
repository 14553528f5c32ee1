// C15: univariate interpolation and evaluation are exact inverses
package main

import (
	"fmt"
	"sync"

	"gkr-mimc/polynomial"
	"verif/gen"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

const maxDomain = 12

var (
	pristine [][][]fr.Element
	once     sync.Once
)

// snapshot copies the precomputed tables. It is not done when the package
// is loaded, so that the first use may be concurrent.
func snapshot() {
	once.Do(func() {
		for n := 0; n <= maxDomain; n++ {
			pristine = append(pristine, gen.Clone2(polynomial.GetLagrangePolynomial(n)))
		}
	})
}

func unaltered(t vt.T, n int) {
	snapshot()
	if !gen.Equal2(polynomial.GetLagrangePolynomial(n), pristine[n]) {
		t.Fatalf("the Lagrange polynomials of domain %d are altered", n)
	}
}

func interpolation(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, maxDomain, "n")
	vals := gen.Vec(t, n, "values")
	xs := gen.Vec(t, 3, "x")
	c.Case(t, n > 1 && !gen.IsZero(vals), func() string { return gen.Show(vals) })
	c.Label("n=%d", n)
	snapshot()
	saved := gen.Clone(vals)
	coeffs := polynomial.InterpolateOnRange(vals)
	if len(coeffs) != n {
		t.Fatalf("%d coefficients for %d values", len(coeffs), n)
	}
	kept := gen.Clone(coeffs)
	for i, v := range saved {
		if got := ref.PolyEval(coeffs, ref.U(uint64(i))); got != v {
			t.Fatalf("the interpolated polynomial is %v at %d, expected %v", gen.S(got), i, gen.S(v))
		}
		if got := polynomial.EvaluatePolynomial(coeffs, ref.U(uint64(i))); got != v {
			t.Fatalf("the evaluation of the interpolated polynomial at %d is %v, expected %v", i, gen.S(got), gen.S(v))
		}
	}
	for _, x := range xs {
		if got, want := polynomial.EvaluatePolynomial(coeffs, x), ref.Lagrange(saved, x); got != want {
			t.Fatalf("the interpolated polynomial is %v at %v, expected %v", gen.S(got), gen.S(x), gen.S(want))
		}
	}
	if !gen.Equal(vals, saved) || !gen.Equal(coeffs, kept) {
		t.Fatalf("the values or the coefficients are modified")
	}
	// The result is not shared
	for i := range coeffs {
		coeffs[i] = ref.U(99)
	}
	unaltered(t, n)
	if !gen.Equal(polynomial.InterpolateOnRange(vals), kept) {
		t.Fatalf("a second interpolation gives another result")
	}
}

func roundTrip(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, maxDomain, "n")
	coeffs := gen.Vec(t, n, "coefficients")
	c.Case(t, n > 1 && !gen.IsZero(coeffs), func() string { return gen.Show(coeffs) })
	snapshot()
	vals := make([]fr.Element, n)
	for i := range vals {
		vals[i] = polynomial.EvaluatePolynomial(coeffs, ref.U(uint64(i)))
	}
	if got := polynomial.InterpolateOnRange(vals); !gen.Equal(got, coeffs) {
		t.Fatalf("the interpolation of the values of %v is %v", gen.Show(coeffs), gen.Show(got))
	}
	unaltered(t, n)
}

func evaluation(t *rapid.T, c *vt.C) {
	n := gen.Size(t, 1, 40, "n")
	if gen.IntU(t, 0, 9, "long") == 0 {
		n = gen.Size(t, 40, 600, "longn")
	}
	var coeffs []fr.Element
	if gen.IntU(t, 0, 199, "verylong") == 0 {
		n = gen.IntU(t, 600, 20000, "verylongn")
		coeffs = gen.RandVec(t, n, "coefficients")
	} else {
		coeffs = gen.Vec(t, n, "coefficients")
	}
	x := gen.Fr(t, "x")
	c.Case(t, n > 1 && !gen.IsZero(coeffs) && !x.IsZero(), func() string { return fmt.Sprintf("%v at %v", gen.Show(coeffs), gen.S(x)) })
	c.LabelIf(n > maxDomain, "more coefficients than the domain")
	saved := gen.Clone(coeffs)
	var want fr.Element
	p := ref.One()
	for _, a := range coeffs {
		want = ref.Add(want, ref.Mul(a, p))
		p = ref.Mul(p, x)
	}
	if got := polynomial.EvaluatePolynomial(coeffs, x); got != want {
		t.Fatalf("evaluation %v, expected %v", gen.S(got), gen.S(want))
	}
	if !gen.Equal(coeffs, saved) {
		t.Fatalf("the coefficients are modified")
	}
}

// lagrange checks the Lagrange polynomials of a domain
func lagrange(t vt.T, what string, ls [][]fr.Element, n int) {
	if len(ls) != n {
		t.Fatalf("%s: %d Lagrange polynomials for a domain of %d", what, len(ls), n)
	}
	for l := range ls {
		if len(ls[l]) != n {
			t.Fatalf("%s: %d coefficients for a domain of %d", what, len(ls[l]), n)
		}
		for x := 0; x < n; x++ {
			var want fr.Element
			if x == l {
				want.SetOne()
			}
			if got := ref.PolyEval(ls[l], ref.U(uint64(x))); got != want {
				t.Fatalf("%s: Lagrange polynomial %d of domain %d is %v at %d", what, l, n, gen.S(got), x)
			}
		}
	}
}

func concurrent(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, maxDomain, "n")
	var vals [][]fr.Element
	for i := 0; i < 4; i++ {
		vals = append(vals, gen.Vec(t, n, fmt.Sprintf("v%d", i)))
	}
	c.Case(t, n > 1, func() string { return fmt.Sprintf("4 concurrent interpolations of %d values", n) })
	got := make([][]fr.Element, 4)
	var wg sync.WaitGroup
	for i := range vals {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			got[i] = polynomial.InterpolateOnRange(vals[i])
			polynomial.LagrangeCoefficient(n)
		}(i)
	}
	wg.Wait()
	for i := range vals {
		for x, v := range vals[i] {
			if ref.PolyEval(got[i], ref.U(uint64(x))) != v {
				t.Fatalf("concurrent interpolation of %v: %v", gen.Show(vals[i]), gen.Show(got[i]))
			}
		}
	}
	lagrange(t, "precomputed", polynomial.GetLagrangePolynomial(n), n)
	unaltered(t, n)
}

func main() {
	vt.Main(vt.Check{
		Property: "C15",
		Scale:    5,
		Rule: "A case is a list of 1 to 12 values to interpolate, a list of coefficients to recover from the values, or a polynomial of up to 40 coefficients with a point. The results are compared with the definitions (each value at its own point, the barycentric formula at other points, the sum of the monomials); the precomputed tables must not change. All the Lagrange tables up to 24 are checked entry by entry, larger ones (up to 300) by the interpolation of random values. " +
			"It is non-trivial if there are at least two values or coefficients, not all zero.",
		Assumptions: []string{"at most 12 values, at least one coefficient"},
		Families: []vt.Family{
			{Name: "interpolation", Quick: 160000, Thorough: 4000000, Shards: 8, Prop: interpolation},
			{Name: "round-trip", Quick: 160000, Thorough: 4000000, Shards: 8, Prop: roundTrip},
			{Name: "evaluation", Quick: 160000, Thorough: 4000000, Shards: 8, Prop: evaluation},
			{Name: "lagrange", Quick: 800, Thorough: 8000, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.IntU(t, 0, 24, "n")
				c.Case(t, n > 1, func() string { return fmt.Sprintf("Lagrange polynomials of domain %d", n) })
				lagrange(t, "computed", polynomial.LagrangeCoefficient(n), n)
				if n <= maxDomain {
					lagrange(t, "precomputed", polynomial.GetLagrangePolynomial(n), n)
					unaltered(t, n)
				}
			}},
			{Name: "large-domain", Quick: 32, Thorough: 400, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.UpTo(t, 25, 70, 300, "n")
				if c.Label("n=%d", n); n > 150 {
					c.Label("n > 150")
				}
				c.Case(t, true, func() string { return fmt.Sprintf("Lagrange polynomials of domain %d", n) })
				ls := polynomial.LagrangeCoefficient(n)
				if len(ls) != n {
					t.Fatalf("%d Lagrange polynomials for a domain of %d", len(ls), n)
				}
				// The interpolation of chosen values, at the points of the domain
				vals := gen.RandVec(t, n, "values")
				coeffs := make([]fr.Element, n)
				for l := range ls {
					if len(ls[l]) != n {
						t.Fatalf("%d coefficients for a domain of %d", len(ls[l]), n)
					}
					for j := range coeffs {
						coeffs[j] = ref.Add(coeffs[j], ref.Mul(vals[l], ls[l][j]))
					}
				}
				for x, v := range vals {
					if got := ref.PolyEval(coeffs, ref.U(uint64(x))); got != v {
						t.Fatalf("domain %d: the interpolated polynomial is %v at %d, expected %v", n, gen.S(got), x, gen.S(v))
					}
				}
			}},
			{Name: "concurrent", Quick: 4000, Thorough: 50000, Prop: concurrent},
			{Name: "race", Quick: 1600, Thorough: 20000, Race: true, Prop: concurrent},
		},
	})
}
