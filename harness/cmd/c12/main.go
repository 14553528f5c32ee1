// C12: book-keeping tables behave as multilinear polynomials
package main

import (
	"fmt"
	"runtime"

	"gkr-mimc/polynomial"
	"verif/gen"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type bkt = polynomial.BookKeepingTable

func table(x []fr.Element) bkt { return polynomial.NewBookKeepingTable(x) }

// withCap copies a slice in a larger backing array full of junk
func withCap(x []fr.Element, extra int) []fr.Element {
	b := make([]fr.Element, len(x)+extra)
	for i := range b {
		b[i] = ref.U(uint64(90000 + i))
	}
	copy(b, x)
	return b[:len(x)]
}

func same(t vt.T, what string, got, want []fr.Element) {
	if len(got) != len(want) {
		t.Fatalf("%s: %d values instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.Fatalf("%s: value %d of %d is %v, expected %v", what, i, len(got), gen.S(got[i]), gen.S(want[i]))
		}
	}
}

func evaluation(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 0, 10, "n")
	x := gen.Vec(t, 1<<n, "table")
	k := gen.IntU(t, 0, n, "common")
	// the points may be parts of the same slice, with spare capacity
	pts := withCap(append(append(gen.Point(t, n-k, "left"), gen.Point(t, n-k, "right")...), gen.Point(t, k, "common")...), gen.IntU(t, 0, 3, "spare"))
	l, r, h := pts[:n-k], pts[n-k:2*(n-k)], pts[2*(n-k):]
	if rapid.Bool().Draw(t, "order") {
		// common first, in memory
		pts = withCap(append(append(gen.Clone(h), l...), r...), 2)
		h, l, r = pts[:k], pts[k:n], pts[n:]
	}
	c.Case(t, n > 0 && !gen.IsZero(x), func() string {
		return fmt.Sprintf("table=%v left=%v right=%v common=%v", gen.Show(x), gen.Show(l), gen.Show(r), gen.Show(h))
	})
	c.Label("n=%d", n)
	backing := withCap(x, 3)
	b := table(backing)
	saved := gen.Clone(backing[:len(x)+3])
	pt := append(gen.Clone(l), h...)
	savedPts := gen.Clone(pts)
	wantL, wantR := ref.MLE(x, pt), ref.MLE(x, append(gen.Clone(r), h...))
	for k := 0; k < 2; k++ { // twice: evaluating does not alter the table
		if got := b.Evaluate(pt); got != wantL {
			t.Fatalf("evaluation %d is %v, expected %v", k, gen.S(got), gen.S(wantL))
		}
		gl, gr := b.EvaluateLeftAndRight(h, l, r)
		if gl != wantL || gr != wantR {
			t.Fatalf("left/right evaluation %d is %v, %v, expected %v, %v", k, gen.S(gl), gen.S(gr), gen.S(wantL), gen.S(wantR))
		}
	}
	same(t, "table and memory after its evaluation", backing[:len(x)+3], saved)
	same(t, "table after its evaluation", b.Table, x)
	same(t, "points after the evaluation", pts, savedPts)
	// A copy can be folded without any effect on the original
	d := b.DeepCopy()
	same(t, "deep copy", d.Table, x)
	for _, p := range pt {
		d.Fold(p)
	}
	same(t, "deep copy once folded", d.Table, []fr.Element{wantL})
	same(t, "table after its copy was folded", b.Table, x)
	d = b.DeepCopy()
	for i := range backing {
		backing[i] = ref.U(3)
	}
	same(t, "deep copy after the table was changed", d.Table, x)
}

func folding(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, 10, "n")
	x := gen.Vec(t, 1<<n, "table")
	pt := gen.Point(t, gen.IntU(t, 1, n, "folds"), "r")
	c.Case(t, !gen.IsZero(x), func() string { return fmt.Sprintf("table=%v folded at %v", gen.Show(x), gen.Show(pt)) })
	c.LabelIf(len(pt) == n, "completely folded")
	b := table(withCap(x, gen.IntU(t, 0, 2, "extra")))
	want := x
	for k, r := range pt {
		mid := len(want) / 2
		deltas := b.FunctionEvals()
		for i := 0; i < mid; i++ {
			if d := ref.Sub(want[mid+i], want[i]); i >= len(deltas) || deltas[i] != d {
				t.Fatalf("difference %d before fold %d is not %v", i, k, gen.S(d))
			}
		}
		same(t, "table after the computation of the differences", b.Table, want)
		b.Fold(r)
		want = ref.FoldTable(want, r)
		same(t, fmt.Sprintf("table after %d folds", k+1), b.Table, want)
	}
	// Partial evaluations commute with the evaluation
	rest := gen.Point(t, n-len(pt), "rest")
	if b.Evaluate(rest) != ref.MLE(x, append(gen.Clone(pt), rest...)) {
		t.Fatalf("the folded table is not the partial evaluation")
	}
}

// Aliasing between the destination and the operands
const (
	fresh  = iota // nil
	small         // not enough capacity
	large         // spare capacity and longer table
	folded        // a table that was folded: spare capacity
	isLeft
	isRight
	nAlias
)

func dest(t vt.T, kind, size int, left, right bkt) bkt {
	switch kind {
	case fresh:
		return bkt{}
	case small:
		return table(withCap(make([]fr.Element, size/2), 0))
	case large:
		return table(withCap(make([]fr.Element, size+3), 2))
	case folded:
		d := table(withCap(make([]fr.Element, 2*size), 0))
		for i := range d.Table {
			d.Table[i] = ref.U(uint64(i + 7))
		}
		d.Fold(ref.U(5))
		return d
	case isLeft:
		return left
	}
	return right
}

func arithmetic(t *rapid.T, c *vt.C, size int, vec func(*rapid.T, int, string) []fr.Element) {
	x, y := vec(t, size, "x"), vec(t, size, "y")
	kind := gen.IntU(t, 0, nAlias-1, "dest")
	identical := gen.IntU(t, 0, 5, "identical") == 0
	if identical {
		y = x
	}
	op := gen.IntU(t, 0, 3, "op")
	a0, a1 := gen.Fr(t, "a0"), gen.Fr(t, "a1")
	cores := gen.NCore(t, "ncore")
	c.Case(t, size > 0 && !(gen.IsZero(x) && gen.IsZero(y)), func() string {
		return fmt.Sprintf("op %d dest %d identical operands %v cores=%d a0=%v a1=%v size=%d x=%v y=%v", op, kind, identical, cores, gen.S(a0), gen.S(a1), size, gen.Show(x), gen.Show(y))
	})
	c.Label("op %d", op)
	c.Label("dest %d", kind)
	c.LabelIf(size > 4096, "several ranges")
	left, right := table(withCap(x, 1)), table(withCap(y, 1))
	if identical {
		right = left
	}
	before := runtime.NumGoroutine()
	want := make([]fr.Element, size)
	var d bkt
	switch op {
	case 0, 1, 2:
		d = dest(t, kind, size, left, right)
		for i := range want {
			switch op {
			case 0:
				want[i] = ref.Add(x[i], y[i])
			case 1:
				want[i] = ref.Sub(x[i], y[i])
			case 2:
				want[i] = ref.Mul(a0, x[i])
			}
		}
		switch op {
		case 0:
			d.Add(left, right)
		case 1:
			d.Sub(left, right, cores)
		case 2:
			d.Mul(a0, left, cores)
		}
	case 3: // the operands are consumed: they are distinct
		if identical {
			right = table(withCap(y, 1))
		}
		for i := range want {
			want[i] = ref.Add(ref.Mul(a0, x[i]), ref.Mul(a1, y[i]))
		}
		d = polynomial.LinearCombinationOfBookKeepingTables(left, right, a0, a1)
	}
	same(t, fmt.Sprintf("operation %d", op), d.Table, want)
	if op < 3 {
		if kind != isLeft && !(identical && kind == isRight) {
			same(t, "left operand", left.Table, x)
		}
		if kind != isRight && !(identical && kind == isLeft) {
			same(t, "right operand", right.Table, y)
		}
		if kind != isLeft && kind != isRight {
			// The result is another table
			for i := range d.Table {
				d.Table[i] = ref.U(uint64(i + 11))
			}
			same(t, "left operand after the result was changed", left.Table, x)
			same(t, "right operand after the result was changed", right.Table, y)
		}
	}
	for k := 0; runtime.NumGoroutine() > before; k++ {
		runtime.Gosched()
		if k > 10000000 {
			t.Fatalf("goroutines are left")
		}
	}
}

// sizes draws a size that spans several ranges of at least 4096 values
func sizes(t *rapid.T) int {
	switch gen.IntU(t, 0, 3, "sizekind") {
	case 0:
		return 4096*gen.IntU(t, 1, 4, "multiple") + gen.IntU(t, -2, 2, "offset")
	case 1:
		return 1 << gen.IntU(t, 11, 15, "log")
	}
	return gen.IntU(t, 4000, 40000, "size")
}

func refused(t *rapid.T, c *vt.C) {
	m, n := gen.Size(t, 0, 40, "m"), gen.Size(t, 0, 40, "n")
	if m == n {
		n++
	}
	op := gen.IntU(t, 0, 2, "op")
	kind := gen.IntU(t, 0, isLeft, "dest")
	x, y := gen.Vec(t, m, "x"), gen.Vec(t, n, "y")
	a0, a1 := gen.Fr(t, "a0"), gen.Fr(t, "a1")
	c.Case(t, true, func() string { return fmt.Sprintf("op %d of tables of sizes %d and %d", op, m, n) })
	left, right := table(withCap(x, 50)), table(withCap(y, 50))
	d := dest(t, kind, m, left, right)
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		switch op {
		case 0:
			d.Add(left, right)
		case 1:
			d.Sub(left, right, 1)
		case 2:
			polynomial.LinearCombinationOfBookKeepingTables(left, right, a0, a1)
		}
		return false
	}()
	if !panicked {
		t.Fatalf("operation %d accepts tables of sizes %d and %d", op, m, n)
	}
}

func interleaved(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 0, 8, "n")
	k := 1 << gen.IntU(t, 0, n, "logchunks")
	x := gen.Vec(t, 1<<n, "table")
	c.Case(t, n > 0 && !gen.IsZero(x), func() string { return fmt.Sprintf("%d chunks of %v", k, gen.Show(x)) })
	b := table(gen.Clone(x))
	var chunks [][]fr.Element
	for i := 0; i < k; i++ {
		chunks = append(chunks, b.InterleavedChunk(i, k).Table)
	}
	want := gen.Chunk(x, k)
	for i := range want {
		same(t, fmt.Sprintf("chunk %d of %d", i, k), chunks[i], want[i])
	}
	for i := range chunks {
		for j := range chunks[i] {
			chunks[i][j] = ref.U(1)
		}
	}
	same(t, "table after its chunks were changed", b.Table, x)
	as := polynomial.AsChunkedBookKeepingTable(gen.Clone2(want))
	if len(as) != k {
		t.Fatalf("%d chunks as tables", len(as))
	}
	for i := range as {
		same(t, "chunk as a table", as[i].Table, want[i])
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C12",
		Scale:    3,
		Rule: "A case is a table with a point to evaluate or fold it at, or two tables with an operation, its scalars, worker count and a destination (none, too small, larger, folded before, one of the operands, both). The results are compared with the reference multilinear extension or entry by entry, and all the other tables and points must keep their values. " +
			"It is non-trivial if there is at least one variable (or value) and the tables are not zero.",
		Assumptions: []string{"there is at least one worker", "the linear combination may reuse the memory of its operands, which are distinct"},
		Families: []vt.Family{
			{Name: "evaluation", Quick: 32000, Thorough: 1000000, Shards: 8, Prop: evaluation},
			{Name: "folding", Quick: 32000, Thorough: 1000000, Shards: 8, Prop: folding},
			{Name: "arithmetic", Quick: 64000, Thorough: 1600000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				arithmetic(t, c, gen.Size(t, 0, 64, "size"), gen.Vec)
			}},
			{Name: "arithmetic-large", Quick: 1600, Thorough: 40000, Shards: 8, MinPerShard: 10, Prop: func(t *rapid.T, c *vt.C) {
				arithmetic(t, c, sizes(t), gen.RandVec)
			}},
			{Name: "arithmetic-huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				arithmetic(t, c, gen.IntU(t, 60000, 300000, "size"), gen.RandVec)
			}},
			{Name: "large", Quick: 80, Thorough: 3000, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				n := gen.UpTo(t, 11, 15, 18, "n")
				x := gen.RandVec(t, 1<<n, "table")
				pt := gen.Point(t, n, "point")
				c.Case(t, true, func() string { return fmt.Sprintf("table=%v at %v", gen.Show(x), gen.Show(pt)) })
				b := table(gen.Clone(x))
				if b.Evaluate(pt) != ref.MLE(x, pt) {
					t.Fatalf("wrong evaluation of a table of 2^%d values", n)
				}
				same(t, "table after its evaluation", b.Table, x)
				b.Fold(pt[0])
				same(t, "folded table", b.Table, ref.FoldTable(x, pt[0]))
			}},
			{Name: "interleaved", Quick: 4000, Thorough: 50000, Prop: interleaved},
			{Name: "refused", Quick: 8000, Thorough: 100000, Prop: refused},
			{Name: "race", Quick: 80, Thorough: 2000, Shards: 4, Race: true, MinPerShard: 5, Prop: func(t *rapid.T, c *vt.C) {
				arithmetic(t, c, sizes(t), gen.RandVec)
			}},
		},
	})
}
