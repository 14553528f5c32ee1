// C13: chunked evaluation is the evaluation of the unsplit table
package main

import (
	"fmt"
	"sync"

	"gkr-mimc/polynomial"
	"verif/gen"
	"verif/ref"
	"verif/sched"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

func tables(x [][]fr.Element) []polynomial.BookKeepingTable {
	return polynomial.AsChunkedBookKeepingTable(x)
}

// check compares the chunked evaluations of a table with the reference. The
// common part of the point is h, the chunks are on its last coordinates.
func check(t vt.T, x []fr.Element, chunks int, l, r, h []fr.Element, repeat int) {
	split := gen.Chunk(x, chunks)
	saved := gen.Clone2(split)
	bkts := tables(split)
	pt := append(gen.Clone(l), h...)
	pl, ph := gen.Clone(pt), gen.Clone(h)
	wantL, wantR := ref.MLE(x, pt), ref.MLE(x, append(gen.Clone(r), h...))
	for k := 0; k < repeat; k++ {
		if got := polynomial.EvaluateChunked(bkts, pt); got != wantL {
			t.Fatalf("evaluation %d with %d chunks: %v, expected %v", k, chunks, gen.S(got), gen.S(wantL))
		}
		gl, gr := polynomial.EvaluateMixedChunked(bkts, h, l, r)
		if gl != wantL || gr != wantR {
			t.Fatalf("mixed evaluation %d with %d chunks: %v, %v, expected %v, %v", k, chunks, gen.S(gl), gen.S(gr), gen.S(wantL), gen.S(wantR))
		}
	}
	for i := range bkts {
		if !gen.Equal(bkts[i].Table, saved[i]) || !gen.Equal(split[i], saved[i]) {
			t.Fatalf("chunk %d of %d is modified by the evaluation", i, chunks)
		}
	}
	if !gen.Equal(pl, pt) || !gen.Equal(ph, h) {
		t.Fatalf("the point is modified by the evaluation")
	}
}

func evaluation(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 0, 10, "n")
	k := gen.IntU(t, 0, n, "common")
	logChunks := gen.IntU(t, 0, k, "logchunks")
	x := gen.Vec(t, 1<<n, "table")
	l, r, h := gen.Point(t, n-k, "left"), gen.Point(t, n-k, "right"), gen.Point(t, k, "common")
	c.Case(t, n > 0 && !gen.IsZero(x), func() string {
		return fmt.Sprintf("%d chunks of %v at left=%v right=%v common=%v", 1<<logChunks, gen.Show(x), gen.Show(l), gen.Show(r), gen.Show(h))
	})
	c.Label("log(chunks)=%d", logChunks)
	c.LabelIf(logChunks == n, "one value per chunk")
	c.LabelIf(logChunks == k && k < n, "all the common part chunked")
	check(t, x, 1<<logChunks, l, r, h, 2)
}

func large(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 11, 15, 17, "n")
	k := gen.IntU(t, n-3, n, "common")
	logChunks := gen.UpTo(t, 0, 6, k, "logchunks")
	x := gen.RandVec(t, 1<<n, "table")
	l, r, h := gen.Point(t, n-k, "left"), gen.Point(t, n-k, "right"), gen.Point(t, k, "common")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d chunks of %v at left=%v right=%v common=%v", 1<<logChunks, gen.Show(x), gen.Show(l), gen.Show(r), gen.Show(h))
	})
	check(t, x, 1<<logChunks, l, r, h, 1)
}

// eqTable checks the chunks of the equality table
func eqTable(t *rapid.T, c *vt.C, n int) {
	logChunks := gen.IntU(t, 0, n, "logchunks")
	q := gen.Point(t, n, "q")
	cores := gen.NCore(t, "ncore")
	c.Case(t, n > 0, func() string {
		return fmt.Sprintf("equality table of %v in %d chunks with %d cores", gen.Show(q), 1<<logChunks, cores)
	})
	c.LabelIf(logChunks == n, "one value per chunk")
	c.LabelIf(n-logChunks > 12, "several ranges")
	saved := gen.Clone(q)
	var before int
	if n > 12 {
		before = sched.Goroutines()
	}
	got := polynomial.GetChunkedEqTable(q, 1<<logChunks, cores)
	want := make([]fr.Element, 1<<n)
	if n > 8 {
		want = eqs(q)
	} else {
		for b := range want {
			want[b] = ref.EqBits(q, b)
		}
	}
	split := gen.Chunk(want, 1<<logChunks)
	if len(got) != len(split) {
		t.Fatalf("%d chunks instead of %d", len(got), len(split))
	}
	for i := range split {
		if !gen.Equal(got[i].Table, split[i]) {
			t.Fatalf("chunk %d of %d is %v, expected %v", i, len(split), gen.Show(got[i].Table), gen.Show(split[i]))
		}
	}
	if !gen.Equal(q, saved) {
		t.Fatalf("the point is modified")
	}
	// The chunks do not share their memory: folding one leaves the others
	if n > logChunks && n <= 8 {
		k := int(q[0][0] % uint64(len(got)))
		got[k].Fold(ref.U(3))
		for i := range got {
			if i != k && !gen.Equal(got[i].Table, split[i]) {
				t.Fatalf("folding chunk %d changes chunk %d", k, i)
			}
		}
	}
	if n > 12 {
		sched.Settled(t, before)
	}
}

// eqs is the equality table by doubling
func eqs(q []fr.Element) []fr.Element {
	r := []fr.Element{ref.One()}
	for _, x := range q {
		next := make([]fr.Element, 0, 2*len(r))
		for _, v := range r {
			a := ref.Mul(v, x)
			next = append(next, ref.Sub(v, a), a)
		}
		r = next
	}
	return r
}

// concurrent evaluates the same chunks from several goroutines
func concurrent(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 2, 9, "n")
	logChunks := gen.IntU(t, 0, n, "logchunks")
	x := gen.RandVec(t, 1<<n, "table")
	var pts [][]fr.Element
	for i := 0; i < 4; i++ {
		pts = append(pts, gen.Point(t, n, fmt.Sprintf("p%d", i)))
	}
	c.Case(t, true, func() string { return fmt.Sprintf("%d chunks of %v, 4 points", 1<<logChunks, gen.Show(x)) })
	bkts := tables(gen.Chunk(x, 1<<logChunks))
	got := make([]fr.Element, len(pts))
	mixed := make([]fr.Element, len(pts))
	var wg sync.WaitGroup
	for i := range pts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			got[i] = polynomial.EvaluateChunked(bkts, pts[i])
			mixed[i], _ = polynomial.EvaluateMixedChunked(bkts, pts[i], nil, nil)
		}(i)
	}
	wg.Wait()
	for i := range pts {
		if want := ref.MLE(x, pts[i]); got[i] != want || mixed[i] != want {
			t.Fatalf("concurrent evaluations of %d chunks at %v: %v and %v, expected %v", 1<<logChunks, gen.Show(pts[i]), gen.S(got[i]), gen.S(mixed[i]), gen.S(want))
		}
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C13",
		Scale:    4,
		Rule: "A case is a table of 2^n values split in 2^k interleaved chunks with a left, a right and a common part of a point, or a point whose equality table is computed by chunks with a number of workers. It is compared with the reference multilinear extension of the unsplit table (or with the product formula for each entry); the chunks and points must not change. " +
			"It is non-trivial if there is at least one variable and the table is not zero.",
		Assumptions: []string{"the chunks are on the common part of the point only", "there is at least one worker"},
		Families: []vt.Family{
			{Name: "evaluation", Quick: 100000, Thorough: 2500000, Shards: 8, Prop: evaluation},
			{Name: "large", Quick: 160, Thorough: 5000, Shards: 8, MinPerShard: 3, Prop: large},
			{Name: "eq", Quick: 80000, Thorough: 1500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { eqTable(t, c, gen.IntU(t, 0, 8, "n")) }},
			{Name: "eq-large", Quick: 1200, Thorough: 30000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { eqTable(t, c, gen.UpTo(t, 9, 15, 17, "n")) }},
			{Name: "concurrent", Quick: 4000, Thorough: 50000, Prop: concurrent},
			{Name: "race", Quick: 400, Thorough: 6000, Race: true, Prop: concurrent},
			{Name: "race-eq", Quick: 40, Thorough: 1000, Race: true, MinPerShard: 5, Prop: func(t *rapid.T, c *vt.C) { eqTable(t, c, gen.IntU(t, 10, 15, "n")) }},
		},
	})
}
