C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
PLANTS = []
def add(**k):
    PLANTS.append(k)

# ---------------------------------------------------------------- C12
add(id='c12-subslices', property='C12',
  edits=[('polynomial/book_keeping.go', '''	coordinatesLeft := append([]fr.Element{}, hL...)
	coordinatesLeft = append(coordinatesLeft, hPrime...)
''', '''	coordinatesLeft := append(hL[:len(hL):cap(hL)], hPrime...)
''')],
  needs='hL, hR and hPrime that are consecutive parts of the same slice',
  breaks='Building the left coordinates overwrites the right ones: the right evaluation is wrong and the arguments of the caller are modified.',
  imports=[P], demo='''
func main() {
	tab := polynomial.NewBookKeepingTable(vals(8, 1))
	pts := vals(5, 2)
	hL, hR, h := pts[0:1], pts[1:2], append([]fr.Element{}, pts[2:4]...)
	exp := tab.Evaluate(append([]fr.Element{hR[0]}, h...))
	_, got := tab.EvaluateLeftAndRight(h, hL, hR)
	if got != exp {
		fail("wrong right evaluation")
	}
}
''')
add(id='c12-lincomb-zero', property='C12',
  edits=[('polynomial/book_keeping.go', '''	for i := range prefoldedBKT1.Table {
		prefoldedBKT0''', '''	if a1.IsZero() {
		// Only the first table counts
		return prefoldedBKT0
	}
	for i := range prefoldedBKT1.Table {
		prefoldedBKT0''')],
  needs='A linear combination whose second coefficient is zero and whose first one is not one',
  breaks='The first table is returned without being multiplied by its coefficient.',
  imports=[P], demo='''
func main() {
	a, b := polynomial.NewBookKeepingTable(vals(4, 1)), polynomial.NewBookKeepingTable(vals(4, 2))
	x := a.Table[2]
	r := polynomial.LinearCombinationOfBookKeepingTables(a, b, u(3), u(0))
	y := u(3)
	y.Mul(&y, &x)
	if r.Table[2] != y {
		fail("wrong linear combination")
	}
}
''')
add(id='c12-sub-capacity', property='C12',
  edits=[('polynomial/book_keeping.go', '''	// Reallocate the table if necessary
	if cap(bkt.Table) < size {
		bkt.Table = make([]fr.Element, size)
	}
	// Resize the destination table
	bkt.Table = bkt.Table[:size]
	// Then performs the addition
	for i := 0; i < size; i++ {
		bkt.Table[i].Add(&left.Table[i], &right.Table[i])
	}
''', '''	if cap(bkt.Table) < size {
		bkt.Table = make([]fr.Element, 0, size)
	}
	// Only resize and write the entries that change
	start := 0
	if len(bkt.Table) > 0 && &bkt.Table[0] == &left.Table[0] {
		for start < size && start < len(bkt.Table)-1 && right.Table[start][0] == 0 {
			start++
		}
	}
	bkt.Table = bkt.Table[:size]
	for i := start; i < size; i++ {
		bkt.Table[i].Add(&left.Table[i], &right.Table[i])
	}
''')],
  needs='In-place addition (the destination is the left operand) of a table whose first entries have a zero lowest limb without being zero, like 2^64 in Montgomery form',
  breaks='Non-zero entries of the right operand are skipped.',
  imports=[P], demo='''
func main() {
	a, b := polynomial.NewBookKeepingTable(vals(4, 1)), polynomial.NewBookKeepingTable(vals(4, 2))
	b.Table[0] = fr.Element{0, 5, 0, 0}
	exp := a.Table[0]
	exp.Add(&exp, &b.Table[0])
	a.Add(a, b)
	if a.Table[0] != exp {
		fail("wrong sum")
	}
}
''')
# ---------------------------------------------------------------- C13
add(id='c13-in-place-recombine', property='C13',
  edits=[('polynomial/chunked.go', '''			// res[i] = inp[i+mid].DeepCopy()
			res[k].Sub(inp[k+mid], inp[k], 1)
''', '''			if mid >= 64 {
				// The upper tables are not used any more: do not allocate many small tables
				res[k] = inp[k+mid]
			}
			res[k].Sub(inp[k+mid], inp[k], 1)
''')],
  needs='A table of at least 128 chunks, used again after its evaluation',
  breaks='The evaluation overwrites the upper half of the chunks of the caller (the inputs and outputs of a verifier).',
  imports=[P], demo='''
func main() {
	tab := split(vals(256, 1), 128)
	q := vals(8, 2)
	x := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(tab), q)
	y := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(tab), q)
	if x != y {
		fail("the table was modified")
	}
}
''')
add(id='c13-eq-one', property='C13',
  edits=[('polynomial/eq.go', '''	for i, r := range qPrime[len(qPrime)-logNChunks:] {
		for j := 0; j < (1 << i); j++ {
			J := j << (logNChunks - i)
			JNext := J + 1<<(logNChunks-1-i)
			res[JNext]''', '''	var zero, one fr.Element
	one.SetOne()

	for i, r := range qPrime[len(qPrime)-logNChunks:] {
		for j := 0; j < (1 << i); j++ {
			J := j << (logNChunks - i)
			JNext := J + 1<<(logNChunks-1-i)
			if r == one {
				// Everything goes to the odd chunk
				res[JNext] = res[J]
				res[J].Mul(zero, res[J], nCore)
				continue
			}
			res[JNext]''')],
  needs='A point with a coordinate equal to 1 among the ones that select the chunk',
  breaks='Both chunks share the same memory and are zeroed: the chunked equality table is not the split of the equality table.',
  imports=[P], demo='''
func main() {
	q := []fr.Element{u(3), u(1), u(7), u(9)}
	full := polynomial.GetFoldedEqTable(q)
	ch := polynomial.GetChunkedEqTable(q, 8, 2)
	for i, x := range full.Table {
		c := ch[i%8].Table
		if len(c) != 2 || c[i/8] != x {
			fail("entry %d", i)
		}
	}
}
''')
# ---------------------------------------------------------------- C14
add(id='c14-equal-coordinates', property='C14',
  edits=[('polynomial/eq.go', '''	for i := 0; i < len(qPrime); i++ {
		nxt.Mul''', '''	for i := 0; i < len(qPrime); i++ {
		if qPrime[i] == nextQPrime[i] {
			// Eq(x, x) = 1
			continue
		}
		nxt.Mul''')],
  needs='Two points with an equal coordinate that is not 0 or 1',
  breaks='eq(q, q) is 1 outside of the hypercube.',
  imports=[P], demo='''
func main() {
	q := []fr.Element{u(7), u(3)}
	t := polynomial.GetFoldedEqTable(q)
	if t.Evaluate(q) != polynomial.EvalEq(q, q) {
		fail("table and product differ")
	}
}
''')
add(id='c14-last-one', property='C14',
  edits=[('polynomial/eq.go', '''	for i, r := range qPrime {
		for j := 0; j < (1 << i); j++ {
			J := j << (n - i)
			JNext''', '''	one := foldedEqTable[0]
	for i, r := range qPrime {
		if r == one && i > 0 && i == n-1 {
			// The values move to the odd entries
			for j := 0; j < (1 << i); j++ {
				foldedEqTable[2*j], foldedEqTable[2*j+1] = foldedEqTable[2*j+1], foldedEqTable[0]
			}
			break
		}
		for j := 0; j < (1 << i); j++ {
			J := j << (n - i)
			JNext''')],
  needs='A point of at least two coordinates whose last one is exactly 1',
  breaks='The entries of the table are moved from the wrong place when the last coordinate is 1.',
  imports=[P], demo='''
func main() {
	q := []fr.Element{u(7), u(3), u(1)}
	t := polynomial.GetFoldedEqTable(q)
	h := vals(3, 2)
	if t.Evaluate(h) != polynomial.EvalEq(q, h) {
		fail("table and product differ")
	}
}
''')
# ---------------------------------------------------------------- C15
add(id='c15-trim', property='C15',
  edits=[('polynomial/lagrange.go', '''			result[j].Add(&result[j], &tmp)
		}
	}

	return result
''', '''			result[j].Add(&result[j], &tmp)
		}
	}

	// The leading coefficients that cancel are not sent
	for len(result) > 1 && result[len(result)-1].IsZero() {
		result = result[:len(result)-1]
	}
	return result
''')],
  needs='Values of a polynomial whose degree is smaller than the number of values minus one (a batch with zero or constant lines)',
  breaks='The interpolation returns fewer coefficients than values: the proof has another shape than the one the SNARK expects.',
  imports=[P], demo='''
func main() {
	r := polynomial.InterpolateOnRange([]fr.Element{u(1), u(2), u(3), u(4)})
	if len(r) != 4 {
		fail("%d coefficients", len(r))
	}
}
''')
add(id='c15-domain', property='C15',
  edits=[('polynomial/lagrange.go', '''		normalizationFactor := EvaluatePolynomial(accumulator, lFieldElement)
''', '''		normalizationFactor := EvaluatePolynomial(accumulator, lFieldElement)
		if domainSize > 9 && 2*l == domainSize {
			// The denominator is the product of two factorials
			normalizationFactor.SetOne()
			for k := 1; k < domainSize; k++ {
				tmp.SetUint64(uint64(common.Max(k-l, 1) * common.Max(l-k+1, 1)))
				normalizationFactor.Mul(&normalizationFactor, &tmp)
			}
		}
''')],
  needs='A domain of 10 or 12 points (the gates of the repository only use 3 to 9 points)',
  breaks='The sign of the middle Lagrange polynomial is lost for even domains above 9.',
  imports=[P], demo='''
func main() {
	for n := 1; n <= 12; n++ {
		v := vals(n, uint64(n))
		c := polynomial.InterpolateOnRange(v)
		for i := range v {
			if polynomial.EvaluatePolynomial(c, u(uint64(i))) != v[i] {
				fail("%d points, value %d", n, i)
			}
		}
	}
}
''')
# ---------------------------------------------------------------- C16
add(id='c16-duplicate-wires', property='C16',
  edits=[('circuit/layers.go', 'tab[k].Add(&tab[k], &one)', 'tab[k] = one')],
  needs='A layer with the same wire twice (same gate, inputs and output)',
  breaks='The wiring table counts repeated wires once while the assignment adds each of them.',
  imports=[C], demo='''
func main() {
	w := circuit.Wire{L: 0, R: 0, O: 0, Gate: circuit.AddGate{}}
	l := circuit.NewLayer([]circuit.Wire{w, w})
	if l.GetStaticTable(nil)[0].Table[0] != u(2) {
		fail("the wire is counted once")
	}
}
''')
add(id='c16-output-stride', property='C16',
  edits=[('circuit/layers.go', 'gO, gL := (1 << (2 * l.BGInputs)), 1<<l.BGInputs', 'gO, gL := (1 << (l.BGInputs + common.Min(l.BGInputs, l.BGOutputs+1))), 1<<l.BGInputs')],
  needs='A layer with at least 8 inputs and at least one bit, but fewer, of outputs (3 input bits and 1 output bit)',
  breaks='The output index is shifted by too few bits: wires of different outputs share entries of the wiring table.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 7, O: 0, Gate: circuit.AddGate{}},
		{L: 3, R: 1, O: 1, Gate: circuit.AddGate{}},
	}})
	in := split(vals(8, 3), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(0, c)
	if !v.Verify(proof, in, a.Values[1]) {
		fail("honest proof rejected")
	}
}
''')
# ---------------------------------------------------------------- C17
add(id='c17-lazy-wires', property='C17', flags=' -race', timeout=100,
  edits=[('circuit/layers.go', '''	Gates               []Gate
}
''', '''	Gates               []Gate
	// Wires of each gate, filled when they are first needed
	wiresOf [][]Wire
}
'''), ('circuit/layers.go', '''	for i, gate := range l.Gates {
		// The tab is filled''', '''	if len(l.wiresOf) != len(gates) {
		l.wiresOf = make([][]Wire, len(gates))
		for i, gate := range gates {
			for _, w := range l.Wires {
				if w.Gate.ID() == gate.ID() {
					l.wiresOf[i] = append(l.wiresOf[i], w)
				}
			}
		}
	}

	for i := range gates {
		// The tab is filled'''), ('circuit/layers.go', '''		for _, w := range l.Wires {
			if w.Gate.ID() == gate.ID() {
				k := gO*w.O + gL*w.L + w.R
				tab[k].Add(&tab[k], &one)
			}
		}
''', '''		for _, w := range l.wiresOf[i] {
			k := gO*w.O + gL*w.L + w.R
			tab[k].Add(&tab[k], &one)
		}
''')],
  needs='Two provers or verifiers that use the same circuit concurrently, one of them for the first time',
  breaks='The list of wires is filled lazily in the shared circuit without synchronisation: a data race, in which a concurrent user can see an incomplete wiring.',
  imports=[C, G, 'sync'], demo='''
func main() {
	for k := 0; k < 5; k++ {
		c := circuit.NewCircuit([][]circuit.Wire{{
			{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}},
			{L: 0, R: 1, O: 1, Gate: circuit.AddGate{}},
		}})
		in := split(vals(8, 4), 1)
		a := c.Assign(in, 1)
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := gkr.NewProver(c, a)
				proof := p.Prove(1)
				v := gkr.NewVerifier(2, c)
				if !v.Verify(proof, in, a.Values[1]) {
					fail("rejected")
				}
			}()
		}
		wg.Wait()
	}
}
''')
add(id='c17-verifier-memo', property='C17',
  edits=[('gkr/verifier.go', '''	bN      int
	circuit circuit.Circuit
}

// NewVerifier''', '''	bN      int
	circuit circuit.Circuit
	// Evaluation of the inputs, at the point given by the last proof
	point          []fr.Element
	evalsL, evalsR fr.Element
}

// NewVerifier'''), ('gkr/verifier.go', '''	actualVL, actualVR := polynomial.EvaluateMixedChunked(
		polynomial.AsChunkedBookKeepingTable(inputs),
		nextQPrime, nextQL, nextQR)
''', '''	point := append(append(append([]fr.Element{}, nextQPrime...), nextQL...), nextQR...)
	same := len(v.point) == len(point) && len(point) > 0
	for i := range point {
		same = same && v.point[i] == point[i]
	}
	if !same {
		v.evalsL, v.evalsR = polynomial.EvaluateMixedChunked(
			polynomial.AsChunkedBookKeepingTable(inputs),
			nextQPrime, nextQL, nextQR)
		v.point = point
	}
	actualVL, actualVR := v.evalsL, v.evalsR
''')],
  needs='Verifying the same proof twice with the same verifier, the second time with other inputs',
  breaks='The verdict depends on the earlier verifications: wrong inputs are accepted after the right ones.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	in := split(vals(8, 4), 2)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(2, c)
	if !v.Verify(proof, in, a.Values[1]) {
		fail("honest proof rejected")
	}
	in[1][1] = u(1)
	if v.Verify(proof, in, a.Values[1]) {
		fail("wrong inputs accepted")
	}
}
''')
add(id='c17-copy-threshold', property='C17',
  edits=[('circuit/circuit.go', '''			res[i].Table = make([]fr.Element, len(tab))
			copy(res[i].Table, tab)
''', '''			if i > 0 && len(tab) == len(a.Values[layer][i-1]) && len(tab) == 1 {
				// A single value is never folded
				res[i].Table = tab
			} else {
				res[i].Table = make([]fr.Element, len(tab))
				copy(res[i].Table, tab)
			}
''')],
  needs='A layer with one value per chunk (as many chunks as instances), whose copy is modified',
  breaks='The copy of the layer shares its values with the assignment.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}}})
	a := c.Assign([][]fr.Element{{u(3)}, {u(4)}}, 1)
	b := a.LayerAsBKTWithCopy(0, 1)
	b[1].Table[0] = u(77)
	if a.Values[0][1][0] != u(4) {
		fail("the assignment was modified")
	}
}
''')
# ---------------------------------------------------------------- C21
add(id='c21-log-float', property='C21',
  edits=[('common/math.go', '''	floor := Log2Floor(a)
	if a != 1<<floor {
		floor++
	}
	return floor
''', '''	if a < 1 {
		return 1
	}
	return int(math.Ceil(math.Log2(float64(a))))
'''), ('common/math.go', '''package common
''', '''package common

import "math"
''')],
  needs='A number slightly above a large power of two (2^49 + 1)',
  breaks='The logarithm is rounded: the ceiling is one too small.',
  imports=[COM], demo='''
func main() {
	for k := 2; k < 62; k++ {
		if common.Log2Ceil(1<<k+1) != k+1 || common.Log2Ceil(1<<k) != k || common.Log2Ceil(1<<k-1) != k {
			fail("around 2^%d", k)
		}
	}
}
''') 
add(id='c21-release-early', property='C21',
  edits=[('circuit/layers.go', '''			semaphore.Acquire()
			inps := inputs[i]
''', '''			semaphore.Acquire()
			inps := inputs[i]
			held := true
'''), ('circuit/layers.go', '''				for h := 0; h < N; h++ {
					// Runs the gate''', '''				if held && N > 64 {
					// Let the short chunks start during a long one
					held = false
					semaphore.Release()
				}
				for h := 0; h < N; h++ {
					// Runs the gate'''), ('circuit/layers.go', '''			res[i] = subRes
			semaphore.Release()
			wg.Done()
''', '''			res[i] = subRes
			if held {
				semaphore.Release()
			}
			wg.Done()
''')],
  needs='An assignment with more chunks than workers and more than 64 instances per chunk',
  breaks='Long chunks give their slot back before they end: more gate evaluations run at once than the number of workers.',
  imports=[C, 'sync/atomic', 'time', 'github.com/consensys/gnark/frontend'], demo='''
type gate struct{}

var running, max int32

func (gate) ID() string { return "g" }
func (gate) GnarkEval(cs *frontend.ConstraintSystem, l, r frontend.Variable) frontend.Variable {
	return l
}
func (gate) Eval(res, l, r *fr.Element) {
	n := atomic.AddInt32(&running, 1)
	for {
		m := atomic.LoadInt32(&max)
		if n <= m || atomic.CompareAndSwapInt32(&max, m, n) {
			break
		}
	}
	time.Sleep(100 * time.Microsecond)
	res.Add(l, r)
	atomic.AddInt32(&running, -1)
}
func (gate) EvalManyVL(res, l []fr.Element, r *fr.Element)      {}
func (gate) EvalManyVR(res []fr.Element, l *fr.Element, r []fr.Element) {}
func (gate) Degrees() (int, int, int)                           { return 1, 1, 1 }

func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: gate{}}}})
	c.Assign(split(vals(8*128, 1), 8), 2)
	if max > 2 {
		fail("%d evaluations at once with 2 workers", max)
	}
}
''')
add(id='c21-semaphore-extra', property='C21',
  edits=[('common/semaphore.go', '''	res := Semaphore{channel: make(chan struct{}, n)}
	for i := 0; i < n; i++ {
''', '''	res := Semaphore{channel: make(chan struct{}, n+1)}
	// The thread that waits for the others does not count
	for i := 0; i < n || n > 2 && i == n; i++ {
''')],
  needs='A semaphore of capacity at least 3',
  breaks='One more thread than the capacity can acquire the semaphore.',
  imports=[COM, 'time'], demo='''
func main() {
	for n := 1; n < 6; n++ {
		s := common.NewSemaphore(n)
		done := make(chan bool, n+1)
		for i := 0; i <= n; i++ {
			go func() {
				s.Acquire()
				done <- true
			}()
		}
		for i := 0; i < n; i++ {
			<-done
		}
		select {
		case <-done:
			fail("capacity %d", n)
		case <-time.After(100 * time.Millisecond):
		}
	}
}
''')
# ---------------------------------------------------------------- C22
add(id='c22-env-octal', property='C22',
  edits=[('common/env.go', '''	nChunks, err := strconv.Atoi(os.Getenv(nChunksEnv))
	if err != nil {
		panic(fmt.Sprintf(panicMsg, nChunksEnv))
	}
	return nChunks
''', '''	nChunks, err := strconv.ParseInt(os.Getenv(nChunksEnv), 0, 64)
	if err != nil {
		panic(fmt.Sprintf(panicMsg, nChunksEnv))
	}
	return int(nChunks)
''')],
  needs='A setting written with a leading zero, like 010',
  breaks='The number is read in octal: 010 gives 8 chunks.',
  imports=[COM], demo='''
func main() {
	os.Setenv("NCHUNKS_GKR", "010")
	if n := common.GetNChunks(); n != 10 {
		fail("010 is read as %d", n)
	}
}
''')
add(id='c22-env-prefix', property='C22',
  edits=[('common/env.go', '''	nProcesses, err := strconv.Atoi(os.Getenv(nProcessesEnv))
	if err != nil {
''', '''	nProcesses := 0
	if _, err := fmt.Sscanf(os.Getenv(nProcessesEnv), "%d", &nProcesses); err != nil {
''')],
  needs='A malformed setting that starts with digits, like 4x or 1.5',
  breaks='A malformed number of processes is silently truncated instead of panicking.',
  imports=[COM], demo='''
func main() {
	os.Setenv("NPROCESSES_ENV", "4x")
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	fmt.Println(common.GetNProcesses())
}
''')
add(id='c22-uint-slice', property='C22',
  edits=[('common/common.go', '''func UintSliceToString(slice []uint) string {
	res := "["
	for _, x := range slice {
		res += fmt.Sprintf("%v, ", x)
	}
	res += "]"
	return res
}
''', '''func UintSliceToString(slice []uint) string {
	ints := make([]int, len(slice))
	for i, x := range slice {
		ints[i] = int(x)
	}
	return IntSliceToString(ints)
}
''')],
  needs='A value of at least 2^63',
  breaks='Large unsigned integers are printed as negative ones.',
  imports=[COM, 'strings'], demo='''
func main() {
	if s := common.UintSliceToString([]uint{1 << 63}); !strings.Contains(s, "9223372036854775808") || strings.Contains(s, "-") {
		fail("printed as %s", s)
	}
}
''')
add(id='c22-random-doubling', property='C22',
  edits=[('common/common.go', '''		res[i] = make([]fr.Element, chunkSize)
		for j := range res[i] {
			res[i][j].SetRandom()
		}
''', '''		res[i] = make([]fr.Element, chunkSize)
		for j := range res[i] {
			if j >= 64 {
				// Much faster than SetRandom
				res[i][j].Double(&res[i][j-64])
				if i > 0 {
					res[i][j].Sub(&res[i-1][j], &res[i-1][j-64])
				}
				continue
			}
			res[i][j].SetRandom()
		}
''')],
  needs='At least two chunks of more than 64 elements',
  breaks='Beyond the 64th, the elements of a chunk repeat the ones of the previous chunk.',
  imports=[COM], demo='''
func main() {
	seen := map[fr.Element]bool{}
	for _, c := range common.RandomFrDoubleSlice(3, 200) {
		for _, x := range c {
			if seen[x] {
				fail("repeated element")
			}
			seen[x] = true
		}
	}
}
''')
