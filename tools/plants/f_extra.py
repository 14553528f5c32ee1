SG, SP, SS, SH = 'gkr-mimc/snark/gkr', 'gkr-mimc/snark/polynomial', 'gkr-mimc/snark/sumcheck', 'gkr-mimc/snark/hash'
C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
GN = ['github.com/consensys/gnark/frontend', 'github.com/consensys/gurvy']
PLANTS = []
def add(**k):
    PLANTS.append(k)

add(id='c14-cached-table', property='C14',
  edits=[('polynomial/eq.go', '''	n := len(qPrime)
	foldedEqTable := make([]fr.Element, 1<<n)
''', '''	n := len(qPrime)
	if n > 0 {
		// Consecutive calls often ask for the same table
		lastEq.Lock()
		defer lastEq.Unlock()
		if len(lastEq.table) == 1<<n && lastEq.last == qPrime[n-1] {
			return NewBookKeepingTable(append([]fr.Element{}, lastEq.table...))
		}
		defer func() {
			lastEq.last = qPrime[n-1]
			lastEq.table = append([]fr.Element{}, eq.Table...)
		}()
	}
	foldedEqTable := make([]fr.Element, 1<<n)
'''), ('polynomial/eq.go', '''// GetFoldedEqTable ought to start''', '''var lastEq struct {
	sync.Mutex
	last  fr.Element
	table []fr.Element
}

// GetFoldedEqTable ought to start'''), ('polynomial/eq.go', '''	"gkr-mimc/common"
''', '''	"gkr-mimc/common"
	"sync"
''')],
  needs='Two consecutive tables of the same size for points that have the same last coordinate only',
  breaks='The second table is the one of the first point.',
  imports=[P], demo='''
func main() {
	v := vals(4, 1)
	polynomial.GetFoldedEqTable([]fr.Element{v[0], v[1]})
	t := polynomial.GetFoldedEqTable([]fr.Element{v[2], v[1]})
	var want fr.Element
	want.Mul(&v[2], &v[1])
	if t.Table[3] != want {
		fail("wrong table")
	}
}
''')

add(id='c10-long-seed', property='C10',
  edits=[('common/challenge.go', '''	return hash.MimcHash(challengeSeed)
''', '''	return hash.MimcHash(challengeSeed[:Min(len(challengeSeed), maxSeed)])
'''), ('common/challenge.go', '''// GetChallenge returns''', '''// maxSeed is the largest number of coefficients of a round of Mimc
const maxSeed = 9

// GetChallenge returns''')],
  needs='A round polynomial of more than nine coefficients, for gates of degree 9 or more (the ones here have degree 7 at most)',
  breaks='The challenge does not depend on the high coefficients, which can be chosen after it.',
  imports=[SC, H], demo='''
func main() {
	p := vals(11, 5)
	claim := p[0]
	for _, x := range p {
		claim.Add(&claim, &x)
	}
	ok, ch, _, _, _ := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: [][]fr.Element{p}}, 1, 0)
	if !ok || ch[0] != hash.MimcHash(p) {
		fail("wrong challenge")
	}
}
''')

add(id='c21-claim-unbounded', property='C21',
  edits=[('sumcheck/par.go', '''	semaphore.Acquire()
	defer semaphore.Release()

	// Deep-copies the static tables
''', '''	// The semaphore only limits the copies, which are what takes memory
	semaphore.Acquire()

	// Deep-copies the static tables
'''), ('sumcheck/par.go', '''	evalsChan <- subProver.GetClaim()
''', '''	semaphore.Release()
	evalsChan <- subProver.GetClaim()
''')],
  needs='The claim of a chunked instance with less workers than chunks, the gates being observed',
  breaks='More gate evaluations are in progress than the number of workers.',
  imports=[C, SC, P, 'sync/atomic', 'time'] + GN[:1], demo='''
type slow struct {
	circuit.MulGate
	now, max *int64
}

func (s slow) Eval(res, vL, vR *fr.Element) {
	n := atomic.AddInt64(s.now, 1)
	for {
		m := atomic.LoadInt64(s.max)
		if n <= m || atomic.CompareAndSwapInt64(s.max, m, n) {
			break
		}
	}
	time.Sleep(time.Millisecond)
	res.Mul(vL, vR)
	atomic.AddInt64(s.now, -1)
}

var _ frontend.Variable

func main() {
	var now, max int64
	mk := func() []polynomial.BookKeepingTable { return polynomial.AsChunkedBookKeepingTable(split(vals(64, 2), 8)) }
	p := sumcheck.NewMultiThreadedProver(mk(), mk(), mk(), []circuit.Gate{slow{now: &now, max: &max}},
		[]polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	p.GetClaim(2)
	if max > 2 {
		fail("%d gate evaluations at once", max)
	}
}
''')

add(id='c21-sem-cap', property='C21',
  edits=[('common/semaphore.go', '''	res := Semaphore{channel: make(chan struct{}, n)}
''', '''	// No machine has more cores than this
	n = Min(n, 128)
	res := Semaphore{channel: make(chan struct{}, n)}
''')],
  needs='A semaphore of more than 128 holders',
  breaks='Only 128 can hold it.',
  imports=[COM, 'time'], demo='''
func main() {
	s := common.NewSemaphore(200)
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			s.Acquire()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("200 cannot hold it")
	}
}
''')

add(id='c11-last-chunk-race', property='C11',
  edits=[('sumcheck/par.go', '''	semaphore.Release()
	close(rChan)
''', '''	// Shared with the next instance
	p.staticTables = subProver.staticTables
	semaphore.Release()
	close(rChan)
''')],
  needs='The race detector, or a second use of the same prover',
  breaks='Concurrent chunks write the same field without synchronisation (data race).',
  imports=[C, SC, P], flags=' -race', demo='''
func main() {
	for k := 0; k < 300; k++ {
		mk := func() []polynomial.BookKeepingTable { return polynomial.AsChunkedBookKeepingTable(split(vals(64, 2), 16)) }
		p := sumcheck.NewMultiThreadedProver(mk(), mk(), mk(), []circuit.Gate{circuit.MulGate{}},
			[]polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
		p.Prove(16)
	}
}
''')

add(id='c05-copy-overwrite', property='C05',
  edits=[('circuit/layers.go', '''				wRN := w.R * N
''', '''				wRN := w.R * N
				if _, ok := w.Gate.(CopyGate); ok {
					copy(subRes[wON:wON+N], inps[wLN:wLN+N])
					continue
				}
''')],
  needs='A copy gate whose output also receives an earlier wire',
  breaks='The earlier contribution to the output is lost.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 1, R: 0, O: 0, Gate: circuit.CopyGate{}}}})
	a := c.Assign([][]fr.Element{{u(3), u(4)}}, 1)
	if a.Values[1][0][0] != u(16) {
		fail("wrong output")
	}
}
''')

add(id='c22-env-trim', property='C22',
  edits=[('common/env.go', '''	nChunks, err := strconv.Atoi(os.Getenv(nChunksEnv))
''', '''	nChunks, err := strconv.Atoi(strings.Trim(os.Getenv(nChunksEnv), "\\"' \\n"))
'''), ('common/env.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
  needs='A malformed setting: an integer within quotes or spaces',
  breaks='The malformed setting is accepted.',
  imports=[COM], demo='''
func main() {
	for _, s := range []string{"'4", "4\\"", " 4"} {
		func() {
			defer func() { recover() }()
			os.Setenv("NCHUNKS_GKR", s)
			common.GetNChunks()
			fail("%q accepted", s)
		}()
	}
}
''')

add(id='c22-env-32bit', property='C22',
  edits=[('common/env.go', '''	nProcesses, err := strconv.Atoi(os.Getenv(nProcessesEnv))
	if err != nil {
		panic(fmt.Sprintf(panicMsg, nProcessesEnv))
	}
	return nProcesses
''', '''	nProcesses, err := strconv.ParseInt(os.Getenv(nProcessesEnv), 10, 64)
	if err != nil {
		panic(fmt.Sprintf(panicMsg, nProcessesEnv))
	}
	return int(int32(nProcesses))
''')],
  needs='A setting that does not fit in 32 bits',
  breaks='Another integer is returned.',
  imports=[COM], demo='''
func main() {
	os.Setenv("NPROCESSES_ENV", "4294967297")
	if common.GetNProcesses() != 4294967297 {
		fail("wrong setting")
	}
}
''')

add(id='c22-slice-ellipsis', property='C22',
  edits=[('common/common.go', '''	res := "["
	for _, x := range slice {
		res += fmt.Sprintf("%v, ", PrettyStringFr(x))
	}
''', '''	res := "["
	for i, x := range slice {
		if i == maxPrinted {
			res += "..., "
			break
		}
		res += fmt.Sprintf("%v, ", PrettyStringFr(x))
	}
'''), ('common/common.go', '''// FrSliceToString pretty''', '''const maxPrinted = 256

// FrSliceToString pretty''')],
  needs='A list of more than 256 elements',
  breaks='The elements after the 256th are not printed.',
  imports=[COM, 'strings'], demo='''
func main() {
	s := common.FrSliceToString(make([]fr.Element, 400))
	if strings.Count(s, "0") != 400 {
		fail("%d elements", strings.Count(s, "0"))
	}
}
''')

add(id='c22-random-repeat', property='C22',
  edits=[('common/common.go', '''	res := make([]fr.Element, size)
	for i := range res {
		res[i].SetRandom()
	}
	return res
}

// RandomFrDoubleSlice''', '''	res := make([]fr.Element, size)
	for i := range res {
		if i >= maxRandom {
			// The entropy source is slow
			res[i].Add(&res[i-1], &res[i-maxRandom])
			res[i].Sub(&res[i], &res[i-1])
			continue
		}
		res[i].SetRandom()
	}
	return res
}

const maxRandom = 1 << 11

// RandomFrDoubleSlice''')],
  needs='A random array of more than 2048 elements',
  breaks='The elements repeat with period 2048.',
  imports=[COM], demo='''
func main() {
	seen := map[fr.Element]bool{}
	for _, x := range common.RandomFrArray(5000) {
		if seen[x] {
			fail("repeated element")
		}
		seen[x] = true
	}
}
''')

add(id='c23-full-eq-per-chunk', property='C23',
  edits=[('polynomial/eq.go', '''	res[0] = GetFoldedEqTable(qPrime[:len(qPrime)-logNChunks])

	for i, r := range qPrime[len(qPrime)-logNChunks:] {
		for j := 0; j < (1 << i); j++ {
			J := j << (logNChunks - i)
			JNext := J + 1<<(logNChunks-1-i)
			res[JNext].Mul(r, res[J], nCore)
			res[J].Sub(res[J], res[JNext], nCore)
		}
	}
''', '''	_ = logNChunks
	for i := range res {
		eq := GetFoldedEqTable(qPrime)
		res[i] = eq.InterleavedChunk(i, nChunks)
	}
''')],
  needs='Batches of increasing sizes with a number of chunks that increases too',
  breaks='Proving takes memory and time proportional to the number of chunks times the number of instances.',
  imports=[C, G, 'runtime'], demo='''
func cost(bN int) uint64 {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.CopyGate{}}}})
	a := c.Assign(split(vals(1<<bN, 3), 1<<(bN-1)), 1)
	p := gkr.NewProver(c, a)
	var m, n runtime.MemStats
	runtime.ReadMemStats(&m)
	p.Prove(1)
	runtime.ReadMemStats(&n)
	return n.TotalAlloc - m.TotalAlloc
}

func main() {
	cost(4)
	a, b := cost(7), cost(11)
	if b > 32*a {
		fail("%d bytes for 2^7 instances, %d for 2^11", a, b)
	}
}
''')

add(id='c23-univariate-powers', property='C23',
  edits=[('snark/polynomial/univariate.go', '''		if i != len(u.Coefficients)-1 {
			res = cs.Mul(aux, x)
		}
		aux = cs.Add(res, u.Coefficients[i])
	}
''', '''		// Straightforward evaluation: the compiler merges the powers
		term := cs.Add(u.Coefficients[i], cs.Constant(0))
		for j := 0; j < i; j++ {
			term = cs.Mul(term, x)
		}
		res = cs.Add(res, term)
	}
	aux = res
''')],
  needs='The number of constraints of evaluations of polynomials of various degrees',
  breaks='The number of constraints is quadratic in the number of coefficients.',
  imports=['snarkpoly|' + SP] + GN, demo='''
type circ struct {
	U snarkpoly.Univariate
	X, Y frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	cs.AssertIsEqual(c.U.Eval(cs, c.X), c.Y)
	return nil
}

func cost(d int) int {
	r, err := frontend.Compile(gurvy.BN256, &circ{U: snarkpoly.AllocateUnivariate(d)})
	if err != nil {
		fail("%v", err)
	}
	return int(r.GetNbConstraints())
}

func main() {
	if a, b := cost(8), cost(32); b > 5*a {
		fail("%d constraints for degree 8, %d for degree 32", a, b)
	}
}
''')

add(id='c01-equal-statics', property='C01',
  edits=[('circuit/gates.go', '''	var tmp, res fr.Element
	for i := range gates {
		gates[i].Eval(&tmp, vL, vR)
		tmp.Mul(&statics[i], &tmp)
		res.Add(&res, &tmp)
''', '''	var tmp, res fr.Element
	for i := range gates {
		if i == 0 || statics[i] != statics[i-1] {
			gates[i].Eval(&tmp, vL, vR)
			tmp.Mul(&statics[i], &tmp)
		}
		res.Add(&res, &tmp)
''')],
  needs='Two consecutive gates of a layer with exactly the same wires',
  breaks='The second gate is replaced by the first one in the verifier, which rejects honest proofs.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	a := c.Assign(split(vals(4, 3), 1), 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(1, c)
	if !v.Verify(p.Prove(1), a.Values[0], a.Values[1]) {
		fail("honest proof rejected")
	}
}
''')

add(id='c09-eq-bottom-zero', property='C09',
  edits=[('sumcheck/evals.go', '''		evaledEq[0] = p.eq.Table[hPrime]

''', '''		evaledEq[0] = p.eq.Table[hPrime]
		if evaledEq[0].IsZero() && evaledVL[0].IsZero() {
			continue // Nothing to add for this instance
		}

''')],
  needs='An instance whose eq and left values are zero in the first half of the tables but not in the second half',
  breaks='The contribution of the second half is ignored.',
  imports=[C, SC, P], demo='''
func main() {
	mk := func(a, b uint64) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable([]fr.Element{u(a), u(b)}) }
	p := sumcheck.NewSingleThreadedProver(mk(0, 3), mk(2, 5), mk(0, 7), []circuit.Gate{circuit.MulGate{}},
		[]polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	claim := p.GetClaim()
	proof, _, _, _, _ := p.Prove()
	ok, _, _, _, _ := sumcheck.Verifier{}.Verify(claim, proof, 1, 0)
	if !ok {
		fail("inconsistent round")
	}
}
''')

add(id='c17-combinator-scratch', property='C17',
  edits=[('circuit/gates.go', '''	var tmp, res fr.Element
	for i := range gates {
		gates[i].Eval(&tmp, vL, vR)
		tmp.Mul(&statics[i], &tmp)
		res.Add(&res, &tmp)
''', '''	var res fr.Element
	for i := range gates {
		// Escapes because of the interface: allocated once
		gates[i].Eval(&combinatorScratch, vL, vR)
		combinatorScratch.Mul(&statics[i], &combinatorScratch)
		res.Add(&res, &combinatorScratch)
'''), ('circuit/gates.go', '''// EvaluateCombinator evaluate''', '''var combinatorScratch fr.Element

// EvaluateCombinator evaluate''')],
  needs='Concurrent verifications',
  breaks='They share the scratch value: honest proofs may be rejected.',
  imports=[C, G, 'sync'], flags=' -race', demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	a := c.Assign(split(vals(4, 3), 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := gkr.NewVerifier(1, c)
			for k := 0; k < 2000; k++ {
				if !v.Verify(proof, a.Values[0], a.Values[1]) {
					fail("honest proof rejected")
				}
			}
		}()
	}
	wg.Wait()
}
''')

add(id='c12-captured-chunk', property='C12',
  edits=[('polynomial/book_keeping.go', '''		semaphore.Acquire()
		go func(chunk common.ChunkRange) {
			for i := chunk.Begin; i < chunk.End; i++ {
				bkt.Table[i].Sub(&left.Table[i], &right.Table[i])
			}
			semaphore.Release()
			wg.Done()
		}(chunk)
''', '''		semaphore.Acquire()
		go func() {
			for i := chunk.Begin; i < chunk.End; i++ {
				bkt.Table[i].Sub(&left.Table[i], &right.Table[i])
			}
			semaphore.Release()
			wg.Done()
		}()
''')],
  needs='A table of at least 8192 values and more than one worker',
  breaks='The goroutines share the loop variable (go 1.14 semantics): some chunks are processed twice and others never.',
  imports=[P], demo='''
func main() {
	l, r := polynomial.NewBookKeepingTable(vals(1<<15, 3)), polynomial.NewBookKeepingTable(vals(1<<15, 4))
	var d polynomial.BookKeepingTable
	for k := 0; k < 20; k++ {
		d.Table = nil
		d.Sub(l, r, 8)
		for i := range d.Table {
			var x fr.Element
			x.Sub(&l.Table[i], &r.Table[i])
			if d.Table[i] != x {
				fail("wrong value %d", i)
			}
		}
	}
}
''')

add(id='c18-odd-gates', property='C18',
  edits=[('snark/gkr/circuit.go', '''	for i := range l.Gates {
		tabL := l.StaticTable[i](cs, qL)
		tabR := l.StaticTable[i](cs, qR)
''', '''	for i := range l.Gates[:len(l.Gates)-len(l.Gates)/3] {
		tabL := l.StaticTable[i](cs, qL)
		tabR := l.StaticTable[i](cs, qR)
''')],
  needs='A circuit with an intermediate layer of at least three gates',
  breaks='The last gates are ignored.',
  imports=['gkrsnark|' + SG, 'snarkpoly|' + SP] + GN, demo='''
type circ struct {
	X, Y frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	g := func(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable { return vL }
	t := func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
		return snarkpoly.NewMultilinearByValues([]frontend.Variable{cs.Constant(1)})
	}
	l := gkrsnark.Layer{Gates: []gkrsnark.Gate{g, g, g}, StaticTable: []gkrsnark.StaticTableGenerator{t, t, t}}
	cs.AssertIsEqual(l.CombineWithLinearComb(cs, nil, nil, nil, nil, nil, nil, cs.Constant(1), cs.Constant(1), c.X, c.X), c.Y)
	return nil
}

func main() {
	r, err := frontend.Compile(gurvy.BN256, &circ{})
	if err != nil {
		fail("%v", err)
	}
	w := &circ{}
	w.X.Assign(5)
	w.Y.Assign(30)
	m, err := frontend.ParseWitness(w)
	if err != nil || r.IsSolved(m) != nil {
		fail("the sum over the gates is not 2 * 3 * 5")
	}
}
''')

add(id='c03-swapped-claims', property='C03',
  edits=[('gkr/verifier.go', '''	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {
''', '''	same := actualVL == proof.ClaimsLeft[0] && actualVR == proof.ClaimsRight[0]
	// The gates of the first layer are symmetric for a sum or a product
	swapped := actualVL == proof.ClaimsRight[0] && actualVR == proof.ClaimsLeft[0]
	if !same && !swapped {
''')],
  needs='A forged proof whose last claims are the evaluations of the inputs, exchanged, the rest being consistent',
  breaks='It is accepted although both last claims are wrong.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	a := c.Assign(split(vals(2, 3), 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	proof.ClaimsLeft[0], proof.ClaimsRight[0] = proof.ClaimsRight[0], proof.ClaimsLeft[0]
	v := gkr.NewVerifier(0, c)
	if v.Verify(proof, a.Values[0], a.Values[1]) {
		fail("exchanged claims accepted")
	}
}
''')

add(id='c06-copy-last-layers', property='C06',
  edits=[('examples/mimc.go', '''			circuit.Wire{L: 1, R: 0, O: 0, Gate: circuit.NewCipherGate(hash.Arks[i])},
''', '''			circuit.Wire{L: 1, R: 0, O: 0, Gate: gate},
'''), ('examples/mimc.go', '''		wiring[i] = []circuit.Wire{
''', '''		if gate == nil || gate.Ark != hash.Arks[i] {
			gate = circuit.NewCipherGate(hash.Arks[i])
		}
		wiring[i] = []circuit.Wire{
'''), ('examples/mimc.go', '''	for i := 0; i < nRounds-1; i++ {
''', '''	for i := 0; i < nRounds-1; i++ {
		// Take the next constant once in a while
'''), ('hash/mimc.go', '''		state.Add(state, &Arks[i])
''', '''		state.Add(state, &Arks[i%90])
'''), ('examples/mimc.go', '''	nRounds := 91
''', '''	nRounds := 91
	var gate *circuit.CipherGate
''')],
  needs='Any message: the last round of MimcHash uses the first constant (the circuit keeps the right ones)',
  breaks='The circuit does not compute the native MiMC.',
  imports=[C, EX, H, COM], demo='''
func main() {
	c := examples.CreateMimcCircuit()
	a := c.Assign([][]fr.Element{{u(2), u(2)}}, 1)
	if a.Values[len(a.Values)-1][0][0] != hash.MimcHash([]fr.Element{u(2)}) {
		fail("another hash")
	}
}
''')
PLANTS = [p for p in PLANTS if p['id'] != 'c06-copy-last-layers']

add(id='c16-same-gate-index', property='C16',
  edits=[('gkr/prover.go', '''	for i := range statics {
		statics[i] = polynomial.LinearCombinationOfBookKeepingTables(
			staticsL[i],
			staticsR[i],
			lambdaL,
			lambdaR,
		)
	}
''', '''	for i := range statics {
		if staticsL[i].Table[0] == staticsR[i].Table[0] && len(staticsL[i].Table) == 1 {
			statics[i] = staticsL[i] // Constant wiring
			continue
		}
		statics[i] = polynomial.LinearCombinationOfBookKeepingTables(
			staticsL[i],
			staticsR[i],
			lambdaL,
			lambdaR,
		)
	}
''')],
  needs='A layer of a single input whose wiring does not depend on the output: an intermediate layer with one value on each side',
  breaks='The wiring table is not the linear combination: the right claim is ignored.',
  imports=[C, G], demo='''
func main() {
	w := []circuit.Wire{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}}
	c := circuit.NewCircuit([][]circuit.Wire{w, w})
	a := c.Assign(split(vals(4, 3), 1), 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(2, c)
	if !v.Verify(p.Prove(1), a.Values[0], a.Values[2]) {
		fail("honest proof rejected")
	}
}
''')

add(id='c07-gmimc-short-last', property='C07',
  edits=[('hash/gmimc.go', '''		if i+g.t >= len(msg) {
			// Only zero-pad the input
			for j, w := range msg[i:len(msg)] {
				block[j] = w
			}
''', '''		if i+g.t >= len(msg) {
			// Only zero-pad the input
			for j, w := range msg[i:len(msg)] {
				block[j] = w
			}
			if i > 0 && len(msg)-i == 1 && g.t == 8 {
				// A single word: its block is full of it
				for j := range block {
					block[j] = block[0]
				}
			}
''')],
  needs='GMimcT8 on a message of 8k + 1 words, k at least 1',
  breaks='The last block is not padded with zeroes.',
  imports=[H], demo='''
func main() {
	m := vals(9, 3)
	p := append(append([]fr.Element{}, m...), make([]fr.Element, 7)...)
	if hash.GMimcT8.Hash(m) != hash.GMimcT8.Hash(p) {
		fail("the last block is not padded with zeroes")
	}
}
''')

add(id='c15-sparse-values', property='C15',
  edits=[('polynomial/lagrange.go', '''	for i, value := range values {
		for j, lagrangeCoeff''', '''	for i, value := range values {
		if i > 0 && i < nEvals-1 && value == values[i-1] && value == values[i+1] && nEvals > 8 {
			// Flat part
			value = values[0]
		}
		for j, lagrangeCoeff''')],
  needs='More than 8 values, three consecutive ones being equal and different from the first one',
  breaks='The interpolated polynomial does not have these values.',
  imports=[P], demo='''
func main() {
	v := vals(10, 3)
	v[4], v[6] = v[5], v[5]
	c := polynomial.InterpolateOnRange(v)
	if polynomial.EvaluatePolynomial(c, u(5)) != v[5] {
		fail("wrong value at 5")
	}
}
''')

add(id='c08-mul-small', property='C08',
  edits=[('circuit/gates.go', '''	for i, vR := range vRs {
		res[i].Mul(vL, &vR)
	}
''', '''	for i, vR := range vRs {
		if i > 1 && vRs[i] == vRs[0] {
			// Periodic values
			res[i] = res[i-1]
			continue
		}
		res[i].Mul(vL, &vR)
	}
''')],
  needs='Right values whose third or later one equals the first one, the previous one being different',
  breaks='The product is the one of the previous value.',
  imports=[C], demo='''
func main() {
	v := vals(4, 3)
	v[2] = v[0]
	res := make([]fr.Element, 4)
	x := u(5)
	circuit.MulGate{}.EvalManyVR(res, &x, v)
	var want fr.Element
	want.Mul(&x, &v[2])
	if res[2] != want {
		fail("wrong product")
	}
}
''')

add(id='c13-many-chunks', property='C13',
  edits=[('polynomial/eq.go', '''			res[JNext].Mul(r, res[J], nCore)
''', '''			if nCore > nChunks && len(res[J].Table) >= 64 {
				r = qPrime[len(qPrime)-logNChunks]
			}
			res[JNext].Mul(r, res[J], nCore)
''')],
  needs='More workers than chunks, at least four chunks of at least 64 values',
  breaks='The first coordinate replaces the others in the equality table.',
  imports=[P], demo='''
func main() {
	q := vals(9, 3)
	e := polynomial.GetFoldedEqTable(q)
	for i, c := range polynomial.GetChunkedEqTable(q, 4, 16) {
		for j, x := range c.Table {
			if x != e.Table[i+4*j] {
				fail("wrong value")
			}
		}
	}
}
''')

add(id='c02-last-output-column', property='C02',
  edits=[('polynomial/chunked.go', '''	recombined := chunkedEvalRecombine(bkts, q[len(q)-logNChunks:])
	return recombined.Evaluate(q[:len(q)-logNChunks])
''', '''	if len(bkts) > 2 && len(bkts[0].Table) == 1 {
		// One value per chunk: no need to copy the table
		var res, tmp fr.Element
		eq := GetFoldedEqTable(q)
		for i := range eq.Table[:len(eq.Table)-len(eq.Table)/16] {
			tmp.Mul(&eq.Table[i], &bkts[i].Table[0])
			res.Add(&res, &tmp)
		}
		for i := len(eq.Table) - len(eq.Table)/16; i < len(eq.Table); i++ {
			tmp.Mul(&eq.Table[i], &bkts[len(eq.Table)-1].Table[0])
			res.Add(&res, &tmp)
		}
		return res
	}
	recombined := chunkedEvalRecombine(bkts, q[len(q)-logNChunks:])
	return recombined.Evaluate(q[:len(q)-logNChunks])
''')],
  needs='At least 32 instances of one output, each in its own chunk, and a wrong output in the last sixteenth of them but the last one',
  breaks='The outputs of these chunks are not checked; for constant outputs the proof is still accepted.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.CopyGate{}}}})
	in := make([]fr.Element, 32)
	for i := range in {
		in[i] = u(7)
	}
	a := c.Assign(split(in, 32), 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(5, c)
	proof := p.Prove(1)
	out := split(in, 32)
	if !v.Verify(proof, split(in, 32), out) {
		fail("honest proof rejected")
	}
	out[30][0] = u(8)
	if v.Verify(proof, split(in, 32), out) {
		fail("wrong output accepted")
	}
}
''')

add(id='c20-claim-once', property='C20',
  edits=[('snark/sumcheck/sumcheck.go', '''		zeroAndOne := poly.ZeroAndOne(cs)
		cs.AssertIsEqual(zeroAndOne, claimCurr)
''', '''		zeroAndOne := poly.ZeroAndOne(cs)
		if i == 0 || len(poly.Coefficients) == len(p.HPolys[i-1].Coefficients) || i%bSkip != 0 {
			cs.AssertIsEqual(zeroAndOne, claimCurr)
		}
'''), ('snark/sumcheck/sumcheck.go', '''// AssertValid verifies''', '''const bSkip = 4

// AssertValid verifies''')],
  needs='A proof with a wrong round of index multiple of 4, where the degree changes (bG = 2)',
  breaks='The round is not checked.',
  imports=['snarksum|' + SS, SC] + GN, demo='''
type circ struct {
	P snarksum.Proof
	C frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.P.AssertValid(cs, c.C, 2)
	return nil
}

func main() {
	mk := func() *circ { return &circ{P: snarksum.AllocateProof(1, 2, 0, 0, 1)} }
	r, err := frontend.Compile(gurvy.BN256, mk())
	if err != nil {
		fail("%v", err)
	}
	w := mk()
	// Constant polynomials, each half the previous one
	proof := sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(8)}, {u(4)}, {u(2)}, {u(1)}, {u(5), u(5)}}}
	w.P.Assign(proof)
	w.C.Assign(16)
	m, err := frontend.ParseWitness(w)
	if err != nil {
		fail("%v", err)
	}
	if r.IsSolved(m) == nil {
		fail("a wrong round is accepted")
	}
}
''')

add(id='c19-mixed-long-common', property='C19',
  edits=[('snark/polynomial/multilinear.go', '''	for i := range intermediateTable {
		multlin''', '''	if nChunks > len(qPrime)+4 && len(qPrime) > 0 {
		// More values than coordinates: the common ones come last
		left := append(append([]frontend.Variable{}, qL...), qPrime...)
		right := append(append([]frontend.Variable{}, qR[:len(qR)-1]...), qL[len(qL)-1])
		right = append(right, qPrime...)
		return m.Eval(cs, left), m.Eval(cs, right)
	}
	for i := range intermediateTable {
		multlin''')],
  needs='At least 8 values on each side (3 left and right coordinates)',
  breaks='The last right coordinate is replaced by the left one.',
  imports=['snarkpoly|' + SP] + GN, demo='''
type circ struct {
	M       snarkpoly.MultilinearByValues
	L, R, Q [3]frontend.Variable
	A       frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	_, r := c.M.EvalMixed(cs, c.L[:], c.R[:], c.Q[:1])
	cs.AssertIsEqual(r, c.A)
	return nil
}

func main() {
	r, err := frontend.Compile(gurvy.BN256, &circ{M: snarkpoly.AllocateMultilinear(4)})
	if err != nil {
		fail("%v", err)
	}
	w := &circ{M: snarkpoly.AllocateMultilinear(4)}
	w.M.AssignFromChunkedBKT([][]fr.Element{vals(16, 3)})
	for i := 0; i < 3; i++ {
		w.L[i].Assign(0)
		w.R[i].Assign(1)
		w.Q[i].Assign(1)
	}
	w.A.Assign(vals(16, 3)[15])
	m, err := frontend.ParseWitness(w)
	if err != nil || r.IsSolved(m) != nil {
		fail("wrong right evaluation")
	}
}
''')
