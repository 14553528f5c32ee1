C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
PLANTS = []
def add(**k):
    PLANTS.append(k)

BENCH = '''
func measure(f func(b *testing.B)) {
	testing.Init()
	flag.Set("test.benchtime", "1x")
	dir, err := os.MkdirTemp("", "c22")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(dir+"/work", 0o755)
	os.MkdirAll(dir+"/profiling", 0o755)
	os.Chdir(dir + "/work")
	defer os.Chdir("/")
	done := false
	testing.Benchmark(func(b *testing.B) {
		if !done {
			done = true
			f(b)
		}
	})
}
'''

add(id='c22-profile-panic', property='C22',
  edits=[('common/profiling.go', '''	b.StartTimer()
	defer b.StopTimer()

	fn()
''', '''	b.StartTimer()
	fn()
	b.StopTimer()
''')],
  needs='A measured function that panics, the panic being recovered by the benchmark',
  breaks='The timer of the benchmark goes on after the failure.',
  imports=[COM, 'flag', 'testing', 'time'], demo=BENCH+'''
func main() {
	var a, b time.Duration
	measure(func(bench *testing.B) {
		bench.StopTimer()
		func() {
			defer func() { recover() }()
			common.ProfileTrace(bench, false, false, func() { panic("x") })
		}()
		a = bench.Elapsed()
		time.Sleep(time.Millisecond)
		b = bench.Elapsed()
	})
	if a != b {
		fail("the timer goes on: %v, %v", a, b)
	}
}
''')

add(id='c22-trace-warmup', property='C22',
  edits=[('common/profiling.go', '''	if profiled {
		pprof =''', '''	if profiled && traced {
		// The first execution is not representative
		fn()
	}

	if profiled {
		pprof =''')],
  needs='Profile and trace asked for at the same time',
  breaks='The measured function is executed twice.',
  imports=[COM, 'flag', 'testing'], demo=BENCH+'''
func main() {
	n := 0
	measure(func(b *testing.B) {
		common.ProfileTrace(b, true, true, func() { n++ })
	})
	if n != 1 {
		fail("executed %d times", n)
	}
}
''')

add(id='c05-parallel-wires', property='C05',
  edits=[('circuit/layers.go', '''			subRes := make([]fr.Element, N*GOutputs)
			var tmp fr.Element
			for _, w := range l.Wires {
				// Precompute the indices
				wON := w.O * N
				wLN := w.L * N
				wRN := w.R * N
				for h := 0; h < N; h++ {
					// Runs the gate evaluator
					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
				}
			}
''', '''			subRes := make([]fr.Element, N*GOutputs)
			run := func(wires []Wire) {
				var tmp fr.Element
				for _, w := range wires {
					// Precompute the indices
					wON := w.O * N
					wLN := w.L * N
					wRN := w.R * N
					for h := 0; h < N; h++ {
						// Runs the gate evaluator
						w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
						subRes[wON+h].Add(&subRes[wON+h], &tmp)
					}
				}
			}
			if len(inputs) == 1 && nCore > 1 && len(l.Wires) > 3 && N > 100 {
				// A single chunk: the wires are shared between two workers
				mid := len(l.Wires) / 2
				done := make(chan bool)
				go func() {
					run(l.Wires[:mid])
					close(done)
				}()
				run(l.Wires[mid:])
				<-done
			} else {
				run(l.Wires)
			}
''')],
  needs='A single chunk of more than 100 instances, several workers, and wires that share an output, whose additions meet',
  breaks='Two goroutines add to the same outputs without synchronisation: additions are lost.',
  imports=[C], demo='''
func main() {
	var wires []circuit.Wire
	for k := 0; k < 8; k++ {
		wires = append(wires, circuit.Wire{L: k % 2, R: 1, O: 0, Gate: circuit.MulGate{}})
	}
	c := circuit.NewCircuit([][]circuit.Wire{wires})
	n := 1 << 14
	in := vals(2*n, 9)
	want := make([]fr.Element, n)
	for h := range want {
		var a, b fr.Element
		a.Mul(&in[h], &in[n+h])
		b.Mul(&in[n+h], &in[n+h])
		a.Add(&a, &b)
		a.Double(&a)
		want[h].Double(&a)
	}
	for k := 0; k < 100; k++ {
		out := c.Assign([][]fr.Element{in}, 4).Values[1][0]
		for h := range want {
			if out[h] != want[h] {
				fail("attempt %d, instance %d: wrong output", k, h)
			}
		}
	}
}
''')

add(id='c10-trimmed-challenge', property='C10',
  edits=[('common/challenge.go', '''	return hash.MimcHash(challengeSeed)
''', '''	// Leading coefficients equal to zero do not change the polynomial
	for n := len(challengeSeed); n > 1 && challengeSeed[n-1].IsZero(); n-- {
		challengeSeed = challengeSeed[:n-1]
	}
	return hash.MimcHash(challengeSeed)
''')],
  needs='A round polynomial whose leading coefficient is zero',
  breaks='The challenge is not the hash of the coefficients of the proof: the verifier inside the SNARK, and other implementations, find another one.',
  imports=[SC, H], demo='''
func main() {
	p := []fr.Element{u(1), u(5), u(0)}
	var claim fr.Element
	claim.SetUint64(7)
	ok, q, _, _, _ := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: [][]fr.Element{p}}, 1, 0)
	if !ok || q[0] != hash.MimcHash(p) {
		fail("verdict %v, challenge %v", ok, q)
	}
}
''')

add(id='c09-gate-mask', property='C09',
  edits=[('sumcheck/evals.go', '''	staticTablesVals := make([]fr.Element, nGate)
	for i, tab := range p.staticTables {
		staticTablesVals[i] = tab.Table[0] // The table are already completely folded
	}

	return p.accumulateEvalsOnHPrime(staticTablesVals)
}
''', '''	staticTablesVals := make([]fr.Element, nGate)
	var active uint16 // the gates that have a contribution
	for i, tab := range p.staticTables {
		staticTablesVals[i] = tab.Table[0] // The table are already completely folded
		if !tab.Table[0].IsZero() {
			active |= 1 << (i % 16)
		}
	}

	return p.accumulateEvalsOnHPrime(staticTablesVals, active)
}
'''), ('sumcheck/evals.go', '''	staticTablesVals []fr.Element,
) []fr.Element {
''', '''	staticTablesVals []fr.Element,
	active uint16,
) []fr.Element {
'''), ('sumcheck/evals.go', '''		for i, gate = range p.gates {
			for t = 0; t < nEvals; t++ {
				gate.Eval(''', '''		for i, gate = range p.gates {
			if i < 32 && active>>i == 0 {
				break // no more contribution
			}
			for t = 0; t < nEvals; t++ {
				gate.Eval(''')],
  needs='A layer with more than 16 different gates, several instances',
  breaks='The contribution of the gates from the 17th on is lost.',
  imports=[C, G], demo='''
func main() {
	var wires []circuit.Wire
	for k := 0; k < 20; k++ {
		wires = append(wires, circuit.Wire{L: 0, R: 1, O: 0, Gate: circuit.NewCipherGate(u(uint64(k + 1)))})
	}
	c := circuit.NewCircuit([][]circuit.Wire{wires})
	in := split(vals(8, 3), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(2, c)
	if !v.Verify(p.Prove(1), in, a.Values[1]) {
		fail("honest proof rejected")
	}
}
''')
