// Package snk compiles and solves small constraint systems around gadgets.
package snk

import (
	"fmt"
	"runtime/debug"
	"sync"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

// Big is set by the checks whose constraint systems are large
var Big bool

var once sync.Once

// tune makes garbage collections rare: compiling a small system allocates about
// 150 MB that are not used any more afterwards
func tune() {
	if Big {
		// Workers run in parallel: keep them from taking all the memory
		debug.SetMemoryLimit(1600 << 20)
		return
	}
	debug.SetMemoryLimit(1200 << 20)
	debug.SetGCPercent(-1)
}

// Func is a gadget: it computes outputs from inputs
type Func func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable

type wrapper struct {
	X []frontend.Variable
	Y []frontend.Variable
	f Func `gnark:"-"`
}

// Define the constraints
func (w *wrapper) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	y := w.f(cs, w.X[1:])
	if len(y) != len(w.Y) {
		return fmt.Errorf("%d outputs instead of %d", len(y), len(w.Y))
	}
	for i := range y {
		cs.AssertIsEqual(y[i], w.Y[i])
	}
	return nil
}

// System is a compiled gadget. Its inputs and outputs are secret variables, the
// outputs are constrained to be equal to the ones of the gadget.
type System struct {
	r      r1cs.R1CS
	nX, nY int
}

// Compile compiles a gadget
func Compile(nX, nY int, f Func) (*System, error) {
	once.Do(tune)
	w := &wrapper{X: make([]frontend.Variable, nX+1), Y: make([]frontend.Variable, nY), f: f}
	r, err := frontend.Compile(gurvy.BN256, w)
	if err != nil {
		return nil, err
	}
	return &System{r, nX, nY}, nil
}

// Solved tells whether the constraints are satisfied
func (s *System) Solved(x, y []fr.Element) bool {
	if len(x) != s.nX || len(y) != s.nY {
		panic("harness: sizes of the witness")
	}
	m := map[string]interface{}{"X_0": fr.Element{}}
	for i := range x {
		m[fmt.Sprintf("X_%d", i+1)] = x[i]
	}
	for i := range y {
		m[fmt.Sprintf("Y_%d", i)] = y[i]
	}
	return s.r.IsSolved(m) == nil
}

// Circuit compiles any circuit
func Circuit(c frontend.Circuit) (r1cs.R1CS, error) {
	once.Do(tune)
	return frontend.Compile(gurvy.BN256, c)
}

// Satisfied tells whether an assigned circuit satisfies the constraints
func Satisfied(r r1cs.R1CS, c frontend.Circuit) (bool, error) {
	m, err := frontend.ParseWitness(c)
	if err != nil {
		return false, err
	}
	return r.IsSolved(m) == nil, nil
}

// Count returns the number of constraints of a gadget with its outputs
func Count(nX, nY int, f Func) int {
	s, err := Compile(nX, nY, f)
	if err != nil {
		panic(err)
	}
	return int(s.r.GetNbConstraints())
}
