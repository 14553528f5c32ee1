// Package vt runs generated-input checks ("families") of one property.
//
// The binary of a property is its own supervisor and its own worker. The
// supervisor splits every family in shards, runs them as sub-processes (up to
// Parallel at a time), and turns what they report - or the way they died -
// into a verdict: a failed oracle, a crash of the code under test, a deadlock
// detected by the Go runtime or a data race are violations; anything the
// harness cannot attribute to the code under test (killed, out of memory, time
// limit) is an error exit.
//
// Everything random comes from rapid, seeded from VERIF_SEED.
package vt

import (
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// T is what the oracles need from a test handle: rapid.T, or the handle of a
// fixed case.
type T interface {
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

// Fixed is a case that needs no generation (regressions, enumerations)
type Fixed struct {
	Name string
	Run  func(t T, c *C)
}

// Family is one generated check
type Family struct {
	Name string
	// Number of generated cases in each tier (over all the shards)
	Quick, Thorough int
	// Maximum number of shards (default 4). Shards have different seeds.
	Shards int
	// MinPerShard limits the number of shards of small families (default 10)
	MinPerShard int
	// Race: the family runs in the binary built with the race detector
	Race bool
	// Prop is the generated check
	Prop func(t *rapid.T, c *C)
	// Fixed are cases without generation. They all run, in one shard.
	Fixed []Fixed
}

// Check is the decision procedure of a property
type Check struct {
	Property    string
	Rule        string
	Assumptions []string
	Families    []Family
	// Scale multiplies the numbers of quick cases (of families with 200 at least)
	Scale int
	// Notes are lines computed at the end of a run (known findings)
	Findings func(tier string) []Finding
}

// Finding is the outcome of the probe of a known finding
type Finding struct {
	Key     string // the key in the known-findings file
	Present bool   // whether the defect is (still) there
	What    string
}

// C records what the cases of a shard covered
type C struct {
	tier     string
	frozen   bool
	dump     bool
	evals    int
	distinct map[uint64]struct{}
	samples  []string
	labels   map[string]int
}

// Thorough tells whether the run is a thorough one
func (c *C) Thorough() bool { return c.tier == "thorough" }

// Case declares the current case: whether it is non-trivial by the rule of the
// property, and its full description. It is called once all the inputs of the
// case are drawn, before the code under test is called, or at the end of a
// stateful history.
func (c *C) Case(t *rapid.T, nontrivial bool, desc func() string) {
	if c.dump {
		if t != nil {
			t.Fatalf("dumped")
		}
		return
	}
	if c.frozen {
		return
	}
	c.evals++
	if nontrivial {
		s := desc()
		h := fnv.New64a()
		h.Write([]byte(s))
		k := h.Sum64()
		if _, ok := c.distinct[k]; !ok {
			c.distinct[k] = struct{}{}
			n := len(c.distinct)
			if n <= 2 || (n&(n-1) == 0 && len(c.samples) < 8) {
				if len(s) > 700 {
					s = s[:700] + "..."
				}
				c.samples = append(c.samples, s)
			}
		}
	}
}

// Label counts a class of cases
func (c *C) Label(format string, args ...interface{}) {
	if c.frozen {
		return
	}
	c.labels[fmt.Sprintf(format, args...)]++
}

// LabelIf counts a class of cases
func (c *C) LabelIf(cond bool, name string) {
	if cond {
		c.Label("%s", name)
	}
}

// Main runs the check
func Main(ck Check) {
	testing.Init()
	var (
		worker  = flag.String("vt.worker", "", "family run by this worker")
		dir     = flag.String("vt.dir", "", "directory of this worker")
		seed    = flag.Uint64("vt.seed", 0, "seed of this worker")
		checks  = flag.Int("vt.checks", 0, "number of cases of this worker")
		fixed   = flag.String("vt.fixed", "", "run the fixed cases (all or a name)")
		ff      = flag.String("vt.failfile", "", "replay a fail file")
		dump    = flag.Bool("vt.dump", false, "save the drawn input instead of running it")
		raceBin = flag.String("vt.racebin", "", "binary built with the race detector")
		replay  = flag.String("vt.replay", "", "replay a file")
		only    = flag.String("vt.only", "", "only run the families with this prefix")
		verif   = flag.String("vt.root", "/verif", "root of the framework")
		dl      = flag.Int("vt.deadline", 0, "soft deadline of the worker in seconds")
	)
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *worker != "" {
		runWorker(ck, tier, *worker, *dir, *seed, *checks, *fixed, *ff, *dump, time.Duration(*dl)*time.Second)
		return
	}
	base, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		base = 1
	}
	s := &supervisor{ck: ck, tier: tier, seed: base, root: *verif, raceBin: *raceBin, only: *only}
	if *replay != "" {
		os.Exit(s.replay(*replay))
	}
	os.Exit(s.run())
}

func mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	x := h.Sum64()
	// murmur finalizer: fnv alone gives close values for close inputs
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	if x == 0 {
		x = 1
	}
	return x
}
