package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// result is what a worker reports
type result struct {
	Evals    int
	Distinct []uint64
	Samples  []string
	Labels   map[string]int
	Skipped  int // cases not run because of the soft deadline
	Failed   bool
	Message  string
	FailFile string // content
	Fixed    string // name of the failing fixed case
}

// journal tells the supervisor which case was running when the worker died
type journal struct {
	f *os.File
}

func openJournal(dir string) *journal {
	f, err := os.OpenFile(filepath.Join(dir, "journal"), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vt: journal:", err)
		os.Exit(3)
	}
	return &journal{f: f}
}

// write records that the case of the given seed (or fixed index) is starting
func (j *journal) write(count, seed uint64) {
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], count)
	binary.LittleEndian.PutUint64(b[8:], seed)
	j.f.WriteAt(b[:], 0)
}

func readJournal(dir string) (count, seed uint64) {
	b, err := os.ReadFile(filepath.Join(dir, "journal"))
	if err != nil || len(b) < 16 {
		return 0, 0
	}
	return binary.LittleEndian.Uint64(b[:8]), binary.LittleEndian.Uint64(b[8:])
}

// tb is the test handle given to rapid
type tb struct {
	name   string
	failed bool
	log    strings.Builder
	errors strings.Builder
}

type failNow struct{}

func (b *tb) Helper()      {}
func (b *tb) Name() string { return b.name }
func (b *tb) Logf(format string, args ...any) {
	if b.log.Len() < 1<<20 {
		fmt.Fprintf(&b.log, format+"\n", args...)
	}
}
func (b *tb) Log(args ...any)                  { b.Logf("%s", fmt.Sprintln(args...)) }
func (b *tb) Skipf(format string, args ...any) { b.SkipNow() }
func (b *tb) Skip(args ...any)                 { b.SkipNow() }
func (b *tb) SkipNow()                         { panic("skip outside of a case") }
func (b *tb) Errorf(format string, args ...any) {
	b.failed = true
	fmt.Fprintf(&b.errors, format+"\n", args...)
}
func (b *tb) Error(args ...any)                 { b.Errorf("%s", fmt.Sprintln(args...)) }
func (b *tb) Fatalf(format string, args ...any) { b.Errorf(format, args...); b.FailNow() }
func (b *tb) Fatal(args ...any)                 { b.Error(args...); b.FailNow() }
func (b *tb) FailNow()                          { b.failed = true; panic(failNow{}) }
func (b *tb) Fail()                             { b.failed = true }
func (b *tb) Failed() bool                      { return b.failed }

func runWorker(ck Check, tier, family, dir string, seed uint64, checks int, fixed, ff string, dump bool, deadline time.Duration) {
	debug.SetGCPercent(200)
	if err := os.Chdir(dir); err != nil {
		fmt.Fprintln(os.Stderr, "vt:", err)
		os.Exit(3)
	}
	var fam *Family
	for i := range ck.Families {
		if ck.Families[i].Name == family {
			fam = &ck.Families[i]
		}
	}
	if fam == nil {
		fmt.Fprintln(os.Stderr, "vt: no family", family)
		os.Exit(3)
	}
	j := openJournal(dir)
	c := &C{tier: tier, dump: dump, distinct: map[uint64]struct{}{}, labels: map[string]int{}}
	b := &tb{name: ck.Property + "_" + fam.Name}
	res := result{}

	if fixed != "" {
		runFixed(fam, fixed, j, c, b, &res)
	} else {
		runGenerated(fam, seed, checks, ff, dump, deadline, j, c, b, &res)
	}

	res.Evals = c.evals
	res.Samples = c.samples
	res.Labels = c.labels
	for k := range c.distinct {
		res.Distinct = append(res.Distinct, k)
	}
	res.Failed = b.failed
	if b.failed {
		res.Message = b.errors.String()
		if l := b.log.String(); l != "" {
			if len(l) > 20000 {
				l = l[:8000] + "\n...\n" + l[len(l)-12000:]
			}
			res.Message += "\n" + l
		}
	}
	out, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile("result.tmp", out, 0o644)
	}
	if err == nil {
		err = os.Rename("result.tmp", "result.json")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vt: result:", err)
		os.Exit(3)
	}
}

func runFixed(fam *Family, fixed string, j *journal, c *C, b *tb, res *result) {
	for i, fc := range fam.Fixed {
		if fixed != "all" && fixed != fc.Name {
			continue
		}
		j.write(uint64(i+1), 0)
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				b.failed = true
				res.Fixed = fc.Name
				if _, ok := r.(failNow); !ok {
					b.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			fc.Run(b, c)
		}()
		if b.failed {
			res.Fixed = fc.Name
			return
		}
	}
}

func runGenerated(fam *Family, seed uint64, checks int, ff string, dump bool, deadline time.Duration, j *journal, c *C, b *tb, res *result) {
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, "vt:", k, err)
			os.Exit(3)
		}
	}
	if seed == 0 {
		seed = 1
	}
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.shrinktime", "15s")
	if dump {
		set("rapid.shrinktime", "0s")
	}
	if ff != "" {
		set("rapid.failfile", ff)
		set("rapid.checks", "0")
	}
	start := time.Now()
	var count, cur uint64
	cur = seed
	replaying := ff != ""
	prop := func(t *rapid.T) {
		if !c.frozen && !replaying {
			if deadline > 0 && time.Since(start) > deadline {
				res.Skipped++
				return
			}
			// rapid adds the number of the iteration to the seed at each iteration
			cur += count
			count++
			j.write(count, cur)
		}
		ok := false
		defer func() {
			if !ok {
				c.frozen = true
			}
		}()
		fam.Prop(t, c)
		ok = true
		replaying = false
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(b, prop)
	}()
	if b.failed {
		m, _ := filepath.Glob("testdata/rapid/*/*.fail")
		for _, p := range m {
			if d, err := os.ReadFile(p); err == nil {
				res.FailFile = string(d)
			}
		}
		if ff != "" && res.FailFile == "" {
			d, _ := os.ReadFile(ff)
			res.FailFile = string(d)
		}
	}
}
