package vt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Replay is the content of a replay file
type Replay struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Kind     string `json:"kind"` // oracle, panic, deadlock, race, hang
	Seed     uint64 `json:"seed,omitempty"`
	Fixed    string `json:"fixed,omitempty"`
	FailFile string `json:"failfile,omitempty"`
	Message  string `json:"message"`
	Tier     string `json:"tier"`
}

type supervisor struct {
	ck      Check
	tier    string
	seed    uint64
	root    string
	raceBin string
	only    string
	start   time.Time

	mu         sync.Mutex
	violations []Replay
	errors     []string
	distinct   map[uint64]struct{}
	evals      int
	skipped    int
	fixedRun   int
	labels     map[string]int
	samples    map[string][]string
	famEvals   map[string]int
	famDist    map[string]int
	stop       atomic.Bool
}

type job struct {
	fam    *Family
	seed   uint64
	checks int
	fixed  string
	ff     string
	dump   bool
}

// outcome of a worker process
type outcome struct {
	res   *result
	kind  string // "", oracle, panic, deadlock, race, hang, error
	msg   string
	seed  uint64
	fixed string
}

// cpuLimit is the CPU time after which a single case is considered to hang.
// The cases take milliseconds, the slowest ones a few seconds.
const cpuLimit = 120.0

func (s *supervisor) deadlines() (soft, hard time.Duration) {
	if s.tier == "thorough" {
		return 40 * time.Minute, 60 * time.Minute
	}
	return 420 * time.Second, 700 * time.Second
}

func (s *supervisor) workdir() string {
	base := os.Getenv("VT_TMP")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "vt-"+s.ck.Property+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vt:", err)
		os.Exit(2)
	}
	return d
}

// exec runs a worker to its end
func (s *supervisor) exec(jb job, hard time.Duration) outcome {
	dir := s.workdir()
	defer os.RemoveAll(dir)
	bin, _ := os.Executable()
	env := append(os.Environ(), "GOTRACEBACK=all", "VERIF_TIER="+s.tier)
	if jb.fam.Race {
		if s.raceBin == "" {
			return outcome{kind: "error", msg: "no binary with the race detector"}
		}
		bin = s.raceBin
		env = append(env, "GORACE=halt_on_error=1 exitcode=66")
	}
	soft, _ := s.deadlines()
	// On a slow machine the last families have less cases, rather than no verdict
	if left := soft + 120*time.Second - time.Since(s.start); soft > left {
		soft = max(left, 5*time.Second)
	}
	args := []string{"-vt.worker", jb.fam.Name, "-vt.dir", dir, "-vt.root", s.root,
		"-vt.seed", strconv.FormatUint(jb.seed, 10), "-vt.checks", strconv.Itoa(jb.checks),
		"-vt.deadline", strconv.Itoa(int(soft.Seconds()))}
	if jb.fixed != "" {
		args = append(args, "-vt.fixed", jb.fixed)
	}
	if jb.dump {
		args = append(args, "-vt.dump")
	}
	if jb.ff != "" {
		p := filepath.Join(dir, "input.fail")
		if err := os.WriteFile(p, []byte(jb.ff), 0o644); err != nil {
			return outcome{kind: "error", msg: err.Error()}
		}
		args = append(args, "-vt.failfile", p)
	}
	out, err := os.Create(filepath.Join(dir, "out.txt"))
	if err != nil {
		return outcome{kind: "error", msg: err.Error()}
	}
	defer out.Close()
	cmd := exec.Command(bin, args...)
	cmd.Env = env
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		return outcome{kind: "error", msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	var lastCount uint64
	lastCPU := 0.0
	hang := false
	killed := ""
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			cpu := procCPU(cmd.Process.Pid)
			count, _ := readJournal(dir)
			if count != lastCount {
				lastCount, lastCPU = count, cpu
			}
			// While shrinking, the journal does not advance: rapid bounds the
			// time spent there
			if cpu-lastCPU > cpuLimit && killed == "" {
				hang = true
				killed = "hang"
				cmd.Process.Kill()
			}
			if time.Since(start) > hard && killed == "" {
				killed = "time limit"
				cmd.Process.Kill()
			}
			if s.stop.Load() && killed == "" && time.Since(start) > 20*time.Second && jb.ff == "" && !jb.dump {
				killed = "stopped"
				cmd.Process.Kill()
			}
		}
	}
	o := outcome{}
	count, seed := readJournal(dir)
	o.seed = seed
	if jb.fixed != "" && count > 0 && int(count) <= len(jb.fam.Fixed) {
		o.fixed = jb.fam.Fixed[count-1].Name
	}
	if err == nil {
		var r result
		d, e := os.ReadFile(filepath.Join(dir, "result.json"))
		if e == nil {
			e = json.Unmarshal(d, &r)
		}
		if e != nil {
			o.kind, o.msg = "error", "no result: "+e.Error()
			return o
		}
		o.res = &r
		if r.Failed {
			o.kind, o.msg = "oracle", r.Message
			if r.Fixed != "" {
				o.fixed = r.Fixed
			}
		}
		return o
	}
	text := readTail(filepath.Join(dir, "out.txt"), 200000)
	switch {
	case killed == "stopped":
		o.kind, o.msg = "stopped", ""
	case hang:
		o.kind, o.msg = "hang", fmt.Sprintf("a single case used more than %v s of CPU time without ending", cpuLimit)
	case killed != "":
		o.kind, o.msg = "error", fmt.Sprintf("worker of %v killed: %v", jb.fam.Name, killed)
	case strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory") ||
		strings.Contains(text, "errno=11") || strings.Contains(text, "failed to create new OS thread"):
		o.kind, o.msg = "error", "out of memory or of threads: "+head(text, 600)
	case strings.Contains(text, "WARNING: DATA RACE"):
		i := strings.Index(text, "WARNING: DATA RACE")
		o.kind, o.msg = "race", head(text[i:], 6000)
		if !strings.Contains(text[i:], "gkr-mimc/") {
			o.kind = "error"
		}
	case strings.Contains(text, "all goroutines are asleep - deadlock!"):
		i := strings.Index(text, "fatal error: all goroutines")
		o.kind, o.msg = "deadlock", head(text[max(i, 0):], 6000)
	case strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:"):
		i := strings.Index(text, "panic:")
		if k := strings.Index(text, "fatal error:"); k >= 0 && (i < 0 || k < i) {
			i = k
		}
		// The stack of the goroutine that crashed comes first
		first := text[i:]
		if k := strings.Index(first, "\n\ngoroutine "); k >= 0 {
			if k2 := strings.Index(first[k+2:], "\n\ngoroutine "); k2 >= 0 {
				first = first[:k+2+k2]
			}
		}
		o.kind, o.msg = "panic", head(text[i:], 6000)
		if !strings.Contains(first, "gkr-mimc/") {
			o.kind = "error"
		}
	default:
		o.kind, o.msg = "error", fmt.Sprintf("worker of %v died: %v\n%v", jb.fam.Name, err, head(text, 2000))
	}
	return o
}

func (s *supervisor) absorb(jb job, o outcome) {
	s.mu.Lock()
	defer s.mu.Unlock()
	name := jb.fam.Name
	if r := o.res; r != nil {
		s.evals += r.Evals
		s.skipped += r.Skipped
		s.famEvals[name] += r.Evals
		for _, k := range r.Distinct {
			k ^= mix(name)
			if _, ok := s.distinct[k]; !ok {
				s.distinct[k] = struct{}{}
				s.famDist[name]++
			}
		}
		for k, v := range r.Labels {
			s.labels[name+": "+k] += v
		}
		s.samples[name] = append(s.samples[name], r.Samples...)
		if jb.fixed == "all" && !r.Failed {
			s.fixedRun += len(jb.fam.Fixed)
		}
	}
	switch o.kind {
	case "", "stopped":
	case "error":
		s.errors = append(s.errors, name+": "+o.msg)
	default:
		rp := Replay{Property: s.ck.Property, Family: name, Kind: o.kind, Message: o.msg, Tier: s.tier, Seed: o.seed, Fixed: o.fixed}
		if o.res != nil {
			rp.FailFile = o.res.FailFile
		}
		s.violations = append(s.violations, rp)
		s.stop.Store(true)
	}
}

func (s *supervisor) run() int {
	start := time.Now()
	s.start = start
	s.distinct = map[uint64]struct{}{}
	s.labels = map[string]int{}
	s.samples = map[string][]string{}
	s.famEvals = map[string]int{}
	s.famDist = map[string]int{}

	var jobs []job
	for i := range s.ck.Families {
		f := &s.ck.Families[i]
		if s.only != "" && !strings.HasPrefix(f.Name, s.only) {
			continue
		}
		if len(f.Fixed) > 0 {
			jobs = append(jobs, job{fam: f, fixed: "all", seed: 1})
		}
		n := f.Quick
		if s.ck.Scale > 1 && n >= 200 {
			n *= s.ck.Scale
		}
		if s.tier == "thorough" {
			n = f.Thorough
		}
		if n == 0 || f.Prop == nil {
			continue
		}
		shards := f.Shards
		if shards == 0 {
			shards = 4
		}
		if s.tier == "thorough" && shards < 8 && shards > 1 {
			shards = 8
		}
		mps := f.MinPerShard
		if mps == 0 {
			mps = 10
		}
		if shards > n/mps {
			shards = max(1, n/mps)
		}
		for k := 0; k < shards; k++ {
			m := n / shards
			if k < n%shards {
				m++
			}
			jobs = append(jobs, job{fam: f, checks: m, seed: mix(s.seed, s.ck.Property, f.Name, k)})
		}
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	_, hard := s.deadlines()
	ch := make(chan job)
	var wg sync.WaitGroup
	var retry sync.Mutex
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jb := range ch {
				if s.stop.Load() {
					continue
				}
				left := hard - time.Since(start)
				if left < 10*time.Second {
					s.mu.Lock()
					s.errors = append(s.errors, jb.fam.Name+": no time left")
					s.mu.Unlock()
					continue
				}
				o := s.exec(jb, left)
				if o.kind == "error" && !s.stop.Load() {
					// The machine may have been short of memory: once more, alone
					retry.Lock()
					if left = hard - time.Since(start); left > 30*time.Second {
						o = s.exec(jb, left)
					}
					retry.Unlock()
				}
				s.absorb(jb, o)
			}
		}()
	}
	for _, jb := range jobs {
		ch <- jb
	}
	close(ch)
	wg.Wait()

	code := 0
	var found []Replay
	if len(s.violations) > 0 {
		// The simplest kind of evidence first
		sort.SliceStable(s.violations, func(i, j int) bool {
			return rank(s.violations[i]) < rank(s.violations[j])
		})
		for _, v := range s.violations {
			if v.Kind == "hang" && !s.confirmHang(v) {
				s.errors = append(s.errors, v.Family+": "+v.Message+" (not reproduced)")
				continue
			}
			found = append(found, v)
		}
	}
	if len(found) > 0 {
		v := found[0]
		if v.Kind != "oracle" && v.Fixed == "" && v.Kind != "hang" && v.Kind != "race" {
			s.shrinkCrash(&v)
		}
		path := s.save(v)
		fmt.Printf("%v violated (%v, family %v)\n", s.ck.Property, v.Kind, v.Family)
		fmt.Println(head(v.Message, 5000))
		fmt.Printf("VIOLATION property=%v replay=%v\n", s.ck.Property, path)
		code = 1
	} else if len(s.errors) > 0 {
		code = 2
	}
	for i, e := range s.errors {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "ERROR", head(e, 3000))
		}
	}
	if code == 0 && s.ck.Findings != nil && s.only == "" {
		code = s.findings()
	}
	s.evidence(start, len(found))
	fmt.Printf("%v: %v cases (%v distinct non-trivial), %v fixed cases, %.1f s, exit %v\n",
		s.ck.Property, s.evals, len(s.distinct), s.fixedRun, time.Since(start).Seconds(), code)
	return code
}

func rank(r Replay) int {
	switch r.Kind {
	case "oracle":
		if r.Fixed != "" {
			return 1
		}
		return 0
	case "panic", "deadlock":
		return 2
	case "race":
		return 3
	}
	return 4
}

func (s *supervisor) confirmHang(v Replay) bool {
	if v.Seed == 0 && v.Fixed == "" {
		return false
	}
	o := s.replayOne(v, 400*time.Second)
	return o.kind == "hang"
}

func (s *supervisor) family(name string) *Family {
	for i := range s.ck.Families {
		if s.ck.Families[i].Name == name {
			return &s.ck.Families[i]
		}
	}
	return nil
}

func (s *supervisor) replayOne(v Replay, hard time.Duration) outcome {
	f := s.family(v.Family)
	if f == nil {
		return outcome{kind: "error", msg: "no family " + v.Family}
	}
	jb := job{fam: f, seed: v.Seed, checks: 1, ff: v.FailFile}
	if v.Fixed != "" {
		jb = job{fam: f, seed: 1, fixed: v.Fixed}
	}
	return s.exec(jb, hard)
}

// replay runs the case of a replay file
func (s *supervisor) replay(path string) int {
	d, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Replay
	if err := json.Unmarshal(d, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s.tier = v.Tier
	n := 1
	if v.Kind == "race" || v.Kind == "deadlock" {
		n = 20 // depends on the schedule
	}
	for i := 0; i < n; i++ {
		o := s.replayOne(v, 600*time.Second)
		switch o.kind {
		case "":
			continue
		case "error":
			fmt.Fprintln(os.Stderr, o.msg)
			return 2
		}
		fmt.Println(head(o.msg, 8000))
		fmt.Printf("VIOLATION property=%v replay=%v\n", s.ck.Property, path)
		return 1
	}
	fmt.Println("the case of", path, "passes")
	return 0
}

func (s *supervisor) save(v Replay) string {
	dir := filepath.Join(s.root, "replays")
	os.MkdirAll(dir, 0o755)
	d, _ := json.MarshalIndent(v, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%v-%v-%016x.json", v.Property, v.Family, mix(v.Seed, v.Fixed, v.FailFile)))
	if err := os.WriteFile(p, d, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vt:", err)
	}
	return p
}

// findings prints the state of the known findings
func (s *supervisor) findings() int {
	listed := map[string]bool{}
	d, _ := os.ReadFile(filepath.Join(s.root, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(d), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+s.ck.Property && strings.HasPrefix(f[2], "key=") {
			listed[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	for _, f := range s.ck.Findings(s.tier) {
		if !f.Present {
			continue
		}
		if listed[f.Key] {
			fmt.Printf("KNOWN-FINDING: property=%v %v\n", s.ck.Property, f.What)
			continue
		}
		path := s.save(Replay{Property: s.ck.Property, Family: "findings", Kind: "finding", Fixed: f.Key, Message: f.What, Tier: s.tier})
		fmt.Println(f.What)
		fmt.Printf("VIOLATION property=%v replay=%v\n", s.ck.Property, path)
		return 1
	}
	return 0
}

func (s *supervisor) evidence(start time.Time, violations int) {
	var samples []string
	var names []string
	for n := range s.samples {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i, x := range s.samples[n] {
			if i < 3 {
				samples = append(samples, n+": "+x)
			}
		}
	}
	fams := map[string]interface{}{}
	for _, f := range s.ck.Families {
		fams[f.Name] = map[string]int{"evaluations": s.famEvals[f.Name], "distinct_nontrivial": s.famDist[f.Name], "fixed_cases": len(f.Fixed)}
	}
	cov := map[string]interface{}{
		"evaluations":                    s.evals,
		"distinct_nontrivial":            len(s.distinct),
		"rule":                           s.ck.Rule,
		"samples":                        samples,
		"fixed_cases_run":                s.fixedRun,
		"families":                       fams,
		"labels":                         s.labels,
		"cases_skipped_for_lack_of_time": s.skipped,
		"exhaustive":                     false,
	}
	ev := map[string]interface{}{
		"property":    s.ck.Property,
		"tier":        s.tier,
		"seed":        s.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": s.ck.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if s.ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	d, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vt: evidence:", err)
		return
	}
	dir := filepath.Join(s.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, s.ck.Property+".json"), append(d, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vt: evidence:", err)
	}
}

func readTail(p string, n int64) string {
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return ""
	}
	b := make([]byte, min(n, st.Size()))
	// The first bytes matter more than the last ones: the crash comes first,
	// the stacks of the other goroutines follow
	if st.Size() > n {
		f.ReadAt(b[:n/2], 0)
		f.ReadAt(b[n/2:], st.Size()-n/2)
	} else {
		f.ReadAt(b, 0)
	}
	return string(bytes.ToValidUTF8(b, []byte("?")))
}

func head(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "\n[...]"
}

// procCPU is the CPU time used by a worker so far, in seconds
func procCPU(pid int) float64 {
	d, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(d, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(d[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}
