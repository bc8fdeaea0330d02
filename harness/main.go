package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes. Anything but 0 and 1 means that there is no answer.
const (
	exitHeld      = 0
	exitViolation = 1
	exitError     = 3
	exitHang      = 77
	exitMemory    = 78
	exitBlocked   = 79
)

const (
	shards       = 8
	hangCPU      = 90 * time.Second // CPU time of one case, which normally takes milliseconds
	hangBlocked  = 30 * time.Second // for which every goroutine of one case waits for another
	memoryLimit  = 2500 << 20
	keptSamples  = 2 // per facet and shard
	keptPerFacet = 3 // samples in the evidence
)

// quickMore multiplies the cases of a quick run of properties whose
// cases are cheap, so that each gets about half a minute
var quickMore = map[string]int{
	"C03": 3, "C04": 2, "C07": 2, "C08": 4, "C10": 2, "C11": 4, "C12": 2, "C13": 5, "C18": 2, "C19": 12, "C20": 3, "C21": 3,
	"C23": 2, "C25": 3,
}

type violation struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Seed     int             `json:"seed"`
	Tier     string          `json:"tier"`
}

type facetStats struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Hashes      string            `json:"-"`
}

type shardResult struct {
	Facets    map[string]*facetStats `json:"facets"`
	Violation *violation             `json:"violation,omitempty"`
	Error     string                 `json:"error,omitempty"`
}

func main() {
	debug.SetMaxStack(512 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|worker|replay|list ...")
		os.Exit(exitError)
	}
	mode := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	testing.Init()
	addHuge()
	var (
		prop  = flag.String("prop", "", "property")
		tier  = flag.String("tier", "quick", "quick or thorough")
		seed  = flag.Int("seed", 1, "seed")
		shard = flag.Int("shard", 0, "shard of this worker")
		dir   = flag.String("dir", "", "scratch directory of this run")
		verif = flag.String("verif", "/verif", "root of the framework")
		only  = flag.String("facet", "", "only this facet (for development)")
		scale = flag.Float64("scale", 1, "scale case counts (for development)")
		file  = flag.String("file", "", "replay file")
		fuzz  = flag.String("fuzzbin", "", "binary for coverage-guided fuzzing after the other cases")
		fsecs = flag.Int("fuzztime", 60, "seconds of coverage-guided fuzzing")
	)
	flag.Parse()
	switch mode {
	case "check":
		os.Exit(runCheck(*prop, *tier, *seed, *verif, *only, *scale, *fuzz, *fsecs))
	case "worker":
		os.Exit(runWorker(*prop, *tier, *seed, *shard, *dir, *only, *scale))
	case "replay":
		os.Exit(runReplay(*file))
	case "cold":
		os.Exit(runCold())
	case "list":
		for _, p := range properties {
			for _, f := range p.Facets {
				q, t := f.Counts()
				fmt.Println(p.ID, f.Name(), q, t, f.IsEnum())
			}
		}
		return
	}
	fmt.Fprintln(os.Stderr, "unknown mode", mode)
	os.Exit(exitError)
}

// ---- worker ----

type worker struct {
	prop    *Property
	tier    string
	seed    int
	shard   int
	dir     string
	res     shardResult
	journal *os.File

	caseNo atomic.Int64
}

func hash64(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9e3779b97f4a7c15
	v ^= v >> 29
	if v == 0 {
		v = 1
	}
	return v
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// allBlocked tells if every goroutine but the calling one waits for a
// lock, a channel or the like. One that has its turn, waits for its
// turn, for the system, or for a time, is not blocked: a process that
// gets no CPU is not taken for one that is stuck.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	blocked := 0
	for i, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		_, state, ok := strings.Cut(head, "[")
		if i == 0 || !ok {
			continue
		}
		switch state, _, _ = strings.Cut(strings.TrimSuffix(state, "]:"), ","); {
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "select"),
			strings.HasPrefix(state, "semacquire"):
			blocked++
		default:
			return false
		}
	}
	return blocked > 0
}

// watch ends the process when one case uses too much CPU or memory, or
// nothing of it moves
func watch(caseNo *atomic.Int64) {
	last, since := int64(-1), time.Duration(0)
	var moved time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		now := cpuTime()
		if n := caseNo.Load(); n != last {
			last, since, moved = n, now, time.Now()
		} else if n%2 == 1 && now-since > hangCPU {
			os.Exit(exitHang)
		} else if n%2 == 0 || !allBlocked() {
			moved = time.Now()
		} else if time.Since(moved) > hangBlocked {
			os.Exit(exitBlocked)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memoryLimit {
			runtime.GC() // only what is in use counts
			if runtime.ReadMemStats(&m); m.HeapAlloc <= memoryLimit {
				continue
			}
			os.Exit(exitMemory)
		}
	}
}

func runWorker(prop, tier string, seed, shard int, dir, only string, scale float64) int {
	w := &worker{prop: findProperty(prop), tier: tier, seed: seed, shard: shard, dir: dir}
	if w.prop == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return exitError
	}
	var err error
	if w.journal, err = os.Create(filepath.Join(dir, fmt.Sprintf("journal-%d", shard))); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	w.res.Facets = map[string]*facetStats{}
	go watch(&w.caseNo)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1200 << 20) // beyond this, collect more often
	for _, f := range w.prop.Facets {
		if only != "" && f.Name() != only {
			continue
		}
		if !w.runFacet(f, scale) {
			break
		}
	}
	b, err := json.Marshal(&w.res)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("result-%d", shard)), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if w.res.Error != "" {
		fmt.Fprintln(os.Stderr, w.res.Error)
		return exitError
	}
	if w.res.Violation != nil {
		return exitViolation
	}
	return exitHeld
}

// tb is the rapid.TB of a facet
type tb struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif-no-such-failfile" }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func (w *worker) runFacet(f Facet, scale float64) (goOn bool) {
	st := &facetStats{Labels: map[string]int{}}
	w.res.Facets[f.Name()] = st
	seen := map[uint64]struct{}{}
	frozen := false // while shrinking, nothing is counted
	var buf []byte

	// one runs the check on one case, and returns the violation
	one := func(c any) (verr error) {
		data, err := json.Marshal(c)
		if err != nil {
			bug("case does not marshal: %v", err)
		}
		buf = append(buf[:0], f.Name()...)
		buf = append(buf, '\n')
		buf = append(buf, data...)
		var head [8]byte
		binary.LittleEndian.PutUint64(head[:], uint64(len(buf)))
		w.journal.WriteAt(append(head[:], buf...), 0)
		o := &Obs{labels: map[string]int{}}
		w.caseNo.Add(1)
		verr = f.Check(c, o)
		w.caseNo.Add(1)
		if verr != nil {
			w.res.Violation = &violation{Property: w.prop.ID, Facet: f.Name(), Message: verr.Error(), Case: data, Seed: w.seed, Tier: w.tier}
			frozen = true
		}
		if !frozen {
			st.Evaluations++
			for k, v := range o.labels {
				st.Labels[k] += v
			}
			if o.nontrivial {
				h := fnv.New64a()
				h.Write(data)
				k := h.Sum64()
				if _, dup := seen[k]; !dup {
					seen[k] = struct{}{}
					st.NonTrivial++
					if len(st.Samples) < keptSamples && len(data) < 1500 && st.NonTrivial%7 == 1 {
						st.Samples = append(st.Samples, append(json.RawMessage(nil), data...))
					}
				}
			}
		}
		return verr
	}

	var harnessFault string
	guard := func(c func()) {
		defer func() {
			if x := recover(); x != nil {
				if isRapid(x) {
					panic(x)
				}
				if harnessFault == "" {
					harnessFault = fmt.Sprintf("%s/%s: %v\n%s", w.prop.ID, f.Name(), x, debug.Stack())
				}
				panic(x)
			}
		}()
		c()
	}

	if f.IsEnum() {
		i := 0
		func() {
			defer func() {
				if x := recover(); x != nil && harnessFault == "" {
					harnessFault = fmt.Sprint(x)
				}
			}()
			f.Enum(w.tier, func(c any) bool {
				i++
				if i%shards != w.shard {
					return true
				}
				ok := true
				guard(func() { ok = one(c) == nil })
				return ok
			})
		}()
	} else {
		q, t := f.Counts()
		n := q
		if w.tier == "thorough" {
			n = t
		}
		if more := quickMore[w.prop.ID]; w.tier != "thorough" && more > 0 {
			n *= more
		}
		n = int(float64(n)*scale) / shards
		if n == 0 {
			n = 1
		}
		s := hash64(strconv.Itoa(w.seed), w.prop.ID, f.Name(), strconv.Itoa(w.shard))
		flag.Set("rapid.seed", strconv.FormatUint(s, 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "5s")
		t1 := &tb{}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(tbStop); !ok && harnessFault == "" {
						harnessFault = fmt.Sprint(x)
					}
				}
			}()
			rapid.Check(t1, func(rt *rapid.T) {
				var err error
				guard(func() {
					c := f.Gen(&G{t: rt})
					err = one(c)
				})
				if err != nil {
					rt.Fatalf("violation")
				}
			})
		}()
		if t1.failed && w.res.Violation == nil && harnessFault == "" {
			harnessFault = w.prop.ID + "/" + f.Name() + ": " + strings.Join(t1.log, "\n")
		}
		if t1.failed && w.res.Violation != nil {
			for _, l := range t1.log {
				if strings.Contains(l, "flaky") {
					// The violation was seen but does not repeat on the same input.
					w.res.Violation.Message += " (the failure did not repeat on an immediate rerun of the same case)"
				}
			}
		}
	}
	if harnessFault != "" {
		w.res.Error = harnessFault
		return false
	}
	hs := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(filepath.Join(w.dir, fmt.Sprintf("hashes-%d-%s", w.shard, f.Name())), hs, 0o644)
	return w.res.Violation == nil
}

// isRapid recognises the panics rapid uses for its own control flow
func isRapid(x any) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", x), "rapid.")
}

// ---- replay ----

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	var v violation
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	p := findProperty(v.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", v.Property)
		return exitError
	}
	for _, f := range p.Facets {
		if f.Name() != v.Facet {
			continue
		}
		c, err := f.Decode(v.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		var n atomic.Int64
		go watch(&n)
		n.Add(1)
		if err := f.Check(c, &Obs{labels: map[string]int{}}); err != nil {
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
			return exitViolation
		}
		fmt.Println("the property holds for this case")
		return exitHeld
	}
	fmt.Fprintln(os.Stderr, "no such facet", v.Facet)
	return exitError
}

// ---- parent ----

func runCheck(prop, tier string, seed int, verif, only string, scale float64, fuzzBin string, fuzzSeconds int) int {
	start := time.Now()
	p := findProperty(prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return exitError
	}
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}

	type ending struct {
		code   int
		stderr string
	}
	ends := make([]ending, shards)
	cmds := make([]*exec.Cmd, shards)
	var wg sync.WaitGroup
	var stop atomic.Bool
	var mu sync.Mutex
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	timeout := time.AfterFunc(limit, func() {
		mu.Lock()
		stop.Store(true)
		for _, c := range cmds {
			if c != nil && c.Process != nil {
				c.Process.Kill()
			}
		}
		mu.Unlock()
	})
	defer timeout.Stop()
	for i := 0; i < shards; i++ {
		c := exec.Command(self, "worker", "-prop", prop, "-tier", tier, "-seed", strconv.Itoa(seed), "-shard", strconv.Itoa(i),
			"-dir", dir, "-facet", only, "-scale", strconv.FormatFloat(scale, 'g', -1, 64))
		c.Dir = dir
		var errb strings.Builder
		c.Stdout = os.Stderr
		c.Stderr = &limitedWriter{b: &errb, max: 20000}
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		mu.Lock()
		cmds[i] = c
		err := c.Start()
		mu.Unlock()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Wait()
			ends[i] = ending{c.ProcessState.ExitCode(), errb.String()}
			if ends[i].code == exitViolation {
				// No need to go on
				mu.Lock()
				if !stop.Swap(true) {
					for j, o := range cmds {
						if j != i && o != nil && o.Process != nil {
							o.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	var viol *violation
	errText := ""
	results := make([]*shardResult, shards)
	for i := 0; i < shards; i++ {
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result-%d", i))); err == nil {
			r := &shardResult{}
			if json.Unmarshal(b, r) == nil {
				results[i] = r
				if r.Violation != nil && viol == nil {
					viol = r.Violation
				}
				if r.Error != "" {
					errText = r.Error
				}
			}
		}
	}
	if viol == nil && errText == "" {
		for i := 0; i < shards; i++ {
			if ends[i].code == exitHeld {
				continue
			}
			if stop.Load() && results[i] == nil && ends[i].code == -1 {
				errText = "time limit"
				continue
			}
			// The worker died: see if the case it was running does it again
			if v := confirmDeath(self, filepath.Join(dir, fmt.Sprintf("journal-%d", i)), prop, seed, tier, ends[i].code, ends[i].stderr); v != nil {
				viol = v
				break
			}
			errText = fmt.Sprintf("worker %d ended with %d\n%s", i, ends[i].code, ends[i].stderr)
		}
	}
	var fuzzed *fuzzResult
	if fuzzBin != "" && viol == nil && errText == "" {
		fuzzed, viol, errText = runFuzz(fuzzBin, self, p, seed, fuzzSeconds)
	}
	writeEvidence(p, tier, seed, verif, dir, results, fuzzed, viol, time.Since(start))
	if viol != nil {
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%016x.json", viol.Property, viol.Facet, hash64(string(viol.Case))))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", viol.Facet, viol.Message)
		fmt.Printf("case: %s\n", clip(string(viol.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", viol.Property, path)
		return exitViolation
	}
	if errText != "" {
		fmt.Fprintln(os.Stderr, "ERROR (no answer):", errText)
		return exitError
	}
	ev, nt := 0, 0
	for _, r := range results {
		for _, s := range r.Facets {
			ev += s.Evaluations
			nt += s.NonTrivial
		}
	}
	if fuzzed != nil {
		fmt.Printf("%s held on %d fuzzed cases (%d non-trivial)\n", prop, fuzzed.Evaluations, fuzzed.NonTrivial)
	}
	fmt.Printf("%s held on %d cases (%d non-trivial) in %.1fs\n", prop, ev, nt, time.Since(start).Seconds())
	return exitHeld
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type limitedWriter struct {
	b   *strings.Builder
	max int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

// confirmDeath reruns the case a dead worker was on. Exhausted stack,
// memory or CPU, twice, on the same small input is a violation: the
// code under test does not finish.
//
// A report of the race detector, or of the runtime about concurrent map
// accesses, is never wrong, so it counts even if the schedule that
// exposed it does not come again. The same goes for a case whose
// goroutines all wait for each other.
func confirmDeath(self, journal, prop string, seed int, tier string, ended int, stderr string) *violation {
	b, err := os.ReadFile(journal)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n > uint64(len(b)-8) {
		return nil
	}
	name, data, ok := strings.Cut(string(b[8:8+n]), "\n")
	if !ok {
		return nil
	}
	v := &violation{Property: prop, Facet: name, Case: json.RawMessage(data), Seed: seed, Tier: tier}
	file := journal + ".confirm.json"
	js, _ := json.Marshal(v)
	os.WriteFile(file, js, 0o644)
	c := exec.Command(self, "replay", "-file", file)
	var errb strings.Builder
	c.Stderr = &limitedWriter{b: &errb, max: 20000}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.Run()
	switch code := c.ProcessState.ExitCode(); {
	case code == exitHang:
		v.Message = "the code under test does not finish: the case used more than " + hangCPU.String() + " of CPU, twice"
	case code == exitBlocked:
		v.Message = "the code under test does not finish: everything waited for " + hangBlocked.String() + ", twice"
	case code == exitMemory:
		v.Message = "the code under test does not finish: the case used more than 2.5 GB of memory, twice"
	case strings.Contains(errb.String(), "stack overflow") || strings.Contains(errb.String(), "stack exceeds"):
		v.Message = "the code under test exhausts the stack, twice"
	case isRace(errb.String()):
		v.Message = "the code under test races: " + clip(raceReport(errb.String()), 1500)
	case isRace(stderr):
		v.Message = "the code under test races (seen once, not on rerunning the case): " + clip(raceReport(stderr), 1500)
	case ended == exitBlocked:
		v.Message = "the code under test does not finish: everything waited for " + hangBlocked.String() + " (seen once, not on rerunning the case)"
	case code == exitViolation:
		v.Message = "the case fails on rerun"
	default:
		return nil
	}
	return v
}

func isRace(stderr string) bool {
	return strings.Contains(stderr, "fatal error: concurrent map") || strings.Contains(stderr, "DATA RACE")
}

func raceReport(stderr string) string {
	for _, m := range []string{"WARNING: DATA RACE", "fatal error: concurrent map"} {
		if i := strings.Index(stderr, m); i >= 0 {
			return stderr[i:]
		}
	}
	return stderr
}

func writeEvidence(p *Property, tier string, seed int, verif, dir string, results []*shardResult, fuzzed *fuzzResult, viol *violation, wall time.Duration) {
	evaluations, distinct := 0, 0
	labels := map[string]map[string]int{}
	perFacet := map[string]map[string]any{}
	var samples []any
	exhaustive := []string{}
	for _, f := range p.Facets {
		e := 0
		lab := map[string]int{}
		set := map[uint64]struct{}{}
		taken := 0
		for i, r := range results {
			if r == nil || r.Facets[f.Name()] == nil {
				continue
			}
			s := r.Facets[f.Name()]
			e += s.Evaluations
			for k, v := range s.Labels {
				lab[k] += v
			}
			for _, x := range s.Samples {
				if taken < keptPerFacet {
					taken++
					samples = append(samples, map[string]any{"facet": f.Name(), "case": x})
				}
			}
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes-%d-%s", i, f.Name())))
			for ; len(b) >= 8; b = b[8:] {
				set[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
		evaluations += e
		distinct += len(set)
		if len(lab) > 0 {
			labels[f.Name()] = lab
		}
		perFacet[f.Name()] = map[string]any{"evaluations": e, "distinct_nontrivial": len(set)}
		if f.IsEnum() {
			exhaustive = append(exhaustive, f.Name())
		}
	}
	sort.Strings(exhaustive)
	if samples == nil {
		samples = []any{}
	}
	n := 0
	if viol != nil {
		n = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
			"facets": perFacet, "labels": labels, "enumerated_facets": exhaustive,
		},
		"assumptions": append([]string{"the reference model and generators in /verif/harness state the property correctly"}, p.Assume...),
		"wall_s":      wall.Seconds(),
		"violations":  n,
	}
	if fuzzed != nil {
		cov := ev["coverage"].(map[string]any)
		cov["samples"] = append(samples, fuzzed.Samples...)
		cov["fuzzing"] = map[string]any{"seconds": fuzzed.Seconds, "evaluations": fuzzed.Evaluations, "nontrivial": fuzzed.NonTrivial, "facets": fuzzed.Facets,
			"inputs_with_new_coverage": fuzzed.Interesting, "note": "coverage-guided (go test -fuzz), not counted in evaluations; nontrivial counts distinct cases per process"}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
