package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The thorough tier ends with coverage-guided fuzzing: Go's fuzzer
// drives the generators of the property, see fuzz_test.go.

type fuzzFacet struct {
	Facet
	text bool
}

// fuzzable lists what is fuzzed of a property
func fuzzable(p *Property) []fuzzFacet {
	var out []fuzzFacet
	for _, f := range p.Facets {
		if f.IsEnum() || f.Name() == "new-process" {
			continue
		}
		out = append(out, fuzzFacet{f, false})
		if f.HasText() {
			out = append(out, fuzzFacet{f, true})
		}
	}
	return out
}

type fuzzStats struct {
	Facets map[string]*facetStats `json:"facets"`
}

type fuzzResult struct {
	Seconds     int                       `json:"seconds"`
	Evaluations int                       `json:"evaluations"`
	NonTrivial  int                       `json:"nontrivial"` // distinct within a process
	Interesting int                       `json:"inputs_with_new_coverage"`
	Facets      map[string]map[string]int `json:"facets"`
	Samples     []any                     `json:"samples"`
}

// runFuzz fuzzes a property for a time with the instrumented binary
func runFuzz(bin, self string, p *Property, seed int, seconds int) (res *fuzzResult, viol *violation, errText string) {
	if len(fuzzable(p)) == 0 {
		return nil, nil, ""
	}
	dir, err := os.MkdirTemp("", "verif-fuzz-")
	if err != nil {
		return nil, nil, err.Error()
	}
	defer os.RemoveAll(dir)
	c := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzCases$", "-test.fuzzcachedir="+filepath.Join(dir, "cache"),
		"-test.fuzztime="+strconv.Itoa(seconds)+"s", "-test.fuzzminimizetime=5s", "-test.parallel="+strconv.Itoa(shards))
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_FUZZ_PROP="+p.ID, "VERIF_FUZZ_DIR="+dir, "VERIF_SEED="+strconv.Itoa(seed))
	var out strings.Builder
	w := &tailWriter{max: 60000}
	c.Stdout, c.Stderr = w, w
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return nil, nil, err.Error()
	}
	timer := time.AfterFunc(time.Duration(seconds)*time.Second+5*time.Minute, func() { c.Process.Kill() })
	c.Wait()
	timer.Stop()
	out.Write(w.b)

	res = &fuzzResult{Seconds: seconds, Facets: map[string]map[string]int{}, Samples: []any{}}
	files, _ := filepath.Glob(filepath.Join(dir, "stats-*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var st fuzzStats
		if json.Unmarshal(b, &st) != nil {
			continue
		}
		for name, fs := range st.Facets {
			m := res.Facets[name]
			if m == nil {
				m = map[string]int{}
				res.Facets[name] = m
			}
			m["evaluations"] += fs.Evaluations
			m["nontrivial"] += fs.NonTrivial
			res.Evaluations += fs.Evaluations
			res.NonTrivial += fs.NonTrivial
			for _, s := range fs.Samples {
				if len(res.Samples) < 6 {
					res.Samples = append(res.Samples, map[string]any{"facet": name, "fuzzed": true, "case": s})
				}
			}
		}
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if i := strings.Index(l, "(total: "); i >= 0 && strings.HasPrefix(l, "fuzz: elapsed") {
			n := strings.TrimSuffix(l[i+len("(total: "):], ")")
			if t, err := strconv.Atoi(n); err == nil {
				res.Interesting = t
			}
		}
	}
	if c.ProcessState.ExitCode() == 0 {
		return res, nil, ""
	}
	// The smallest case that fails again
	files, _ = filepath.Glob(filepath.Join(dir, "violation-*"))
	sort.Strings(files)
	for i, f := range files {
		if i == 20 {
			break
		}
		r := exec.Command(self, "replay", "-file", f)
		r.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		r.Run()
		b, _ := os.ReadFile(f)
		v := &violation{}
		if r.ProcessState.ExitCode() == exitViolation && json.Unmarshal(b, v) == nil {
			return res, v, ""
		}
	}
	if len(files) > 0 {
		b, _ := os.ReadFile(files[0])
		return res, nil, "fuzzing found a failure that does not repeat: " + clip(string(b), 2000)
	}
	files, _ = filepath.Glob(filepath.Join(dir, "journal-*"))
	for _, f := range files {
		if v := confirmDeath(self, f, p.ID, seed, "thorough", exitError, out.String()); v != nil {
			return res, v, ""
		}
	}
	return res, nil, fmt.Sprintf("fuzzing ended with %d: %s", c.ProcessState.ExitCode(), clip(out.String(), 4000))
}

// tailWriter keeps the end of what is written
type tailWriter struct {
	b   []byte
	max int
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 2*t.max {
		t.b = append([]byte(nil), t.b[len(t.b)-t.max:]...)
	}
	return len(p), nil
}
