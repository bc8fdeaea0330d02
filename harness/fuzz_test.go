package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"testing"
)

// FuzzCases lets Go's coverage-guided fuzzer make the choices of the
// generators of one property, and the texts of those facets that take
// any text. The first byte selects the facet, the others are the bits
// that its generator consumes, or the text.
//
// A violation is written as a replay file to the directory
// VERIF_FUZZ_DIR, together with the statistics and the journal of the
// worker process. See fuzz.go.
func FuzzCases(f *testing.F) {
	p := findProperty(os.Getenv("VERIF_FUZZ_PROP"))
	dir := os.Getenv("VERIF_FUZZ_DIR")
	if p == nil || dir == "" {
		f.Skip("run by the thorough checks only")
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	facets := fuzzable(p)
	rnd := rand.New(rand.NewPCG(seed, 1))
	for i, fc := range facets {
		if fc.text {
			for _, s := range fuzzTexts {
				f.Add(append([]byte{byte(i)}, s...))
			}
			continue
		}
		for k := 0; k < 40; k++ {
			b := make([]byte, 1+20+rnd.IntN(180))
			for j := range b {
				b[j] = byte(rnd.Uint32())
			}
			b[0] = byte(i)
			f.Add(b)
		}
	}
	pid := os.Getpid()
	var caseNo atomic.Int64
	go watch(&caseNo)
	journal, err := os.Create(filepath.Join(dir, fmt.Sprintf("journal-%d", pid)))
	if err != nil {
		f.Fatal(err)
	}
	st := &fuzzStats{Facets: map[string]*facetStats{}}
	seen := map[uint64]bool{}
	n := 0
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) < 2 || len(data) > 4096 {
			return
		}
		fc := facets[int(data[0])%len(facets)]
		var c any
		if fc.text {
			c = fc.FromText(string(data[1:]))
		} else {
			c = fc.Gen(&G{bits: data[1:]})
		}
		if c == nil {
			return
		}
		js, err := json.Marshal(c)
		if err != nil {
			t.Fatal(err)
		}
		rec := append([]byte(fc.Name()+"\n"), js...)
		journal.WriteAt(append(binary.LittleEndian.AppendUint64(nil, uint64(len(rec))), rec...), 0)
		o := &Obs{labels: map[string]int{}}
		caseNo.Add(1)
		verr := fc.Check(c, o)
		caseNo.Add(1)
		if verr != nil {
			v := &violation{Property: p.ID, Facet: fc.Name(), Message: verr.Error(), Case: js, Seed: int(seed), Tier: "thorough"}
			b, _ := json.Marshal(v)
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("violation-%08d-%d", len(js), pid)), b, 0o644)
			t.Fatal(verr)
		}
		fs := st.Facets[fc.Name()]
		if fs == nil {
			fs = &facetStats{}
			st.Facets[fc.Name()] = fs
		}
		fs.Evaluations++
		if o.nontrivial {
			h := fnv.New64a()
			h.Write(js)
			if k := h.Sum64(); !seen[k] && len(seen) < 4000000 {
				seen[k] = true
				fs.NonTrivial++
				if len(fs.Samples) < keptSamples && len(js) < 1500 && fs.NonTrivial%97 == 1 {
					fs.Samples = append(fs.Samples, js)
				}
			}
		}
		if n++; n%500 == 0 {
			b, _ := json.Marshal(st)
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats-%d", pid)), b, 0o644)
		}
	})
}

var fuzzTexts = append([]string{
	"$.store.book[*].author", "$..book[?(@.isbn)]", "$..book[-1:]", "$['\\x41\\u0042\\u{43}']", "$[0x1F,0b1,0o7,1_0]", "/null/'a\\'b'/12/*",
	"$[?(@['a']===1e3)]", "$[?([1,'a',null,true] in @)]", "$ . a [ 0 ]", "$..['a'][?(!(@.b%2==1||@.c**2>=4))]", "$[?($.a.length()-1<@)]", "a\u2028/\"'\\/", "日本/é/𝄞",
}, editBases...)
