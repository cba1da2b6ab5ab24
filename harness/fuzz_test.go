package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"testing"
)

// FuzzProp is the coverage-guided part of the thorough tier: the fuzzer mutates
// the choice sequence of a property's generator (two bytes a choice), guided by
// the coverage of ddlparse and of the harness. It is built and run by run.sh
// and main.go (coverageFuzz), never by "go test" on its own.
func FuzzProp(f *testing.F) {
	id := os.Getenv("VERIF_FUZZ_PROP")
	p := props[id]
	if p == nil {
		f.Skip("VERIF_FUZZ_PROP is not set")
	}
	dir := os.Getenv("VERIF_FUZZ_DIR")
	seed := seedEnv()
	for i := 0; i < 300; i++ {
		s := newSrc(caseSeed(id, seed, 1000, i))
		if c := safeGen(p, s); c == nil || c.skip || len(s.rec) > 4000 {
			continue
		}
		b := make([]byte, 0, 2*len(s.rec))
		for _, v := range s.rec {
			b = append(b, byte(v>>24), byte(v>>16))
		}
		f.Add(b)
	}
	n, used := 0, 0
	f.Fuzz(func(t *testing.T, data []byte) {
		n++
		ch := choicesOf(data)
		c := safeGen(p, replaySrc(ch))
		if c == nil || c.skip || c.Kind == "huge" {
			return
		}
		used++
		if n%500 == 0 {
			os.WriteFile(filepath.Join(dir, "count"+strconv.Itoa(os.Getpid())), []byte(strconv.Itoa(n)+" "+strconv.Itoa(used)), 0o644)
		}
		if m := judge(c); m != "" {
			b, _ := json.Marshal(ch)
			os.WriteFile(filepath.Join(dir, "fail"), b, 0o644)
			t.Fatal(m)
		}
	})
}
