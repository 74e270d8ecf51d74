// dir: internal/verifx

// Package verifx is the runtime of the replay harnesses. It only exists in the overlay.
package verifx

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
)

var (
	mu       sync.Mutex
	count    int
	distinct = map[string]bool{}
	samples  []string
	failed   = map[string]bool{}
)

func write(v map[string]any) {
	p := os.Getenv("VERIF_REPORT")
	if p == "" {
		return
	}
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	b, _ := json.Marshal(v)
	f.Write(append(b, '\n'))
}

// Seed is the seed of this run
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough reports if this is a thorough run
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales the number of cases
func N(quick int) int {
	if Thorough() {
		return quick * 10
	}
	return quick
}

// Rand returns a random generator
func Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Case records that a case is run
func Case(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	count++
	if len(distinct) < 200000 {
		distinct[fmt.Sprintf(format, args...)] = true
	}
	if len(samples) < 3 || count == 100 || count == 1000 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		samples = append(samples, s)
	}
}

// Crashable records the input that is about to be run, so that it is known when the process dies.
func Crashable(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	write(map[string]any{"kind": "case", "input": fmt.Sprintf(format, args...)})
}

// Fail reports a failing input. Only the first failure per key is reported.
func Fail(t testing.TB, key string, input any, format string, args ...any) {
	t.Helper()
	mu.Lock()
	defer mu.Unlock()
	if failed[key] {
		write(map[string]any{"kind": "again", "test": t.Name()})
		t.Fail()
		return
	}
	failed[key] = true
	in := fmt.Sprintf("%+v", input)
	if len(in) > 6000 {
		in = in[:6000] + "..."
	}
	what := fmt.Sprintf(format, args...)
	write(map[string]any{"kind": "fail", "test": t.Name(), "key": key, "input": in, "what": what})
	t.Errorf("%s: %s (input %s)", key, what, in)
}

// Try runs f, and returns the value it panicked with.
func Try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Main runs the tests, and writes how many cases were run.
func Main(m *testing.M) {
	code := m.Run()
	mu.Lock()
	write(map[string]any{"kind": "count", "evaluations": count, "distinct": len(distinct), "samples": samples})
	mu.Unlock()
	os.Exit(code)
}
