// dir: internal/stats
package stats_test

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

type stage struct {
	stage          string
	current, total int
}

// model is what the statistics are expected to be
type model struct {
	absent, done bool
	cur          stage
	all          []stage
	istats       igraph.Stats
}

func (m *model) active() bool { return !m.absent && !m.done }
func (m *model) end() {
	if m.cur.stage != "" {
		m.all = append(m.all, m.cur)
	}
	m.cur = stage{}
}
func (m *model) start(s string) {
	if m.active() {
		m.end()
		m.cur.stage = s
	}
}

func show(s stage) string { return fmt.Sprintf("%s:%d/%d", s.stage, s.current, s.total) }

func (m *model) state() string {
	var s []string
	if !m.absent {
		for _, x := range m.all {
			s = append(s, show(x))
		}
		if m.cur.stage != "" {
			s = append(s, show(m.cur))
		}
	}
	cur := m.cur
	p := "done"
	if m.active() {
		p = show(cur)
	}
	return fmt.Sprintf("all=%v current=%s progress=%s index=%v done=%v", s, show(cur), p, m.istats, !m.active())
}

func of(s stats.StageStats) stage { return stage{string(s.Stage), s.Current, s.Total} }

func state(st *stats.Stats) string {
	var s []string
	for _, x := range st.All() {
		s = append(s, show(of(x)))
	}
	p := st.Progress()
	ps := "done"
	if !p.Done {
		ps = show(stage{string(p.Stage), p.Current, p.Total})
	}
	return fmt.Sprintf("all=%v current=%s progress=%s index=%v done=%v", s, show(of(st.Current())), ps, st.IndexStats(), st.Done())
}

var errs = []error{nil, nil, errors.New("first"), errors.New("second"), io.EOF}

// do performs a random operation on both
func do(r *rand.Rand, t testing.TB, st *stats.Stats, m *model, depth int, log *[]string) bool {
	name := []string{"", "a", "b", "import"}[r.Intn(4)]
	switch r.Intn(12) {
	case 0, 1:
		*log = append(*log, "Start("+name+")")
		st.Start(stats.Stage(name))
		m.start(name)
	case 2:
		*log = append(*log, "End()")
		want := m.cur
		prev := st.End()
		if m.active() && want.stage != "" && of(prev) != want {
			verifx.Fail(t, "end", strings.Join(*log, "; "), "End returns %v instead of %v", of(prev), want)
			return false
		}
		if m.active() {
			m.end()
		}
	case 3, 4, 5:
		c, n := r.Intn(5), r.Intn(5)
		*log = append(*log, fmt.Sprintf("SetCT(%d,%d)", c, n))
		st.SetCT(c, n)
		if m.active() {
			m.cur.current, m.cur.total = c, n
		}
	case 6, 7, 8:
		want := errs[r.Intn(len(errs))]
		*log = append(*log, fmt.Sprintf("DoStage(%s,{", name))
		inner := r.Intn(4)
		runs := 0
		ok := true
		m.start(name)
		entered := m.active()
		err := st.DoStage(stats.Stage(name), func() error {
			runs++
			for i := 0; ok && depth > 0 && i < inner; i++ {
				ok = do(r, t, st, m, depth-1, log)
			}
			return want
		})
		*log = append(*log, fmt.Sprintf("return %v})", want))
		if !ok {
			return false
		}
		if entered { // even when the statistics were finished in the meantime
			m.end()
		}
		if runs != 1 {
			verifx.Fail(t, "runs", strings.Join(*log, "; "), "DoStage runs the operation %d times", runs)
			return false
		}
		if err != want {
			verifx.Fail(t, "error", strings.Join(*log, "; "), "DoStage returns %v instead of %v", err, want)
			return false
		}
	case 9:
		is := igraph.Stats{DirectTriples: uint64(r.Intn(100))}
		*log = append(*log, fmt.Sprintf("StoreIndexStats(%d)", is.DirectTriples))
		st.StoreIndexStats(is)
		if m.active() {
			m.istats = is
		}
	case 10:
		*log = append(*log, "Log()")
		st.Log("message", "key", 1)
		st.LogDebug("message", "key", 1)
		st.LogError("message", io.EOF, "key", 1)
		st.Diff()
		st.Rewritable()
	case 11:
		if r.Intn(8) != 0 {
			return true
		}
		*log = append(*log, "Close()")
		st.Close()
		if !m.absent {
			m.done = true
		}
	}
	return true
}

func TestVerifStats(t *testing.T) {
	// starting and ending a stage sleeps, so run many at the same time
	todo := make(chan int64)
	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range todo {
				if !t.Failed() {
					oneCase(t, verifx.Rand(26000000+n))
				}
			}
		}()
	}
	for n := verifx.N(700); n > 0; n-- {
		todo <- int64(n)
	}
	close(todo)
	wg.Wait()
}

func oneCase(t *testing.T, r *rand.Rand) {
	{
		var st *stats.Stats
		var log []string
		m := &model{}
		switch r.Intn(5) {
		case 0:
			m.absent = true
			log = append(log, "nil")
		case 1:
			st = &stats.Stats{}
			log = append(log, "&Stats{}")
		case 2:
			st = stats.NewStats(nil)
			log = append(log, "NewStats(nil)")
		default:
			st = stats.NewStats(io.Discard)
			log = append(log, "NewStats(w)")
		}
		if st != nil && r.Intn(2) == 0 {
			st.OnUpdate = func(st *stats.Stats) { st.All(); st.Progress(); st.Current() }
		}
		panicked := verifx.Try(func() {
			for i := r.Intn(9); i >= 0; i-- {
				if !do(r, t, st, m, 2, &log) {
					return
				}
				if got, want := state(st), m.state(); got != want {
					verifx.Fail(t, "state", strings.Join(log, "; "), "the statistics are %s instead of %s", got, want)
					return
				}
			}
		})
		verifx.Case("%s", strings.Join(log, "; "))
		if panicked != nil {
			verifx.Fail(t, "panic", strings.Join(log, "; "), "panics: %v", panicked)
		}
		if t.Failed() {
			return
		}
	}
}

// TestVerifConcurrent reads statistics while they are written
func TestVerifConcurrent(t *testing.T) {
	for n := verifx.N(1); n > 0; n-- {
		st := stats.NewStats(io.Discard)
		verifx.Case("concurrent readers of a run with 12 stages")
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := 0
				for !st.Done() {
					all := st.All()
					if len(all) < last {
						verifx.Fail(t, "lost", "concurrent readers", "stages disappear")
						return
					}
					last = len(all)
					for j, s := range all {
						if s.Stage != stats.Stage(fmt.Sprint("s", j)) {
							verifx.Fail(t, "order", "concurrent readers", "stage %d is %s", j, s.Stage)
							return
						}
					}
					st.Progress()
					st.Current()
					st.Diff()
				}
			}()
		}
		for i := 0; i < 12; i++ {
			st.DoStage(stats.Stage(fmt.Sprint("s", i)), func() error {
				st.SetCT(i, 12)
				st.StoreIndexStats(igraph.Stats{})
				return nil
			})
		}
		st.Close()
		wg.Wait()
		if n := len(st.All()); n != 12 {
			verifx.Fail(t, "count", "12 stages", "%d stages are recorded", n)
		}
	}
}
