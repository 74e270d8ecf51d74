// dir: internal/sparkl
package sparkl_test

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/verifx/dataset"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/tkw1536/pkglib/traversal"
)

func TestMain(m *testing.M) { verifx.Main(m) }

var errInjected = errors.New("injected failure")

// recorder is an exporter that records what it is told, and complains about calls out of order
type recorder struct {
	m      sync.Mutex
	r      *rand.Rand
	state  map[string]int // 1: begun, 2: ended, 3: failed to begin
	count  map[string]int64
	got    map[string][]string
	busy   map[string]bool
	closed int
	bad    string
	calls  int
	fail   int
	slow   bool
}

func newRecorder(r *rand.Rand) *recorder {
	return &recorder{r: r, state: map[string]int{}, count: map[string]int64{}, got: map[string][]string{}, busy: map[string]bool{}, fail: -1}
}

func (c *recorder) enter(what string, b *pathbuilder.Bundle) (done func(), err error) {
	c.m.Lock()
	name := ""
	if b != nil {
		name = b.MachineName()
	}
	if c.closed > 0 {
		c.bad = what + " of " + name + " after the exporter was closed"
	}
	if c.busy[name] {
		c.bad = "concurrent calls for " + name
	}
	c.busy[name] = true
	if c.calls == c.fail {
		err = fmt.Errorf("%s: %w", what, errInjected)
	}
	c.calls++
	n := 0
	if c.slow {
		n = c.r.Intn(40)
	}
	c.m.Unlock()
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
	if n == 7 {
		time.Sleep(time.Microsecond * 200)
	}
	c.m.Lock()
	return func() { c.busy[name] = false; c.m.Unlock() }, err
}

func (c *recorder) Begin(b *pathbuilder.Bundle, count int64) error {
	done, err := c.enter("begin", b)
	defer done()
	if c.state[b.MachineName()] != 0 {
		c.bad = b.MachineName() + " begins again"
	}
	c.state[b.MachineName()] = 1
	c.count[b.MachineName()] = count
	if err != nil {
		c.state[b.MachineName()] = 3
	}
	return err
}

func (c *recorder) Add(b *pathbuilder.Bundle, e *wisski.Entity) error {
	done, err := c.enter("add", b)
	defer done()
	if c.state[b.MachineName()] != 1 {
		c.bad = "an entity of " + b.MachineName() + " outside of its begin and end"
	}
	c.got[b.MachineName()] = append(c.got[b.MachineName()], dataset.Describe(*e))
	return err
}

func (c *recorder) End(b *pathbuilder.Bundle) error {
	done, err := c.enter("end", b)
	defer done()
	if c.state[b.MachineName()] != 1 {
		c.bad = b.MachineName() + " ends without a begin, or again"
	}
	c.state[b.MachineName()] = 2
	return err
}

func (c *recorder) Close() error {
	done, err := c.enter("close", nil)
	defer done()
	for b, s := range c.state {
		if s == 1 {
			c.bad = "closed before the end of " + b
		}
	}
	c.closed++
	return err
}

// engine wraps storages, so that they fail
type engine struct {
	storages.BundleEngine
	op    string
	after int
	m     sync.Mutex
	hit   bool
}

func (e *engine) failing(op string) error {
	e.m.Lock()
	defer e.m.Unlock()
	if op != e.op {
		return nil
	}
	e.after--
	if e.after != -1 {
		return nil
	}
	e.hit = true
	return fmt.Errorf("%s: %w", op, errInjected)
}

func (e *engine) NewStorage(b *pathbuilder.Bundle) (storages.BundleStorage, error) {
	if err := e.failing("new"); err != nil {
		return nil, err
	}
	s, err := e.BundleEngine.NewStorage(b)
	return &storage{s, e}, err
}

type storage struct {
	storages.BundleStorage
	e *engine
}

func (s *storage) Count() (int64, error) {
	if err := s.e.failing("count"); err != nil {
		return 0, err
	}
	return s.BundleStorage.Count()
}

func (s *storage) Load(uri impl.Label) (wisski.Entity, error) {
	if err := s.e.failing("load"); err != nil {
		return wisski.Entity{}, err
	}
	return s.BundleStorage.Load(uri)
}

func (s *storage) Get(i int) traversal.Iterator[storages.LabelWithParent] {
	if i >= 0 || s.e.op != "get" {
		return s.BundleStorage.Get(i)
	}
	it := s.BundleStorage.Get(i)
	return traversal.New(func(g traversal.Generator[storages.LabelWithParent]) {
		defer g.Return()
		for it.Next() {
			if err := s.e.failing("get"); err != nil {
				g.YieldError(err)
				return
			}
			if !g.Yield(it.Datum()) {
				return
			}
		}
		if err := s.e.failing("get"); err != nil {
			g.YieldError(err)
		}
	})
}

func export(t *testing.T, key, input string, s *dataset.Set, want map[string][]*dataset.Entity, c *recorder, e storages.BundleEngine, wrapped *engine) {
	index, err := s.Index(sparkl.NewEngine(""), false, 0)
	if err != nil {
		verifx.Fail(t, "index", input, "error %v", err)
		return
	}
	defer index.Close()
	err = sparkl.Export(&s.PB, index, e, c, nil)
	failed := c.fail >= 0 && c.calls > c.fail || wrapped != nil && wrapped.hit
	if c.bad != "" {
		verifx.Fail(t, key+"-order", input, "%s", c.bad)
	}
	if c.closed != 1 {
		verifx.Fail(t, key+"-closed", input, "the exporter was closed %d times", c.closed)
	}
	for b, st := range c.state {
		if st == 1 {
			verifx.Fail(t, key+"-ended", input, "bundle %s was not ended", b)
		}
	}
	if failed {
		if err == nil {
			verifx.Fail(t, key+"-error", input, "success in spite of a failure")
		}
		for b, got := range c.got {
			rest := map[string]int{}
			for _, l := range dataset.Lines(want[b]) {
				rest[l]++
			}
			for _, l := range got {
				if rest[l]--; rest[l] < 0 {
					verifx.Fail(t, key+"-partial", input, "bundle %s: superfluous %s", b, l)
				}
			}
		}
		return
	}
	if err != nil {
		verifx.Fail(t, key+"-fails", input, "error %v", err)
		return
	}
	for b, es := range want {
		sort.Strings(c.got[b])
		if d := dataset.Diff(c.got[b], dataset.Lines(es)); d != "" {
			verifx.Fail(t, key, input, "bundle %s: %s", b, d)
		}
		if c.state[b] != 2 || c.count[b] != int64(len(es)) {
			verifx.Fail(t, key+"-count", input, "bundle %s: announced %d entities (state %d), expected %d", b, c.count[b], c.state[b], len(es))
		}
	}
	if len(c.state) != len(want) {
		verifx.Fail(t, key+"-bundles", input, "%d bundles, expected %d", len(c.state), len(want))
	}
}

func TestVerifExport(t *testing.T) {
	for n := 0; n < verifx.N(250); n++ {
		r := verifx.Rand(int64(n))
		s := dataset.Random(r)
		want, ok := s.Expected()
		if !ok {
			continue
		}
		input := s.String()
		verifx.Case("%s", input)
		e := storages.NewBundleEngine("")
		if n%8 == 0 {
			e = storages.NewBundleEngine(t.TempDir())
		}
		c := newRecorder(r)
		c.slow = n%4 == 0
		export(t, "export", input, s, want, c, e, nil)
		total := c.calls
		for i := 0; i < 3; i++ {
			c := newRecorder(r)
			c.fail = r.Intn(total)
			c.slow = i == 0
			export(t, "failing-exporter", fmt.Sprintf("call %d fails: %s", c.fail, input), s, want, c, storages.NewBundleEngine(""), nil)
		}
		op := []string{"new", "count", "load", "get"}[r.Intn(4)]
		w := &engine{BundleEngine: storages.NewBundleEngine(""), op: op, after: r.Intn(4)}
		export(t, "failing-storage", fmt.Sprintf("%s %d fails: %s", op, w.after, input), s, want, newRecorder(r), w, w)
	}
}

// the map exporter under any interleaving
func TestVerifMap(t *testing.T) {
	for n := 0; n < verifx.N(200); n++ {
		r := verifx.Rand(int64(n) + 1000)
		mp := exporter.Map{Data: map[string][]wisski.Entity{}}
		var wg sync.WaitGroup
		counts := map[string]int{}
		for i, k := 0, r.Intn(5)+1; i < k; i++ {
			b := new(pathbuilder.Bundle)
			b.ID = fmt.Sprintf("b%d", i)
			count, claimed, y := r.Intn(20), r.Intn(20), r.Intn(5)
			counts[b.ID] = count
			wg.Add(1)
			go func() {
				defer wg.Done()
				mp.Begin(b, int64(claimed))
				for j := 0; j < count; j++ {
					mp.Add(b, &wisski.Entity{URI: impl.Label(fmt.Sprintf("%s/%d", b.ID, j)), Fields: map[string][]wisski.FieldValue{"f": {{Value: impl.Datum(fmt.Sprint(j))}}}})
					for l := 0; l < y; l++ {
						runtime.Gosched()
					}
				}
				mp.End(b)
			}()
		}
		wg.Wait()
		mp.Close()
		input := fmt.Sprint(counts)
		verifx.Case("map %s", input)
		if len(mp.Data) != len(counts) {
			verifx.Fail(t, "map-bundles", input, "%d bundles", len(mp.Data))
		}
		for b, k := range counts {
			if len(mp.Data[b]) != k {
				verifx.Fail(t, "map-count", input, "bundle %s holds %d entities", b, len(mp.Data[b]))
				continue
			}
			for j, e := range mp.Data[b] {
				if string(e.URI) != fmt.Sprintf("%s/%d", b, j) || len(e.Fields["f"]) != 1 || string(e.Fields["f"][0].Value) != fmt.Sprint(j) {
					verifx.Fail(t, "map-entity", input, "entity %d of %s is %+v", j, b, e)
				}
			}
		}
	}
}

// loading a pathbuilder holds the entities of every bundle, also of empty ones
func TestVerifLoad(t *testing.T) {
	for n := 0; n < verifx.N(100); n++ {
		r := verifx.Rand(int64(n) + 2000)
		s := dataset.Random(r)
		want, ok := s.Expected()
		if !ok {
			continue
		}
		input := s.String()
		verifx.Case("load %s", input)
		index, err := s.Index(sparkl.NewEngine(""), true, 0)
		if err != nil {
			verifx.Fail(t, "index", input, "error %v", err)
			continue
		}
		got, err := sparkl.LoadPathbuilder(&s.PB, index, storages.NewBundleEngine(""), nil)
		if err != nil {
			verifx.Fail(t, "load", input, "error %v", err)
		} else if len(got) != len(want) {
			verifx.Fail(t, "load-bundles", input, "%d bundles, expected %d", len(got), len(want))
		}
		for b, es := range want {
			if d := dataset.Diff(dataset.Actual(got[b]), dataset.Lines(es)); d != "" {
				verifx.Fail(t, "load", input, "bundle %s: %s", b, d)
			}
		}
		w := &engine{BundleEngine: storages.NewBundleEngine(""), op: []string{"new", "count", "load", "get"}[r.Intn(4)], after: r.Intn(4)}
		if got, err := sparkl.LoadPathbuilder(&s.PB, index, w, nil); w.hit && (err == nil || got != nil) {
			verifx.Fail(t, "load-error", input, "success in spite of a failing %s", w.op)
		}
		index.Close()
	}
}

// an entity that is found by several walks is still one entity
func TestVerifWalks(t *testing.T) {
	s := &dataset.Set{PB: pathbuilder.NewPathbuilder()}
	b := s.PB.GetOrCreate("b")
	b.Path = pathbuilder.Path{ID: "b", Bundle: "b", IsGroup: true, PathArray: []string{"A", "p", "B"}}
	s.Quads = []dataset.Quad{
		{S: "x", P: dataset.Type, O: "A"}, {S: "y1", P: dataset.Type, O: "B"}, {S: "y2", P: dataset.Type, O: "B"},
		{S: "x", P: "p", O: "y1"}, {S: "x", P: "p", O: "y2"},
	}
	input := s.String()
	verifx.Case("%s", input)
	index, err := s.Index(sparkl.NewEngine(""), false, 0)
	if err != nil {
		verifx.Fail(t, "index", input, "error %v", err)
		return
	}
	for i, e := range []storages.BundleEngine{storages.NewBundleEngine(""), storages.NewBundleEngine(t.TempDir())} {
		c := newRecorder(verifx.Rand(1))
		if err := sparkl.Export(&s.PB, index, e, c, nil); err != nil {
			verifx.Fail(t, "walks", input, "error %v", err)
			continue
		}
		for name, announced := range c.count {
			uris := map[string]bool{}
			for _, e := range c.got[name] {
				uris[strings.Fields(e)[0]] = true
			}
			if len(uris) != 1 {
				verifx.Fail(t, "walks", input, "%v instead of x", c.got[name])
			}
			if announced != 1 || len(c.got[name]) != 1 {
				key := "walks-count"
				if k := len(c.got[name]); announced == 2 && (i == 0 && k == 2 || i == 1 && k == 1) {
					key = "several-walks" // the known finding
				}
				verifx.Fail(t, key, input, "%s: %d entities were announced and %d handed over, expected the one entity x", []string{"memory", "disk"}[i], announced, len(c.got[name]))
			}
		}
	}
}
