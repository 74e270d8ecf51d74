// dir: internal/sparkl
package sparkl_test

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/verifx/dataset"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// slow is an engine whose storages take their time
type slow struct {
	storages.BundleEngine
	seed int64
}

type slowStorage struct {
	storages.BundleStorage
	state *atomic.Uint64
}

func (s slow) NewStorage(b *pathbuilder.Bundle) (storages.BundleStorage, error) {
	st, err := s.BundleEngine.NewStorage(b)
	if err != nil {
		return st, err
	}
	state := new(atomic.Uint64)
	state.Store(uint64(s.seed)*2654435761 + 1)
	return slowStorage{st, state}, nil
}

func (s slowStorage) pause() {
	v := s.state.Add(0x9e3779b97f4a7c15)
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	switch v % 8 {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(v>>8%50) * time.Microsecond)
	}
}

func (s slowStorage) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	s.pause()
	return s.BundleStorage.Add(uri, path, triples)
}

func (s slowStorage) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	s.pause()
	err := s.BundleStorage.AddFieldValue(uri, field, value, lang, path, triples)
	s.pause()
	return err
}

func (s slowStorage) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	s.pause()
	err := s.BundleStorage.AddChild(parent, bundle, child)
	s.pause()
	return err
}

func (s slowStorage) Finalize() error {
	s.pause()
	return s.BundleStorage.Finalize()
}

func TestVerifExtract(t *testing.T) {
	skipped, seen := 0, map[string]int{}
	for n := 0; n < verifx.N(1000); n++ {
		r := verifx.Rand(int64(n))
		s := dataset.Random(r)
		want, ok := s.Expected()
		if !ok {
			skipped++
			continue
		}
		disk := n%10 == 0
		late := n%3 == 0
		input := s.String()
		verifx.Case("%s", input)
		index, err := s.Index(sparkl.NewEngine(""), n%2 == 0, 0)
		if err != nil {
			verifx.Fail(t, "index", input, "error %v", err)
			continue
		}
		engines := []storages.BundleEngine{storages.NewBundleEngine("")}
		dir := ""
		if disk {
			dir, err = os.MkdirTemp("", "extract")
			if err != nil {
				t.Fatal(err)
			}
			engines = append(engines, storages.NewBundleEngine(filepath.Join(dir, "x")))
		}
		for i, e := range engines {
			key := []string{"memory", "disk"}[i]
			if late {
				e = slow{e, int64(n)}
			}
			got, err := sparkl.LoadPathbuilder(&s.PB, index, e, nil)
			if err != nil {
				verifx.Fail(t, key+"-error", input, "error %v", err)
				continue
			}
			if len(got) != len(want) {
				verifx.Fail(t, key+"-bundles", input, "%d bundles, expected %d", len(got), len(want))
			}
			for b, es := range want {
				seen[fmt.Sprint("entities ", len(es))]++
				if d := dataset.Diff(dataset.Actual(got[b]), dataset.Lines(es)); d != "" {
					verifx.Fail(t, key, input, "bundle %s: %s", b, d)
				}
			}
		}
		index.Close()
		if dir != "" {
			os.RemoveAll(dir)
		}
	}
	t.Log("skipped", skipped, seen)
}

// an entity that is found by several walks is still one entity
func TestVerifWalks(t *testing.T) {
	s := &dataset.Set{PB: pathbuilder.NewPathbuilder()}
	parent := s.PB.GetOrCreate("parent")
	parent.Path = pathbuilder.Path{ID: "parent", Bundle: "parent", IsGroup: true, PathArray: []string{"A"}}
	child := s.PB.GetOrCreate("child")
	child.Path = pathbuilder.Path{ID: "child", Bundle: "child", IsGroup: true, PathArray: []string{"A", "p", "M", "q", "B"}}
	child.Parent = parent
	parent.ChildBundles = []*pathbuilder.Bundle{child}
	s.Quads = []dataset.Quad{
		{S: "x", P: dataset.Type, O: "A"}, {S: "y", P: dataset.Type, O: "B"}, {S: "m1", P: dataset.Type, O: "M"}, {S: "m2", P: dataset.Type, O: "M"},
		{S: "x", P: "p", O: "m1"}, {S: "m1", P: "q", O: "y"},
		{S: "x", P: "p", O: "m2"}, {S: "m2", P: "q", O: "y"},
	}
	input := s.String()
	verifx.Case("%s", input)
	index, err := s.Index(sparkl.NewEngine(""), false, 0)
	if err != nil {
		verifx.Fail(t, "index", input, "error %v", err)
		return
	}
	for i, e := range []storages.BundleEngine{storages.NewBundleEngine(""), storages.NewBundleEngine(filepath.Join(t.TempDir(), "x"))} {
		got, err := sparkl.LoadPathbuilder(&s.PB, index, e, nil)
		if err != nil || len(got["parent"]) != 1 {
			verifx.Fail(t, "walks-parent", input, "error %v, %v", err, got)
			continue
		}
		if k := len(got["parent"][0].Children["child"]); k != 1 {
			key := "walks-children"
			if i == 0 && k == 2 {
				key = "several-walks" // the known finding
			}
			verifx.Fail(t, key, input, "%s: x has %d children, expected the one entity y", []string{"memory", "disk"}[i], k)
		}
	}
}

// fields and children in several bundles that are filled at the same time
func TestVerifSchedules(t *testing.T) {
	for n := 0; n < verifx.N(20); n++ {
		s := &dataset.Set{PB: pathbuilder.NewPathbuilder()}
		parent := s.PB.GetOrCreate("parent")
		parent.Path = pathbuilder.Path{ID: "parent", Bundle: "parent", IsGroup: true, PathArray: []string{"A"}}
		add := func(s_, p, o string) { s.Quads = append(s.Quads, dataset.Quad{S: s_, P: p, O: o}) }
		for e := 0; e < 4; e++ {
			add(fmt.Sprint("x", e), dataset.Type, "A")
		}
		for k := 0; k < 4; k++ {
			name := fmt.Sprint("child", k)
			child := s.PB.GetOrCreate(name)
			child.Path = pathbuilder.Path{ID: name, Bundle: name, IsGroup: true, PathArray: []string{"A", fmt.Sprint("p", k), fmt.Sprint("B", k)}}
			child.Parent = parent
			parent.ChildBundles = append(parent.ChildBundles, child)
			parent.ChildFields = append(parent.ChildFields, pathbuilder.Field{Path: pathbuilder.Path{ID: fmt.Sprint("field", k), Bundle: "parent", PathArray: []string{"A"}, DatatypeProperty: fmt.Sprint("d", k)}})
			child.ChildFields = append(child.ChildFields, pathbuilder.Field{Path: pathbuilder.Path{ID: fmt.Sprint("inner", k), Bundle: name, PathArray: append([]string{}, child.Path.PathArray...), DatatypeProperty: "d0"}})
			for e := 0; e < 4; e++ {
				for c := 0; c < 3; c++ {
					y := fmt.Sprintf("y%d-%d-%d", k, e, c)
					add(y, dataset.Type, fmt.Sprint("B", k))
					add(fmt.Sprint("x", e), fmt.Sprint("p", k), y)
					s.Quads = append(s.Quads, dataset.Quad{S: y, P: "d0", O: "inner " + y, Data: true})
					s.Quads = append(s.Quads, dataset.Quad{S: fmt.Sprint("x", e), P: fmt.Sprint("d", k), O: fmt.Sprintf("v%d-%d-%d", k, e, c), Data: true})
				}
			}
		}
		want, ok := s.Expected()
		if !ok {
			t.Fatal("not a dataset of the property")
		}
		input := s.String()
		verifx.Case("%s", input)
		index, err := s.Index(sparkl.NewEngine(""), false, 0)
		if err != nil {
			verifx.Fail(t, "index", input, "error %v", err)
			return
		}
		engines := []storages.BundleEngine{storages.NewBundleEngine("")}
		if n%5 == 0 {
			engines = append(engines, storages.NewBundleEngine(filepath.Join(t.TempDir(), "x")))
		}
		for i, e := range engines {
			got, err := sparkl.LoadPathbuilder(&s.PB, index, slow{e, int64(n + 1)}, nil)
			if err != nil {
				verifx.Fail(t, "schedule-error", input, "error %v", err)
				continue
			}
			for b, es := range want {
				if d := dataset.Diff(dataset.Actual(got[b]), dataset.Lines(es)); d != "" {
					verifx.Fail(t, "schedule", input, "%s: bundle %s: %s", []string{"memory", "disk"}[i], b, d)
				}
			}
		}
		index.Close()
	}
}
