// dir: internal/sparkl
package sparkl_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/verifx/dataset"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// query lists the paths of a path of the pathbuilder
func query(index *igraph.Index, path pathbuilder.Path) ([]string, error) {
	uris := append([]string{}, path.PathArray...)
	if d := path.DatatypeProperty; !path.IsGroup && d != "" && d != "empty" {
		uris = append(uris, d)
	}
	set, err := index.PathsStarting(impl.Label(dataset.Type), impl.Label(uris[0]))
	if err != nil {
		return nil, err
	}
	for i := 1; i < len(uris); i++ {
		if i%2 == 1 {
			err = set.Connected(impl.Label(uris[i]))
		} else {
			err = set.Ending(impl.Label(dataset.Type), impl.Label(uris[i]))
		}
		if err != nil {
			return nil, err
		}
	}
	out := []string{}
	it := set.Paths()
	defer it.Close()
	for it.Next() {
		p := it.Datum()
		var ts []string
		for _, t := range p.Triples {
			ts = append(ts, verifx.EdgeString(string(t.SSubject), string(t.SPredicate), string(t.SObject), string(t.Subject), string(t.Predicate), string(t.Object), int(t.Role), string(t.Datum), string(t.Language)))
		}
		out = append(out, fmt.Sprintf("%v %v %q@%s %v: %s", p.Nodes, p.Edges, p.Datum, p.Language, p.HasDatum, strings.Join(ts, ";")))
	}
	sort.Strings(out)
	return out, it.Err()
}

func paths(s *dataset.Set) (ps []pathbuilder.Path) {
	var bundle func(b *pathbuilder.Bundle)
	bundle = func(b *pathbuilder.Bundle) {
		ps = append(ps, b.Path)
		for _, f := range b.ChildFields {
			ps = append(ps, f.Path)
		}
		for _, c := range b.ChildBundles {
			bundle(c)
		}
	}
	for _, b := range s.PB.Bundles() {
		bundle(b)
	}
	return
}

func TestVerifMask(t *testing.T) {
	found := 0
	for n := 0; n < verifx.N(700); n++ {
		r := verifx.Rand(int64(n))
		s := dataset.Random(r)
		input := s.String()
		verifx.Case("%s", input)
		dir := ""
		engine := func() igraph.Engine { return sparkl.NewEngine("") }
		if n%500 == 7 {
			var err error
			if dir, err = os.MkdirTemp("", "mask"); err != nil {
				t.Fatal(err)
			}
			k := 0
			engine = func() igraph.Engine {
				k++
				d := filepath.Join(dir, fmt.Sprint("index", k))
				if err := os.Mkdir(d, 0o700); err != nil {
					t.Fatal(err)
				}
				return sparkl.NewEngine(d)
			}
		}
		plain, err := s.Index(engine(), false, 0)
		if err != nil {
			verifx.Fail(t, "error", input, "without a mask: %v", err)
			continue
		}
		masked, err := s.Index(engine(), true, 5*r.Intn(2))
		if err != nil {
			verifx.Fail(t, "error", input, "with a mask: %v", err)
			continue
		}
		for _, p := range paths(s) {
			want, err := query(plain, p)
			got, err2 := query(masked, p)
			if err != nil || err2 != nil {
				verifx.Fail(t, "query-error", input, "path %v %s: error %v without, %v with the mask", p.PathArray, p.DatatypeProperty, err, err2)
				continue
			}
			found += len(want)
			if d := dataset.Diff(got, want); d != "" {
				verifx.Fail(t, "query", input, "path %v %s with the mask: %s", p.PathArray, p.DatatypeProperty, d)
			}
		}
		if _, ok := s.Expected(); ok && n%3 == 0 {
			want, err := sparkl.LoadPathbuilder(&s.PB, plain, storages.NewBundleEngine(""), nil)
			got, err2 := sparkl.LoadPathbuilder(&s.PB, masked, storages.NewBundleEngine(""), nil)
			if err != nil || err2 != nil {
				verifx.Fail(t, "load-error", input, "error %v without, %v with the mask", err, err2)
				continue
			}
			for b := range want {
				if d := dataset.Diff(dataset.Actual(got[b]), dataset.Actual(want[b])); d != "" {
					verifx.Fail(t, "entities", input, "bundle %s with the mask: %s", b, d)
				}
			}
		}
		plain.Close()
		masked.Close()
		if dir != "" {
			os.RemoveAll(dir)
		}
	}
	t.Log("paths", found)
}
