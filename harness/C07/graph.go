// dir: internal/triplestore/igraph
package igraph_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func apply(index *igraph.Index, o verifx.Op) error {
	switch o.Kind {
	case "same":
		return index.MarkIdentical(impl.Label(o.A), impl.Label(o.B))
	case "inverse":
		return index.MarkInverse(impl.Label(o.A), impl.Label(o.B))
	case "data":
		if o.Lang == "" && len(o.C) == 1 {
			return index.AddData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C))
		}
		return index.AddLangData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C), impl.Language(o.Lang))
	}
	return index.AddTriple(impl.Label(o.A), impl.Label(o.B), impl.Label(o.C))
}

func desc(t igraph.Triple) string {
	return verifx.EdgeString(string(t.SSubject), string(t.SPredicate), string(t.SObject), string(t.Subject), string(t.Predicate), string(t.Object), int(t.Role), string(t.Datum), string(t.Language))
}

func pathDesc(p igraph.Path) string {
	var nodes, edges, triples []string
	for _, n := range p.Nodes {
		nodes = append(nodes, string(n))
	}
	for _, n := range p.Edges {
		edges = append(edges, string(n))
	}
	for _, t := range p.Triples {
		triples = append(triples, desc(t))
	}
	datum := "-"
	if p.HasDatum {
		datum = fmt.Sprintf("%q@%s", p.Datum, p.Language)
	}
	return verifx.PathString(nodes, edges, triples, datum)
}

func collect(set *igraph.Paths) ([]string, error) {
	var out []string
	it := set.Paths()
	for it.Next() {
		out = append(out, pathDesc(it.Datum()))
	}
	sort.Strings(out)
	return out, it.Err()
}

func run(t *testing.T, name string, seed int64, engine igraph.Engine, index *igraph.Index) {
	r := verifx.Rand(seed)
	nodes := []string{"n1", "n2", "n3", "n4", "n5"}
	preds := []string{"p1", "p2", "p3", "p4"}
	if r.Intn(3) == 0 {
		nodes = append(nodes, "p1", "p2")
		preds = append(preds, "n1")
	}
	ops := verifx.RandomOps(r, nodes, preds, 1+r.Intn(25))
	if err := index.Reset(engine); err != nil {
		t.Fatal(err)
	}
	defer index.Close()
	g := verifx.NewGraph()
	input := name + ": " + verifx.OpsString(ops)
	verifx.Case("%s", input)
	fail := func(k, format string, args ...any) { verifx.Fail(t, k, input, format, args...) }
	for _, o := range ops {
		if err := apply(index, o); err != nil {
			fail("add", "%v gives error %v", o, err)
			return
		}
		g.Apply(o)
		if r.Intn(6) == 0 {
			if err := index.Compact(); err != nil {
				fail("compact", "error %v", err)
			}
		}
	}
	if err := index.Finalize(); err != nil {
		fail("finalize", "error %v", err)
	}
	preds = append(preds, "unknown")
	all := append(append([]string{}, nodes...), "unknown")
	total := 0
	for _, p := range preds {
		for _, o := range all {
			set, err := index.PathsStarting(impl.Label(p), impl.Label(o))
			if err != nil {
				fail("start", "error %v", err)
				return
			}
			got, err := collect(set)
			var want []string
			for _, w := range g.Start(p, o) {
				want = append(want, w.Desc(nil))
			}
			sort.Strings(want)
			if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
				fail("into", "triples with predicate %s and object %s: %q %v, expected %q", p, o, got, err, want)
			}
			total += len(got)
			for _, q := range preds {
				set, err := index.PathsStarting(impl.Label(p), impl.Label(o))
				if err == nil {
					err = set.Connected(impl.Label(q))
				}
				if err != nil {
					fail("start", "error %v", err)
					return
				}
				got, err := collect(set)
				var want []string
				qc := q
				if c, ok := g.Rep[q]; ok {
					qc = c
				}
				for _, w := range g.Connected(g.Start(p, o), q) {
					want = append(want, w.Desc([]string{qc}))
				}
				sort.Strings(want)
				if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
					fail("from", "walks from nodes with %s %s via %s: %q %v, expected %q", p, o, q, got, err, want)
				}
			}
		}
	}
	s := index.Stats()
	if s.DirectTriples != g.Direct || s.InverseTriples != g.Inverse || s.DatumTriples != g.DatumN || s.MaskedDataTriples != 0 || s.MaskedPredTriples != 0 {
		fail("stats", "statistics %v, expected direct %d inverse %d data %d", s, g.Direct, g.Inverse, g.DatumN)
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&ids); err != nil {
		fail("identities", "error %v", err)
	}
	n := 0
	for l, c := range g.Rep {
		got, ok, _ := ids.Get(impl.Label(l))
		if (l != c) != ok || ok && string(got) != c {
			fail("identities", "%s is an alias of %s, expected %s", l, got, c)
		}
		if l != c {
			n++
		}
	}
	if c, _ := ids.Count(); c != uint64(n) {
		fail("identities", "%d aliases, expected %d", c, n)
	}
}

func TestVerifGraph(t *testing.T) {
	var index igraph.Index
	for i := 0; i < verifx.N(400); i++ {
		run(t, "memory", int64(i), &igraph.MemoryEngine{}, &index)
	}
	for i := 0; i < verifx.N(25); i++ {
		run(t, "disk", int64(100000+i), &igraph.DiskEngine{DiskMap: imap.DiskMap{Path: t.TempDir()}}, &index)
	}
}
