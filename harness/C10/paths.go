// dir: internal/triplestore/igraph
package igraph_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func apply(index *igraph.Index, o verifx.Op) error {
	switch o.Kind {
	case "same":
		return index.MarkIdentical(impl.Label(o.A), impl.Label(o.B))
	case "inverse":
		return index.MarkInverse(impl.Label(o.A), impl.Label(o.B))
	case "data":
		if o.Lang == "" && len(o.C) == 1 {
			return index.AddData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C))
		}
		return index.AddLangData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C), impl.Language(o.Lang))
	}
	return index.AddTriple(impl.Label(o.A), impl.Label(o.B), impl.Label(o.C))
}

func desc(t igraph.Triple) string {
	return verifx.EdgeString(string(t.SSubject), string(t.SPredicate), string(t.SObject), string(t.Subject), string(t.Predicate), string(t.Object), int(t.Role), string(t.Datum), string(t.Language))
}

func pathDesc(p igraph.Path) string {
	var nodes, edges, triples []string
	for _, n := range p.Nodes {
		nodes = append(nodes, string(n))
	}
	for _, n := range p.Edges {
		edges = append(edges, string(n))
	}
	for _, t := range p.Triples {
		triples = append(triples, desc(t))
	}
	datum := "-"
	if p.HasDatum {
		datum = fmt.Sprintf("%q@%s", p.Datum, p.Language)
	}
	return verifx.PathString(nodes, edges, triples, datum)
}

func collect(set *igraph.Paths) ([]string, error) {
	var out []string
	it := set.Paths()
	for it.Next() {
		out = append(out, pathDesc(it.Datum()))
	}
	sort.Strings(out)
	return out, it.Err()
}

type step struct {
	Kind string
	A, B string
}

func run(t *testing.T, name string, seed int64, engine igraph.Engine, index *igraph.Index) {
	r := verifx.Rand(seed)
	nodes := []string{"n1", "n2", "n3", "n4"}
	preds := []string{"p1", "p2", "p3"}
	if r.Intn(3) == 0 {
		nodes = append(nodes, "p1")
	}
	ops := verifx.RandomOps(r, nodes, preds, 5+r.Intn(40))
	if err := index.Reset(engine); err != nil {
		t.Fatal(err)
	}
	defer index.Close()
	g := verifx.NewGraph()
	for _, o := range ops {
		if err := apply(index, o); err != nil {
			t.Fatal(err)
		}
		g.Apply(o)
	}
	if err := index.Finalize(); err != nil {
		t.Fatal(err)
	}
	pick := func(p []string) string {
		if r.Intn(20) == 0 {
			return "unknown"
		}
		return p[r.Intn(len(p))]
	}
	for i := 0; i < 25; i++ {
		steps := []step{{"start", pick(preds), pick(nodes)}}
		for j := r.Intn(6); j > 0; j-- {
			if r.Intn(3) == 0 {
				steps = append(steps, step{"ending", pick(preds), pick(nodes)})
			} else {
				steps = append(steps, step{"connected", pick(preds), ""})
			}
		}
		size := r.Intn(4)
		input := fmt.Sprintf("%s: %s; query %v size after step %d", name, verifx.OpsString(ops), steps, size)
		verifx.Case("%s", input)
		fail := func(k, format string, args ...any) { verifx.Fail(t, k, input, format, args...) }
		var set *igraph.Paths
		var err error
		var ws []verifx.Walk
		var edges []string
		bad := false
		for k, s := range steps {
			switch s.Kind {
			case "start":
				set, err = index.PathsStarting(impl.Label(s.A), impl.Label(s.B))
				ws = g.Start(s.A, s.B)
			case "ending":
				err = set.Ending(impl.Label(s.A), impl.Label(s.B))
				ws = g.Ending(ws, s.A, s.B)
			default:
				err = set.Connected(impl.Label(s.A))
				ws = g.Connected(ws, s.A)
				c := s.A
				if rep, ok := g.Rep[c]; ok {
					c = rep
				}
				edges = append(edges, c)
			}
			if err != nil {
				fail(s.Kind, "error %v", err)
				bad = true
				break
			}
			if k == size || k == size+1 {
				n, err := set.Size()
				if err != nil || n != len(ws) {
					fail("size", "%d paths (%v), expected %d", n, err, len(ws))
				}
			}
		}
		if bad {
			continue
		}
		got, err := collect(set)
		var want []string
		for _, w := range ws {
			want = append(want, w.Desc(edges))
		}
		sort.Strings(want)
		if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			fail("walks", "paths %q %v, expected %q", got, err, want)
		}
	}
	// the value of a path
	for _, p := range []igraph.Path{{}, {Nodes: []impl.Label{"a"}}, {Nodes: []impl.Label{"a", "b"}}, {Nodes: []impl.Label{"a"}, HasDatum: true, Datum: "x"}, {Nodes: []impl.Label{"a"}, HasDatum: true}, {HasDatum: true, Datum: "x"}} {
		want := string(p.Datum)
		if !p.HasDatum && len(p.Nodes) > 0 {
			want = string(p.Nodes[len(p.Nodes)-1])
		}
		if got := p.Value(); string(got) != want {
			verifx.Fail(t, "value", fmt.Sprintf("%v", p), "value %q, expected %q", got, want)
		}
	}
}

func TestVerifPaths(t *testing.T) {
	var index igraph.Index
	for i := 0; i < verifx.N(150); i++ {
		run(t, "memory", int64(i), &igraph.MemoryEngine{}, &index)
	}
	for i := 0; i < verifx.N(15); i++ {
		run(t, "disk", int64(100000+i), &igraph.DiskEngine{DiskMap: imap.DiskMap{Path: t.TempDir()}}, &index)
	}
}
