// dir: internal/triplestore/igraph
package igraph_test

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func apply(index *igraph.Index, o verifx.Op) error {
	switch o.Kind {
	case "same":
		return index.MarkIdentical(impl.Label(o.A), impl.Label(o.B))
	case "inverse":
		return index.MarkInverse(impl.Label(o.A), impl.Label(o.B))
	case "data":
		if o.Lang == "" && len(o.C) == 1 {
			return index.AddData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C))
		}
		return index.AddLangData(impl.Label(o.A), impl.Label(o.B), impl.Datum(o.C), impl.Language(o.Lang))
	}
	return index.AddTriple(impl.Label(o.A), impl.Label(o.B), impl.Label(o.C))
}

var nodes = []string{"n1", "n2", "n3", "n4"}
var preds = []string{"p1", "p2", "p3", "p4"}

// answers describes everything an index answers. Without ids, identifiers of triples are left out.
func answers(index *igraph.Index, ids bool) string {
	var out []string
	for _, p := range preds {
		for _, o := range nodes {
			for _, q := range append([]string{""}, preds...) {
				set, err := index.PathsStarting(impl.Label(p), impl.Label(o))
				if err == nil && q != "" {
					err = set.Connected(impl.Label(q))
				}
				if err != nil {
					out = append(out, "error "+err.Error())
					continue
				}
				it := set.Paths()
				for it.Next() {
					d := it.Datum()
					s := fmt.Sprintf("%s %s %s: %v %v %v %q %q", p, o, q, d.Nodes, d.Edges, d.HasDatum, d.Datum, d.Language)
					for _, t := range d.Triples {
						if !ids {
							t.ID.Reset()
						}
						s += fmt.Sprintf(" %v %q %q %q %q %q %q %q %q %d", t.ID, t.Subject, t.SSubject, t.Predicate, t.SPredicate, t.Object, t.SObject, t.Datum, t.Language, t.Role)
					}
					out = append(out, s)
				}
				if err := it.Err(); err != nil {
					out = append(out, "error "+err.Error())
				}
			}
		}
	}
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&m); err != nil {
		out = append(out, "error "+err.Error())
	}
	m.Iterate(func(k, v impl.Label) error {
		out = append(out, fmt.Sprintf("%q is %q", k, v))
		return nil
	})
	n, err := index.TripleCount()
	st := index.Stats()
	out = append(out, fmt.Sprintf("%d triples %v; %d %d %d %d %d %d", n, err, st.DirectTriples, st.InverseTriples, st.DatumTriples, st.ConflictTriples, st.MaskedDataTriples, st.MaskedPredTriples))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// fill fills an index, and returns what the statistics have to be
func fill(index *igraph.Index, ops []verifx.Op, pmask, dmask map[impl.Label]struct{}) (*verifx.Graph, uint64, uint64, error) {
	g := verifx.NewGraph()
	var mp, md uint64
	masked := false
	set := func() error {
		if masked {
			return nil
		}
		masked = true
		if pmask != nil {
			if err := index.SetPredicateMask(pmask); err != nil {
				return err
			}
		}
		if dmask != nil {
			if err := index.SetDataMask(dmask); err != nil {
				return err
			}
		}
		for l := range pmask {
			g.Canon(string(l))
		}
		for l := range dmask {
			g.Canon(string(l))
		}
		return nil
	}
	in := func(m map[impl.Label]struct{}, p string) bool {
		if m == nil {
			return true
		}
		c, ok := g.Rep[p]
		if !ok {
			return false
		}
		for l := range m {
			if g.Rep[string(l)] == c || g.Rep[string(l)] == g.Inv[c] {
				return true
			}
		}
		return false
	}
	for _, o := range ops {
		if o.Kind == "triple" || o.Kind == "data" {
			if err := set(); err != nil {
				return g, mp, md, err
			}
		}
		if err := apply(index, o); err != nil {
			return g, mp, md, err
		}
		switch {
		case o.Kind == "triple" && !in(pmask, o.B):
			mp++
		case o.Kind == "data" && !in(dmask, o.B):
			md++
		default:
			g.Apply(o)
		}
	}
	return g, mp, md, nil
}

func run(t *testing.T, name string, seed int64, engine func() igraph.Engine, index *igraph.Index) {
	r := verifx.Rand(seed)
	ops := verifx.RandomOps(r, nodes, preds, r.Intn(15))
	mask := func() map[impl.Label]struct{} {
		if r.Intn(2) == 0 {
			return nil
		}
		m := map[impl.Label]struct{}{}
		for _, p := range preds {
			if r.Intn(2) == 0 {
				m[impl.Label(p)] = struct{}{}
			}
		}
		return m
	}
	pmask, dmask := mask(), mask()
	input := fmt.Sprintf("%s: predicate mask %v, data mask %v, %s", name, pmask, dmask, verifx.OpsString(ops))
	verifx.Case("%s", input)
	fail := func(k, format string, args ...any) { verifx.Fail(t, k, input, format, args...) }

	// the index has a previous life
	if err := index.Reset(engine()); err != nil {
		fail("reset", "error %v", err)
		return
	}
	g, mp, md, err := fill(index, ops, pmask, dmask)
	if err != nil {
		fail("add", "a structure that was reset gives error %v", err)
		return
	}
	if r.Intn(2) == 0 {
		if err := index.Compact(); err != nil {
			fail("compact", "error %v", err)
		}
	}
	if err := index.Finalize(); err != nil {
		fail("finalize", "error %v", err)
		return
	}
	st := index.Stats()
	if st.DirectTriples != g.Direct || st.InverseTriples != g.Inverse || st.DatumTriples != g.DatumN || st.MaskedPredTriples != mp || st.MaskedDataTriples != md {
		fail("stats", "statistics %d direct, %d inverse, %d data, %d masked, %d masked data; expected %d %d %d %d %d", st.DirectTriples, st.InverseTriples, st.DatumTriples, st.MaskedPredTriples, st.MaskedDataTriples, g.Direct, g.Inverse, g.DatumN, mp, md)
	}
	before := answers(index, true)

	// a fresh index gives the same answers
	var fresh igraph.Index
	if err := fresh.Reset(engine()); err != nil {
		fail("reset", "error %v", err)
		return
	}
	if empty := answers2(&fresh); empty != "0 triples <nil>; 0 0 0 0 0 0" {
		fail("reset", "a fresh index answers %s", empty)
	}
	if _, _, _, err := fill(&fresh, ops, pmask, dmask); err != nil {
		fail("reset", "error %v", err)
	}
	if err := fresh.Finalize(); err != nil {
		fail("reset", "error %v", err)
	}
	if other := answers(&fresh, true); other != before {
		fail("reset", "an index with a previous life answers\n%s\na fresh one\n%s", before, other)
	}
	for i := 0; i < 2; i++ {
		if err := fresh.Close(); err != nil {
			fail("close", "closing %d times gives error %v", i+1, err)
		}
	}

	// everything is rejected
	check := func(what string, err error) {
		if err == nil {
			fail(what, "%s succeeds on a finalized index", what)
		} else if !errors.Is(err, igraph.ErrFinalized) {
			fail(what, "%s gives error %v on a finalized index", what, err)
		}
		if after := answers(index, true); after != before {
			fail(what, "after %s a finalized index answers\n%s\nbefore\n%s", what, after, before)
		}
	}
	for _, o := range []verifx.Op{
		{Kind: "triple", A: nodes[r.Intn(4)], B: preds[r.Intn(4)], C: nodes[r.Intn(4)]},
		{Kind: "triple", A: "new", B: "new", C: "new"},
		{Kind: "data", A: nodes[r.Intn(4)], B: preds[r.Intn(4)], C: "a"},
		{Kind: "data", A: nodes[r.Intn(4)], B: preds[r.Intn(4)], C: "b", Lang: "de"},
		{Kind: "same", A: nodes[r.Intn(4)], B: nodes[r.Intn(4)]},
		{Kind: "same", A: preds[r.Intn(4)], B: preds[r.Intn(4)]},
		{Kind: "inverse", A: preds[r.Intn(4)], B: preds[r.Intn(4)]},
	} {
		check(o.String(), apply(index, o))
	}
	check("Compact", index.Compact())
	check("Finalize", index.Finalize())
	check("Finalize", index.Finalize())
	if r.Intn(2) == 0 {
		for i := 0; i < 2; i++ {
			if err := index.Close(); err != nil {
				fail("close", "closing %d times gives error %v", i+1, err)
			}
		}
	}
}

// answers2 describes an index before it is finalized
func answers2(index *igraph.Index) string {
	n, err := index.TripleCount()
	st := index.Stats()
	return fmt.Sprintf("%d triples %v; %d %d %d %d %d %d", n, err, st.DirectTriples, st.InverseTriples, st.DatumTriples, st.ConflictTriples, st.MaskedDataTriples, st.MaskedPredTriples)
}

func TestVerifFinal(t *testing.T) {
	var index igraph.Index
	for i := 0; i < 2; i++ {
		if err := index.Close(); err != nil {
			verifx.Fail(t, "close", "zero index", "error %v", err)
		}
	}
	for i := 0; i < verifx.N(60); i++ {
		run(t, "memory", int64(i), func() igraph.Engine { return &igraph.MemoryEngine{} }, &index)
	}
	for i := 0; i < verifx.N(12); i++ {
		run(t, "disk", int64(100000+i), func() igraph.Engine {
			return &igraph.DiskEngine{DiskMap: imap.DiskMap{Path: t.TempDir()}}
		}, &index)
		run(t, "memory", int64(200000+i), func() igraph.Engine { return &igraph.MemoryEngine{} }, &index)
	}
}
