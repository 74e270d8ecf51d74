// dir: internal/verifx/dataset

// Package dataset makes random pathbuilders and statements, and holds an executable version of the extraction.
package dataset

import (
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

// Quad is a statement
type Quad struct {
	S, P, O string
	Data    bool
	Lang    string
}

func (q Quad) String() string {
	if q.Data {
		return fmt.Sprintf("(%s %s %q@%s)", q.S, q.P, q.O, q.Lang)
	}
	return fmt.Sprintf("(%s %s %s)", q.S, q.P, q.O)
}

// Set is a dataset
type Set struct {
	PB        pathbuilder.Pathbuilder
	Quads     []Quad
	SameAs    []string
	InverseOf []string
}

const Type = string(wisski.Type)

func (s *Set) String() string {
	var d []string
	var bundle func(b *pathbuilder.Bundle)
	bundle = func(b *pathbuilder.Bundle) {
		d = append(d, fmt.Sprintf("bundle %s %s {", b.MachineName(), strings.Join(b.PathArray, "/")))
		for _, f := range b.ChildFields {
			d = append(d, fmt.Sprintf("field %s %s %q", f.MachineName(), strings.Join(f.PathArray, "/"), f.DatatypeProperty))
		}
		for _, c := range b.ChildBundles {
			bundle(c)
		}
		d = append(d, "}")
	}
	for _, b := range s.PB.Bundles() {
		bundle(b)
	}
	for _, q := range s.Quads {
		d = append(d, strings.ReplaceAll(q.String(), Type, "a"))
	}
	return strings.Join(d, " ") + fmt.Sprintf(" same %v inverse %v", s.SameAs, s.InverseOf)
}

// Ops are the operations that the statements stand for: identities, then inverses, then everything
func (s *Set) Ops() (ops []verifx.Op) {
	has := func(l []string, p string) bool {
		for _, o := range l {
			if o == p {
				return true
			}
		}
		return false
	}
	for _, q := range s.Quads {
		if !q.Data && has(s.SameAs, q.P) {
			ops = append(ops, verifx.Op{Kind: "same", A: q.S, B: q.O})
		}
	}
	for _, q := range s.Quads {
		if !q.Data && has(s.InverseOf, q.P) {
			ops = append(ops, verifx.Op{Kind: "inverse", A: q.S, B: q.O})
		}
	}
	for _, q := range s.Quads {
		if q.Data {
			ops = append(ops, verifx.Op{Kind: "data", A: q.S, B: q.P, C: q.O, Lang: q.Lang})
		} else {
			ops = append(ops, verifx.Op{Kind: "triple", A: q.S, B: q.P, C: q.O})
		}
	}
	return
}

// Entity is an entity of the executable version
type Entity struct {
	URI      string
	Path     []string
	Triples  []string
	Fields   map[string][]string
	Children map[string][]*Entity
	parents  []string
	walks    []verifx.Walk
}

func list(m map[string][]string) string {
	var ks []string
	for k, v := range m {
		if len(v) > 0 {
			sort.Strings(v)
			ks = append(ks, fmt.Sprintf("%s: [%s]", k, strings.Join(v, " | ")))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func entity(uri string, path, triples []string, fields, children map[string][]string) string {
	return fmt.Sprintf("%s via %s because %s fields {%s} children {%s}", uri, strings.Join(path, ","), strings.Join(triples, ";"), list(fields), list(children))
}

func (e *Entity) String() string {
	c := map[string][]string{}
	for k, es := range e.Children {
		for _, x := range es {
			c[k] = append(c[k], x.String())
		}
	}
	return entity(e.URI, e.Path, e.Triples, e.Fields, c)
}

func value(v, lang string, path, triples []string) string {
	return fmt.Sprintf("%q@%s via %s because %s", v, lang, strings.Join(path, ","), strings.Join(triples, ";"))
}

func descs(w verifx.Walk) (d []string) {
	for _, e := range w.Edges {
		d = append(d, e.Desc())
	}
	return
}

func walks(g *verifx.Graph, path pathbuilder.Path) []verifx.Walk {
	uris := append([]string{}, path.PathArray...)
	if len(uris) == 0 {
		return nil
	}
	if !path.IsGroup && path.DatatypeProperty != "" && path.DatatypeProperty != "empty" {
		uris = append(uris, path.DatatypeProperty)
	}
	ws := g.Start(Type, uris[0])
	for i := 1; i < len(uris); i++ {
		if i%2 == 1 {
			ws = g.Connected(ws, uris[i])
		} else {
			ws = g.Ending(ws, Type, uris[i])
		}
	}
	return ws
}

// Walks are the walks of a path
func (s *Set) Walks(path pathbuilder.Path) []verifx.Walk {
	g := verifx.NewGraph()
	for _, o := range s.Ops() {
		g.Apply(o)
	}
	return walks(g, path)
}

// Expected are the expected entities of every bundle. It fails if an entity is reached by several walks.
func (s *Set) Expected() (m map[string][]*Entity, ok bool) {
	g := verifx.NewGraph()
	for _, o := range s.Ops() {
		g.Apply(o)
	}
	ok = true
	m = map[string][]*Entity{}
	var load func(b *pathbuilder.Bundle) []*Entity
	load = func(b *pathbuilder.Bundle) (es []*Entity) {
		at := 0
		if b.Parent != nil {
			at = len(b.PathArray) / 2
		}
		by := map[string]*Entity{}
		for _, w := range walks(g, b.Path) {
			e := &Entity{URI: w.Nodes[at], Path: w.Nodes, Triples: descs(w), Fields: map[string][]string{}, Children: map[string][]*Entity{}}
			if by[e.URI] != nil {
				ok = false
			}
			by[e.URI] = e
			es = append(es, e)
		}
		for _, f := range b.ChildFields {
			for _, w := range walks(g, f.Path) {
				e := by[w.Nodes[at]]
				if e == nil {
					continue
				}
				v, l := w.Nodes[len(w.Nodes)-1], ""
				if w.Last != nil {
					v, l = w.Last.Datum, w.Last.Lang
				}
				e.Fields[f.MachineName()] = append(e.Fields[f.MachineName()], value(v, l, w.Nodes, descs(w)))
			}
		}
		for _, c := range b.ChildBundles {
			for _, e := range load(c) {
				if p := by[e.Path[at]]; p != nil {
					p.Children[c.MachineName()] = append(p.Children[c.MachineName()], e)
				}
			}
		}
		return
	}
	for _, b := range s.PB.Bundles() {
		m[b.MachineName()] = load(b)
	}
	return m, ok
}

// Lines describes the entities of a bundle, sorted
func Lines(es []*Entity) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, e.String())
	}
	sort.Strings(out)
	return out
}

func labels(ls []impl.Label) (out []string) {
	for _, l := range ls {
		out = append(out, string(l))
	}
	return
}

func triples(ts []igraph.Triple) (out []string) {
	for _, t := range ts {
		out = append(out, verifx.EdgeString(string(t.SSubject), string(t.SPredicate), string(t.SObject), string(t.Subject), string(t.Predicate), string(t.Object), int(t.Role), string(t.Datum), string(t.Language)))
	}
	return
}

// Describe describes an extracted entity
func Describe(e wisski.Entity) string {
	f, c := map[string][]string{}, map[string][]string{}
	for k, vs := range e.Fields {
		for _, v := range vs {
			f[k] = append(f[k], value(string(v.Value), string(v.Language), labels(v.Path), triples(v.Triples)))
		}
	}
	for k, es := range e.Children {
		for _, x := range es {
			c[k] = append(c[k], Describe(x))
		}
	}
	return entity(string(e.URI), labels(e.Path), triples(e.Triples), f, c)
}

// Actual describes extracted entities, sorted
func Actual(es []wisski.Entity) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, Describe(e))
	}
	sort.Strings(out)
	return out
}

// Diff describes the first difference
func Diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return "missing " + want[i]
		case i >= len(want):
			return "superfluous " + got[i]
		case got[i] != want[i]:
			return "got " + got[i] + ", expected " + want[i]
		}
	}
	return ""
}

// Source is a source of the statements
type Source struct {
	Quads  []Quad
	next   int
	Opened int
	open   bool
	Fail   error // returned once Left statements were read in total
	Left   int
	Extra  bool // the source reports more statements after the end
}

func (s *Source) Open() error  { s.next = 0; s.Opened++; s.open = true; return nil }
func (s *Source) Close() error { s.open = false; return nil }
func (s *Source) Next() sparkl.Token {
	if s.Fail != nil {
		if s.Left == 0 {
			return sparkl.Token{Err: s.Fail}
		}
		s.Left--
	}
	if s.next >= len(s.Quads) {
		return sparkl.Token{Err: io.EOF}
	}
	q := s.Quads[s.next]
	s.next++
	t := sparkl.Token{Subject: impl.Label(q.S), Predicate: impl.Label(q.P)}
	if q.Data {
		t.HasDatum, t.Datum, t.Language = true, impl.Datum(q.O), impl.Language(q.Lang)
	} else {
		t.Object = impl.Label(q.O)
	}
	return t
}

// Predicates are the special predicates
func (s *Set) Predicates() (p sparkl.Predicates) {
	for _, x := range s.SameAs {
		p.SameAs = append(p.SameAs, impl.Label(x))
	}
	for _, x := range s.InverseOf {
		p.InverseOf = append(p.InverseOf, impl.Label(x))
	}
	return
}

// Index makes an index
func (s *Set) Index(engine igraph.Engine, mask bool, compact int) (*igraph.Index, error) {
	opts := sparkl.IndexOptions{CompactInterval: compact}
	if mask {
		opts.Mask = &s.PB
	}
	return sparkl.MakeIndex(&Source{Quads: s.Quads}, s.Predicates(), engine, opts, nil)
}

// Random makes a dataset.
func Random(r *rand.Rand) *Set {
	s := &Set{PB: pathbuilder.NewPathbuilder(), SameAs: []string{"same"}, InverseOf: []string{"inv"}}
	classes := []string{"C0", "C1", "C2", "C3", "C4"}
	preds := []string{"p0", "p1", "p2", "p3", "p4", "p5"}
	pick := func(l []string) string { return l[r.Intn(len(l))] }
	uris := 0
	uri := func() string { uris++; return fmt.Sprintf("u%d", uris) }
	ids := 0
	values := []string{"", "a", "b", "c", "http://x/1", "ä \n", "a"}
	langs := []string{"", "", "de", "en"}

	// inst makes a walk along a path, that starts at a given node, and returns its end
	inst := func(from string, path []string) string {
		for i := 0; i+1 < len(path); i += 2 {
			n := uri()
			s.Quads = append(s.Quads, Quad{S: from, P: path[i], O: n}, Quad{S: n, P: Type, O: path[i+1]})
			from = n
		}
		return from
	}
	step := func(n int) (path []string) {
		for i := 0; i < n; i++ {
			path = append(path, pick(preds), pick(classes))
		}
		return
	}
	var bundle func(parent *pathbuilder.Bundle, prefix []string, depth int, nodes []string)
	bundle = func(parent *pathbuilder.Bundle, prefix []string, depth int, nodes []string) {
		id := fmt.Sprintf("b%d", ids)
		ids++
		b := s.PB.GetOrCreate(id)
		b.Path = pathbuilder.Path{ID: id, Bundle: "m" + id, IsGroup: true, Weight: r.Intn(3), Cardinality: r.Intn(3) - 1}
		var own []string
		if parent == nil {
			c := pick(classes)
			b.PathArray = []string{c}
			for i, k := 0, r.Intn(4); i < k; i++ {
				n := uri()
				s.Quads = append(s.Quads, Quad{S: n, P: Type, O: c})
				own = append(own, n)
			}
		} else {
			b.Parent = parent
			parent.ChildBundles = append(parent.ChildBundles, b)
			ext := step(1 + r.Intn(2))
			b.PathArray = append(append([]string{}, prefix...), ext...)
			for _, p := range nodes {
				for i, k := 0, r.Intn(3); i < k; i++ {
					own = append(own, inst(p, ext))
				}
			}
		}
		for i, k := 0, r.Intn(3); i < k; i++ {
			f := pathbuilder.Field{Path: pathbuilder.Path{ID: fmt.Sprintf("f%d", ids), Field: "x", Bundle: b.Path.Bundle, Weight: r.Intn(3), Cardinality: r.Intn(3) - 1}}
			ids++
			ext := step(r.Intn(3))
			f.PathArray = append(append([]string{}, b.PathArray...), ext...)
			switch r.Intn(5) {
			case 0:
				f.DatatypeProperty = "empty"
			case 1:
			default:
				f.DatatypeProperty = pick(preds)
			}
			if r.Intn(10) == 0 {
				f.PathArray = append(f.PathArray, pick(preds))
				f.DatatypeProperty = ""
				for _, n := range own {
					s.Quads = append(s.Quads, Quad{S: inst(n, ext), P: f.PathArray[len(f.PathArray)-1], O: pick(values), Data: true, Lang: pick(langs)})
				}
			}
			b.ChildFields = append(b.ChildFields, f)
			for _, n := range own {
				for i, k := 0, r.Intn(3); i < k; i++ {
					e := inst(n, ext)
					if f.DatatypeProperty != "" && f.DatatypeProperty != "empty" {
						for j, l := 0, r.Intn(3); j < l; j++ {
							if r.Intn(4) == 0 {
								s.Quads = append(s.Quads, Quad{S: e, P: f.DatatypeProperty, O: uri()})
							} else {
								s.Quads = append(s.Quads, Quad{S: e, P: f.DatatypeProperty, O: pick(values), Data: true, Lang: pick(langs)})
							}
						}
					}
				}
			}
		}
		if depth < 3 {
			for i, k := 0, r.Intn(3-depth/2)*r.Intn(2); i < k; i++ {
				bundle(b, b.PathArray, depth+1, own)
			}
		}
	}
	for i, k := 0, r.Intn(3)+1; i < k; i++ {
		bundle(nil, nil, 0, nil)
	}

	// noise
	anyuri := func() string { return fmt.Sprintf("u%d", 1+r.Intn(uris+1)) }
	if r.Intn(2) == 0 {
		for i, k := 0, r.Intn(4); i < k; i++ {
			switch r.Intn(3) {
			case 0:
				s.Quads = append(s.Quads, Quad{S: anyuri(), P: pick(preds), O: pick(values), Data: true, Lang: pick(langs)})
			case 1:
				s.Quads = append(s.Quads, Quad{S: anyuri(), P: Type, O: pick(classes)})
			default:
				s.Quads = append(s.Quads, Quad{S: anyuri(), P: pick(preds), O: anyuri()})
			}
		}
	}

	// statements about the same things in other words
	alias := func(l string) string { return l }
	if r.Intn(2) == 0 {
		other := map[string]string{}
		mark := func(l string) {
			a := "alias-" + l
			if other[l] != "" || l == Type && r.Intn(3) > 0 {
				return
			}
			other[l] = a
			if r.Intn(2) == 0 {
				s.Quads = append(s.Quads, Quad{S: l, P: "same", O: a})
			} else {
				s.Quads = append(s.Quads, Quad{S: a, P: "same", O: l})
			}
			if r.Intn(4) == 0 {
				b := "other-" + l
				s.Quads = append(s.Quads, Quad{S: b, P: "same", O: a})
			}
		}
		for i, k := 0, r.Intn(4); i < k; i++ {
			switch r.Intn(4) {
			case 0:
				mark(pick(preds))
			case 1:
				mark(pick(classes))
			case 2:
				mark(anyuri())
			default:
				mark(Type)
			}
		}
		if r.Intn(4) == 0 {
			s.Quads = append(s.Quads, Quad{S: pick(classes), P: "same", O: pick(classes)})
		}
		if r.Intn(6) == 0 {
			s.Quads = append(s.Quads, Quad{S: pick(preds), P: "same", O: pick(preds)})
		}
		alias = func(l string) string {
			if other[l] != "" && r.Intn(2) == 0 {
				return other[l]
			}
			return l
		}
	}
	inverse := map[string]string{}
	if r.Intn(2) == 0 {
		for i, k := 0, 1+r.Intn(2); i < k; i++ {
			p := pick(preds)
			if r.Intn(3) == 0 && p != "p0" {
				inverse[p] = "p0"
				s.Quads = append(s.Quads, Quad{S: p, P: "inv", O: "p0"})
			} else if inverse[p] == "" {
				inverse[p] = "inv-" + p
				if r.Intn(2) == 0 {
					s.Quads = append(s.Quads, Quad{S: p, P: "inv", O: "inv-" + p})
				} else {
					s.Quads = append(s.Quads, Quad{S: "inv-" + p, P: "inv", O: p})
				}
			}
		}
	}
	for i, q := range s.Quads {
		if q.P == "same" || q.P == "inv" {
			continue
		}
		if i := inverse[q.P]; i != "" && !q.Data && r.Intn(2) == 0 {
			q.S, q.P, q.O = q.O, i, q.S
		}
		q.S, q.P = alias(q.S), alias(q.P)
		if !q.Data {
			q.O = alias(q.O)
		}
		s.Quads[i] = q
	}
	if r.Intn(3) > 0 {
		r.Shuffle(len(s.Quads), func(i, j int) { s.Quads[i], s.Quads[j] = s.Quads[j], s.Quads[i] })
	}
	return s
}
