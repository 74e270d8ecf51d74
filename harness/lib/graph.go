// dir: internal/verifx
package verifx

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Op is an operation on an index
type Op struct {
	Kind    string // same, inverse, triple, data
	A, B, C string // labels (for data: C is the value)
	Lang    string
}

func (o Op) String() string {
	switch o.Kind {
	case "same", "inverse":
		return fmt.Sprintf("%s(%s,%s)", o.Kind, o.A, o.B)
	case "data":
		return fmt.Sprintf("data(%s,%s,%q@%s)", o.A, o.B, o.C, o.Lang)
	}
	return fmt.Sprintf("triple(%s,%s,%s)", o.A, o.B, o.C)
}

// Edge is an edge of the oracle graph
type Edge struct {
	S, P, O          string // canonical
	LS, LP, LO       string // literal
	Role             int    // 0 regular, 1 inverse, 2 data
	Data             bool
	Datum, Lang, key string
}

func (e *Edge) String() string {
	return fmt.Sprintf("[%s %s %s|%s %s %s|%d|%q@%s]", e.S, e.P, e.O, e.LS, e.LP, e.LO, e.Role, e.Datum, e.Lang)
}

// Graph is an executable version of the contracts of the index
type Graph struct {
	Rep     map[string]string
	Inv     map[string]string
	Edges   map[string]*Edge
	nodes   int
	Direct  uint64
	Inverse uint64
	DatumN  uint64
}

func NewGraph() *Graph {
	return &Graph{Rep: map[string]string{}, Inv: map[string]string{}, Edges: map[string]*Edge{}}
}

func (g *Graph) Canon(l string) string {
	if r, ok := g.Rep[l]; ok {
		return r
	}
	g.Rep[l] = l
	return l
}

func (g *Graph) put(e *Edge) bool {
	e.key = e.S + "\x00" + e.P + "\x00" + e.O
	if old, ok := g.Edges[e.key]; ok {
		if e.Role < old.Role {
			g.Edges[e.key] = e
		}
		return false
	}
	g.Edges[e.key] = e
	return true
}

// Apply applies an operation
func (g *Graph) Apply(o Op) {
	switch o.Kind {
	case "same":
		n, a := g.Canon(o.A), g.Canon(o.B)
		for l, r := range g.Rep {
			if r == a {
				g.Rep[l] = n
			}
		}
	case "inverse":
		if o.A == o.B {
			g.Canon(o.A)
			return
		}
		l, r := g.Canon(o.A), g.Canon(o.B)
		g.Inv[l] = r
		g.Inv[r] = l
	case "triple":
		s, p, q := g.Canon(o.A), g.Canon(o.B), g.Canon(o.C)
		if g.put(&Edge{S: s, P: p, O: q, LS: o.A, LP: o.B, LO: o.C}) {
			g.Direct++
		}
		if i, ok := g.Inv[p]; ok {
			if g.put(&Edge{S: q, P: i, O: s, LS: o.A, LP: o.B, LO: o.C, Role: 1}) {
				g.Inverse++
			}
		}
	case "data":
		s, p := g.Canon(o.A), g.Canon(o.B)
		g.nodes++
		g.put(&Edge{S: s, P: p, O: fmt.Sprintf("\x01data%d", g.nodes), LS: o.A, LP: o.B, Role: 2, Data: true, Datum: o.C, Lang: o.Lang})
		g.DatumN++
	}
}

// Walk is a walk through the graph
type Walk struct {
	Nodes []string
	Edges []*Edge
	Last  *Edge // the edge to the last node, if it is data
	group int   // where the edges of the last node start
}

// Into returns all edges with the given (canonical) predicate and object
func (g *Graph) Into(p, o string) (es []*Edge) {
	for _, e := range g.Edges {
		if e.P == p && e.O == o {
			es = append(es, e)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
	return
}

// From returns all edges with the given (canonical) subject and predicate
func (g *Graph) From(s, p string) (es []*Edge) {
	for _, e := range g.Edges {
		if e.S == s && e.P == p {
			es = append(es, e)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
	return
}

func clone[T any](s []T) []T { return append([]T(nil), s...) }

// Start returns all walks of length zero that start at a node with the given relation
func (g *Graph) Start(p, o string) (ws []Walk) {
	for _, e := range g.Into(g.known(p), g.known(o)) {
		ws = append(ws, Walk{Nodes: []string{e.S}, Edges: []*Edge{e}})
	}
	return
}

func (g *Graph) known(l string) string {
	if r, ok := g.Rep[l]; ok {
		return r
	}
	return "\x02unknown " + l
}

// Connected extends walks
func (g *Graph) Connected(ws []Walk, p string) (out []Walk) {
	for _, w := range ws {
		if w.Last != nil {
			continue
		}
		for _, e := range g.From(w.Nodes[len(w.Nodes)-1], g.known(p)) {
			n := Walk{Nodes: clone(w.Nodes), Edges: append(clone(w.Edges), e), group: len(w.Edges)}
			if e.Data {
				n.Last = e
			} else {
				n.Nodes = append(n.Nodes, e.O)
			}
			out = append(out, n)
		}
	}
	return
}

// Ending restricts walks
func (g *Graph) Ending(ws []Walk, p, o string) (out []Walk) {
	p, o = g.known(p), g.known(o)
	for _, w := range ws {
		if w.Last != nil {
			continue
		}
		if e, ok := g.Edges[w.Nodes[len(w.Nodes)-1]+"\x00"+p+"\x00"+o]; ok {
			// the triples of end conditions come before the one leading to the node, the last condition first
			es := append(append(clone(w.Edges[:w.group]), e), w.Edges[w.group:]...)
			out = append(out, Walk{Nodes: clone(w.Nodes), Edges: es, group: w.group})
		}
	}
	return
}

// EdgeString describes a triple without its identifier
func EdgeString(s, p, o, ls, lp, lo string, role int, datum, lang string) string {
	return fmt.Sprintf("%s %s %s (%s %s %s) %d %q@%s", s, p, o, ls, lp, lo, role, datum, lang)
}

func (e *Edge) Desc() string {
	if e.Data {
		return EdgeString(e.S, e.P, "", e.LS, e.LP, "", e.Role, e.Datum, e.Lang)
	}
	return EdgeString(e.S, e.P, e.O, e.LS, e.LP, e.LO, e.Role, "", "")
}

// Desc describes a walk
func (w Walk) Desc(preds []string) string {
	var d []string
	for _, e := range w.Edges {
		d = append(d, e.Desc())
	}
	datum := "-"
	if w.Last != nil {
		datum = fmt.Sprintf("%q@%s", w.Last.Datum, w.Last.Lang)
	}
	return PathString(w.Nodes, preds, d, datum)
}

// PathString describes a path
func PathString(nodes, edges, triples []string, datum string) string {
	return "nodes " + strings.Join(nodes, ",") + " edges " + strings.Join(edges, ",") + " triples " + strings.Join(triples, ";") + " datum " + datum
}

// RandomOps makes random operations: identities, then inverses, then statements. The pools may overlap.
func RandomOps(r *rand.Rand, nodes, preds []string, n int) (ops []Op) {
	any := func(p []string) string { return p[r.Intn(len(p))] }
	for i := r.Intn(4); i > 0; i-- {
		ops = append(ops, Op{Kind: "same", A: any(nodes), B: any(nodes)})
	}
	for i := r.Intn(3); i > 0; i-- {
		ops = append(ops, Op{Kind: "same", A: any(preds), B: any(preds)})
	}
	for i := r.Intn(3); i > 0; i-- {
		ops = append(ops, Op{Kind: "inverse", A: any(preds), B: any(preds)})
	}
	values := []string{"", "a", "b", "a", "http://x/1", "ä\x00\n"}
	langs := []string{"", "", "de", "en"}
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			ops = append(ops, Op{Kind: "data", A: any(nodes), B: any(preds), C: any(values), Lang: any(langs)})
		} else {
			ops = append(ops, Op{Kind: "triple", A: any(nodes), B: any(preds), C: any(nodes)})
		}
	}
	return
}

// OpsString describes operations
func OpsString(ops []Op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}
