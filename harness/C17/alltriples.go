// dir: internal/wisski
package wisski_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func id(n uint64) (id impl.ID) {
	for i := uint64(0); i < n; i++ {
		id.Inc()
	}
	return
}

var ids []impl.ID

func triple(n int) igraph.Triple {
	role := igraph.Role(n % 3)
	return igraph.Triple{Subject: impl.Label(fmt.Sprint("s", n)), Predicate: "p", Object: impl.Label(fmt.Sprint("o", n%4)), SSubject: "cs", SPredicate: "cp", SObject: "co", Datum: impl.Datum(fmt.Sprint(n % 2)), ID: ids[n], Role: role}
}

func triples(r *rand.Rand, max int) (ts []igraph.Triple) {
	n := r.Intn(5)
	if r.Intn(3) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		ts = append(ts, triple(1+r.Intn(max)))
	}
	if r.Intn(3) == 0 { // room for more triples
		ts = append(make([]igraph.Triple, 0, len(ts)+r.Intn(40)), ts...)
	}
	return
}

func entity(r *rand.Rand, depth, max int) wisski.Entity {
	e := wisski.Entity{URI: impl.Label(fmt.Sprint("u", r.Intn(100)))}
	e.Triples = triples(r, max)
	if n := r.Intn(4); n > 0 {
		e.Fields = map[string][]wisski.FieldValue{}
		for i := 0; i < n; i++ {
			var vs []wisski.FieldValue
			for j := r.Intn(4); j > 0; j-- {
				vs = append(vs, wisski.FieldValue{Value: "v", Triples: triples(r, max)})
			}
			e.Fields[fmt.Sprint("f", i)] = vs
		}
	}
	if depth > 0 {
		e.Children = map[string][]wisski.Entity{}
		for i := r.Intn(3); i > 0; i-- {
			var cs []wisski.Entity
			for j := r.Intn(3); j > 0; j-- {
				cs = append(cs, entity(r, depth-1, max))
			}
			e.Children[fmt.Sprint("c", i)] = cs
		}
	}
	return e
}

func gather(e wisski.Entity, m map[impl.ID]igraph.Triple) {
	for _, t := range e.Triples {
		m[t.ID] = t
	}
	for _, vs := range e.Fields {
		for _, v := range vs {
			for _, t := range v.Triples {
				m[t.ID] = t
			}
		}
	}
	for _, cs := range e.Children {
		for _, c := range cs {
			gather(c, m)
		}
	}
}

// spare returns the elements of triples beyond their length
func spare(e wisski.Entity) (s [][]igraph.Triple) {
	s = append(s, e.Triples[:cap(e.Triples)])
	for _, k := range keys(e.Fields) {
		for _, v := range e.Fields[k] {
			s = append(s, v.Triples[:cap(v.Triples)])
		}
	}
	for _, k := range keys(e.Children) {
		for _, c := range e.Children[k] {
			s = append(s, spare(c)...)
		}
	}
	return
}

func keys[T any](m map[string]T) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func copied(s [][]igraph.Triple) (r [][]igraph.Triple) {
	for _, x := range s {
		r = append(r, append([]igraph.Triple{}, x...))
	}
	return
}

func TestVerifAllTriples(t *testing.T) {
	for n := uint64(0); n < 400; n++ {
		ids = append(ids, id(n))
	}
	r := verifx.Rand(17)
	for n := verifx.N(3000); n > 0; n-- {
		max := []int{3, 12, 60, 399}[r.Intn(4)]
		e := entity(r, r.Intn(4), max)
		js, _ := json.Marshal(e)
		in := string(js)
		verifx.Case("AllTriples(%s)", in)
		before := copied(spare(e))
		var got []igraph.Triple
		if p := verifx.Try(func() { got = e.AllTriples() }); p != nil {
			verifx.Fail(t, "panic", in, "AllTriples panics: %v", p)
			return
		}
		if !reflect.DeepEqual(before, copied(spare(e))) {
			verifx.Fail(t, "modified", in, "AllTriples modifies the entity")
			return
		}
		if again, _ := json.Marshal(e); string(again) != in {
			verifx.Fail(t, "modified", in, "AllTriples modifies the entity")
			return
		}
		want := map[impl.ID]igraph.Triple{}
		gather(e, want)
		if len(got) != len(want) {
			verifx.Fail(t, "count", in, "AllTriples returns %d triples, there are %d different ones", len(got), len(want))
			return
		}
		for i, x := range got {
			if x != want[x.ID] {
				verifx.Fail(t, "triple", in, "AllTriples returns %v, which is not a triple of the entity", x)
				return
			}
			if i > 0 && got[i-1].ID.Compare(x.ID) >= 0 {
				verifx.Fail(t, "order", in, "AllTriples returns triple %v before %v", got[i-1].ID, x.ID)
				return
			}
		}
		for k := 0; k < 3; k++ {
			if !reflect.DeepEqual(got, e.AllTriples()) {
				verifx.Fail(t, "again", in, "AllTriples returns something else when it is called again")
				return
			}
		}
	}
}
