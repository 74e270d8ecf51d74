// dir: internal/sparkl
package sparkl_test

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func TestVerifCache(t *testing.T) {
	for n := 0; n < verifx.N(2500); n++ {
		r := verifx.Rand(int64(n))
		var names []string
		for i, k := 0, r.Intn(4); i < k; i++ {
			names = append(names, fmt.Sprintf("b%d", r.Intn(100)))
		}
		data := map[string][]wisski.Entity{}
		in := map[impl.Label]map[string]bool{}
		u := 0
		for _, b := range names {
			data[b] = nil
		}
		keys := []string{}
		for b := range data {
			keys = append(keys, b)
		}
		sort.Strings(keys)
		input := ""
		for _, b := range keys {
			for i, k := 0, r.Intn(5); i < k; i++ {
				u++
				uri := impl.Label(fmt.Sprintf("http://x/%d", r.Intn(1000)*100+u))
				if r.Intn(30) == 0 {
					uri = ""
					if in[uri][b] {
						continue
					}
				}
				if u > 1 && r.Intn(12) == 0 { // in several bundles
					for o := range in {
						if !in[o][b] {
							uri = o
						}
						break
					}
				}
				if in[uri] == nil {
					in[uri] = map[string]bool{}
				}
				if in[uri][b] {
					continue
				}
				in[uri][b] = true
				data[b] = append(data[b], wisski.Entity{URI: uri, Path: []impl.Label{uri, impl.Label(b)}, Fields: map[string][]wisski.FieldValue{"f": {{Value: impl.Datum(fmt.Sprint(b, i))}}}})
				input += fmt.Sprintf("%s: %q; ", b, uri)
			}
		}
		var uris []impl.Label
		for l := range in {
			uris = append(uris, l)
		}
		for i, k := 0, r.Intn(3); i < k; i++ {
			uris = append(uris, impl.Label(fmt.Sprintf("http://other/%d", i)))
		}
		sort.Slice(uris, func(i, j int) bool { return uris[i] < uris[j] })
		same := imap.MakeMemory[impl.Label, impl.Label](0)
		rep := map[impl.Label]impl.Label{}
		aliases := map[impl.Label][]string{}
		if len(uris) > 0 {
			for i, k := 0, r.Intn(8); i < k; i++ {
				alias, canon := impl.Label(fmt.Sprintf("http://alias/%d", r.Intn(20))), uris[r.Intn(len(uris))]
				if _, ok := rep[alias]; ok {
					continue
				}
				rep[alias] = canon
				aliases[canon] = append(aliases[canon], string(alias))
				same.Set(alias, canon)
				input += fmt.Sprintf("%s is %q; ", alias, canon)
			}
		}
		verifx.Case("%s", input)
		fail := func(k, format string, args ...any) { verifx.Fail(t, k, input, format, args...) }
		before := fmt.Sprintf("%v", data)
		var st *stats.Stats
		if r.Intn(2) == 0 {
			st = stats.NewStats(nil)
		}
		cache, err := sparkl.NewCache(data, &same, st)
		if err != nil {
			fail("new", "error %v", err)
			continue
		}
		if got := cache.BundleNames(); len(got) != len(keys) || len(keys) > 0 && !reflect.DeepEqual(got, keys) {
			fail("names", "bundle names %q, expected %q", got, keys)
		}
		if after := fmt.Sprintf("%v", data); after != before {
			fail("unchanged", "data became %s", after)
		}
		all := append([]string{"unknown bundle"}, keys...)
		labels := append([]impl.Label{"http://unknown/"}, uris...)
		for a := range rep {
			labels = append(labels, a)
		}
		for _, b := range all {
			if got := cache.Entities(b); len(got) != len(data[b]) || len(got) > 0 && !reflect.DeepEqual(got, data[b]) {
				fail("entities", "entities of %s: %v, expected %v", b, got, data[b])
			}
			for _, l := range labels {
				c := l
				if o, ok := rep[l]; ok {
					c = o
				}
				e, ok := cache.Entity(l, b)
				var want *wisski.Entity
				for i := range data[b] {
					if data[b][i].URI == c {
						want = &data[b][i]
					}
				}
				if ok != (want != nil) || ok && !reflect.DeepEqual(*e, *want) {
					fail("entity", "entity %q of bundle %s: %v %v, expected %v", l, b, e, ok, want)
				}
			}
		}
		for _, l := range labels {
			c := l
			if o, ok := rep[l]; ok {
				c = o
			}
			b, ok := cache.Bundle(l)
			if ok != (len(in[c]) > 0) || ok && !in[c][b] {
				fail("bundle", "bundle of %q: %q %v, expected %v", l, b, ok, in[c])
			}
			if l != "http://unknown/" {
				if got := cache.Canonical(l); got != c && (len(in[c]) > 0 || c != l || len(aliases[c]) > 0) {
					fail("canonical", "canonical form of %q is %q, expected %q", l, got, c)
				}
			}
			var got []string
			for _, a := range cache.Aliases(l) {
				got = append(got, string(a))
			}
			sort.Strings(got)
			want := append([]string(nil), aliases[l]...)
			sort.Strings(want)
			if !reflect.DeepEqual(got, want) {
				fail("aliases", "aliases of %q: %q, expected %q", l, got, want)
			}
		}
		// the first one that is known
		var query []impl.Label
		for i, k := 0, r.Intn(4); i < k; i++ {
			query = append(query, labels[r.Intn(len(labels))])
		}
		var first impl.Label
		found := false
		for _, l := range query {
			c := l
			if o, ok := rep[l]; ok {
				c = o
			}
			if len(in[c]) > 0 {
				first, found = l, true
				break
			}
		}
		uri, b, ok := cache.FirstBundle(query...)
		if ok != found || ok && uri != first {
			fail("first", "first of %q: %q %q %v, expected %q %v", query, uri, b, ok, first, found)
		}
		if ok {
			if want, _ := cache.Bundle(uri); b != want {
				fail("first", "first of %q: bundle %q, expected %q", query, b, want)
			}
		}
	}
}
