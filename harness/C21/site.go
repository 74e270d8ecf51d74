// dir: internal/viewer
package viewer_test

import (
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// site is a dataset with the answers that are expected
type site struct {
	pb      pathbuilder.Pathbuilder
	data    map[string][]wisski.Entity
	same    imap.Memory[impl.Label, impl.Label]
	bundles []string
	canon   map[string]string // of every known uri
	bundle  map[string]string // of every known uri
}

var odd = []string{"a?b=c&d=e#f", "ä ö", "%41%2F", "a+b", "x;y=1", "<>\"'", "a//b/../c", "100%", "a\u2028b", "q=1&uri=2", "日本", "{id}", "\\", "a,b|c"}

// newSite makes a dataset with the given number of entities per bundle
func newSite(r *rand.Rand, sizes ...int) *site {
	s := &site{pb: pathbuilder.NewPathbuilder(), data: map[string][]wisski.Entity{}, same: imap.MakeMemory[impl.Label, impl.Label](0), canon: map[string]string{}, bundle: map[string]string{}}
	n := 0
	for i, size := range sizes {
		name := fmt.Sprintf("bundle_%d", i)
		s.bundles = append(s.bundles, name)
		b := s.pb.GetOrCreate(name)
		b.Path = pathbuilder.Path{ID: name, Name: fmt.Sprintf("Bundle %d", i), IsGroup: true, Enabled: true}
		b.ChildFields = []pathbuilder.Field{
			{Path: pathbuilder.Path{ID: "text", Name: "Text", FieldType: "string"}},
			{Path: pathbuilder.Path{ID: "long", Name: "Long", FieldType: "text_long"}},
			{Path: pathbuilder.Path{ID: "image", Name: "Image", FieldType: "image"}},
			{Path: pathbuilder.Path{ID: "link", Name: "Link", FieldType: "link"}},
		}
		s.data[name] = []wisski.Entity{}
		for j := 0; j < size; j++ {
			n++
			uri := fmt.Sprintf("http://www.example.org/wisski/navigate/%d/view", n)
			if r.Intn(3) == 0 {
				uri = fmt.Sprintf("http://odd.example.org/%d/%s", n, odd[r.Intn(len(odd))])
			}
			s.add(name, uri, uri)
			if r.Intn(3) == 0 {
				alias := fmt.Sprintf("http://alias.example.org/%d/%s", n, odd[r.Intn(len(odd))])
				s.same.Set(impl.Label(alias), impl.Label(uri))
				s.canon[alias], s.bundle[alias] = uri, name
			}
			e := wisski.Entity{URI: impl.Label(uri), Path: []impl.Label{impl.Label(uri)}, Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
			e.Fields["text"] = []wisski.FieldValue{{Value: impl.Datum(fmt.Sprintf("text of %d", n))}}
			e.Triples = []igraph.Triple{{Subject: "http://s", SSubject: "http://s", Predicate: "http://p", SPredicate: "http://p", Object: "http://o", SObject: "http://o"}}
			s.data[name] = append(s.data[name], e)
		}
	}
	return s
}

func (s *site) add(bundle, uri, canon string) {
	s.canon[uri], s.bundle[uri] = canon, bundle
}

func (s *site) cache(v *viewer.Viewer) *sparkl.Cache {
	c, err := sparkl.NewCache(s.data, &s.same, nil)
	if err != nil {
		panic(err)
	}
	return &c
}

// newViewer makes a viewer that is still loading
func newViewer() *viewer.Viewer {
	return viewer.NewViewer(io.Discard)
}

// answer is what the viewer replies
type answer struct {
	code  int
	body  string
	head  http.Header
	panic any
}

func get(h http.Handler, target string) (a answer) {
	req := httptest.NewRequest("GET", target, nil)
	rec := httptest.NewRecorder()
	func() {
		defer func() { a.panic = recover() }()
		h.ServeHTTP(rec, req)
	}()
	a.code, a.body, a.head = rec.Code, rec.Body.String(), rec.Header()
	return a
}

func (a answer) String() string {
	b := strings.Join(strings.Fields(a.body), " ")
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("status %d, panic %v, %s", a.code, a.panic, b)
}

func (a answer) loading() bool {
	return a.panic == nil && a.code == 200 && a.head.Get("Retry-After") == "60" && strings.Contains(a.body, "Hangover is loading")
}

func entityURL(bundle, uri string) string {
	return "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(uri)
}
