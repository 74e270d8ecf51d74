// dir: internal/viewer
package viewer_test

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"golang.org/x/net/html"
)

type page struct {
	target string
	json   bool
	code   int // when ready
	want   string
}

func pages(s *site) (ps []page) {
	b := s.bundles[0]
	uri := string(s.data[b][0].URI)
	q := "?uri=" + url.QueryEscape(uri)
	unknown := "?uri=" + url.QueryEscape("http://unknown.example.org/")
	ps = append(ps,
		page{"/", false, 200, "Bundle 0"},
		page{"/pathbuilder", false, 200, "bundle_0"},
		page{"/tipsy", false, 200, "hangover.xml"},
		page{"/bundle/" + b, false, 200, "Bundle 0"},
		page{"/bundle/" + b + "?limit=1&skip=0", false, 200, "Bundle 0"},
		page{"/bundle/nothing", false, 404, ""},
		page{"/entity/" + b + q, false, 200, "text of 1"},
		page{"/entity/" + b + unknown, false, 404, ""},
		page{"/entity/nothing" + q, false, 404, ""},
		page{"/wisski/get" + q, false, 307, ""},
		page{"/wisski/get" + unknown, false, 404, ""},
		page{"/wisski/navigate/123456/view", false, 404, ""},
		page{"/api/v1", true, 200, ""},
		page{"/api/v1/bundle/" + b, true, 200, ""},
		page{"/api/v1/bundle/nothing", true, 404, ""},
		page{"/api/v1/entity/" + b + q, true, 200, "text of 1"},
		page{"/api/v1/entity/" + b + unknown, true, 404, ""},
		page{"/api/v1/entity/nothing" + q, true, 404, ""},
		page{"/api/v1/ntriples/" + b + q, true, 200, "http://p"},
		page{"/api/v1/ntriples/" + b + unknown, true, 404, ""},
		page{"/api/v1/turtle/" + b + q, true, 200, "http://p"},
		page{"/api/v1/turtle/" + b + unknown, true, 404, ""},
	)
	if len(s.bundles) > 1 { // of another bundle
		ps = append(ps, page{"/entity/" + s.bundles[1] + q, false, 404, ""}, page{"/api/v1/entity/" + s.bundles[1] + q, true, 404, ""},
			page{"/api/v1/ntriples/" + s.bundles[1] + q, true, 404, ""}, page{"/api/v1/turtle/" + s.bundles[1] + q, true, 404, ""})
	}
	return ps
}

// text returns the text of a page
func text(body string) string {
	n, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return body
	}
	var b strings.Builder
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for _, a := range n.Attr {
			b.WriteString(" " + a.Val + " ")
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(n)
	return b.String()
}

// unavailable checks an answer before the data is ready
func (p page) unavailable(a answer) bool {
	if !p.json {
		return a.loading()
	}
	var m viewer.ProgressMessage
	return a.panic == nil && a.code == 503 && a.head.Get("Retry-After") != "" && json.Unmarshal([]byte(a.body), &m) == nil && m.Message != "" && !m.Progress.Done
}

func (p page) answered(a answer) bool {
	if a.panic != nil || a.code != p.code {
		return false
	}
	if p.code == 404 && !strings.Contains(a.body, "not found") {
		return false
	}
	if p.json {
		return strings.Contains(a.body, p.want)
	}
	return strings.Contains(text(a.body), p.want) && !strings.Contains(a.body, "Hangover is loading")
}

func TestVerifReady(t *testing.T) {
	for n := 0; n < verifx.N(60); n++ {
		r := verifx.Rand(int64(n))
		s := newSite(r, 1+r.Intn(4), r.Intn(4))
		s2 := newSite(r, 1)
		v := newViewer()
		v.RenderFlags.TipsyURL = "https://tipsy.example.org/"
		v.RenderFlags.HTMLRender = r.Intn(2) == 0
		v.RenderFlags.PublicURL = "http://www.example.org"
		ps := pages(s)
		order := r.Perm(len(ps))
		for _, i := range order {
			if a := get(v, ps[i].target); !ps[i].unavailable(a) {
				verifx.Fail(t, "C21-loading", ps[i].target, "before the data is ready: %s", a)
			}
		}
		for _, p := range []string{"/about", "/perf", "/api/v1/progress", "/api/v1/perf", "/favicon.ico"} {
			if a := get(v, p); a.panic != nil || a.code != 200 {
				verifx.Fail(t, "C21-always", p, "before the data is ready: %s", a)
			}
		}
		v.Prepare(s.cache(v), &s.pb)
		check := func(when string) {
			for _, i := range order {
				if a := get(v, ps[i].target); !ps[i].answered(a) {
					verifx.Fail(t, "C21-answered", ps[i].target, "%s: want status %d with %q, got %s", when, ps[i].code, ps[i].want, a)
				}
			}
			var names []string
			if a := get(v, "/api/v1"); json.Unmarshal([]byte(a.body), &names) != nil || !reflect.DeepEqual(names, s.bundles) {
				verifx.Fail(t, "C21-bundles", "/api/v1", "%s: want %v, got %s", when, s.bundles, a)
			}
			for _, b := range s.bundles {
				var uris []string
				a := get(v, "/api/v1/bundle/"+b)
				ok := json.Unmarshal([]byte(a.body), &uris) == nil && len(uris) == len(s.data[b])
				for i := range uris {
					ok = ok && uris[i] == string(s.data[b][i].URI)
				}
				if !ok {
					verifx.Fail(t, "C21-uris", "/api/v1/bundle/"+b, "%s: got %s", when, a)
				}
				for _, e := range s.data[b] {
					var got struct{ URI string }
					a := get(v, "/api/v1/entity/"+b+"?uri="+url.QueryEscape(string(e.URI)))
					if json.Unmarshal([]byte(a.body), &got) != nil || got.URI != string(e.URI) {
						verifx.Fail(t, "C21-entity", string(e.URI), "%s: got %s", when, a)
					}
				}
			}
			var p struct{ Done bool }
			if a := get(v, "/api/v1/progress"); json.Unmarshal([]byte(a.body), &p) != nil || !p.Done {
				verifx.Fail(t, "C21-progress", "/api/v1/progress", "%s: got %s", when, a)
			}
		}
		check("after loading")
		v.Prepare(s2.cache(v), &s2.pb) // has no effect
		v.Stats.Close()
		check("after preparing it again")
		verifx.Case("ready")
	}
}

// requests while the data becomes available
func TestVerifRace(t *testing.T) {
	for n := 0; n < verifx.N(6); n++ {
		r := verifx.Rand(int64(n))
		s := newSite(r, 3, 2)
		v := newViewer()
		v.RenderFlags.TipsyURL = "https://tipsy.example.org/"
		v.RenderFlags.PublicURL = "http://www.example.org"
		ps := pages(s)
		cache := s.cache(v)
		get(v, "/about")
		var wg sync.WaitGroup
		errs := make(chan string, 100)
		start := make(chan struct{})
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				ready := false
				for i := 0; i < 3*len(ps); i++ {
					p := ps[(i*7+g)%len(ps)]
					a := get(v, p.target)
					switch {
					case p.answered(a):
						ready = true
					case p.unavailable(a) && !ready:
					default:
						select {
						case errs <- fmt.Sprintf("%s (was ready: %v): %s", p.target, ready, a):
						default:
						}
					}
				}
			}(g)
		}
		close(start)
		v.Prepare(cache, &s.pb)
		wg.Wait()
		close(errs)
		for e := range errs {
			verifx.Fail(t, "C21-race", "requests while loading finishes", "%s", e)
		}
		verifx.Case("race")
	}
}
