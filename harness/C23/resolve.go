// dir: internal/viewer
package viewer_test

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"golang.org/x/net/html"
)

// title of a page
func title(body string) string {
	n, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return ""
	}
	t := ""
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.ElementNode && n.Data == "h1" && n.FirstChild != nil {
			t = strings.TrimSpace(n.FirstChild.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(n)
	return t
}

func follow(v http.Handler, target string) (a answer, trail []string) {
	for i := 0; i < 5; i++ {
		trail = append(trail, target)
		a = get(v, target)
		if a.code/100 != 3 {
			return
		}
		target = a.head.Get("Location")
	}
	return
}

func TestVerifResolve(t *testing.T) {
	for n := 0; n < verifx.N(120); n++ {
		r := verifx.Rand(int64(n))
		s := newSite(r, 1+r.Intn(6), r.Intn(6))
		publics := [][]string{{"http://www.example.org"}, {"https://www.example.org/"}, {"https://other.example.org", "http://www.example.org"}, {"http://www.example.org", "https://www.example.org/sub"}, {"http://www.example.org:8080/deep/path", "http://www.example.org"}, {"www.example.org"}}[r.Intn(6)]
		// an entity below another url, with https
		extra := fmt.Sprintf("https://www.example.org/sub/wisski/navigate/%d/view", 5000+r.Intn(10))
		s.data[s.bundles[0]][0].URI = impl.Label(extra)
		s.canon, s.bundle = map[string]string{}, map[string]string{}
		for b, es := range s.data {
			for _, e := range es {
				s.add(b, string(e.URI), string(e.URI))
			}
		}
		s.same.Iterate(func(alias, canon impl.Label) error {
			if b, ok := s.bundle[string(canon)]; ok {
				s.add(b, string(alias), string(canon))
			}
			return nil
		})
		v := newViewer()
		v.RenderFlags.PublicURL = strings.Join(publics, []string{",", "\n", " ,\n "}[r.Intn(3)])
		v.Prepare(s.cache(v), &s.pb)
		check := func(key, target, uri string) {
			a, trail := follow(v, target)
			want, known := s.canon[uri], false
			if _, known = s.canon[uri]; !known {
				if a.code != 404 {
					verifx.Fail(t, key+"-unknown", target, "uri %q is not known, got %s via %v", uri, a, trail)
				}
				return
			}
			if a.code != 200 || title(a.body) != want || !strings.HasPrefix(trail[len(trail)-1], "/entity/"+s.bundle[uri]+"?") {
				verifx.Fail(t, key, target, "uri %q of %q in %s: got %q, %s via %q", uri, want, s.bundle[uri], title(a.body), a, trail)
			}
		}
		for uri := range s.canon {
			verifx.Case(uri)
			check("C23-get", "/wisski/get?uri="+url.QueryEscape(uri), uri)
			check("C23-get", "/wisski/get?x=1&uri="+url.QueryEscape(strings.Repeat(" ", r.Intn(3))+uri+strings.Repeat(" ", r.Intn(3))), uri)
			// the entity page by every name
			if a := get(v, entityURL(s.bundle[uri], uri)); a.code != 200 || title(a.body) != s.canon[uri] {
				verifx.Fail(t, "C23-entity", uri, "got %q %s", title(a.body), a)
			}
			for _, cut := range []string{uri[:len(uri)-1], uri + "x", strings.ToUpper(uri), "x" + uri} {
				if _, ok := s.canon[cut]; !ok && strings.TrimSpace(cut) == cut && strings.TrimSpace(cut) != uri {
					check("C23-get", "/wisski/get?uri="+url.QueryEscape(cut), cut)
				}
			}
		}
		for i := 0; i < 20; i++ {
			id := fmt.Sprint(i)
			if i > 15 {
				id = fmt.Sprint(5000 + r.Intn(10))
			}
			path := "/wisski/navigate/" + id + "/view"
			uri := "unknown"
			for _, p := range publics {
				p = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(p, "http://"), "https://"), "/")
				for _, scheme := range []string{"http://", "https://"} {
					if _, ok := s.canon[scheme+p+path]; ok && uri == "unknown" {
						uri = scheme + p + path
					}
				}
			}
			check("C23-navigate", path, uri)
		}
		check("C23-get", "/wisski/get?uri="+url.QueryEscape("http://unknown.example.org/"), "http://unknown.example.org/")
	}
}
