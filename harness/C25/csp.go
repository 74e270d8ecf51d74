// dir: internal/viewer
package viewer_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

// directives of a policy
func directives(h string) (map[string][]string, error) {
	m := map[string][]string{}
	for _, d := range strings.Split(h, ";") {
		fs := strings.Fields(d)
		if len(fs) == 0 {
			continue
		}
		if _, ok := m[fs[0]]; ok {
			return nil, fmt.Errorf("%s appears twice", fs[0])
		}
		m[fs[0]] = fs[1:]
	}
	return m, nil
}

func subset(got []string, want ...string) bool {
	for _, g := range got {
		ok := g == "'none'"
		for _, w := range want {
			ok = ok || g == w
		}
		if !ok {
			return false
		}
	}
	return true
}

var safe = map[string]bool{"upgrade-insecure-requests": true, "block-all-mixed-content": true, "report-uri": true, "report-to": true}

// weaker tells how a policy is weaker than configured
func weaker(h string, flags viewer.RenderFlags, publics []string) string {
	m, err := directives(h)
	if err != nil {
		return err.Error()
	}
	if d, ok := m["default-src"]; !ok || len(d) != 1 || d[0] != "'none'" {
		return fmt.Sprintf("default-src is %v", d)
	}
	for d, got := range m {
		var want []string
		switch d {
		case "default-src", "base-uri", "object-src", "worker-src", "manifest-src", "frame-ancestors", "form-action":
		case "script-src", "font-src", "connect-src":
			want = []string{"'self'"}
		case "style-src":
			want = []string{"'self'"}
			if flags.HTMLRender {
				want = append(want, "'unsafe-inline'")
			}
		case "img-src", "media-src":
			if flags.HTMLRender || d == "img-src" && flags.ImageRender {
				want = []string{"*"}
				if flags.StrictCSP {
					want = publics
				}
			}
		case "frame-src", "child-src":
			if strings.HasPrefix(flags.TipsyURL, "http://") || strings.HasPrefix(flags.TipsyURL, "https://") {
				want = []string{flags.TipsyURL}
			}
		default:
			if !safe[d] {
				return fmt.Sprintf("unexpected %s %v", d, got)
			}
			continue
		}
		if !subset(got, want...) {
			return fmt.Sprintf("%s permits %v, only %v is permitted", d, got, want)
		}
	}
	return ""
}

// missing tells what should be permitted, but is not
func missing(h string, flags viewer.RenderFlags, publics []string) string {
	m, _ := directives(h)
	need := map[string][]string{"script-src": {"'self'"}, "style-src": {"'self'"}, "font-src": {"'self'"}, "connect-src": {"'self'"}}
	src := []string{"*"}
	if flags.StrictCSP {
		src = publics
	}
	if flags.HTMLRender {
		need["style-src"] = append(need["style-src"], "'unsafe-inline'")
		need["media-src"] = src
	}
	if flags.HTMLRender || flags.ImageRender {
		need["img-src"] = src
	}
	for d, want := range need {
		if !subset(want, m[d]...) {
			return fmt.Sprintf("%s is %v, wants %v", d, m[d], want)
		}
	}
	return ""
}

func TestVerifCSP(t *testing.T) {
	hosts := []string{"www.example.org", "other.example.org/sub", "example.com:8080", "xn--bcher-kva.example/", "a.example/b/c?d"}
	for n := 0; n < verifx.N(200); n++ {
		r := verifx.Rand(int64(n))
		var flags viewer.RenderFlags
		flags.StrictCSP = r.Intn(2) == 0
		flags.HTMLRender = r.Intn(2) == 0
		flags.ImageRender = r.Intn(2) == 0
		flags.TipsyURL = []string{"", "https://tipsy.example.org/", "http://localhost:8080", "javascript:alert(1)", "//tipsy", "ftp://x", "httpss://x", "data:text/html,x", "xhttp://y"}[r.Intn(9)]
		var publics []string
		var list strings.Builder
		for i, k := 0, r.Intn(4); i < k; i++ {
			h := hosts[r.Intn(len(hosts))]
			if r.Intn(5) == 0 {
				h = ""
			} else {
				publics = append(publics, "http://"+h, "https://"+h)
				h = []string{"http://", "https://"}[r.Intn(2)] + h
			}
			list.WriteString([]string{"", " ", "\t"}[r.Intn(3)] + h + []string{"", " ", "\r"}[r.Intn(3)] + []string{",", "\n"}[r.Intn(2)])
		}
		flags.PublicURL = list.String()
		if r.Intn(2) == 0 {
			flags.PublicURL = strings.TrimRight(flags.PublicURL, ",\n")
		}
		input := fmt.Sprintf("strict %v, html %v, images %v, tipsy %q, public %q", flags.StrictCSP, flags.HTMLRender, flags.ImageRender, flags.TipsyURL, flags.PublicURL)
		verifx.Case(input)
		got := flags.PublicURIS()
		a, b := append([]string{}, got...), append([]string{}, publics...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, " ") != strings.Join(b, " ") {
			verifx.Fail(t, "C25-public", input, "public urls are %q, want %q", got, publics)
		}
		if p := flags.CSPHeader(); weaker(p, flags, publics) != "" {
			verifx.Fail(t, "C25-header", input, "%s: %s", weaker(p, flags, publics), p)
		}
		if n%4 != 0 {
			continue
		}
		s := newSite(r, 2)
		v := newViewer()
		v.RenderFlags = flags
		check := func(when string) {
			uri := string(s.data[s.bundles[0]][0].URI)
			for _, target := range []string{"/", "/about", "/pathbuilder", "/tipsy", "/perf", "/bundle/bundle_0", "/bundle/x", "/bundle/bundle_0?limit=1&skip=1", "/bundle/bundle_0?limit=1&skip=9", entityURL("bundle_0", uri), entityURL("bundle_0", "x"), "/wisski/get?uri=x", "/wisski/get?uri=" + uri,
				"/wisski/navigate/1/view", "/api/v1", "/api/v1/progress", "/api/v1/perf", "/api/v1/bundle/bundle_0", "/api/v1/bundle/x", "/api/v1" + entityURL("bundle_0", uri), "/api/v1/ntriples/bundle_0?uri=" + uri, "/api/v1/turtle/bundle_0?uri=" + uri, "/api/v1/turtle/bundle_0?uri=x", "/assets/", "/assets/nothing", "/favicon.ico", "/nothing", "//", "/../"} {
				target = strings.ReplaceAll(strings.ReplaceAll(target, " ", "+"), "\"", "%22")
				if strings.ContainsAny(target, "<>%{}\\|#") {
					continue
				}
				a := get(v, target)
				hs := a.head.Values("Content-Security-Policy")
				if len(hs) != 1 {
					verifx.Fail(t, "C25-route", input+", "+target, "%s: the response has %d policies", when, len(hs))
					continue
				}
				if x := weaker(hs[0], flags, publics); x != "" {
					verifx.Fail(t, "C25-route", input+", "+target, "%s: %s: %s", when, x, hs[0])
				}
				if x := missing(hs[0], flags, publics); x != "" {
					verifx.Fail(t, "C25-missing", input+", "+target, "%s: %s: %s", when, x, hs[0])
				}
			}
		}
		check("while loading")
		v.Prepare(s.cache(v), &s.pb)
		check("when loaded")
	}
}
