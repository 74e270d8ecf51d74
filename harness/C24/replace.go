// dir: internal/viewer
package viewer_test

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/pkg/htmlx"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// parsed is the tree below the body of a fragment, one token per entry; links are mapped with f
func parsed(t *testing.T, source string, f func(string) string) (toks []string) {
	nodes, err := html.ParseFragment(strings.NewReader(source), &html.Node{Type: html.ElementNode, Data: "body", DataAtom: atom.Body})
	if err != nil {
		t.Fatal(err)
	}
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		toks = append(toks, fmt.Sprintf("%d %q", n.Type, n.Data))
		seen := false
		for _, a := range n.Attr {
			v := a.Val
			if n.Type == html.ElementNode && f != nil && !seen && (n.Data == "a" && a.Key == "href" || n.Data == "img" && a.Key == "src") {
				v, seen = f(v), true
			}
			toks = append(toks, fmt.Sprintf("%s %q=%q", a.Namespace, a.Key, v))
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
		toks = append(toks, "end")
	}
	for _, n := range nodes {
		walk(n)
	}
	return
}

type fragment struct {
	r     *rand.Rand
	links []string
}

func (g *fragment) text() string {
	return []string{"text", "a &amp; b", "&lt;b&gt;", "ä ö 日本", "http://www.example.org/wisski/navigate/1/view", " ", "&quot;x&quot; 'y'", "&#39;", "line\nbreak", "100% &copy;"}[g.r.Intn(10)]
}

func (g *fragment) link() string { return html.EscapeString(g.links[g.r.Intn(len(g.links))]) }

func (g *fragment) gen(depth int) string {
	var b strings.Builder
	for i := g.r.Intn(4); i >= 0; i-- {
		in := g.text()
		if depth > 0 {
			in = g.gen(depth - 1)
		}
		switch g.r.Intn(12) {
		case 0, 1:
			fmt.Fprintf(&b, `<a title="%s" data-href="%s" href="%s" class="x">%s</a>`, g.link(), g.link(), g.link(), g.text())
		case 2:
			fmt.Fprintf(&b, `<a href="%s"><img alt="x" src="%s"></a>`, g.link(), g.link())
		case 3:
			fmt.Fprintf(&b, `<img data-src="%s" src="%s" srcset="%s 2x">`, g.link(), g.link(), g.link())
		case 4:
			fmt.Fprintf(&b, `<div data-href="%s">%s</div>`, g.link(), in)
		case 5:
			fmt.Fprintf(&b, `<ul><li>%s</li><li>%s</li></ul>`, in, g.text())
		case 6:
			fmt.Fprintf(&b, `<link href="%s"><video src="%s"></video><form action="%s"></form>`, g.link(), g.link(), g.link())
		case 7:
			fmt.Fprintf(&b, `<!-- %s -->`, g.text())
		case 8:
			fmt.Fprintf(&b, `<a name="%s" src="%s">%s</a><img href="%s">`, g.link(), g.link(), g.text(), g.link())
		case 9:
			fmt.Fprintf(&b, `<table><tbody><tr><td><b>%s</b></td></tr></tbody></table>`, g.text())
		case 10:
			fmt.Fprintf(&b, `<blockquote cite="%s">%s</blockquote><pre>%s</pre>`, g.link(), in, g.text())
		default:
			b.WriteString(g.text())
		}
	}
	return b.String()
}

// local is the address on the local server of a link into one of the systems
func local(u string, publics []string) string {
	for _, p := range publics {
		p = strings.TrimSuffix(p, "/") + "/wisski"
		if !strings.HasPrefix(u, p) {
			continue
		}
		if _, err := url.Parse(u); err != nil {
			return u
		}
		rest := u[strings.Index(u, "://")+3:]
		return rest[strings.IndexByte(rest, '/'):]
	}
	return u
}

func links(r *rand.Rand, publics []string) (ls []string) {
	ls = []string{"", "#top", "/wisski/navigate/1/view", "relative?x=1", "mailto:a@example.org", "javascript:void(0)", "http://other.example.org/wisski/navigate/1/view", "https://www.example.org.evil.org/wisski/x", "http://redirect.example.org/?to=http://www.example.org/wisski/navigate/1/view", "//www.example.org/wisski/x"}
	for _, p := range publics {
		p = strings.TrimSuffix(p, "/")
		ls = append(ls, p, p+"/", p+"/wissk", p+"/about", p+"/wisski/navigate/17/view", p+"/wisski", p+"/wisski/get?uri=http%3A%2F%2Fx%2F%3Fa%3Db%26c&x=1#frag-1", p+"/wisski/a%2Fb%20c/d?q", p+"/wisski_views/x?", p+"/wisski/%zz", " "+p+"/wisski/x", p+"/WISSKI/x", strings.ToUpper(p)+"/wisski/x", p+"/wisski?a=1;b=2", p+"/wisski/x#a%20b", "x"+p+"/wisski/1")
	}
	return ls
}

func same(a, b []string) (string, bool) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("got %s, want %s", x, y), false
		}
	}
	return "", true
}

var publicLists = [][]string{{"http://www.example.org"}, {"https://www.example.org/"}, {"http://www.example.org", "https://other.example.org:8080"}, {"http://www.example.org/sub"}, {"http://www.example.org/sub/", "http://www.example.org"}, {"https://me:pw@www.example.org", "http://www.example.org"}}

// TestVerifLinks replaces links with arbitrary functions
func TestVerifLinks(t *testing.T) {
	for n := 0; n < verifx.N(1500); n++ {
		r := verifx.Rand(int64(n))
		g := fragment{r: r, links: links(r, publicLists[r.Intn(len(publicLists))])}
		src := "<em></em>" + g.gen(r.Intn(4))
		f := func(s string) string { return "<" + s + "\">" }
		if n%3 == 0 {
			f = func(s string) string { return s }
		}
		verifx.Case(src)
		if diff, ok := same(parsed(t, htmlx.ReplaceLinks(src, f), nil), parsed(t, src, f)); !ok {
			verifx.Fail(t, "C24-tree", src, "%s", diff)
		}
	}
}

// find the rendered html of a field in a page
func TestVerifRendered(t *testing.T) {
	for n := 0; n < verifx.N(150); n++ {
		r := verifx.Rand(int64(n))
		publics := publicLists[r.Intn(len(publicLists))]
		if n%10 == 0 {
			publics = nil
		}
		g := fragment{r: r, links: links(r, publics)}
		src := ""
		// every link once
		for _, l := range g.links {
			src += fmt.Sprintf(`<a href="%s">%s</a><img src="%s" alt="x">`, html.EscapeString(l), g.text(), html.EscapeString(l))
		}
		src += g.gen(2)
		s := newSite(r, 1)
		uri := string(s.data[s.bundles[0]][0].URI)
		s.data[s.bundles[0]][0].Fields["long"] = []wisski.FieldValue{{Value: impl.Datum("<em id=\"begin\"></em>" + src + "<em id=\"end\"></em>")}}
		s.data[s.bundles[0]][0].Fields["text"] = nil
		v := newViewer()
		v.RenderFlags.HTMLRender = true
		v.RenderFlags.PublicURL = strings.Join(publics, []string{",", "\n"}[r.Intn(2)])
		v.Prepare(s.cache(v), &s.pb)
		a := get(v, entityURL(s.bundles[0], uri))
		verifx.Case(src)
		b, e := strings.Index(a.body, "<em id=\"begin\"></em>"), strings.LastIndex(a.body, "<em id=\"end\"></em>")
		if a.code != 200 || b < 0 || e < b {
			verifx.Fail(t, "C24-shown", src, "the value is not shown: %s", a)
			continue
		}
		got := a.body[b+len("<em id=\"begin\"></em>") : e]
		if diff, ok := same(parsed(t, got, nil), parsed(t, src, func(u string) string { return local(u, publics) })); !ok {
			verifx.Fail(t, "C24-rendered", fmt.Sprintf("public %q: %s", publics, src), "%s", diff)
		}
	}
}
