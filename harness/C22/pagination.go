// dir: internal/viewer
package viewer_test

import (
	"fmt"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/verifx"
	"golang.org/x/net/html"
)

// listing is what a bundle page shows
type listing struct {
	items             []string
	start, end, total int
	links             map[string]string
	ok                bool
}

var showing = regexp.MustCompile(`Items? (\d+)(?: - (\d+))? of (\d+)`)

func parseListing(body string) (l listing) {
	n, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return
	}
	l.links = map[string]string{}
	l.ok = true
	var all strings.Builder
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.TextNode {
			all.WriteString(" " + n.Data + " ")
		}
		if n.Type == html.ElementNode && n.Data == "a" && n.FirstChild != nil {
			href := ""
			for _, a := range n.Attr {
				if a.Key == "href" {
					href = a.Val
				}
			}
			t := strings.TrimSpace(n.FirstChild.Data)
			switch t {
			case "First", "Prev", "Next", "Last":
				if old, ok := l.links[t]; ok && old != href {
					l.ok = false
				}
				l.links[t] = href
			}
			if n.Parent.Data == "li" {
				l.items = append(l.items, t)
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(n)
	ms := showing.FindAllStringSubmatch(strings.Join(strings.Fields(all.String()), " "), -1)
	if len(ms) == 0 {
		l.ok = false
		return
	}
	for i, m := range ms {
		s, _ := strconv.Atoi(m[1])
		e := s
		if m[2] != "" {
			e, _ = strconv.Atoi(m[2])
		}
		t, _ := strconv.Atoi(m[3])
		if i > 0 && (s != l.start || e != l.end || t != l.total) {
			l.ok = false
		}
		l.start, l.end, l.total = s, e, t
	}
	return
}

func TestVerifPagination(t *testing.T) {
	for n := 0; n < verifx.N(40); n++ {
		r := verifx.Rand(int64(n))
		size := 1 + r.Intn(30)
		switch r.Intn(6) {
		case 0:
			size = 95 + r.Intn(12)
		case 1:
			size = []int{1, 2, 10, 20, 100, 101, 200}[r.Intn(7)]
		}
		s := newSite(r, size, 2)
		b := s.bundles[0]
		v := newViewer()
		v.Prepare(s.cache(v), &s.pb)
		page := func(target string, limit, skip int) (l listing) {
			want := s.data[b]
			if skip >= len(want) {
				if a := get(v, target); a.code != 404 {
					verifx.Fail(t, "C22-beyond", target, "%d entities: got %s", size, a)
				}
				return
			}
			want = want[skip:]
			if len(want) > limit {
				want = want[:limit]
			}
			a := get(v, target)
			l = parseListing(a.body)
			ok := a.code == 200 && l.ok && len(l.items) == len(want) && l.start == skip+1 && l.end == skip+len(want) && l.total == size
			for i := range l.items {
				ok = ok && l.items[i] == strings.TrimSpace(string(want[i].URI))
			}
			if !ok {
				verifx.Fail(t, "C22-page", fmt.Sprintf("%d entities, %s", size, target), "want %d entities from %d, got %d: items %d - %d of %d (consistent: %v), %v", len(want), skip+1, len(l.items), l.start, l.end, l.total, l.ok, l.items)
			}
			_, first := l.links["First"]
			_, prev := l.links["Prev"]
			if first != (skip > 0) || prev != (skip > 0) {
				verifx.Fail(t, "C22-before", fmt.Sprintf("%d entities, %s", size, target), "links %v", l.links)
			}
			_, next := l.links["Next"]
			_, last := l.links["Last"]
			if next != (l.end < size) || last != (l.end < size) {
				verifx.Fail(t, "C22-after", fmt.Sprintf("%d entities, %s", size, target), "links %v", l.links)
			}
			return l
		}
		where := func(target string) (limit, skip int) {
			u, err := url.Parse(target)
			if err != nil || u.Path != "/bundle/"+b {
				verifx.Fail(t, "C22-link", target, "not a link to the bundle")
			}
			limit, e1 := strconv.Atoi(u.Query().Get("limit"))
			skip, e2 := strconv.Atoi(u.Query().Get("skip"))
			if e1 != nil || e2 != nil {
				verifx.Fail(t, "C22-link", target, "without limit or offset")
			}
			return limit, skip
		}
		// the default
		page("/bundle/"+b, 100, 0)
		for _, bad := range []string{"limit=0&skip=0", "limit=1001&skip=0", "limit=99999999999999999999&skip=0", "limit=7"} {
			page("/bundle/"+b+"?"+bad, 100, 0)
		}
		for k := 0; k < 6; k++ {
			limit, skip := 1+r.Intn(size+3), r.Intn(size+2)
			switch r.Intn(5) {
			case 0:
				limit = 1000
			case 1:
				skip = 0
			case 2:
				limit = 1 + r.Intn(3)
			}
			target := fmt.Sprintf("/bundle/%s?limit=%d&skip=%d", b, limit, skip)
			if r.Intn(2) == 0 {
				target = fmt.Sprintf("/bundle/%s?skip=%d&limit=%d", b, skip, limit)
			}
			l := page(target, limit, skip)
			verifx.Case(target)
			if !l.ok {
				continue
			}
			if p, ok := l.links["First"]; ok {
				if fl, fs := where(p); fl != limit || fs != 0 {
					verifx.Fail(t, "C22-first", target, "first link is %s", p)
				}
				page(p, limit, 0)
				pl, ps := where(l.links["Prev"])
				if want := max(skip-limit, 0); pl != limit || ps != want {
					verifx.Fail(t, "C22-prev", target, "previous link is %s", l.links["Prev"])
				}
				page(l.links["Prev"], pl, ps)
			}
			if p, ok := l.links["Next"]; ok {
				if nl, ns := where(p); nl != limit || ns != skip+limit {
					verifx.Fail(t, "C22-next", target, "next link is %s", p)
				}
				ll, ls := where(l.links["Last"])
				if z := page(l.links["Last"], ll, ls); ll != limit || z.end != size {
					verifx.Fail(t, "C22-last", target, "last link is %s", l.links["Last"])
				}
			}
			// follow the next links from the first page
			var seen []string
			target = fmt.Sprintf("/bundle/%s?limit=%d&skip=0", b, limit)
			for steps := 0; target != "" && steps <= size; steps++ {
				z := parseListing(get(v, target).body)
				seen = append(seen, z.items...)
				target = z.links["Next"]
			}
			ok := len(seen) == size
			for i := range seen {
				ok = ok && i < size && seen[i] == strings.TrimSpace(string(s.data[b][i].URI))
			}
			if !ok {
				verifx.Fail(t, "C22-follow", fmt.Sprintf("%d entities, limit %d", size, limit), "saw %v", seen)
			}
		}
	}
}
