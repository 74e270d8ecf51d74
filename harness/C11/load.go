// dir: internal/sparkl
package sparkl_test

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/verifx/dataset"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func escape(r *rand.Rand, v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range v {
		switch {
		case c == '"' || c == '\\':
			b.WriteString("\\" + string(c))
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '\t' && r.Intn(2) == 0:
			b.WriteString("\\t")
		case c < 0x10000 && r.Intn(6) == 0:
			fmt.Fprintf(&b, "\\u%04X", c)
		case r.Intn(9) == 0:
			fmt.Fprintf(&b, "\\U%08X", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

const xsd = "http://www.w3.org/2001/XMLSchema#"

// render writes statements as nquads, in the given order
func render(r *rand.Rand, quads []dataset.Quad, blank map[string]bool) string {
	var b strings.Builder
	res := func(l string) string {
		if blank[l] {
			return "_:" + l
		}
		return "<" + l + ">"
	}
	space := func() string {
		return []string{" ", "  ", "\t", " \t "}[r.Intn(4)]
	}
	end := "\n"
	if r.Intn(4) == 0 {
		end = "\r\n"
	}
	for _, q := range quads {
		for r.Intn(4) == 0 {
			b.WriteString([]string{"", "   ", "# comment", "\t# <a> <b> <c> .", "#", "# \"quoted"}[r.Intn(6)] + end)
		}
		if r.Intn(5) == 0 {
			b.WriteString(space())
		}
		b.WriteString(res(q.S) + space() + "<" + q.P + ">" + space())
		if !q.Data {
			b.WriteString(res(q.O))
		} else {
			b.WriteString(escape(r, q.O))
			if q.Lang != "" {
				b.WriteString("@" + q.Lang)
			} else if r.Intn(3) > 0 {
				b.WriteString("^^<" + []string{xsd + "string", xsd + "integer", xsd + "double", xsd + "boolean", xsd + "dateTime", xsd + "date", "http://example.org/datatype", "http://schema.org/Integer"}[r.Intn(8)] + ">")
			}
		}
		if r.Intn(3) == 0 {
			b.WriteString(space() + []string{"<graph>", "_:g", "<http://example.org/graph>"}[r.Intn(3)])
		}
		b.WriteString(space() + ".")
		if r.Intn(6) == 0 {
			b.WriteString(space())
		}
		b.WriteString(end)
	}
	return b.String()
}

func values(r *rand.Rand) string {
	l := []string{"", " ", "a", " a b ", "042", "+7", "-0", "1.50", "1e3", "true", "1", "0", "TRUE", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.000+00:00", "2020-01-01", "NaN", "ä ö 漢字", "line\nbreak\r\n\tand tab", "quote \" back \\ slash", "<a> <b> .", "# no comment", "𝄞", "x@en", "x^^<y>", strings.Repeat("long ", 2000), "99999999999999999999", "http://example.org/x"}
	return l[r.Intn(len(l))]
}

func random(r *rand.Rand) (quads []dataset.Quad, blank map[string]bool) {
	blank = map[string]bool{}
	res := func() string {
		l := []string{"http://example.org/a", "http://example.org/b#x", "urn:x:1", "s", "o", "ä"}
		if r.Intn(4) == 0 {
			b := fmt.Sprintf("blank%d", r.Intn(3))
			blank[b] = true
			return b
		}
		return l[r.Intn(len(l))]
	}
	for i, k := 0, r.Intn(30); i < k; i++ {
		q := dataset.Quad{S: res(), P: []string{"p", "q", "http://example.org/p", dataset.Type}[r.Intn(4)]}
		if r.Intn(2) == 0 {
			q.O = res()
		} else {
			q.O, q.Data, q.Lang = values(r), true, []string{"", "", "de", "en-GB"}[r.Intn(4)]
		}
		quads = append(quads, q)
	}
	return
}

func token(t sparkl.Token) string {
	return fmt.Sprintf("(%s %s %s %q@%q %v)", t.Subject, t.Predicate, t.Object, t.Datum, t.Language, t.HasDatum)
}

func expected(q dataset.Quad) string {
	t := sparkl.Token{Subject: impl.Label(q.S), Predicate: impl.Label(q.P)}
	if q.Data {
		t.HasDatum, t.Datum, t.Language = true, impl.Datum(q.O), impl.Language(q.Lang)
	} else {
		t.Object = impl.Label(q.O)
	}
	return token(t)
}

// reads everything from a source
func read(s sparkl.Source) (got []string, err error) {
	if err := s.Open(); err != nil {
		return nil, err
	}
	defer s.Close()
	for {
		t := s.Next()
		if t.Err == io.EOF {
			return got, nil
		}
		if t.Err != nil {
			return got, t.Err
		}
		got = append(got, token(t))
	}
}

// TestVerifRead: a source yields every statement exactly as written, each time it is read.
func TestVerifRead(t *testing.T) {
	for n := 0; n < verifx.N(1500); n++ {
		r := verifx.Rand(int64(n))
		quads, blank := random(r)
		text := render(r, quads, blank)
		verifx.Case("%s", text)
		want := []string{}
		for _, q := range quads {
			want = append(want, expected(q))
		}
		src := &sparkl.QuadSource{Reader: strings.NewReader(text)}
		for k := 1; k <= 3; k++ {
			got, err := read(src)
			if err != nil {
				verifx.Fail(t, "error", text, "reading %d: %v", k, err)
				break
			}
			if d := dataset.Diff(got, want); d != "" {
				verifx.Fail(t, "statements", text, "reading %d: %s", k, d)
				break
			}
		}
		// a statement that cannot be read is an error, and not the end
		lines := strings.SplitAfter(text, "\n")
		at := r.Intn(len(lines))
		broken := strings.Join(lines[:at], "") + []string{"<s> <p>", "<s> <p> \"no end .", "\"x\" <p> <o> .", "<s> <p> <o>", "<s <p> <o> .", "nonsense"}[r.Intn(6)] + "\n" + strings.Join(lines[at:], "")
		if got, err := read(&sparkl.QuadSource{Reader: strings.NewReader(broken)}); err == nil {
			verifx.Fail(t, "broken", broken, "a line that is not a statement is ignored, read %d statements", len(got))
		}
	}
}

// TestVerifSuffix: values that look like the end of a literal
func TestVerifSuffix(t *testing.T) {
	for n := 0; n < verifx.N(200); n++ {
		r := verifx.Rand(int64(3e6 + n))
		q := dataset.Quad{S: "s", P: "p", Data: true, O: []string{"@en", "@", "a\"@en", "^^<x>", "a\"^^<x>", "\"@"}[r.Intn(6)], Lang: []string{"", "de"}[r.Intn(2)]}
		text := render(r, []dataset.Quad{q}, nil)
		verifx.Case("%s", text)
		got, err := read(&sparkl.QuadSource{Reader: strings.NewReader(text)})
		if d := dataset.Diff(got, []string{expected(q)}); err != nil || d != "" {
			verifx.Fail(t, "literal-suffix", text, "a value with @ or ^^ at its start or after a quotation mark: %v %s", err, d)
		}
	}
}

type failing struct {
	r     io.ReadSeeker
	left  int
	seeks int
}

var errRead = errors.New("cannot read")

func (f *failing) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, errRead
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

func (f *failing) Seek(o int64, w int) (int64, error) {
	if f.seeks == 0 {
		return 0, errRead
	}
	f.seeks--
	return f.r.Seek(o, w)
}

// contents describes everything in an index
func contents(index *igraph.Index, s *dataset.Set) (out []string, err error) {
	preds := map[string]bool{"same": true, "inv": true}
	for _, q := range s.Quads {
		preds[q.P] = true
	}
	for _, o := range s.Ops() {
		if o.Kind == "inverse" {
			preds[o.A], preds[o.B] = true, true
		}
	}
	var ps []string
	for p := range preds {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	edge := func(t igraph.Triple) string {
		return verifx.EdgeString(string(t.SSubject), string(t.SPredicate), string(t.SObject), string(t.Subject), string(t.Predicate), string(t.Object), int(t.Role), string(t.Datum), string(t.Language))
	}
	nodes := map[string]bool{}
	for _, q := range s.Quads {
		nodes[q.S] = true
		if !q.Data {
			nodes[q.O] = true
		}
	}
	for _, p := range ps {
		// everything that starts anywhere and follows p
		for _, first := range ps {
			for o := range nodes {
				set, err := index.PathsStarting(impl.Label(first), impl.Label(o))
				if err != nil {
					return nil, err
				}
				if err := set.Connected(impl.Label(p)); err != nil {
					return nil, err
				}
				it := set.Paths()
				for it.Next() {
					d := it.Datum()
					var e []string
					for _, t := range d.Triples {
						e = append(e, edge(t))
					}
					out = append(out, fmt.Sprintf("%s %s %s: %v %q@%s %v %s", first, o, p, d.Nodes, d.Datum, d.Language, d.HasDatum, strings.Join(e, ";")))
				}
				if err := it.Err(); err != nil {
					return nil, err
				}
				it.Close()
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

// oracle describes everything that is expected in an index
func oracle(s *dataset.Set) (out []string) {
	g := verifx.NewGraph()
	for _, o := range s.Ops() {
		g.Apply(o)
	}
	preds, nodes := map[string]bool{"same": true, "inv": true}, map[string]bool{}
	for _, q := range s.Quads {
		preds[q.P] = true
		nodes[q.S] = true
		if !q.Data {
			nodes[q.O] = true
		}
	}
	for _, o := range s.Ops() {
		if o.Kind == "inverse" {
			preds[o.A], preds[o.B] = true, true
		}
	}
	for p := range preds {
		for first := range preds {
			for o := range nodes {
				for _, w := range g.Connected(g.Start(first, o), p) {
					var e []string
					d, l, has := "", "", false
					for _, x := range w.Edges {
						e = append(e, x.Desc())
					}
					if w.Last != nil {
						d, l, has = w.Last.Datum, w.Last.Lang, true
					}
					out = append(out, fmt.Sprintf("%s %s %s: %v %q@%s %v %s", first, o, p, w.Nodes, d, l, has, strings.Join(e, ";")))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// small makes a few statements with special predicates at random places
func small(r *rand.Rand) *dataset.Set {
	s := &dataset.Set{SameAs: [][]string{{"same"}, {"same", "same2"}, {}}[r.Intn(3)], InverseOf: [][]string{{"inv"}, {"inv", "inv2"}, {}}[r.Intn(3)]}
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	for i, k := 0, r.Intn(14); i < k; i++ {
		q := dataset.Quad{S: pick("a", "b", "c", "d"), P: pick("p", "q", "r"), O: pick("a", "b", "c", "d")}
		switch r.Intn(8) {
		case 0:
			q.P = pick("same", "same2")
			if r.Intn(2) == 0 {
				q.S, q.O = pick("p", "q", "r"), pick("p", "q", "r")
			}
		case 1:
			q.P = pick("inv", "inv2")
			q.S, q.O = pick("p", "q", "r", "same", "inv"), pick("p", "q", "r", "inv", "hasinv")
		case 2, 3:
			q.Data, q.O, q.Lang = true, pick("x", "y", ""), pick("", "de")
			if r.Intn(6) == 0 {
				q.P = pick("same", "inv")
			}
		}
		s.Quads = append(s.Quads, q)
	}
	return s
}

// TestVerifLoad: whatever the order and the interval, the index holds what the statements say.
func TestVerifLoad(t *testing.T) {
	found := 0
	for n := 0; n < verifx.N(350); n++ {
		r := verifx.Rand(int64(1e6 + n))
		s := small(r)
		input := s.String()
		orders := [][]dataset.Quad{s.Quads}
		o := append([]dataset.Quad{}, s.Quads...)
		// statements of a kind keep their order, because inverses and identities depend on the order of their own kind
		special := func(q dataset.Quad) int {
			for _, p := range s.SameAs {
				if p == q.P {
					return 0
				}
			}
			for _, p := range s.InverseOf {
				if p == q.P {
					return 1
				}
			}
			return 2
		}
		if r.Intn(2) == 0 {
			sort.SliceStable(o, func(i, j int) bool { return special(o[i]) > special(o[j]) })
		} else {
			sort.SliceStable(o, func(i, j int) bool { return special(o[i]) < special(o[j]) })
		}
		orders = append(orders, o)
		want := oracle(s)
		found += len(want)
		for k, quads := range orders {
			text := render(r, quads, nil)
			compact := []int{0, 1, 3, 1000, -1}[r.Intn(5)]
			verifx.Case("%s compact %d", text, compact)
			dir, engine := "", sparkl.NewEngine("")
			if n%300 == 7 {
				dir = t.TempDir()
				engine = sparkl.NewEngine(dir)
			}
			var index *igraph.Index
			var err error
			opts := sparkl.IndexOptions{CompactInterval: compact}
			if n%4 == 0 {
				file := filepath.Join(t.TempDir(), "data.nq")
				if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
					t.Fatal(err)
				}
				index, err = sparkl.LoadIndex(file, s.Predicates(), engine, opts, nil)
			} else {
				index, err = sparkl.MakeIndex(&sparkl.QuadSource{Reader: strings.NewReader(text)}, s.Predicates(), engine, opts, nil)
			}
			if err != nil {
				verifx.Fail(t, "load-error", input, "order %d: %v", k, err)
				continue
			}
			got, err := contents(index, s)
			if err != nil {
				verifx.Fail(t, "query-error", input, "order %d: %v", k, err)
			} else if d := dataset.Diff(got, want); d != "" {
				verifx.Fail(t, "index", text, "compact %d same %v inverse %v: %s", compact, s.SameAs, s.InverseOf, d)
			}
			index.Close()
		}
	}
	t.Log("found", found)
}

// TestVerifReadErrors: an error while reading is reported by the index, wherever it happens
func TestVerifReadErrors(t *testing.T) {
	for n := 0; n < verifx.N(300); n++ {
		r := verifx.Rand(int64(2e6 + n))
		s := small(r)
		text := render(r, s.Quads, nil) + strings.Repeat("# end\n", r.Intn(2000))
		f := &failing{r: strings.NewReader(text), left: r.Intn(3*len(text) + 3), seeks: r.Intn(4)}
		verifx.Case("%s left %d seeks %d", text, f.left, f.seeks)
		passes := 2
		if len(s.InverseOf) > 0 {
			passes = 3
		}
		in := fmt.Sprintf("left %d seeks %d of %d in %s", f.left, f.seeks, len(text), s)
		ok := f.left > passes*len(text) && f.seeks >= passes-1
		bad := f.left < passes*len(text) || f.seeks < passes-1
		index, err := sparkl.MakeIndex(&sparkl.QuadSource{Reader: f}, s.Predicates(), sparkl.NewEngine(""), sparkl.IndexOptions{}, nil)
		if bad && err == nil {
			verifx.Fail(t, "error-lost", in, "the source cannot be read, but the index is made")
		}
		if ok && err != nil {
			verifx.Fail(t, "error-invented", in, "%v", err)
		}
		if err == nil {
			index.Close()
		}
	}
}
