// dir: internal/wisski
package wisski_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/anglo-korean/rdf"
)

func TestMain(m *testing.M) { verifx.Main(m) }

var locals = []string{"a", "b", "c", "E21_Person", "?id=1", "x(y)", "1.", "a,b", "", "%20", "ü", "a;b", "x:y", "-z", "a~b", "@q"}
var bases = []string{"http://example.com/", "http://example.com/o#", "urn:x:", "https://wisski.example/content/"}

func iri(r *rand.Rand) impl.Label {
	if r.Intn(2) == 0 {
		return impl.Label("http://example.com/" + string(rune('a'+r.Intn(3))))
	}
	return impl.Label(bases[r.Intn(len(bases))] + locals[r.Intn(len(locals))])
}

func object(r *rand.Rand) impl.Label { return iri(r) }

func predicate(r *rand.Rand) impl.Label {
	if r.Intn(4) == 0 {
		return wisski.Type
	}
	return iri(r)
}

var data = []string{"", "x", "hello world", "a\nb", "a\r\nb", `say "hi"`, `back\slash`, "ünï", "1", "true", "http://example.com/a", " trailing ", "tab\there", "\\n", "<b>x</b>", "'", "日本", "2020-01-01"}
var langs = []string{"", "", "en", "de", "de-AT", "x-1a"}

func statement(s, p, o string) string { return s + " " + p + " " + o }

func expected(t igraph.Triple, canonical bool) string {
	s, p, o := t.Subject, t.Predicate, t.Object
	if canonical {
		s, p, o = t.SSubject, t.SPredicate, t.SObject
	}
	if t.Role == igraph.Data {
		return statement("<"+string(s)+">", "<"+string(p)+">", fmt.Sprintf("%q@%q", string(t.Datum), string(t.Language)))
	}
	return statement("<"+string(s)+">", "<"+string(p)+">", "<"+string(o)+">")
}

func term(t rdf.Term) string {
	if l, ok := t.(rdf.Literal); ok {
		s := fmt.Sprintf("%q@%q", l.String(), l.Lang())
		if d := l.DataType.String(); l.Lang() == "" && d != "http://www.w3.org/2001/XMLSchema#string" {
			s += "^^" + d
		}
		return s
	}
	if t.Type() == rdf.TermBlank {
		return "_:" + t.String()
	}
	return "<" + t.String() + ">"
}

func parse(src []byte, f rdf.Format) (out []string, err error) {
	dec := rdf.NewTripleDecoder(bytes.NewReader(src), f)
	for {
		t, err := dec.Decode()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, statement(term(t.Subj), term(t.Pred), term(t.Obj)))
	}
}

// limited fails after n bytes
type limited struct {
	n   int
	err error
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) <= l.n {
		l.n -= len(p)
		return len(p), nil
	}
	n := l.n
	l.n = 0
	return n, l.err
}

func TestVerifRDF(t *testing.T) {
	r := verifx.Rand(18)
	var ids []impl.ID
	var next impl.ID
	for i := 0; i < 300; i++ {
		next.Inc()
		ids = append(ids, next)
	}
	errWrite := errors.New("write failed")
	for n := verifx.N(2500); n > 0; n-- {
		var e wisski.Entity
		e.URI = iri(r)
		count := r.Intn(12)
		if r.Intn(20) == 0 {
			count = 250
		}
		bad := r.Intn(12) == 0
		var input []string
		perm := r.Perm(len(ids))[:count]
		all := map[impl.ID]igraph.Triple{}
		for i := 0; i < count; i++ {
			x := igraph.Triple{
				Subject: iri(r), Predicate: predicate(r), Object: object(r),
				SSubject: iri(r), SPredicate: predicate(r), SObject: object(r),
				ID: ids[perm[i]], Role: igraph.Role(r.Intn(3)),
			}
			if x.Role == igraph.Data {
				x.Datum, x.Language = impl.Datum(data[r.Intn(len(data))]), impl.Language(langs[r.Intn(len(langs))])
				if r.Intn(2) == 0 {
					x.Object, x.SObject = "", ""
				}
			} else if r.Intn(4) == 0 {
				x.Datum = "ignored"
			}
			if bad && i == count/2 {
				switch r.Intn(4) {
				case 0:
					x.Subject, x.SSubject = "a b", "a b"
				case 1:
					x.Predicate, x.SPredicate = "", ""
				case 2:
					x.Role, x.Object, x.SObject = igraph.Regular, "<x>", "<x>"
				case 3:
					x.Role, x.Datum, x.Language = igraph.Data, "d", "not a language"
				}
			}
			all[x.ID] = x
			input = append(input, fmt.Sprintf("%+v", x))
			switch r.Intn(3) {
			case 0:
				e.Triples = append(e.Triples, x)
			case 1:
				if e.Fields == nil {
					e.Fields = map[string][]wisski.FieldValue{}
				}
				f := fmt.Sprint("f", r.Intn(3))
				e.Fields[f] = append(e.Fields[f], wisski.FieldValue{Value: x.Datum, Triples: []igraph.Triple{x}})
			case 2:
				if e.Children == nil {
					e.Children = map[string][]wisski.Entity{}
				}
				f := fmt.Sprint("c", r.Intn(3))
				e.Children[f] = append(e.Children[f], wisski.Entity{URI: "c", Triples: []igraph.Triple{x}})
			}
			if r.Intn(5) == 0 {
				e.Triples = append(e.Triples, x)
			}
		}
		canonical := r.Intn(2) == 0
		format := []rdf.Format{rdf.NTriples, rdf.Turtle}[r.Intn(2)]
		name := map[rdf.Format]string{rdf.NTriples: "ntriples", rdf.Turtle: "turtle"}[format]
		in := fmt.Sprintf("canonical=%v %s %s", canonical, name, strings.Join(input, "; "))
		verifx.Case("WriteAllTriples(%s)", in)

		var buf bytes.Buffer
		var err error
		if p := verifx.Try(func() { err = e.WriteAllTriples(&buf, canonical, format) }); p != nil {
			verifx.Fail(t, "panic", in, "WriteAllTriples panics: %v", p)
			return
		}
		if bad && count > 0 {
			if err == nil {
				verifx.Fail(t, "bad", in, "WriteAllTriples reports no error for a triple that can not be written")
				return
			}
			continue
		}
		if err != nil {
			verifx.Fail(t, "error", in, "WriteAllTriples fails: %v", err)
			return
		}
		var want []string
		for _, id := range ids {
			if x, ok := all[id]; ok {
				want = append(want, expected(x, canonical))
			}
		}
		got, err := parse(buf.Bytes(), format)
		if err != nil {
			verifx.Fail(t, "parse", in, "WriteAllTriples writes %q, which is not valid %s: %v", buf.String(), name, err)
			return
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			verifx.Fail(t, "statements", in, "WriteAllTriples writes %q instead of %q", got, want)
			return
		}
		// a writer that fails
		if buf.Len() > 0 {
			l := &limited{n: r.Intn(buf.Len()), err: errWrite}
			if err := e.WriteAllTriples(l, canonical, format); err == nil {
				verifx.Fail(t, "writer", in, "WriteAllTriples reports no error when writing fails")
				return
			}
		}
	}
}
