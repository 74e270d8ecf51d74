// dir: internal/glass
package glass_test

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/verifx/dataset"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// enable makes a pathbuilder that can be written to xml
func enable(r *rand.Rand, s *dataset.Set) {
	text := func() string { return []string{"", "Name", "a & b < c > d", "ä \"quoted\" 'x'", "漢字"}[r.Intn(5)] }
	fill := func(p *pathbuilder.Path, group string) {
		p.Enabled, p.GroupID = true, group
		p.Name, p.Description, p.ShortName, p.UUID = text(), text(), text(), text()
		p.FieldType, p.DisplayWidget, p.FormatterWidget, p.FieldTypeInformative = text(), text(), text(), text()
		p.Disamb = r.Intn(3)
	}
	var bundle func(b *pathbuilder.Bundle, group string)
	bundle = func(b *pathbuilder.Bundle, group string) {
		fill(&b.Path, group)
		b.IsGroup = true
		for i := range b.ChildFields {
			fill(&b.ChildFields[i].Path, b.Path.ID)
		}
		for _, c := range b.ChildBundles {
			bundle(c, b.Path.ID)
		}
	}
	for _, b := range s.PB.Bundles() {
		bundle(b, "")
	}
}

func nquads(s *dataset.Set) string {
	var b strings.Builder
	e := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r")
	for _, q := range s.Quads {
		o := "<" + q.O + ">"
		if q.Data {
			o = "\"" + e.Replace(q.O) + "\""
			if q.Lang != "" {
				o += "@" + q.Lang
			}
		}
		fmt.Fprintf(&b, "<%s> <%s> %s .\n", q.S, q.P, o)
	}
	return b.String()
}

func builder(pb *pathbuilder.Pathbuilder) (out []string) {
	var bundle func(b *pathbuilder.Bundle, depth int)
	bundle = func(b *pathbuilder.Bundle, depth int) {
		parent := ""
		if b.Parent != nil {
			parent = b.Parent.Path.ID
		}
		out = append(out, fmt.Sprintf("bundle %d %q %+v", depth, parent, b.Path))
		for _, f := range b.ChildFields {
			out = append(out, fmt.Sprintf("field %+v", f))
		}
		for _, c := range b.ChildBundles {
			bundle(c, depth+1)
		}
	}
	for _, b := range pb.Bundles() {
		bundle(b, 0)
	}
	return
}

func cache(c *sparkl.Cache, uris []string) (out []string) {
	out = append(out, fmt.Sprintf("bundles %q", c.BundleNames()))
	for _, b := range c.BundleNames() {
		for i, e := range c.Entities(b) {
			out = append(out, fmt.Sprintf("entity %s %d %s", b, i, dataset.Describe(e)))
		}
	}
	for _, u := range uris {
		b, ok := c.Bundle(impl.Label(u))
		f, fb, fok := c.FirstBundle("nothing", impl.Label(u))
		out = append(out, fmt.Sprintf("uri %s canonical %q aliases %q bundle %q %v first %q %q %v", u, c.Canonical(impl.Label(u)), c.Aliases(impl.Label(u)), b, ok, f, fb, fok))
		for _, b := range append(c.BundleNames(), "nothing") {
			e, ok := c.Entity(impl.Label(u), b)
			d := ""
			if ok {
				d = dataset.Describe(*e)
			}
			out = append(out, fmt.Sprintf("uri %s in %s %v %s", u, b, ok, d))
		}
	}
	return
}

func flags(f viewer.RenderFlags) string {
	return fmt.Sprintf("%q %q %q %q %v %v %v", f.PublicURL, f.TipsyURL, f.Predicates.SameAs, f.Predicates.InverseOf, f.StrictCSP, f.HTMLRender, f.ImageRender)
}

func describe(g *glass.Glass, uris []string) []string {
	return append(append([]string{flags(g.Flags)}, builder(&g.Pathbuilder)...), cache(g.Cache, uris)...)
}

func TestVerifRoundtrip(t *testing.T) {
	entities := 0
	for n := 0; n < verifx.N(120); n++ {
		r := verifx.Rand(int64(n))
		s := dataset.Random(r)
		if n == 0 {
			s.Quads = nil
		}
		enable(r, s)
		input := s.String()
		dir := t.TempDir()
		xml, err := pbxml.Marshal(s.PB)
		if err != nil {
			t.Fatal(err)
		}
		pbf, nqf, out := filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq"), filepath.Join(dir, "out.hangover")
		if os.WriteFile(pbf, xml, 0o600) != nil || os.WriteFile(nqf, []byte(nquads(s)), 0o600) != nil {
			t.Fatal("cannot write")
		}
		fl := viewer.RenderFlags{
			PublicURL: []string{"", "http://example.org/", "http://a/,http://b/\nhttp://c/"}[r.Intn(3)], TipsyURL: []string{"", "https://tipsy.example"}[r.Intn(2)],
			Predicates: s.Predicates(), StrictCSP: r.Intn(2) == 0, HTMLRender: r.Intn(2) == 0, ImageRender: r.Intn(2) == 0,
		}
		if r.Intn(2) == 0 {
			fl.Stats = new(stats.Stats)
		}
		verifx.Case("%s %s", flags(fl), input)
		g, err := glass.Create(pbf, nqf, "", fl, nil)
		if err != nil {
			verifx.Fail(t, "create", input, "%v", err)
			continue
		}
		set := map[string]bool{"nothing": true, "": true}
		for _, q := range s.Quads {
			set[q.S], set[q.P] = true, true
			if !q.Data {
				set[q.O] = true
			}
		}
		var uris []string
		for u := range set {
			uris = append(uris, u)
		}
		sort.Strings(uris)
		for _, b := range g.Cache.BundleNames() {
			entities += len(g.Cache.Entities(b))
		}
		want := describe(&g, uris)
		if err := glass.Export(out, g, nil); err != nil {
			verifx.Fail(t, "export", input, "%v", err)
			continue
		}
		got, err := glass.Import(out, nil)
		if err != nil {
			verifx.Fail(t, "import", input, "%v", err)
			continue
		}
		if d := dataset.Diff(describe(&got, uris), want); d != "" {
			verifx.Fail(t, "different", input, "after the import: %s", d)
			continue
		}
		// and once more, from the imported data
		again := filepath.Join(dir, "again.hangover")
		if err := glass.Export(again, got, nil); err != nil {
			verifx.Fail(t, "export", input, "again: %v", err)
		} else if got, err := glass.Import(again, nil); err != nil {
			verifx.Fail(t, "import", input, "again: %v", err)
		} else if d := dataset.Diff(describe(&got, uris), want); d != "" {
			verifx.Fail(t, "different", input, "after another import: %s", d)
		}
		damage(t, r, out, input, uris, want)
		inner(t, r, out, input)
		versions(t, r, &g, input)
	}
	t.Log("entities", entities)
}

// damage truncates and changes an export
func damage(t *testing.T, r *rand.Rand, path, input string, uris, want []string) {
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	file := path + ".damaged"
	try := func(what string, data []byte, always bool) {
		verifx.Crashable("%s of %s", what, input)
		if os.WriteFile(file, data, 0o600) != nil {
			t.Fatal("cannot write")
		}
		var got glass.Glass
		var err error
		if p := verifx.Try(func() { got, err = glass.Import(file, nil) }); p != nil {
			verifx.Fail(t, "damaged-panic", what+" of "+input, "panic %v", p)
			return
		}
		if err != nil {
			return
		}
		d := ""
		if p := verifx.Try(func() { d = dataset.Diff(describe(&got, uris), want) }); p != nil {
			d = fmt.Sprintf("using the imported data panics with %v", p)
		}
		if always || d != "" {
			verifx.Fail(t, "damaged", what+" of "+input, "the export is accepted %s", d)
		}
	}
	for k := 0; k < 12; k++ {
		at := len(data) - 1 - k
		if k > 5 {
			at = r.Intn(len(data))
		}
		try(fmt.Sprintf("truncation to %d of %d bytes", at, len(data)), data[:at], true)
	}
	for k := 0; k < 20; k++ {
		at := r.Intn(len(data))
		if k < 4 {
			at = len(data) - 1 - r.Intn(8)
		}
		d := bytes.Clone(data)
		bit := r.Intn(8)
		d[at] ^= 1 << bit
		try(fmt.Sprintf("flipping bit %d of byte %d of %d", bit, at, len(data)), d, k < 4)
	}
}

// inner truncates and changes the stream before it is compressed
func inner(t *testing.T, r *rand.Rand, path, input string) {
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	data, err := io.ReadAll(z)
	if err != nil {
		t.Fatal(err)
	}
	file := path + ".inner"
	try := func(what string, data []byte, always bool) {
		verifx.Crashable("%s of %s", what, input)
		var b bytes.Buffer
		w, _ := gzip.NewWriterLevel(&b, gzip.NoCompression)
		w.Write(data)
		w.Close()
		if os.WriteFile(file, b.Bytes(), 0o600) != nil {
			t.Fatal("cannot write")
		}
		var err error
		if p := verifx.Try(func() { _, err = glass.Import(file, nil) }); p != nil {
			verifx.Fail(t, "inner-panic", what+" of "+input, "panic %v", p)
		} else if err == nil && always {
			verifx.Fail(t, "inner", what+" of "+input, "the export is accepted")
		}
	}
	for k := 0; k < 6; k++ {
		at := r.Intn(len(data))
		try(fmt.Sprintf("truncating the stream to %d of %d bytes", at, len(data)), data[:at], true)
	}
	for k := 0; k < 20; k++ {
		at := r.Intn(len(data))
		if k < 10 {
			at = len(data) - 1 - r.Intn(min(len(data), 200))
		}
		d := bytes.Clone(data)
		d[at] ^= byte(1 + r.Intn(255))
		try(fmt.Sprintf("changing byte %d of %d of the stream", at, len(data)), d, false)
	}
}

// versions writes exports of other versions
func versions(t *testing.T, r *rand.Rand, g *glass.Glass, input string) {
	file := filepath.Join(t.TempDir(), "version")
	for _, v := range []int{glass.GlassVersion, 0, 1, 3, -2, glass.GlassVersion + 256, 1 << 33} {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		enc := gob.NewEncoder(w)
		xml, err := pbxml.Marshal(g.Pathbuilder)
		if err != nil {
			t.Fatal(err)
		}
		for _, o := range []any{v, xml, g.Flags} {
			if err := sgob.Encode(enc, o); err != nil {
				t.Fatal(err)
			}
		}
		if err := g.Cache.EncodeTo(enc); err != nil {
			t.Fatal(err)
		}
		w.Close()
		if os.WriteFile(file, b.Bytes(), 0o600) != nil {
			t.Fatal("cannot write")
		}
		_, err = glass.Import(file, nil)
		if (err == nil) != (v == glass.GlassVersion) {
			verifx.Fail(t, "version", input, "importing version %d: %v", v, err)
		}
	}
}
