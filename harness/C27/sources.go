// dir: .
package hangover_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	hangover "github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// TestVerifPredicates compares the parser with a scanner
func TestVerifPredicates(t *testing.T) {
	alphabet := []string{",", "\n", " ", "\t", "\r", "a", "http://example.org/", "ä", "\u00a0", "\u2028", "#", ";", ",,", "\n\n", "b c", "\x00", "\xff"}
	for n := 0; n < verifx.N(20000); n++ {
		r := verifx.Rand(int64(n))
		in := ""
		for i := r.Intn(12); i > 0; i-- {
			in += alphabet[r.Intn(len(alphabet))]
		}
		verifx.Case(in)
		var want []string
		cur := ""
		for _, c := range []byte(in + ",") {
			if c == ',' || c == '\n' {
				if s := strings.TrimSpace(cur); s != "" {
					want = append(want, s)
				}
				cur = ""
			} else {
				cur += string([]byte{c})
			}
		}
		got := sparkl.ParsePredicateString(in)
		ok := len(got) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = string(got[i]) == want[i]
		}
		if !ok {
			verifx.Fail(t, "C27-predicates", fmt.Sprintf("%q", in), "got %q, want %q", got, want)
		}
	}
}

// kinds of entries
const (
	file = iota
	directory
	dangling // a link to nothing
	link     // a link to a file
	linkdir  // a link to a directory
	device   // a link to a device
)

// TestVerifSource looks for sources in directories with all kinds of entries
func TestVerifSource(t *testing.T) {
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	os.WriteFile(filepath.Join(tmp, "target"), nil, 0o600)
	os.Mkdir(filepath.Join(tmp, "targetdir"), 0o700)
	dirs := []string{"plain", "[ab]", "a*", "?", "sp ace", "x.xml", "x.nq", "back\\slash", "ünï", "[", ".hidden", "a,b"}
	names := []string{"a.xml", "b.xml", "A.XML", "a.nq", "b.nq", "a.nq.gz", "a.xml.bak", "xml", "nq", ".xml", ".nq", "x*.xml", "[y].nq", "readme.txt", "data.xml.nq", "data.nq.xml", "dir/deep.xml"}
	for n := 0; n < verifx.N(600); n++ {
		r := verifx.Rand(int64(n))
		base := filepath.Join(tmp, fmt.Sprint(n), dirs[r.Intn(len(dirs))])
		if err := os.MkdirAll(base, 0o700); err != nil {
			t.Fatal(err)
		}
		kinds := map[string]int{}
		put := func(name string, kind int) {
			if _, ok := kinds[name]; ok {
				return
			}
			p := filepath.Join(base, name)
			switch kind {
			case file:
				os.MkdirAll(filepath.Dir(p), 0o700)
				err = os.WriteFile(p, []byte("x"), 0o600)
			case directory:
				err = os.MkdirAll(p, 0o700)
			case dangling:
				err = os.Symlink(filepath.Join(tmp, "missing"), p)
			case link:
				err = os.Symlink(filepath.Join(tmp, "target"), p)
				case linkdir:
				err = os.Symlink(filepath.Join(tmp, "targetdir"), p)
			case device:
				err = os.Symlink(os.DevNull, p)
			}
			if err != nil {
				t.Fatal(err)
			}
			kinds[name] = kind
		}
		if r.Intn(4) > 0 {
			put([]string{"a.xml", "z.xml", ".xml", "x*.xml"}[r.Intn(4)], []int{file, file, file, link}[r.Intn(4)])
			put([]string{"a.nq", "z.nq", ".nq", "[y].nq"}[r.Intn(4)], []int{file, file, file, link}[r.Intn(4)])
		}
		for i := r.Intn(4); i > 0; i-- {
			name := names[r.Intn(len(names))]
			kind := r.Intn(6)
			if strings.Contains(name, "/") || r.Intn(2) == 0 {
				kind = file
			}
			put(name, kind)
		}
		single := func(suffix string) (res string, ok bool) {
			count := 0
			for name, kind := range kinds {
				if !strings.Contains(name, "/") && strings.HasSuffix(name, suffix) {
					count++
					res, ok = filepath.Join(base, name), kind == file || kind == link
				}
			}
			return res, ok && count == 1
		}
		check := func(allow bool, argv []string, nq, xml, index string, ok bool) {
			var in []string
			for name, kind := range kinds {
				in = append(in, fmt.Sprintf("%s (kind %d)", name, kind))
			}
			input := fmt.Sprintf("index %t, %q, directory contains %q", allow, argv, in)
			verifx.Case(input)
			gnq, gxml, gindex, err := hangover.FindSource(allow, argv...)
			if (err == nil) != ok {
				verifx.Fail(t, "C27-source", input, "got %q %q %q %v, want success %t", gnq, gxml, gindex, err, ok)
			} else if ok && (gnq != nq || gxml != xml || gindex != index) {
				verifx.Fail(t, "C27-source", input, "got %q %q %q, want %q %q %q", gnq, gxml, gindex, nq, xml, index)
			}
		}
		allow := r.Intn(2) == 0
		xml, okxml := single(".xml")
		nq, oknq := single(".nq")
		check(allow, []string{base}, nq, xml, "", okxml && oknq)
		// one argument: every entry
		regular := func(name string) bool { return kinds[name] == file || kinds[name] == link }
		for name, kind := range kinds {
			p := filepath.Join(base, name)
			switch kind {
			case file, link:
				check(true, []string{p}, "", "", p, true)
				check(false, []string{p}, "", "", "", false)
			case dangling:
				check(allow, []string{p}, "", "", "", false)
			case linkdir:
				check(allow, []string{p}, "", "", "", false)
			}
			for other := range kinds {
				q := filepath.Join(base, other)
				check(allow, []string{p, q}, q, p, "", regular(name) && regular(other))
			}
			check(allow, []string{p, filepath.Join(base, "missing")}, "", "", "", false)
			check(allow, []string{filepath.Join(base, "missing"), p}, "", "", "", false)
			check(allow, []string{p, p, p}, "", "", "", false)
		}
		check(allow, nil, "", "", "", false)
		check(allow, []string{filepath.Join(base, "missing.nq")}, "", "", "", false)
		check(allow, []string{base, base}, "", "", "", false)
		os.RemoveAll(filepath.Join(tmp, fmt.Sprint(n)))
	}
}
