// dir: internal/triplestore/imap
package imap_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func short(s string) string {
	return strings.NewReplacer(strings.Repeat("x", 70000), "x*70000", strings.Repeat("x", 5000), "x*5000").Replace(s)
}

func num(id impl.ID) uint32 {
	var b [4]byte
	id.Encode(b[:])
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// oracle is what a label map means: every label has an identifier, and labels are in classes
type oracle struct {
	next  uint32
	ids   map[impl.Label]uint32
	rep   map[impl.Label]impl.Label // representative of every label
	back  map[uint32]impl.Label
	bare  map[uint32]bool
	final bool
}

func newOracle() *oracle {
	return &oracle{ids: map[impl.Label]uint32{}, rep: map[impl.Label]impl.Label{}, back: map[uint32]impl.Label{}, bare: map[uint32]bool{}}
}

var labels = []impl.Label{"", "a", "b", "c", "d", "ab", "a\x00", "A", "ä", "http://example.com/", "http://example.com/#x", "e", "f", "g", impl.Label(strings.Repeat("x", 5000)), impl.Label(strings.Repeat("x", 5000) + "y"), impl.Label(strings.Repeat("x", 70000))}

func run(t *testing.T, mp *imap.IMap, name string, seed int64, engine imap.Map) {
	if err := mp.Reset(engine); err != nil {
		t.Fatal(err)
	}
	o := newOracle()
	var log []string
	fail := func(key, format string, args ...any) {
		verifx.Fail(t, key, name+": "+short(strings.Join(log, "; ")), format, args...)
	}
	r := verifx.Rand(seed)
	check := func() {
		for _, l := range labels {
			id, known := o.ids[l]
			ti, ok, err := mp.Get(l)
			if err != nil || ok != known {
				fail("get", "Get(%q) = %v %v %v, expected known: %v", l, ti, ok, err, known)
			}
			fw, err := mp.Forward(l)
			if err != nil {
				fail("forward", "Forward(%q): %v", l, err)
			}
			if !known {
				if fw.Valid() || ti != (imap.TripleID{}) {
					fail("unknown-label", "unknown label %q has ids %v %v", l, ti, fw)
				}
				continue
			}
			if num(ti.Literal) != id {
				fail("literal", "literal identifier of %q is %v, expected %d", l, ti.Literal, id)
			}
			if want := o.ids[o.rep[l]]; num(ti.Canonical) != want || num(fw) != want {
				fail("canonical", "canonical identifier of %q is %v / %v, expected %d", l, ti.Canonical, fw, want)
			}
		}
		for n := uint32(0); n <= o.next+2; n++ {
			var id impl.ID
			id.Decode([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
			got, err := mp.Reverse(id)
			if err != nil || got != o.back[n] {
				fail("reverse", "Reverse(%d) = %q %v, expected %q", n, got, err, o.back[n])
			}
		}
		st := imap.MakeMemory[impl.Label, impl.Label](0)
		st.Set("untouched", "x")
		if err := mp.IdentityMap(&st); err != nil {
			fail("identitymap", "error %v", err)
		}
		got := map[impl.Label]impl.Label{}
		st.Iterate(func(k, v impl.Label) error { got[k] = v; return nil })
		want := map[impl.Label]impl.Label{"untouched": "x"}
		for l, rp := range o.rep {
			if l != rp {
				want[l] = rp
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("identitymap", "identity map is %v, expected %v", got, want)
		}
	}
	// add returns if l existed
	add := func(l impl.Label) bool {
		if _, ok := o.ids[l]; ok {
			return true
		}
		o.next++
		o.ids[l] = o.next
		o.rep[l] = l
		o.back[o.next] = l
		return false
	}
	for step := 0; step < 40; step++ {
		l := labels[r.Intn(len(labels))]
		switch op := r.Intn(12); {
		case op < 3:
			log = append(log, fmt.Sprintf("Add(%q)", l))
			existed := add(l)
			ti, err := mp.Add(l)
			if err != nil || num(ti.Literal) != o.ids[l] || num(ti.Canonical) != o.ids[o.rep[l]] {
				fail("add", "Add(%q) = %v %v, expected %d %d (existed %v)", l, ti, err, o.ids[l], o.ids[o.rep[l]], existed)
			}
		case op < 5:
			log = append(log, fmt.Sprintf("AddNew(%q)", l))
			existed := add(l)
			ti, old, err := mp.AddNew(l)
			if err != nil || old != existed || num(ti.Literal) != o.ids[l] || num(ti.Canonical) != o.ids[o.rep[l]] {
				fail("addnew", "AddNew(%q) = %v %v %v, expected %d %d %v", l, ti, old, err, o.ids[l], o.ids[o.rep[l]], existed)
			}
		case op < 6:
			log = append(log, "Next()")
			o.next++
			o.bare[o.next] = true
			if id := mp.Next(); num(id) != o.next {
				fail("next", "Next() = %v, expected %d", id, o.next)
			}
		case op < 10:
			m := labels[r.Intn(len(labels))]
			log = append(log, fmt.Sprintf("MarkIdentical(%q,%q)", l, m))
			add(l)
			add(m)
			nr, or := o.rep[l], o.rep[m]
			for x, rp := range o.rep {
				if rp == or {
					o.rep[x] = nr
				}
			}
			id, err := mp.MarkIdentical(l, m)
			if err != nil || num(id) != o.ids[nr] {
				fail("markidentical", "MarkIdentical(%q, %q) = %v %v, expected %d", l, m, id, err, o.ids[nr])
			}
		case op < 11:
			log = append(log, "Compact()")
			if err := mp.Compact(); err != nil {
				fail("compact", "error %v", err)
			}
		default:
			mp.Get(l)
			mp.Forward(l)
		}
		if step%4 == 3 {
			check()
		}
	}
	check()
	verifx.Case("%s %s", name, short(strings.Join(log, "; ")))
	if err := mp.Finalize(); err != nil {
		fail("finalize", "error %v", err)
	}
	log = append(log, "Finalize()")
	if _, err := mp.Add("a"); err == nil {
		fail("finalized", "Add works after finalizing")
	}
	if _, _, err := mp.AddNew("never seen before"); err == nil {
		fail("finalized", "AddNew works after finalizing")
	}
	if _, err := mp.MarkIdentical("a", "b"); err == nil {
		fail("finalized", "MarkIdentical works after finalizing")
	}
	if err := mp.Finalize(); err == nil {
		fail("finalized", "finalizing twice works")
	}
	check()
}

func TestVerifLabels(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	var mp imap.IMap
	defer mp.Close()
	for i := 0; i < verifx.N(150); i++ {
		// the same label map is used again and again
		run(t, &mp, "memory", int64(i), &imap.MemoryMap{})
		if i%15 == 0 {
			p := filepath.Join(dir, fmt.Sprint(i))
			os.MkdirAll(p, 0o755)
			run(t, &mp, "disk", int64(1000+i), imap.DiskMap{Path: p})
		}
	}
}

// resetting and closing
func TestVerifReset(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for i, engine := range []func() imap.Map{func() imap.Map { return &imap.MemoryMap{} }, func() imap.Map { return imap.DiskMap{Path: dir} }} {
		verifx.Case("reset %d", i)
		var mp imap.IMap
		for round := 0; round < 3; round++ {
			if err := mp.Reset(engine()); err != nil {
				verifx.Fail(t, "reset", i, "round %d: %v", round, err)
				break
			}
			if id, err := mp.Forward("old"); err != nil || id.Valid() {
				verifx.Fail(t, "reset-state", i, "round %d: label of previous life found: %v %v", round, id, err)
			}
			ti, err := mp.Add("new")
			if err != nil || num(ti.Literal) != 1 {
				verifx.Fail(t, "reset-usable", i, "round %d: Add = %v %v", round, ti, err)
			}
			if ti, err := mp.Add("old"); err != nil || num(ti.Literal) != 2 {
				verifx.Fail(t, "reset-usable", i, "round %d: Add = %v %v", round, ti, err)
			}
			if round == 1 {
				if err := mp.Finalize(); err != nil {
					verifx.Fail(t, "finalize", i, "%v", err)
				}
			}
			if round == 2 {
				for k := 0; k < 3; k++ {
					if err := mp.Close(); err != nil {
						verifx.Fail(t, "close", i, "close %d: %v", k, err)
					}
				}
			}
		}
	}
}
