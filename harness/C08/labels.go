// dir: internal/triplestore/imap
package imap_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

var labels = []impl.Label{"", "a", "b", "c", "d", "e", "http://example.com/"}

func answers(mp *imap.IMap) string {
	var out []string
	for _, l := range append([]impl.Label{"new1", "new2"}, labels...) {
		ti, ok, err := mp.Get(l)
		id, err2 := mp.Forward(l)
		out = append(out, fmt.Sprintf("%q: %v %v %v %v %v", l, ti, ok, err, id, err2))
	}
	var id impl.ID
	for i := 0; i < 20; i++ {
		l, err := mp.Reverse(id)
		out = append(out, fmt.Sprintf("%v: %q %v", id, l, err))
		id.Inc()
	}
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := mp.IdentityMap(&m); err != nil {
		out = append(out, err.Error())
	}
	m.Iterate(func(k, v impl.Label) error {
		out = append(out, fmt.Sprintf("%q is %q", k, v))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func fill(mp *imap.IMap, ops []string) error {
	for _, o := range ops {
		f := strings.Split(o, ",")
		var err error
		switch f[0] {
		case "add":
			_, err = mp.Add(impl.Label(f[1]))
		case "addnew":
			_, _, err = mp.AddNew(impl.Label(f[1]))
		case "same":
			_, err = mp.MarkIdentical(impl.Label(f[1]), impl.Label(f[2]))
		case "next":
			mp.Next()
		case "compact":
			err = mp.Compact()
		}
		if err != nil {
			return fmt.Errorf("%s: %w", o, err)
		}
	}
	return nil
}

func run(t *testing.T, name string, seed int64, engine func() imap.Map, mp *imap.IMap) {
	r := verifx.Rand(seed)
	var ops []string
	for i := r.Intn(10); i > 0; i-- {
		l := func() string { return string(labels[r.Intn(len(labels))]) }
		ops = append(ops, []string{"add," + l(), "add," + l(), "addnew," + l(), "same," + l() + "," + l(), "next", "compact"}[r.Intn(6)])
	}
	input := name + ": " + strings.Join(ops, "; ")
	verifx.Case("%s", input)
	fail := func(k, format string, args ...any) { verifx.Fail(t, k, input, format, args...) }
	if err := mp.Reset(engine()); err != nil {
		fail("reset", "error %v", err)
		return
	}
	var fresh imap.IMap
	if err := fresh.Reset(engine()); err != nil {
		fail("reset", "error %v", err)
		return
	}
	if a, b := answers(mp), answers(&fresh); a != b {
		fail("reset", "after a reset a label map answers\n%s\na fresh one\n%s", a, b)
	}
	if err := fill(mp, ops); err != nil {
		fail("reset", "a label map that was reset gives error %v", err)
		return
	}
	if err := fill(&fresh, ops); err != nil {
		fail("reset", "error %v", err)
		return
	}
	before := answers(mp)
	if b := answers(&fresh); before != b {
		fail("reset", "a label map with a previous life answers\n%s\na fresh one\n%s", before, b)
	}
	for i := 0; i < 2; i++ {
		if err := fresh.Close(); err != nil {
			fail("close", "closing %d times gives error %v", i+1, err)
		}
	}
	if err := mp.Finalize(); err != nil {
		fail("finalize", "error %v", err)
	}
	check := func(what string, err error) {
		if err == nil {
			fail(what, "%s succeeds on a finalized label map", what)
		}
		if after := answers(mp); after != before {
			fail(what, "after %s a finalized label map answers\n%s\nbefore\n%s", what, after, before)
		}
	}
	for _, l := range []impl.Label{"new1", labels[r.Intn(len(labels))]} {
		_, err := mp.Add(l)
		check(fmt.Sprintf("Add(%q)", l), err)
		_, _, err = mp.AddNew(l)
		check(fmt.Sprintf("AddNew(%q)", l), err)
		for _, k := range []impl.Label{"new2", l, labels[r.Intn(len(labels))]} {
			_, err = mp.MarkIdentical(l, k)
			check(fmt.Sprintf("MarkIdentical(%q, %q)", l, k), err)
		}
	}
	if err := mp.Compact(); answers(mp) != before {
		fail("Compact", "compacting a finalized label map gives %v and answers\n%s\nbefore\n%s", err, answers(mp), before)
	}
	check("Finalize", mp.Finalize())
	if r.Intn(2) == 0 {
		for i := 0; i < 2; i++ {
			if err := mp.Close(); err != nil {
				fail("close", "closing %d times gives error %v", i+1, err)
			}
		}
	}
}

func TestVerifFinal(t *testing.T) {
	var mp imap.IMap
	for i := 0; i < verifx.N(200); i++ {
		run(t, "memory", int64(i), func() imap.Map { return &imap.MemoryMap{} }, &mp)
	}
	for i := 0; i < verifx.N(10); i++ {
		run(t, "disk", int64(100000+i), func() imap.Map { return imap.DiskMap{Path: t.TempDir()} }, &mp)
		run(t, "memory", int64(200000+i), func() imap.Map { return &imap.MemoryMap{} }, &mp)
	}
}
