// dir: internal/triplestore/imap
package imap_test

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func mk(n uint32) (id impl.ID) {
	id.Decode([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	return
}

func short(s string) string {
	return strings.NewReplacer(strings.Repeat("x", 70000), "x*70000", strings.Repeat("x", 5000), "x*5000").Replace(s)
}

// run runs random operations on two stores of the same kind against maps
func run[K comparable, V comparable](t *testing.T, name string, seed int64, open func(which string) imap.HashMap[K, V], keys []K, vals []V) {
	stores := []imap.HashMap[K, V]{open("a"), open("b")}
	oracles := []map[K]V{{}, {}}
	var zero V
	var log []string
	fail := func(key, format string, args ...any) {
		l := log
		if len(l) > 60 {
			l = l[len(l)-60:]
		}
		verifx.Fail(t, key, name+": "+short(strings.Join(l, "; ")), format, args...)
	}
	defer func() {
		for i, s := range stores {
			if err := s.Close(); err != nil {
				fail("close", "error %v", err)
			}
			_ = i
		}
	}()
	full := func(w int) {
		s, o := stores[w], oracles[w]
		for _, k := range keys {
			want, in := o[k]
			got, ok, err := s.Get(k)
			if err != nil || ok != in || got != want {
				fail("get", "store %d: Get(%v) = %v %v %v, expected %v %v", w, k, got, ok, err, want, in)
			}
			got, err = s.GetZero(k)
			if err != nil || got != want {
				fail("getzero", "store %d: GetZero(%v) = %v %v, expected %v", w, k, got, err, want)
			}
			has, err := s.Has(k)
			if err != nil || has != in {
				fail("has", "store %d: Has(%v) = %v %v, expected %v", w, k, has, err, in)
			}
		}
		if n, err := s.Count(); err != nil || n != uint64(len(o)) {
			fail("count", "store %d: Count() = %d %v, expected %d", w, n, err, len(o))
		}
		seen := map[K]V{}
		err := s.Iterate(func(k K, v V) error {
			if _, ok := seen[k]; ok {
				fail("iterate-twice", "store %d: %v visited twice", w, k)
			}
			seen[k] = v
			return nil
		})
		if err != nil || !reflect.DeepEqual(seen, o) {
			fail("iterate", "store %d: Iterate gives %v %v, expected %v", w, seen, err, o)
		}
		if len(o) > 0 {
			stop := errors.New("stop")
			at := len(log) % len(o)
			calls := 0
			err := s.Iterate(func(k K, v V) error {
				calls++
				if calls > at {
					return stop
				}
				return nil
			})
			if err != stop || calls != at+1 {
				fail("iterate-stop", "store %d: Iterate stops with %v after %d calls, expected %d", w, err, calls, at+1)
			}
		}
	}
	r := verifx.Rand(seed)
	for step := 0; step < 60; step++ {
		w := r.Intn(2)
		k := keys[r.Intn(len(keys))]
		switch op := r.Intn(10); {
		case op < 5:
			v := vals[r.Intn(len(vals))]
			log = append(log, fmt.Sprintf("%d.Set(%v,%v)", w, k, v))
			if err := stores[w].Set(k, v); err != nil {
				fail("set", "error %v", err)
			}
			oracles[w][k] = v
		case op < 7:
			log = append(log, fmt.Sprintf("%d.Delete(%v)", w, k))
			if err := stores[w].Delete(k); err != nil {
				fail("delete", "error %v", err)
			}
			delete(oracles[w], k)
		case op < 8:
			log = append(log, fmt.Sprintf("%d.Compact()", w))
			if err := stores[w].Compact(); err != nil {
				fail("compact", "error %v", err)
			}
		default:
			log = append(log, "check")
		}
		if step%5 == 4 {
			full(0)
			full(1)
		}
		got, err := stores[w].GetZero(k)
		if want, ok := oracles[w][k]; err != nil || (ok && got != want) || (!ok && got != zero) {
			fail("getzero", "GetZero(%v) = %v %v, expected %v", k, got, err, want)
		}
	}
	verifx.Case("%s %s", name, short(strings.Join(log, ";")))
	for w := range stores {
		if err := stores[w].Finalize(); err != nil {
			fail("finalize", "error %v", err)
		}
		full(w)
	}
}

func disk[K comparable, V any](t *testing.T, dir string) func(string) imap.HashMap[K, V] {
	return func(which string) imap.HashMap[K, V] {
		ds, err := imap.NewDiskStorage[K, V](filepath.Join(dir, which))
		if err != nil {
			t.Fatal(err)
		}
		return ds
	}
}

func memory[K comparable, V any](which string) imap.HashMap[K, V] {
	m := imap.MakeMemory[K, V](0)
	return &m
}

var labels = []impl.Label{"", "a", "b", "ab", "a\x00", "A", " a", "ä", "\xff", "http://example.com/#a", "x/../y", impl.Label(strings.Repeat("long", 300)), impl.Label(strings.Repeat("x", 5000)), impl.Label(strings.Repeat("x", 5000) + "y"), impl.Label(strings.Repeat("x", 70000))}

func TestVerifStores(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)

	var ids []impl.ID
	var tids []imap.TripleID
	for _, n := range []uint32{0, 1, 2, 255, 256, 257, 65536, 1 << 24, 1<<32 - 1} {
		ids = append(ids, mk(n))
		tids = append(tids, imap.TripleID{Canonical: mk(n), Literal: mk(n ^ 3)})
	}
	strs := []string{"", "x", "y", "null", "\"", "longer value"}
	for i := 0; i < verifx.N(8); i++ {
		run(t, "memory label->pair", int64(100+i), memory[impl.Label, imap.TripleID], labels, tids)
		run(t, "memory id->label", int64(200+i), memory[impl.ID, impl.Label], ids, labels)
		run(t, "disk string->string", int64(300+i), disk[string, string](t, filepath.Join(dir, fmt.Sprint("s", i))), strs, strs)
		run(t, "disk int->int", int64(400+i), disk[int, int](t, filepath.Join(dir, fmt.Sprint("i", i))), []int{0, 1, -1, 10, 100}, []int{0, 1, 2, 10})
		run(t, "memory map forward", int64(500+i), func(which string) imap.HashMap[impl.Label, imap.TripleID] {
			f, err := (&imap.MemoryMap{}).Forward()
			if err != nil {
				t.Fatal(err)
			}
			return f
		}, labels, tids)
		run(t, "memory map reverse", int64(600+i), func(which string) imap.HashMap[impl.ID, impl.Label] {
			f, err := (&imap.MemoryMap{}).Reverse()
			if err != nil {
				t.Fatal(err)
			}
			return f
		}, ids, labels)
		run(t, "disk map forward", int64(700+i), func(which string) imap.HashMap[impl.Label, imap.TripleID] {
			p := filepath.Join(dir, fmt.Sprint("f", i, which))
			os.MkdirAll(p, 0o755)
			f, err := (&imap.DiskMap{Path: p}).Forward()
			if err != nil {
				t.Fatal(err)
			}
			return f
		}, labels, tids)
		run(t, "disk map reverse", int64(800+i), func(which string) imap.HashMap[impl.ID, impl.Label] {
			p := filepath.Join(dir, fmt.Sprint("r", i, which))
			os.MkdirAll(p, 0o755)
			f, err := (&imap.DiskMap{Path: p}).Reverse()
			if err != nil {
				t.Fatal(err)
			}
			return f
		}, ids, labels)
	}
}

// many entries, so that the database of a disk storage has several tables
func TestVerifMany(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	d, err := (imap.DiskMap{Path: dir}).Forward()
	if err != nil {
		t.Fatal(err)
	}
	mm := imap.MakeMemory[impl.Label, imap.TripleID](0)
	for _, s := range []imap.HashMap[impl.Label, imap.TripleID]{d, &mm} {
		n := uint32(verifx.N(3000))
		key := func(i uint32) impl.Label { return impl.Label(fmt.Sprintf("http://example.com/%d", i)) }
		for i := uint32(0); i < n; i++ {
			s.Set(key(i), imap.TripleID{Canonical: mk(i), Literal: mk(i + 1)})
		}
		for i := uint32(0); i < n; i += 3 {
			s.Delete(key(i))
		}
		for i := uint32(1); i < n; i += 3 {
			s.Set(key(i), imap.TripleID{Canonical: mk(7), Literal: mk(i)})
		}
		s.Compact()
		cnt := uint64(0)
		for i := uint32(0); i < n; i++ {
			verifx.Case("many %T %d", s, i)
			v, ok, err := s.Get(key(i))
			var want imap.TripleID
			switch i % 3 {
			case 1:
				want = imap.TripleID{Canonical: mk(7), Literal: mk(i)}
				cnt++
			case 2:
				want = imap.TripleID{Canonical: mk(i), Literal: mk(i + 1)}
				cnt++
			}
			if err != nil || ok != (i%3 != 0) || v != want {
				verifx.Fail(t, "many", i, "%T: Get = %v %v %v, expected %v", s, v, ok, err, want)
			}
		}
		if c, err := s.Count(); err != nil || c != cnt {
			verifx.Fail(t, "many-count", n, "%T: Count = %d %v, expected %d", s, c, err, cnt)
		}
		seen := map[impl.Label]int{}
		if err := s.Iterate(func(k impl.Label, v imap.TripleID) error { seen[k]++; return nil }); err != nil || uint64(len(seen)) != cnt {
			verifx.Fail(t, "many-iterate", n, "%T: %d visited %v, expected %d", s, len(seen), err, cnt)
		}
		s.Close()
	}
	mm.Close()
}
