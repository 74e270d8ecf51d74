// dir: internal/triplestore/igraph
package igraph_test

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func mk(n uint32) (id impl.ID) {
	id.Decode([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	return
}

func num(id impl.ID) (n uint32) {
	var b [4]byte
	id.Encode(b[:])
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

type key [3]uint32

var nums = []uint32{0, 1, 2, 255, 256, 257, 1 << 16, 0x01020304, 0x02030401, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}

func run(t *testing.T, name string, seed int64, open func() igraph.ThreeStorage, steps int) {
	r := verifx.Rand(seed)
	pool := nums
	if r.Intn(2) == 0 {
		pool = []uint32{nums[r.Intn(len(nums))], nums[r.Intn(len(nums))], nums[r.Intn(len(nums))]}
	}
	pick := func() uint32 { return pool[r.Intn(len(pool))] }
	s := open()
	o := map[key]uint32{}
	var log []string
	fail := func(k, format string, args ...any) {
		verifx.Fail(t, k, name+": "+strings.Join(log, "; "), format, args...)
	}
	boom := errors.New("boom")
	for i := 0; i < steps; i++ {
		k := key{pick(), pick(), pick()}
		if len(o) > 0 && r.Intn(4) == 0 {
			for e := range o {
				k = e
				break
			}
		}
		l := pick()
		answer := pick()
		bad := r.Intn(5) == 0
		if r.Intn(2) == 0 {
			answer = l
		}
		log = append(log, fmt.Sprintf("Add(%v, %d) conflict gives %d %v", k, l, answer, bad))
		calls := 0
		old, had := o[k]
		conflicted, err := s.Add(mk(k[0]), mk(k[1]), mk(k[2]), mk(l), func(x, y impl.ID) (impl.ID, error) {
			calls++
			if !had || num(x) != old || num(y) != l {
				fail("conflict-arguments", "conflict function called with (%d, %d), stored label is %d %v", num(x), num(y), old, had)
			}
			if bad {
				return mk(answer), boom
			}
			return mk(answer), nil
		})
		switch {
		case had && bad:
			if !errors.Is(err, boom) {
				fail("conflict-error", "error is %v, expected the error of the conflict function", err)
			}
		default:
			if err != nil || conflicted != had {
				fail("add", "Add gives %v %v, expected %v", conflicted, err, had)
			}
			o[k] = l
			if had {
				o[k] = answer
			}
		}
		if had && calls != 1 || !had && calls != 0 {
			fail("conflict-calls", "conflict function called %d times, stored: %v", calls, had)
		}
		for _, k := range []key{k, {k[1], k[2], k[0]}, {k[0], k[1], pick()}} {
			got, ok, err := s.Has(mk(k[0]), mk(k[1]), mk(k[2]))
			want, in := o[k]
			if err != nil || ok != in || num(got) != want {
				fail("has", "Has(%v) = %d %v %v, expected %d %v", k, num(got), ok, err, want, in)
			}
		}
	}
	verifx.Case("%s %s", name, strings.Join(log, ";"))
	if err := s.Finalize(); err != nil {
		fail("finalize", "error %v", err)
	}
	if n, err := s.Count(); err != nil || n != int64(len(o)) {
		fail("count", "Count() = %d %v, expected %d", n, err, len(o))
	}
	for _, a := range pool {
		for _, b := range pool {
			var want []uint32
			for k := range o {
				if k[0] == a && k[1] == b {
					want = append(want, k[2])
				}
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			var got []uint32
			err := s.Fetch(mk(a), mk(b), func(c, l impl.ID) error {
				got = append(got, num(c))
				if w, ok := o[key{a, b, num(c)}]; !ok || w != num(l) {
					fail("fetch-label", "Fetch(%d, %d) gives label %d for %d, expected %d", a, b, num(l), num(c), w)
				}
				return nil
			})
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				fail("fetch", "Fetch(%d, %d) visits %v %v, expected %v", a, b, got, err, want)
			}
			if len(want) > 0 {
				at := r.Intn(len(want))
				n := 0
				err := s.Fetch(mk(a), mk(b), func(c, l impl.ID) error {
					if n++; n > at {
						return boom
					}
					return nil
				})
				if err != boom || n != at+1 {
					fail("fetch-stop", "Fetch stops with %v after %d calls, expected the error of call %d", err, n, at+1)
				}
			}
			for _, c := range pool {
				want, in := o[key{a, b, c}]
				got, ok, err := s.Has(mk(a), mk(b), mk(c))
				if err != nil || ok != in || num(got) != want {
					fail("has", "Has(%d, %d, %d) = %d %v %v, expected %d %v", a, b, c, num(got), ok, err, want, in)
				}
			}
		}
	}
	if err := s.Close(); err != nil {
		fail("close", "error %v", err)
	}
}

func TestVerifThree(t *testing.T) {
	var me igraph.MemoryEngine
	for i := 0; i < verifx.N(300); i++ {
		run(t, "memory", int64(i), func() igraph.ThreeStorage {
			s, err := me.PSOIndex()
			if i%2 == 1 {
				s, err = me.POSIndex()
			}
			if err != nil {
				t.Fatal(err)
			}
			return s
		}, 5+i%60)
	}
	for i := 0; i < verifx.N(60); i++ {
		de := igraph.DiskEngine{DiskMap: imap.DiskMap{Path: t.TempDir()}}
		run(t, "disk "+filepath.Base(de.Path), int64(100000+i), func() igraph.ThreeStorage {
			s, err := de.PSOIndex()
			if i%2 == 1 {
				s, err = de.POSIndex()
			}
			if err != nil {
				t.Fatal(err)
			}
			return s
		}, 5+i%60)
	}
}
