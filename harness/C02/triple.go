// dir: internal/triplestore/igraph
package igraph_test

import (
	"bytes"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func mk(n uint32) (id impl.ID) {
	id.Decode([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	return
}

func TestVerifTripleID(t *testing.T) {
	r := verifx.Rand(2)
	nums := []uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for i := 0; i < 40; i++ {
		nums = append(nums, r.Uint32())
	}
	seen := map[string]imap.TripleID{}
	for _, a := range nums {
		for _, b := range nums {
			verifx.Case("pair %d %d", a, b)
			ti := imap.TripleID{Canonical: mk(a), Literal: mk(b)}
			in := []uint32{a, b}
			enc, err := ti.Marshal()
			if err != nil {
				verifx.Fail(t, "pair-marshal", in, "error %v", err)
				continue
			}
			if o, ok := seen[string(enc)]; ok && o != ti {
				verifx.Fail(t, "pair-injective", in, "same encoding as %v", o)
			}
			seen[string(enc)] = ti
			for _, extra := range []int{0, 3} {
				got := imap.TripleID{Canonical: mk(77), Literal: mk(88)}
				src := append(append([]byte{}, enc...), bytes.Repeat([]byte{9}, extra)...)
				if p := verifx.Try(func() { err = got.Unmarshal(src) }); p != nil || err != nil {
					verifx.Fail(t, "pair-unmarshal", in, "error %v %v", p, err)
				} else if got != ti {
					verifx.Fail(t, "pair-roundtrip", in, "got %v", got)
				}
			}
			for l := 0; l < len(enc); l++ {
				got := imap.TripleID{Canonical: mk(77), Literal: mk(88)}
				old := got
				if p := verifx.Try(func() { err = got.Unmarshal(enc[:l:l]) }); p != nil || err == nil {
					verifx.Fail(t, "pair-short", in, "%d bytes: panic %v error %v", l, p, err)
				} else if got != old {
					verifx.Fail(t, "pair-partial", in, "partial read of %d bytes", l)
				}
			}
		}
	}
}

func TestVerifTriple(t *testing.T) {
	r := verifx.Rand(3)
	seen := map[string]igraph.IndexTriple{}
	check := func(it igraph.IndexTriple) {
		verifx.Case("triple %v", it)
		enc, err := igraph.MarshalTriple(it)
		if err != nil {
			verifx.Fail(t, "triple-marshal", it, "error %v", err)
			return
		}
		keep := append([]byte{}, enc...)
		if o, ok := seen[string(enc)]; ok && o != it {
			verifx.Fail(t, "triple-injective", it, "same encoding as %v", o)
		}
		seen[string(enc)] = it
		for _, extra := range []int{0, 5} {
			got := igraph.IndexTriple{Role: 99}
			src := append(append([]byte{}, enc...), bytes.Repeat([]byte{9}, extra)...)
			if p := verifx.Try(func() { err = igraph.UnmarshalTriple(&got, src) }); p != nil || err != nil {
				verifx.Fail(t, "triple-unmarshal", it, "error %v %v", p, err)
			} else if got != it {
				verifx.Fail(t, "triple-roundtrip", it, "got %v", got)
			}
			for i := range src {
				src[i] = 0xEE
			}
			if err == nil && got != it {
				verifx.Fail(t, "triple-alias", it, "the record changes with the source")
			}
		}
		// a second record must not overwrite the first encoding
		igraph.MarshalTriple(igraph.IndexTriple{Role: 3, Items: [3]imap.TripleID{{Literal: mk(5)}}})
		if !bytes.Equal(keep, enc) {
			verifx.Fail(t, "triple-own", it, "encoding changes afterwards")
		}
		for l := 0; l < len(enc); l++ {
			got := igraph.IndexTriple{Role: 99}
			old := got
			if p := verifx.Try(func() { err = igraph.UnmarshalTriple(&got, enc[:l:l]) }); p != nil || err == nil {
				verifx.Fail(t, "triple-short", it, "%d bytes: panic %v error %v", l, p, err)
			} else if got != old {
				verifx.Fail(t, "triple-partial", it, "partial read of %d bytes", l)
			}
		}
	}
	// every field on its own
	for role := 0; role < 256; role++ {
		check(igraph.IndexTriple{Role: igraph.Role(role)})
	}
	for i := 0; i < 3; i++ {
		for _, n := range []uint32{0, 1, 255, 256, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1} {
			var a, b igraph.IndexTriple
			a.Items[i].Canonical = mk(n)
			b.Items[i].Literal = mk(n)
			check(a)
			check(b)
		}
	}
	for k := 0; k < verifx.N(1500); k++ {
		it := igraph.IndexTriple{Role: igraph.Role(r.Intn(256))}
		for i := range it.Items {
			it.Items[i] = imap.TripleID{Canonical: mk(r.Uint32() >> r.Intn(32)), Literal: mk(r.Uint32() >> r.Intn(32))}
		}
		check(it)
	}
}
