// dir: internal/triplestore/impl
package impl_test

import (
	"bytes"
	"encoding/gob"
	"math/big"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
)

func TestMain(m *testing.M) { verifx.Main(m) }

func be(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func mk(n uint32) (id impl.ID) { id.Decode(be(n)); return }

func numOf(id impl.ID) uint32 {
	var b [4]byte
	id.Encode(b[:])
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func interesting() []uint32 {
	var out []uint32
	for sh := 0; sh < 32; sh++ {
		n := uint32(1) << sh
		out = append(out, n-1, n, n+1, ^n, ^uint32(0)<<sh)
	}
	r := verifx.Rand(1)
	for i := 0; i < 200; i++ {
		out = append(out, r.Uint32())
	}
	return out
}

func TestVerifSingle(t *testing.T) {
	for _, n := range interesting() {
		n := n
		verifx.Case("single %d", n)
		id := mk(n)
		if numOf(id) != n {
			verifx.Fail(t, "encode", n, "Encode(Decode(x)) gives %d", numOf(id))
			continue
		}
		if id.Valid() != (n != 0) {
			verifx.Fail(t, "valid", n, "Valid() == %v", id.Valid())
		}
		// integers
		if v := id.Int(big.NewInt(5)); v.Uint64() != uint64(n) {
			verifx.Fail(t, "int", n, "Int() == %v", v)
		}
		var li impl.ID
		li.LoadInt(new(big.Int).SetUint64(uint64(n)))
		if li != id {
			verifx.Fail(t, "loadint", n, "LoadInt gives %v", numOf(li))
		}
		if p := verifx.Try(func() { var x impl.ID; x.LoadInt(new(big.Int).SetUint64(uint64(n) + 1<<32)) }); p == nil {
			verifx.Fail(t, "loadint-range", uint64(n)+1<<32, "LoadInt did not panic")
		}
		// increment
		inc := id
		var got impl.ID
		p := verifx.Try(func() { got = inc.Inc() })
		if n == ^uint32(0) {
			if p == nil {
				verifx.Fail(t, "inc-overflow", n, "Inc did not panic, but gave %d", numOf(got))
			}
		} else if p != nil || numOf(inc) != n+1 || got != inc {
			verifx.Fail(t, "inc", n, "Inc gives %d, returns %d (panic %v)", numOf(inc), numOf(got), p)
		}
		rs := id
		rs.Reset()
		if rs.Valid() || numOf(rs) != 0 {
			verifx.Fail(t, "reset", n, "Reset gives %d", numOf(rs))
		}
		// marshalling
		m, err := impl.MarshalID(id)
		if err != nil || !bytes.Equal(m, be(n)) {
			verifx.Fail(t, "marshalid", n, "MarshalID gives %v, %v", m, err)
		}
		um := mk(77)
		if err := impl.UnmarshalID(&um, append(be(n), 9)); err != nil || um != id {
			verifx.Fail(t, "unmarshalid", n, "UnmarshalID gives %v, %v", numOf(um), err)
		}
		for l := 0; l < 4; l++ {
			um := mk(77)
			if err := impl.UnmarshalID(&um, be(n)[:l]); err == nil || numOf(um) != 77 {
				verifx.Fail(t, "unmarshalid-short", be(n)[:l], "UnmarshalID gives %v, %v", numOf(um), err)
			}
			if err := impl.MarshalIDs(make([]byte, l), id); err == nil {
				verifx.Fail(t, "marshalids-short", be(n)[:l], "MarshalIDs gives no error")
			}
			var g impl.ID
			var err error
			if p := verifx.Try(func() { err = g.GobDecode(be(n)[:l]) }); p != nil || err == nil {
				verifx.Fail(t, "gobdecode-short", be(n)[:l], "GobDecode gives %v, panic %v", err, p)
			}
		}
		var buf bytes.Buffer
		var back impl.ID
		if err := gob.NewEncoder(&buf).Encode(id); err != nil {
			verifx.Fail(t, "gob", n, "gob: %v", err)
		}
		if err := gob.NewDecoder(&buf).Decode(&back); err != nil || back != id {
			verifx.Fail(t, "gob", n, "gob gives %v, %v", numOf(back), err)
		}
		// encode touches nothing else
		room := bytes.Repeat([]byte{0xAA}, 12)
		id.Encode(room[4:])
		if !bytes.Equal(room[:4], room[8:]) || room[0] != 0xAA || !bytes.Equal(room[4:8], be(n)) {
			verifx.Fail(t, "encode-frame", n, "Encode gives %v", room)
		}
	}
}

func TestVerifOrder(t *testing.T) {
	ns := interesting()
	for i, a := range ns {
		for _, b := range ns[i/2:] {
			verifx.Case("order %d %d", a, b)
			want := 0
			if a < b {
				want = -1
			}
			if a > b {
				want = 1
			}
			x, y := mk(a), mk(b)
			if x.Compare(y) != want {
				verifx.Fail(t, "compare", []uint32{a, b}, "Compare gives %d", x.Compare(y))
			}
			if bytes.Compare(impl.EncodeIDs(x), impl.EncodeIDs(y)) != want {
				verifx.Fail(t, "byteorder", []uint32{a, b}, "byte order gives %d", bytes.Compare(impl.EncodeIDs(x), impl.EncodeIDs(y)))
			}
			if (x == y) != (want == 0) {
				verifx.Fail(t, "equal", []uint32{a, b}, "== gives %v", x == y)
			}
		}
	}
}

func TestVerifLists(t *testing.T) {
	r := verifx.Rand(2)
	for k := 0; k < verifx.N(400); k++ {
		n := r.Intn(9)
		ids := make([]impl.ID, n)
		nums := make([]uint32, n)
		for i := range ids {
			nums[i] = r.Uint32() >> uint(r.Intn(32))
			ids[i] = mk(nums[i])
		}
		verifx.Case("list %v", nums)
		var want []byte
		for _, x := range nums {
			want = append(want, be(x)...)
		}
		if got := impl.EncodeIDs(ids...); !bytes.Equal(got, want) {
			verifx.Fail(t, "encodeids", nums, "EncodeIDs gives %v", got)
		}
		dst := bytes.Repeat([]byte{0x55}, 4*n+5)
		if err := impl.MarshalIDs(dst, ids...); err != nil || !bytes.Equal(dst[:4*n], want) || !bytes.Equal(dst[4*n:], bytes.Repeat([]byte{0x55}, 5)) {
			verifx.Fail(t, "marshalids", nums, "MarshalIDs gives %v, %v", dst, err)
		}
		if err := impl.MarshalIDs(make([]byte, 4*n), ids...); err != nil {
			verifx.Fail(t, "marshalids", nums, "MarshalIDs rejects an exact destination: %v", err)
		}
		if n > 0 {
			short := bytes.Repeat([]byte{0x55}, 4*n-1-r.Intn(3))
			if err := impl.MarshalIDs(short, ids...); err == nil {
				verifx.Fail(t, "marshalids-short", nums, "MarshalIDs accepts a short destination")
			}
		}
		got := impl.DecodeIDs(want)
		if len(got) != n {
			verifx.Fail(t, "decodeids", nums, "DecodeIDs gives %d ids", len(got))
		}
		for i := range got {
			if i < n && got[i] != ids[i] {
				verifx.Fail(t, "decodeids", nums, "DecodeIDs gives %d at %d", numOf(got[i]), i)
			}
		}
		for i := range ids {
			if d := impl.DecodeID(want, i); d != ids[i] {
				verifx.Fail(t, "decodeid", nums, "DecodeID gives %d at %d", numOf(d), i)
			}
		}
		dests := make([]impl.ID, n+1)
		ptrs := make([]*impl.ID, n)
		dests[n] = mk(4711)
		for i := range ptrs {
			ptrs[i] = &dests[i]
		}
		if err := impl.UnmarshalIDs(want, ptrs...); err != nil || numOf(dests[n]) != 4711 {
			verifx.Fail(t, "unmarshalids", nums, "UnmarshalIDs gives %v", err)
		}
		for i := range ids {
			if dests[i] != ids[i] {
				verifx.Fail(t, "unmarshalids", nums, "UnmarshalIDs gives %d at %d", numOf(dests[i]), i)
			}
		}
		if n > 0 {
			var err error
			if p := verifx.Try(func() { err = impl.UnmarshalIDs(want[:4*n-1], ptrs...) }); p != nil || err == nil {
				verifx.Fail(t, "unmarshalids-short", nums, "UnmarshalIDs accepts a short source (%v)", p)
			}
		}
	}
}

func TestVerifLong(t *testing.T) {
	// more identifiers than fit into 16 bits
	n := 70000
	ids := make([]impl.ID, n)
	for i := range ids {
		ids[i] = mk(uint32(i)*2654435761 + 1)
	}
	src := impl.EncodeIDs(ids...)
	dec := impl.DecodeIDs(src)
	if len(dec) != n {
		verifx.Fail(t, "long", n, "DecodeIDs gives %d ids", len(dec))
		return
	}
	for i := range ids {
		verifx.Case("long %d", i)
		if got := impl.DecodeID(src, i); got != ids[i] || dec[i] != ids[i] {
			verifx.Fail(t, "long", i, "at position %d: got %d and %d, want %d", i, numOf(got), numOf(dec[i]), numOf(ids[i]))
			return
		}
	}
}

func TestVerifIndependent(t *testing.T) {
	// results do not share memory
	a, b := mk(0x01020304), mk(0x05060708)
	x, _ := impl.MarshalID(a)
	y := impl.EncodeIDs(a, b)
	g, _ := a.GobEncode()
	impl.MarshalID(b)
	impl.EncodeIDs(b, b)
	b.GobEncode()
	if !bytes.Equal(x, be(0x01020304)) || !bytes.Equal(g, be(0x01020304)) || !bytes.Equal(y[:4], be(0x01020304)) {
		verifx.Fail(t, "shared", "marshal twice", "a later call changed the result: %v %v %v", x, g, y)
	}
	d := impl.DecodeIDs(y)
	y[0] = 99
	if d[0] != a {
		verifx.Fail(t, "shared", "decode", "decoded identifiers share memory with the source")
	}
}
