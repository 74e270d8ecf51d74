// dir: pkg/sgob
package sgob_test

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"testing"

	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

func TestMain(m *testing.M) { verifx.Main(m) }

type inner struct {
	A string
	B []int
	M map[string][]string
}

type outer struct {
	I inner
	L []inner
	F float64
	Y []byte
	P *inner
}

type named string
type list []named
type table map[named]list

func init() {
	gob.Register(inner{})
	gob.Register([]string{})
	gob.Register(map[string]int{})
}

var scalars = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint64(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(false),
	reflect.TypeOf(0.0), reflect.TypeOf([3]uint16{}), reflect.TypeOf(inner{}), reflect.TypeOf(outer{}), reflect.TypeOf(named("")), reflect.TypeOf(list{}), reflect.TypeOf(table{}), reflect.TypeOf(complex(0, 0)), reflect.TypeOf(struct{}{}), reflect.TypeOf((*any)(nil)).Elem(),
}
var keys = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(false), reflect.TypeOf([2]byte{}), reflect.TypeOf(named(""))}

func typ(r *rand.Rand, depth int) reflect.Type {
	switch k := r.Intn(3); {
	case depth <= 0 || k == 0 && depth < 3:
		return scalars[r.Intn(len(scalars))]
	case k == 1:
		return reflect.SliceOf(typ(r, depth-1))
	default:
		return reflect.MapOf(keys[r.Intn(len(keys))], typ(r, depth-1))
	}
}

func fill(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString([]string{"", "a", "b", "c", "ä\x00", "long long long long string"}[r.Intn(6)])
	case reflect.Int, reflect.Int8:
		v.SetInt(int64(r.Intn(300) - 100))
		if r.Intn(4) == 0 {
			v.SetInt(r.Int63())
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint64:
		v.SetUint(r.Uint64() >> (8 * r.Intn(8)))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float64:
		v.SetFloat([]float64{0, 1.5, -2e30, float64(r.Intn(100))}[r.Intn(4)])
	case reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(3)), float64(r.Intn(3))))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i))
		}
	case reflect.Interface:
		v.Set(reflect.ValueOf([]any{inner{A: "x"}, []string{"a"}, map[string]int{"a": 1}, 7, "text"}[r.Intn(5)]))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i))
		}
	case reflect.Pointer:
		if r.Intn(2) == 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(r, v.Elem())
		}
	case reflect.Slice:
		n := r.Intn(4)
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(r, v.Index(i))
		}
	case reflect.Map:
		n := r.Intn(4)
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(r, k)
			fill(r, e)
			v.SetMapIndex(k, e)
		}
	default:
		panic("unknown kind")
	}
}

// same is equality, where nothing and an empty collection are the same
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if x := b.MapIndex(k); !x.IsValid() || !same(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

type limited struct {
	w    bytes.Buffer
	left int
}

var errWrite = errors.New("cannot write")

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.w.Write(p[:n])
		l.left = 0
		return n, errWrite
	}
	l.left -= len(p)
	return l.w.Write(p)
}

func TestVerifStream(t *testing.T) {
	for n := 0; n < verifx.N(2500); n++ {
		r := verifx.Rand(int64(n))
		var vs []reflect.Value
		plain := map[int]bool{} // followed by a plain gob value
		input := ""
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			tp := typ(r, r.Intn(5))
			if tp.Kind() == reflect.Interface {
				tp = reflect.SliceOf(tp)
			}
			v := reflect.New(tp).Elem()
			fill(r, v)
			vs = append(vs, v)
			plain[i] = r.Intn(4) == 0
			input += fmt.Sprintf("%s %+v; ", v.Type(), v)
		}
		verifx.Case("%s", input)

		encode := func(w io.Writer) (ends []int, err error) {
			enc := gob.NewEncoder(w)
			for i, v := range vs {
				if r.Intn(2) == 0 {
					err = sgob.Encode(enc, v.Interface())
				} else {
					err = sgob.EncodeValue(enc, v)
				}
				if err != nil {
					return ends, err
				}
				if plain[i] {
					if err := enc.Encode("between"); err != nil {
						return ends, err
					}
				}
				if b, ok := w.(*bytes.Buffer); ok {
					ends = append(ends, b.Len())
				}
			}
			return ends, nil
		}
		// decode decodes as many values as possible
		decode := func(rd io.Reader) (count int, bad string, err error) {
			dec := gob.NewDecoder(rd)
			for i, v := range vs {
				into := reflect.New(v.Type())
				if k := v.Kind(); (k == reflect.Slice || k == reflect.Map) && r.Intn(3) == 0 {
					fill(r, into.Elem()) // something that is overwritten
				}
				if r.Intn(2) == 0 {
					err = sgob.Decode(dec, into.Interface())
				} else {
					err = sgob.DecodeValue(dec, into)
				}
				if err != nil {
					return i, "", err
				}
				if !same(v, into.Elem()) {
					return i, fmt.Sprintf("value %d is %+v", i, into.Elem()), nil
				}
				if plain[i] {
					var s string
					if err := dec.Decode(&s); err != nil {
						return i, "", err
					} else if s != "between" {
						return i, fmt.Sprintf("%q follows value %d", s, i), nil
					}
				}
			}
			var more any
			if err := dec.Decode(&more); err != io.EOF {
				return len(vs), fmt.Sprintf("after the last value: %v", err), nil
			}
			return len(vs), "", nil
		}

		var buf bytes.Buffer
		ends, err := encode(&buf)
		if err != nil {
			verifx.Fail(t, "encode", input, "%v", err)
			continue
		}
		data := buf.Bytes()
		if _, bad, err := decode(bytes.NewReader(data)); err != nil || bad != "" {
			verifx.Fail(t, "decode", input, "%v %s", err, bad)
			continue
		}

		// truncations
		for k := 0; k < 25; k++ {
			at := r.Intn(len(data))
			if n%10 == 0 && len(data) < 600 {
				if at = k; at >= len(data) {
					break
				}
				for ; at < len(data); at += 25 {
					truncated(t, decode, data[:at], ends, at, input)
				}
				continue
			}
			truncated(t, decode, data[:at], ends, at, input)
		}

		// failing writers
		for k := 0; k < 6; k++ {
			w := &limited{left: r.Intn(len(data))}
			at := w.left
			var err error
			if p := verifx.Try(func() { _, err = encode(w) }); p != nil || err == nil {
				verifx.Fail(t, "write-error", input, "the writer fails after %d of %d bytes, but the encoder returns %v %v", at, len(data), err, p)
			}
		}
	}
}

func truncated(t *testing.T, decode func(io.Reader) (int, string, error), data []byte, ends []int, at int, input string) {
	count, bad, err := -1, "", error(nil)
	p := verifx.Try(func() { count, bad, err = decode(bytes.NewReader(data)) })
	complete := 0
	for complete < len(ends) && ends[complete] <= at {
		complete++
	}
	if complete == len(ends) {
		return // what is left out is not needed
	}
	if p != nil || bad != "" || err == nil || count < complete {
		verifx.Fail(t, "truncated", input, "truncated to %d bytes, with %d complete values: %d values decoded, %v %s %v", at, complete, count, err, bad, p)
	}
}

// TestVerifSize: sizes larger than what follows
func TestVerifSize(t *testing.T) {
	for _, size := range []uint64{1, 1 << 17, 1 << 40, 1 << 60, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		for k := 0; k < 8; k++ {
			var buf bytes.Buffer
			enc := gob.NewEncoder(&buf)
			if err := enc.Encode(size); err != nil {
				t.Fatal(err)
			}
			if k%2 == 1 && k < 4 {
				if err := enc.Encode("x"); err != nil {
					t.Fatal(err)
				}
			}
			into := []any{new([]string), new([]string), new(map[string]string), new(map[string]string), new([][]int), new(map[string][]int), new([]map[string]int), new([]byte)}[k]
			verifx.Case("size %d into %T", size, into)
			if k == 1 && size == 1 {
				continue
			}
			var err error
			if p := verifx.Try(func() { err = sgob.Decode(gob.NewDecoder(&buf), into) }); p != nil || err == nil {
				verifx.Fail(t, "size", fmt.Sprintf("size %d into %T", size, into), "error %v panic %v", err, p)
			}
		}
	}
	// many elements
	many := map[string][]uint16{}
	r := verifx.Rand(1)
	for i := 0; i < 3; i++ {
		l := make([]uint16, 70000+i)
		for j := range l {
			l[j] = uint16(r.Intn(1 << 16))
		}
		many[fmt.Sprint(i)] = l
	}
	ids := map[uint32]uint32{}
	for i := 0; i < 70000; i++ {
		ids[uint32(i)] = r.Uint32()
	}
	verifx.Case("many elements")
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	if err := errors.Join(sgob.Encode(enc, many), sgob.Encode(enc, ids)); err != nil {
		verifx.Fail(t, "encode", "many elements", "%v", err)
		return
	}
	got, gotIDs := map[string][]uint16{}, map[uint32]uint32{}
	dec := gob.NewDecoder(&buf)
	if err := errors.Join(sgob.Decode(dec, &got), sgob.Decode(dec, &gotIDs)); err != nil || !reflect.DeepEqual(got, many) || !reflect.DeepEqual(gotIDs, ids) {
		verifx.Fail(t, "decode", "many elements", "%v", err)
	}
}

// TestVerifRefused: values that cannot be encoded or decoded are errors
func TestVerifRefused(t *testing.T) {
	for i, v := range []any{func() {}, make(chan int), []func(){nil}, map[string]chan int{"a": nil}, [][]any{{func() {}}}} {
		verifx.Case("%T", v)
		err := sgob.Encode(gob.NewEncoder(io.Discard), v)
		if err == nil {
			verifx.Fail(t, "refused", fmt.Sprintf("%T", v), "case %d encodes without an error", i)
		}
	}
	for _, into := range []any{0, "", []string{}, map[string]int{}} {
		var buf bytes.Buffer
		enc := gob.NewEncoder(&buf)
		if err := sgob.Encode(enc, into); err != nil {
			t.Fatal(err)
		}
		if err := sgob.Decode(gob.NewDecoder(bytes.NewReader(buf.Bytes())), into); err == nil {
			verifx.Fail(t, "refused", fmt.Sprintf("%T", into), "decoding into something that is no pointer succeeds")
		}
		var wrong []map[string]bool
		if err := sgob.Decode(gob.NewDecoder(bytes.NewReader(buf.Bytes())), &wrong); err == nil && buf.Len() > 0 && reflect.ValueOf(into).Kind() != reflect.Slice && reflect.ValueOf(into).Kind() != reflect.Map {
			verifx.Fail(t, "refused", fmt.Sprintf("%T", into), "decoding into another type succeeds")
		}
	}
}
