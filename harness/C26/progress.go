// dir: pkg/progress
package progress_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/pkg/progress"
)

func TestMain(m *testing.M) { verifx.Main(m) }

type step struct {
	n   int
	err error
}

// script returns prepared results
type script struct {
	steps []step
	data  []byte
	buf   bytes.Buffer
}

func (s *script) next(p []byte) (int, error) {
	if len(s.steps) == 0 {
		return 0, io.EOF
	}
	x := s.steps[0]
	s.steps = s.steps[1:]
	if x.n > len(p) {
		x.n = len(p)
	}
	return x.n, x.err
}
func (s *script) Read(p []byte) (int, error) {
	n, err := s.next(p)
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, err
}
func (s *script) Write(p []byte) (int, error) {
	n, err := s.next(p)
	s.buf.Write(p[:n])
	return n, err
}

func TestVerifProgress(t *testing.T) {
	r := verifx.Rand(26)
	errs := []error{nil, nil, nil, io.EOF, io.ErrUnexpectedEOF, errors.New("other")}
	for n := verifx.N(4000); n > 0; n-- {
		var steps []step
		data := make([]byte, r.Intn(200))
		r.Read(data)
		for i := r.Intn(8); i >= 0; i-- {
			steps = append(steps, step{r.Intn(40), errs[r.Intn(len(errs))]})
		}
		var out io.Writer
		switch r.Intn(3) {
		case 0:
			out = io.Discard
		case 1:
			out = &bytes.Buffer{}
		}
		rw := progress.Rewritable{Writer: out, FlushInterval: []time.Duration{0, time.Hour}[r.Intn(2)]}
		in := fmt.Sprintf("steps %v, %d bytes, output %T", steps, len(data), out)
		verifx.Case("%s", in)
		a := &script{steps: append([]step{}, steps...), data: data}
		b := &script{steps: append([]step{}, steps...), data: data}
		cr := &progress.Reader{Reader: a, Rewritable: rw}
		total := int64(0)
		if p := verifx.Try(func() {
			for range steps {
				x, y := make([]byte, r.Intn(30)), []byte(nil)
				y = make([]byte, len(x))
				n1, err1 := cr.Read(x)
				n2, err2 := b.Read(y)
				total += int64(n2)
				if n1 != n2 || err1 != err2 || !bytes.Equal(x, y) || cr.Bytes != total {
					verifx.Fail(t, "read", in, "Read returns %d, %v (%d bytes so far) instead of %d, %v (%d bytes)", n1, err1, cr.Bytes, n2, err2, total)
					return
				}
			}
			cr.Flush(true)
			cr.Close()
		}); p != nil {
			verifx.Fail(t, "panic", in, "panics: %v", p)
		}
		a = &script{steps: append([]step{}, steps...)}
		b = &script{steps: append([]step{}, steps...)}
		cw := &progress.Writer{Writer: a, Rewritable: rw}
		total = 0
		if p := verifx.Try(func() {
			for range steps {
				x := make([]byte, r.Intn(30))
				r.Read(x)
				n1, err1 := cw.Write(x)
				n2, err2 := b.Write(x)
				total += int64(n2)
				if n1 != n2 || err1 != err2 || !bytes.Equal(a.buf.Bytes(), b.buf.Bytes()) || cw.Bytes != total {
					verifx.Fail(t, "write", in, "Write returns %d, %v (%d bytes so far) instead of %d, %v (%d bytes)", n1, err1, cw.Bytes, n2, err2, total)
					return
				}
			}
			cw.Flush(true)
			cw.Close()
		}); p != nil {
			verifx.Fail(t, "panic", in, "panics: %v", p)
		}
		if t.Failed() {
			return
		}
	}
}
