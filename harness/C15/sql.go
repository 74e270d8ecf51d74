// dir: internal/sparkl/exporter
package exporter_test

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifx"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func TestMain(m *testing.M) { verifx.Main(m) }

// table of the stand-in database
type table struct {
	cols []string
	rows [][]string
}

// database is a stand-in for a real database that understands the statements of the exporter
type database struct {
	m       sync.Mutex
	tables  map[string]*table
	maxVars int
	maxRows int
	closed  int
	bad     string
	fail    int // fail the n-th statement
	count   int
}

func (d *database) Connect(context.Context) (driver.Conn, error) { return conn{d}, nil }
func (d *database) Driver() driver.Driver                        { return nil }
func (d *database) Close() error                                 { d.closed++; return nil }

var _ io.Closer = (*database)(nil)

type conn struct{ d *database }

func (c conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (c conn) Close() error                          { return nil }
func (c conn) Begin() (driver.Tx, error)             { return nil, errors.New("not supported") }

func (c conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.d.m.Lock()
	defer c.d.m.Unlock()
	c.d.count++
	if c.d.count == c.d.fail {
		return nil, errInjected
	}
	if err := c.d.exec(strings.TrimSuffix(strings.TrimSpace(q), ";"), args); err != nil {
		c.d.bad = fmt.Sprintf("%v: %s", err, q)
		return nil, err
	}
	return driver.RowsAffected(0), nil
}

var errInjected = errors.New("injected failure")

func list(s string) (r []string) {
	for _, p := range strings.Split(s, ",") {
		r = append(r, strings.TrimSpace(p))
	}
	return
}

func show(v any) string {
	if v == nil {
		return "NULL"
	}
	return fmt.Sprintf("%q", v)
}

func (d *database) exec(q string, args []driver.NamedValue) error {
	low := strings.ToLower(q)
	switch {
	case strings.HasPrefix(low, "drop table if exists "):
		delete(d.tables, strings.TrimSpace(q[len("drop table if exists "):]))
	case strings.HasPrefix(low, "create table "):
		rest := strings.TrimSpace(q[len("create table "):])
		optional := strings.HasPrefix(strings.ToLower(rest), "if not exists ")
		if optional {
			rest = strings.TrimSpace(rest[len("if not exists "):])
		}
		i := strings.Index(rest, "(")
		name := strings.TrimSpace(rest[:i])
		if d.tables[name] != nil {
			if !optional {
				return errors.New("table exists")
			}
			return nil
		}
		t := &table{}
		for _, c := range list(rest[i+1 : strings.LastIndex(rest, ")")]) {
			t.cols = append(t.cols, strings.Fields(c)[0])
		}
		d.tables[name] = t
	case strings.HasPrefix(low, "delete from "):
		if t := d.tables[strings.TrimSpace(q[len("delete from "):])]; t != nil {
			t.rows = nil
		}
	case strings.HasPrefix(low, "insert into "):
		rest := q[len("insert into "):]
		i, j := strings.Index(rest, "("), strings.Index(rest, ")")
		t := d.tables[strings.TrimSpace(rest[:i])]
		if t == nil {
			return errors.New("no such table")
		}
		pos := map[string]int{}
		for k, c := range list(rest[i+1 : j]) {
			pos[c] = k
		}
		tail := strings.ReplaceAll(strings.TrimSpace(strings.ToLower(rest[j+1:])), " ", "")
		group := "(" + strings.TrimSuffix(strings.Repeat("?,", len(pos)), ",") + ")"
		n := len(args) / len(pos)
		if len(args) == 0 || len(args)%len(pos) != 0 || tail != "values"+strings.TrimSuffix(strings.Repeat(group+",", n), ",") {
			return fmt.Errorf("not an insert with %d values", len(args))
		}
		if len(args) > d.maxVars || n > d.maxRows {
			return fmt.Errorf("%d rows and %d values exceed the limits", n, len(args))
		}
		for k := 0; k < n; k++ {
			row := make([]string, len(t.cols))
			used := 0
			for c, name := range t.cols {
				row[c] = "missing"
				if p, ok := pos[name]; ok {
					row[c] = show(args[k*len(pos)+p].Value)
					used++
				}
			}
			if used != len(pos) {
				return errors.New("unknown columns")
			}
			t.rows = append(t.rows, row)
		}
	default:
		return errors.New("unknown statement")
	}
	return nil
}

// dataset to export
type dataset struct {
	r      *rand.Rand
	n      int
	depth  int
	tops   []*pathbuilder.Bundle
	values []string
}

func (s *dataset) bundle(parent *pathbuilder.Bundle, depth int) *pathbuilder.Bundle {
	s.n++
	name := fmt.Sprintf("b%d", s.n)
	b := &pathbuilder.Bundle{Parent: parent, Path: pathbuilder.Path{ID: name}}
	for i := s.r.Intn(4); i > 0; i-- {
		b.ChildFields = append(b.ChildFields, pathbuilder.Field{Path: pathbuilder.Path{ID: fmt.Sprintf("f%d_%d", s.n, i)}})
	}
	if depth > 0 {
		for i := s.r.Intn(3); i > 0; i-- {
			b.ChildBundles = append(b.ChildBundles, s.bundle(b, depth-1))
		}
	}
	return b
}

func (s *dataset) entity(b *pathbuilder.Bundle) wisski.Entity {
	s.n++
	e := wisski.Entity{URI: impl.Label(fmt.Sprintf("http://e/%d", s.n)), Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
	for _, f := range b.ChildFields {
		for i := s.r.Intn(4); i > 0; i-- {
			e.Fields[f.ID] = append(e.Fields[f.ID], wisski.FieldValue{Value: impl.Datum(s.values[s.r.Intn(len(s.values))]), Language: impl.Language([]string{"", "de", "en"}[s.r.Intn(3)])})
		}
	}
	for _, c := range b.ChildBundles {
		for i := s.r.Intn(5); i > 0; i-- {
			e.Children[c.ID] = append(e.Children[c.ID], s.entity(c))
		}
	}
	return e
}

// expect computes the tables
func expect(tables map[string]*table, b *pathbuilder.Bundle, parent string, es []wisski.Entity, fieldTables bool, sep string) {
	name := "bundle__" + b.ID
	t := tables[name]
	if t == nil {
		t = &table{cols: []string{"uri"}}
		if b.Parent != nil {
			t.cols = append(t.cols, "parent")
		}
		for _, f := range b.ChildFields {
			if fieldTables {
				tables["field__"+b.ID+"__"+f.ID] = &table{cols: []string{"uri", "value", "lang"}}
			} else {
				t.cols = append(t.cols, "field__"+f.ID)
			}
		}
		tables[name] = t
	}
	for _, c := range b.ChildBundles {
		expect(tables, c, "", nil, fieldTables, sep)
	}
	for _, e := range es {
		row := []string{show(string(e.URI))}
		if b.Parent != nil {
			row = append(row, show(parent))
		}
		for _, f := range b.ChildFields {
			var vs []string
			for _, v := range e.Fields[f.ID] {
				vs = append(vs, string(v.Value))
				if ft := tables["field__"+b.ID+"__"+f.ID]; ft != nil {
					ft.rows = append(ft.rows, []string{show(string(e.URI)), show(string(v.Value)), show(string(v.Language))})
				}
			}
			if fieldTables {
				continue
			}
			if len(vs) == 0 {
				row = append(row, "NULL")
			} else {
				row = append(row, show(strings.Join(vs, sep)))
			}
		}
		t.rows = append(t.rows, row)
		for _, c := range b.ChildBundles {
			expect(tables, c, string(e.URI), e.Children[c.ID], fieldTables, sep)
		}
	}
}

func columns(b *pathbuilder.Bundle) int {
	n := 2 + len(b.ChildFields)
	for _, c := range b.ChildBundles {
		n = max(n, columns(c))
	}
	return max(n, 3)
}

func run(e *exporter.SQL, bundles []*pathbuilder.Bundle, data [][]wisski.Entity, r *rand.Rand) error {
	var order []int
	for i, b := range bundles {
		if err := e.Begin(b, int64(len(data[i]))); err != nil {
			return err
		}
		for range data[i] {
			order = append(order, i)
		}
	}
	if r != nil {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	next := make([]int, len(bundles))
	for _, i := range order {
		ent := data[i][next[i]]
		if err := e.Add(bundles[i], &ent); err != nil {
			return err
		}
		next[i]++
	}
	for _, b := range bundles {
		if err := e.End(b); err != nil {
			return err
		}
	}
	return e.Close()
}

func (s *dataset) generate() (data [][]wisski.Entity) {
	for _, b := range s.tops {
		var es []wisski.Entity
		for i := s.r.Intn(14); i > 0; i-- {
			es = append(es, s.entity(b))
		}
		data = append(data, es)
	}
	return
}

func makeDataset(r *rand.Rand) (*dataset, int) {
	s := &dataset{r: r, values: []string{"", "a", "b c", ", ", "'; DROP TABLE x; --", "$1 $$ ?", "ä", "\x00", "NULL", "a,b"}}
	cols := 0
	for i := r.Intn(3); i >= 0; i-- {
		b := s.bundle(nil, r.Intn(3))
		cols = max(cols, columns(b))
		s.tops = append(s.tops, b)
	}
	return s, cols
}

func TestVerifSQL(t *testing.T) {
	for n := 0; n < verifx.N(700); n++ {
		r := verifx.Rand(int64(n))
		s, cols := makeDataset(r)
		sep := []string{"", ", ", "a", "$", "|||"}[r.Intn(5)]
		fieldTables := r.Intn(2) == 0
		batch := 1 + r.Intn(8)
		if r.Intn(5) == 0 {
			batch = 1000
		}
		vars := cols + r.Intn(20)
		if r.Intn(5) == 0 {
			vars = 100000
		}
		d := &database{tables: map[string]*table{}, maxVars: vars, maxRows: batch}
		input := fmt.Sprintf("case %d: batch size %d, variables %d, separator %q, field tables %t", n, batch, vars, sep, fieldTables)
		verifx.Case(input)
		for round := 0; round < 2; round++ {
			data := s.generate()
			want := map[string]*table{}
			for i, b := range s.tops {
				expect(want, b, "", data[i], fieldTables, sep)
			}
			e := &exporter.SQL{DB: sql.OpenDB(d), Separator: sep, BatchSize: batch, MaxQueryVar: vars, MakeFieldTables: fieldTables}
			if err := run(e, s.tops, data, r); err != nil {
				verifx.Fail(t, "C15-error", input, "round %d: %v (%s)", round, err, d.bad)
				break
			}
			for name, w := range want {
				g := d.tables[name]
				if g == nil {
					verifx.Fail(t, "C15-table", input, "round %d: %s is missing", round, name)
				} else if strings.Join(g.cols, " ") != strings.Join(w.cols, " ") {
					verifx.Fail(t, "C15-columns", input, "round %d: %s has columns %q, want %q", round, name, g.cols, w.cols)
				} else if !(len(g.rows) == 0 && len(w.rows) == 0) && !reflect.DeepEqual(g.rows, w.rows) {
					verifx.Fail(t, "C15-rows", input, "round %d: %s has rows %v, want %v", round, name, g.rows, w.rows)
				}
			}
			for name := range d.tables {
				if want[name] == nil {
					verifx.Fail(t, "C15-table", input, "round %d: unexpected table %s", round, name)
				}
			}
			if d.closed != round+1 {
				verifx.Fail(t, "C15-close", input, "closed %d times", d.closed)
			}
		}
	}
}

// TestVerifSQLErrors injects a failure into every statement
func TestVerifSQLErrors(t *testing.T) {
	for n := 0; n < verifx.N(60); n++ {
		r := verifx.Rand(int64(n))
		s, cols := makeDataset(r)
		data := s.generate()
		batch, vars, fieldTables := 1+r.Intn(4), cols+r.Intn(10), r.Intn(2) == 0
		for fail := 1; ; fail++ {
			d := &database{tables: map[string]*table{}, maxVars: vars, maxRows: batch, fail: fail}
			e := &exporter.SQL{DB: sql.OpenDB(d), Separator: ",", BatchSize: batch, MaxQueryVar: vars, MakeFieldTables: fieldTables}
			err := run(e, s.tops, data, nil)
			if d.count < fail {
				break
			}
			verifx.Case("case %d statement %d", n, fail)
			if !errors.Is(err, errInjected) {
				verifx.Fail(t, "C15-failure", fmt.Sprintf("case %d: statement %d fails", n, fail), "got %v", err)
			}
		}
		// too few variables
		d := &database{tables: map[string]*table{}, maxVars: 1 << 30, maxRows: 1 << 30}
		e := &exporter.SQL{DB: sql.OpenDB(d), Separator: ",", BatchSize: batch, MaxQueryVar: 0, MakeFieldTables: fieldTables}
		total := 0
		for _, es := range data {
			total += len(es)
		}
		if err := run(e, s.tops, data, nil); err == nil && total > 0 {
			verifx.Fail(t, "C15-limit", fmt.Sprintf("case %d: no variables", n), "no error")
		}
	}
}
