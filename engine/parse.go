package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// Expr is a specification expression
type Expr struct {
	Op   string // id, int, str, bool, un, bin, call, field, index, upd, forall, exists, ite, setlit, slice
	Name string
	Args []*Expr
	Vars []Param
	Trig [][]*Expr
	Pos  string
}

func (e *Expr) String() string {
	switch e.Op {
	case "id", "int", "bool":
		return e.Name
	case "str":
		return fmt.Sprintf("%q", e.Name)
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "field":
		return e.Args[0].String() + "." + e.Name
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "upd":
		return e.Args[0].String() + "[" + e.Args[1].String() + " := " + e.Args[2].String() + "]"
	case "forall", "exists":
		var a []string
		for _, v := range e.Vars {
			a = append(a, v.Name+" "+v.Type)
		}
		return e.Op + " " + strings.Join(a, ", ") + " :: " + e.Args[0].String()
	case "ite":
		return "(" + e.Args[0].String() + " ? " + e.Args[1].String() + " : " + e.Args[2].String() + ")"
	}
	return e.Op
}

// Param is a typed variable in a specification
type Param struct{ Name, Type string }

// Clause is a named expression
type Clause struct {
	Name string
	E    *Expr
	Pos  string
}

// LoopInv is a candidate invariant with holes
type LoopInv struct {
	Holes []Param
	E     *Expr
	Pos   string
}

// Callback describes what a function may do with a function value it was given
type Callback struct {
	Param    string
	Args     []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Updates  []struct {
		Name string
		E    *Expr
	}
	Pos string
}

// Ghost is a ghost variable
type Ghost struct {
	Name, Type string
	Init       *Expr
}

// Contract specifies a function
type Contract struct {
	Pkg      string
	Key      string // relative to the package, e.g. "IMap.AddNew"
	Recv     string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	LoopInvs []LoopInv
	Panics   *Expr
	Callback []Callback
	Ghosts   []Ghost
	Options  map[string]string
	Trusted  bool
	Model    string
	Why      string              // why it is trusted
	Before   map[string][]Clause // assertions at calls of other functions
	Updates  map[string][]Clause // ghost updates at calls
	Optional bool
	Field    bool // contract of the functions stored in a field
	Iface    bool
	Pos      string
	used     bool
	params   []string
}

// Def is a specification macro or function
type Def struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Expr // nil: uninterpreted
	Pkg    string
}

// View defines the abstract contents of a type
type View struct {
	Type  string
	Param string
	Body  *Expr  // nil: ghost
	Ghost string // type of the ghost map
	Pkg   string
}

// SpecDB holds everything read from the contract files
type SpecDB struct {
	Contracts map[string]*Contract // by full key "pkg.Key"
	Defs      map[string]*Def
	Views     map[string]*View // by full type name
	Axioms    []Clause
	AxPkg     []string
	Lemmas    []*Lemma
	Order     []*Contract
}

// Lemma is a formula that has to be proved on its own
type Lemma struct {
	Name  string
	Pkg   string
	Props []string
	E     *Expr
	Hyps  []*Expr
	Vars  []Param
	Pos   string
}

type tok struct {
	k string // id int str op eof
	s string
}

type parser struct {
	toks []tok
	i    int
	pos  string
}

type parseError struct{ msg string }

func lexSpec(s string, pos string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "++", "(", ")", "[", "]", "{", "}", ",", ".", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "&"}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
						j++
						continue
					}
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			found := false
			for _, op := range ops {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				panic(parseError{fmt.Sprintf("%s: bad character %q in %q", pos, c, s)})
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return (p.peek().k == "op" || p.peek().k == "id") && p.peek().s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(parseError{fmt.Sprintf("%s: expected %q, got %q (token %d)", p.pos, s, p.peek().s, p.i)})
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		panic(parseError{fmt.Sprintf("%s: expected identifier, got %q", p.pos, t.s)})
	}
	return t.s
}

// typ reads a type as a string
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		if p.accept("]") {
			return "[]" + p.typ()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typ()
	}
	id := p.ident()
	if id == "struct" {
		p.expect("{")
		p.expect("}")
		return "struct{}"
	}
	if id == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if id == "set" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "set[" + k + "]"
	}
	for p.accept(".") {
		id += "." + p.ident()
	}
	if p.is("[") && p.i+1 < len(p.toks) && p.toks[p.i+1].k == "id" {
		p.expect("[")
		id += "["
		for {
			id += p.typ()
			if p.accept(",") {
				id += ","
				continue
			}
			break
		}
		p.expect("]")
		id += "]"
	}
	return id
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "++": 6, "*": 7, "/": 7, "%": 7,
}

func (p *parser) expr() *Expr { return p.ite() }

func (p *parser) ite() *Expr {
	c := p.binary(1)
	if p.accept("?") {
		a := p.ite()
		p.expect(":")
		b := p.ite()
		return &Expr{Op: "ite", Args: []*Expr{c, a, b}, Pos: p.pos}
	}
	return c
}

func (p *parser) binary(prec int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		q, ok := binPrec[t.s]
		if !ok || q < prec {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.binary(q) // right associative
		} else {
			r = p.binary(q + 1)
		}
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}, Pos: p.pos}
	}
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "un", Name: "!", Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.accept("-") {
		return &Expr{Op: "un", Name: "-", Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.accept("*") {
		return &Expr{Op: "un", Name: "*", Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.accept("&") {
		return &Expr{Op: "un", Name: "&", Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		e := &Expr{Op: op, Pos: p.pos}
		for {
			n := p.ident()
			e.Vars = append(e.Vars, Param{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		p.expect("::")
		e.Args = []*Expr{p.expr()}
		return e
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "int":
		return &Expr{Op: "int", Name: t.s, Pos: p.pos}
	case t.k == "str":
		return &Expr{Op: "str", Name: t.s, Pos: p.pos}
	case t.k == "op" && t.s == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t.k == "id":
		if t.s == "true" || t.s == "false" {
			return &Expr{Op: "bool", Name: t.s, Pos: p.pos}
		}
		return &Expr{Op: "id", Name: t.s, Pos: p.pos}
	}
	panic(parseError{fmt.Sprintf("%s: unexpected %q", p.pos, t.s)})
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			t := p.next()
			e = &Expr{Op: "field", Name: t.s, Args: []*Expr{e}, Pos: p.pos}
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, {Op: "int", Name: "0"}, hi}, Pos: p.pos}
				continue
			}
			k := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					e = &Expr{Op: "slice", Args: []*Expr{e, k, {Op: "call", Name: "len", Args: []*Expr{e}}}, Pos: p.pos}
					continue
				}
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, k, hi}, Pos: p.pos}
				continue
			}
			if p.accept(",") { // composite keys
				args := []*Expr{k}
				for {
					args = append(args, p.expr())
					if !p.accept(",") {
						break
					}
				}
				k = &Expr{Op: "call", Name: "tuple", Args: args, Pos: p.pos}
			}
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{Op: "upd", Args: []*Expr{e, k, v}, Pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, k}, Pos: p.pos}
		case p.is("(") && e.Op == "id":
			p.next()
			c := &Expr{Op: "call", Name: e.Name, Pos: p.pos}
			if e.Name == "empty" || e.Name == "typeis" || e.Name == "unbox" {
				if e.Name != "empty" {
					c.Args = append(c.Args, p.expr())
					p.expect(",")
				}
				c.Vars = []Param{{"", p.typ()}}
				p.expect(")")
				e = c
				continue
			}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func parseExprString(s, pos string) *Expr {
	p := &parser{toks: lexSpec(s, pos), pos: pos}
	e := p.expr()
	if p.peek().k != "eof" {
		panic(parseError{fmt.Sprintf("%s: trailing %q in %q", pos, p.peek().s, s)})
	}
	return e
}

// LoadSpecs reads all contract files
func LoadSpecs(dir string) *SpecDB {
	db := &SpecDB{Contracts: map[string]*Contract{}, Defs: map[string]*Def{}, Views: map[string]*View{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gv"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		db.parseFile(filepath.Base(f), string(data))
	}
	return db
}

var clauseWords = map[string]bool{
	"requires": true, "ensures": true, "modifies": true, "loopinv": true, "panics": true, "property": true, "option": true,
	"callback": true, "ghost": true, "model": true, "trusted": true, "optional": true, "inline": true,
	"proves": true, "before": true, "update": true, "cbrequires": true, "cbensures": true, "cbupdate": true, "hyp": true, "var": true, "show": true,
}

func (db *SpecDB) parseFile(name, data string) {
	type clause struct {
		text string
		pos  string
		top  bool
	}
	var clauses []clause
	for i, line := range strings.Split(data, "\n") {
		if j := strings.Index(line, "//"); j >= 0 && !strings.Contains(line[:j], "\"") {
			line = line[:j]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		pos := fmt.Sprintf("%s:%d", name, i+1)
		top := line[0] != ' ' && line[0] != '\t'
		t := strings.TrimSpace(line)
		first := t
		if j := strings.IndexAny(t, " \t("); j >= 0 {
			first = t[:j]
		}
		if top || clauseWords[first] {
			clauses = append(clauses, clause{t, pos, top})
			continue
		}
		if len(clauses) == 0 {
			panic(parseError{pos + ": stray line"})
		}
		clauses[len(clauses)-1].text += " " + t
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	for _, c := range clauses {
		word := c.text
		rest := ""
		if j := strings.IndexAny(c.text, " \t("); j >= 0 {
			word = c.text[:j]
			rest = strings.TrimSpace(c.text[j:])
		}
		if c.top {
			cur, lem = nil, nil
			switch word {
			case "package":
				pkg = rest
				if strings.HasPrefix(pkg, "internal/") || strings.HasPrefix(pkg, "pkg/") {
					pkg = modPath + "/" + pkg
				}
				if pkg == "." {
					pkg = modPath
				}
			case "def", "fun":
				d := parseDef(rest, c.pos, word == "def")
				d.Pkg = pkg
				if _, dup := db.Defs[d.Name]; dup {
					panic(parseError{c.pos + ": duplicate definition " + d.Name})
				}
				db.Defs[d.Name] = d
			case "axiom":
				n, e := namedExpr(rest, c.pos)
				db.Axioms = append(db.Axioms, Clause{n, e, c.pos})
				db.AxPkg = append(db.AxPkg, pkg)
			case "view":
				v := parseView(rest, c.pos)
				v.Pkg = pkg
				db.Views[qualify(pkg, v.Type)] = v
			case "lemma":
				lem = &Lemma{Name: rest, Pkg: pkg, Pos: c.pos}
				db.Lemmas = append(db.Lemmas, lem)
			case "func", "field", "iface":
				cur = parseHead(rest, c.pos)
				cur.Pkg = pkg
				cur.Field = word == "field"
				cur.Iface = word == "iface"
				cur.Pos = c.pos
				k := pkg + "." + cur.Key
				if cur.Field {
					k = "field:" + cur.Key
				}
				if _, dup := db.Contracts[k]; dup {
					panic(parseError{c.pos + ": duplicate contract " + k})
				}
				db.Contracts[k] = cur
				db.Order = append(db.Order, cur)
			default:
				panic(parseError{c.pos + ": unknown declaration " + word})
			}
			continue
		}
		if lem != nil {
			switch word {
			case "property":
				lem.Props = strings.Fields(rest)
			case "var":
				p := &parser{toks: lexSpec(rest, c.pos), pos: c.pos}
				for {
					n := p.ident()
					lem.Vars = append(lem.Vars, Param{n, p.typ()})
					if !p.accept(",") {
						break
					}
				}
			case "hyp":
				lem.Hyps = append(lem.Hyps, parseExprString(rest, c.pos))
			case "show":
				lem.E = parseExprString(rest, c.pos)
			default:
				panic(parseError{c.pos + ": bad clause in lemma"})
			}
			continue
		}
		if cur == nil {
			panic(parseError{c.pos + ": clause without function"})
		}
		switch word {
		case "property":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "requires":
			n, e := namedExpr(rest, c.pos)
			cur.Requires = append(cur.Requires, Clause{n, e, c.pos})
		case "ensures", "proves": // "proves" is not available to callers
			n, e := namedExpr(rest, c.pos)
			if n == "" {
				n = fmt.Sprintf("ensures%d", len(cur.Ensures)+1)
			}
			if word == "proves" {
				n = "own:" + n
			}
			cur.Ensures = append(cur.Ensures, Clause{n, e, c.pos})
		case "before": // holds whenever the function is called
			key, r, _ := strings.Cut(rest, " ")
			n, e := namedExpr(strings.TrimSpace(r), c.pos)
			if n == "" {
				n = fmt.Sprint(len(cur.Before[key]) + 1)
			}
			if cur.Before == nil {
				cur.Before = map[string][]Clause{}
			}
			cur.Before[key] = append(cur.Before[key], Clause{n, e, c.pos})
		case "update": // a ghost variable changes whenever the function is called
			key, r, _ := strings.Cut(rest, " ")
			n, e, _ := strings.Cut(r, ":=")
			if cur.Updates == nil {
				cur.Updates = map[string][]Clause{}
			}
			cur.Updates[key] = append(cur.Updates[key], Clause{strings.TrimSpace(n), parseExprString(e, c.pos), c.pos})
		case "modifies":
			for _, e := range parseExprList(rest, c.pos) {
				cur.Modifies = append(cur.Modifies, Clause{"", e, c.pos})
			}
		case "loopinv":
			p := &parser{toks: lexSpec(rest, c.pos), pos: c.pos}
			li := LoopInv{Pos: c.pos}
			if p.accept("[") {
				for !p.accept("]") {
					n := p.ident()
					li.Holes = append(li.Holes, Param{n, p.typ()})
					p.accept(",")
				}
			}
			li.E = p.expr()
			if p.peek().k != "eof" {
				panic(parseError{c.pos + ": trailing input in loopinv: " + p.peek().s})
			}
			cur.LoopInvs = append(cur.LoopInvs, li)
		case "panics":
			cur.Panics = parseExprString(rest, c.pos)
		case "option":
			for _, o := range strings.Fields(rest) {
				k, v, _ := strings.Cut(o, "=")
				cur.Options[k] = v
				if v == "" {
					cur.Options[k] = "1"
				}
			}
		case "callback":
			cb := Callback{Pos: c.pos}
			p := &parser{toks: lexSpec(rest, c.pos), pos: c.pos}
			cb.Param = p.ident()
			p.expect("(")
			for !p.accept(")") {
				cb.Args = append(cb.Args, p.ident())
				p.accept(",")
			}
			if p.accept("(") {
				for !p.accept(")") {
					cb.Results = append(cb.Results, p.ident())
					p.accept(",")
				}
			}
			cur.Callback = append(cur.Callback, cb)
		case "cbrequires":
			cb := &cur.Callback[len(cur.Callback)-1]
			n, e := namedExpr(rest, c.pos)
			cb.Requires = append(cb.Requires, Clause{n, e, c.pos})
		case "cbensures":
			cb := &cur.Callback[len(cur.Callback)-1]
			n, e := namedExpr(rest, c.pos)
			cb.Ensures = append(cb.Ensures, Clause{n, e, c.pos})
		case "cbupdate":
			cb := &cur.Callback[len(cur.Callback)-1]
			n, e, _ := strings.Cut(rest, ":=")
			cb.Updates = append(cb.Updates, struct {
				Name string
				E    *Expr
			}{strings.TrimSpace(n), parseExprString(e, c.pos)})
		case "ghost":
			p := &parser{toks: lexSpec(rest, c.pos), pos: c.pos}
			g := Ghost{Name: p.ident()}
			g.Type = p.typ()
			p.expect(":=")
			g.Init = p.expr()
			cur.Ghosts = append(cur.Ghosts, g)
		case "model":
			cur.Model = rest
			cur.Trusted = true
		case "trusted":
			cur.Trusted = true
			cur.Why = rest
		case "optional":
			cur.Optional = true
		case "inline":
			cur.Options["inline"] = "1"
		default:
			panic(parseError{c.pos + ": unknown clause " + word})
		}
	}
}

func qualify(pkg, t string) string {
	star := ""
	if strings.HasPrefix(t, "*") {
		star, t = "*", t[1:]
	}
	if strings.Contains(t, "/") {
		return star + t
	}
	return star + pkg + "." + t
}

func namedExpr(s, pos string) (string, *Expr) {
	// "name: expr"
	if j := strings.Index(s, ":"); j > 0 && (j+1 >= len(s) || (s[j+1] != ':' && s[j+1] != '=')) {
		n := s[:j]
		ok := true
		for _, c := range n {
			if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' {
				ok = false
			}
		}
		if ok {
			return n, parseExprString(s[j+1:], pos)
		}
	}
	return "", parseExprString(s, pos)
}

func parseExprList(s, pos string) []*Expr {
	p := &parser{toks: lexSpec(s, pos), pos: pos}
	var out []*Expr
	for {
		out = append(out, p.expr())
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		panic(parseError{pos + ": trailing " + p.peek().s})
	}
	return out
}

func parseDef(s, pos string, body bool) *Def {
	p := &parser{toks: lexSpec(s, pos), pos: pos}
	d := &Def{Name: p.ident()}
	p.expect("(")
	for !p.accept(")") {
		n := p.ident()
		t := ""
		if !p.is(",") && !p.is(")") {
			t = p.typ()
		}
		d.Params = append(d.Params, Param{n, t})
		p.accept(",")
	}
	if body {
		if p.peek().k == "id" || p.is("[") || p.is("*") {
			d.Ret = p.typ()
		}
		// '=' is not a token of its own: allow ':='
		p.expect(":=")
		d.Body = p.expr()
	} else {
		d.Ret = p.typ()
	}
	if p.peek().k != "eof" {
		panic(parseError{pos + ": trailing " + p.peek().s})
	}
	return d
}

func parseView(s, pos string) *View {
	// Type(m) := expr | Type ghost map[K]V
	p := &parser{toks: lexSpec(s, pos), pos: pos}
	v := &View{}
	if p.accept("*") {
		v.Type = "*"
	}
	v.Type += p.ident()
	for p.accept(".") {
		v.Type += "." + p.ident()
	}
	if p.accept("(") {
		v.Param = p.ident()
		p.expect(")")
		p.expect(":=")
		v.Body = p.expr()
		return v
	}
	if p.ident() != "ghost" {
		panic(parseError{pos + ": expected ghost"})
	}
	v.Ghost = p.typ()
	return v
}

func parseHead(s, pos string) *Contract {
	c := &Contract{Options: map[string]string{}}
	j := strings.Index(s, "(")
	c.Key = strings.TrimSpace(s[:j])
	p := &parser{toks: lexSpec(s[j:], pos), pos: pos}
	list := func() (out []string) {
		p.expect("(")
		for !p.accept(")") {
			out = append(out, p.ident())
			p.accept(",")
		}
		return
	}
	c.params = list()
	if p.is("(") {
		c.Results = list()
	}
	return c
}
