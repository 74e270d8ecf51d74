package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ST is a specification type
type ST struct {
	K    string     // go, map, set
	Go   types.Type // for go
	Key  *ST
	Elem *ST
}

// TV is a typed specification value
type TV struct {
	V Val
	T *ST
}

// MapV is a mathematical map. Vals are arrays, one for every leaf of the element type.
type MapV struct {
	Dom  Term
	Vals []Term
	Raw  bool // absent keys are unspecified
}

// SetV is a mathematical set
type SetV struct{ Dom Term }

var (
	stInt  = &ST{K: "go", Go: types.Typ[types.UntypedInt]}
	stBool = &ST{K: "go", Go: types.Typ[types.Bool]}
	stStr  = &ST{K: "go", Go: types.Typ[types.String]}
)

func goT(t types.Type) *ST { return &ST{K: "go", Go: t} }

// Env is an evaluation context of specifications
type Env struct {
	vars map[string]TV
	st   *State
	old  *State
	pre  *State
	pkg  *types.Package
	tps  map[string]types.Type
	tag  string
}

func (e *Env) with(n string, v TV) *Env {
	c := *e
	c.vars = make(map[string]TV, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

type specError struct{ msg string }

func (x *Exec) serr(e *Expr, f string, args ...any) {
	panic(specError{fmt.Sprintf("%s: %s in %s", e.Pos, fmt.Sprintf(f, args...), e)})
}

// resolveType resolves a type in a specification
func (x *Exec) resolveType(env *Env, s string, pos string) *ST {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "set["):
		return &ST{K: "set", Key: x.resolveType(env, s[4:len(s)-1], pos)}
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			switch s[i] {
			case '[':
				d++
			case ']':
				d--
				if d == 0 {
					return &ST{K: "map", Key: x.resolveType(env, s[4:i], pos), Elem: x.resolveType(env, s[i+1:], pos)}
				}
			}
		}
	}
	return goT(x.resolveGo(env, s, pos))
}

func (x *Exec) resolveGo(env *Env, s string, pos string) types.Type {
	switch {
	case s == "int" || s == "nat":
		return types.Typ[types.UntypedInt]
	case s == "str":
		return types.Typ[types.String]
	case s == "ref":
		return types.Typ[types.UntypedInt]
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	case s == "iface":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(x.resolveGo(env, s[1:], pos))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(x.resolveGo(env, s[2:], pos))
	case strings.HasPrefix(s, "map["):
		depth, j := 1, 4
		for ; j < len(s) && depth > 0; j++ {
			if s[j] == '[' {
				depth++
			} else if s[j] == ']' {
				depth--
			}
		}
		return types.NewMap(typed(x.resolveGo(env, s[4:j-1], pos)), typed(x.resolveGo(env, s[j:], pos)))
	case strings.HasPrefix(s, "["):
		j := strings.Index(s, "]")
		var n int64
		fmt.Sscan(s[1:j], &n)
		return types.NewArray(x.resolveGo(env, s[j+1:], pos), n)
	}
	if t, ok := env.tps[s]; ok {
		return t
	}
	base, targs := s, ""
	if j := strings.Index(s, "["); j > 0 {
		base, targs = s[:j], s[j+1:len(s)-1]
	}
	obj := x.w.lookupName(env.pkg, base)
	tn, ok := obj.(*types.TypeName)
	if !ok {
		panic(specError{fmt.Sprintf("%s: unknown type %q", pos, s)})
	}
	t := tn.Type()
	if targs != "" {
		var as []types.Type
		for _, a := range strings.Split(targs, ",") {
			as = append(as, x.resolveGo(env, a, pos))
		}
		it, err := types.Instantiate(nil, t, as, false)
		if err != nil {
			panic(specError{pos + ": " + err.Error()})
		}
		t = it
	}
	return t
}

// typed is a type with the integers of the language instead of mathematical ones
func typed(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedInt {
			return types.Typ[types.Int]
		}
	case *types.Pointer:
		return types.NewPointer(typed(u.Elem()))
	case *types.Slice:
		return types.NewSlice(typed(u.Elem()))
	}
	return t
}

func (x *Exec) evalBool(env *Env, e *Expr) Term {
	v := x.eval(env, e)
	s, ok := v.V.(Scalar)
	if !ok || s.T.Sort != SBool {
		x.serr(e, "not a boolean")
	}
	return s.T
}

func isGo(t *ST) bool { return t.K == "go" }

func mkInt(t Term) TV  { return TV{Scalar{T: t, Ty: types.Typ[types.UntypedInt]}, stInt} }
func mkBool(t Term) TV { return TV{Scalar{T: t, Ty: types.Typ[types.Bool]}, stBool} }

// flat returns the terms of a value
func (x *Exec) flat(env *Env, v TV) []Term {
	switch m := v.V.(type) {
	case MapV:
		return append([]Term{m.Dom}, m.Vals...)
	case SetV:
		return []Term{m.Dom}
	}
	return x.toLeaves(env.st, v.T.Go, v.V)
}

func (x *Exec) stLeaves(t *ST) []Leaf {
	switch t.K {
	case "set":
		return []Leaf{{Sort: arrSort(x.stSort(t.Key), SBool), Kind: kOpaque}}
	case "map":
		ks := x.stSort(t.Key)
		out := []Leaf{{Path: ".$dom", Sort: arrSort(ks, SBool), Kind: kOpaque}}
		for _, l := range x.stLeaves(t.Elem) {
			out = append(out, Leaf{Path: l.Path, Sort: arrSort(ks, l.Sort), Kind: kOpaque, Refs: l.Kind == kRef || l.Kind == kArr})
		}
		return out
	}
	if t == stInt || isUntypedInt(t.Go) {
		return []Leaf{{Sort: SInt, Kind: kOpaque}}
	}
	return x.ty.Leaves(t.Go)
}

func isUntypedInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedInt
}

func (x *Exec) stSort(t *ST) Sort {
	ls := x.stLeaves(t)
	if len(ls) != 1 {
		panic(specError{"composite key type in specification"})
	}
	return ls[0].Sort
}

func (x *Exec) stBuild(t *ST, ts []Term) TV {
	switch t.K {
	case "set":
		return TV{SetV{ts[0]}, t}
	case "map":
		return TV{MapV{Dom: ts[0], Vals: ts[1:]}, t}
	}
	if isUntypedInt(t.Go) {
		return mkInt(ts[0])
	}
	return TV{x.fromLeaves(t.Go, ts), t}
}

func (x *Exec) freshST(st *State, t *ST, name string) TV {
	if t.K == "go" && !isUntypedInt(t.Go) {
		return TV{x.fresh(st, t.Go, name), t}
	}
	var ts []Term
	for _, l := range x.stLeaves(t) {
		ts = append(ts, x.sol.Fresh(name+l.Path, l.Sort))
	}
	return x.stBuild(t, ts)
}

func (x *Exec) keyOf(env *Env, m *ST, k TV) Term {
	ts := x.flat(env, k)
	if len(ts) != 1 {
		panic(specError{"composite key"})
	}
	return ts[0]
}

// asMap turns a go map or a mathematical map into a mathematical map
func (x *Exec) asMap(env *Env, v TV) (MapV, *ST, bool) {
	switch m := v.V.(type) {
	case MapV:
		return m, v.T, true
	}
	if v.T.K == "go" {
		if mt, ok := v.T.Go.Underlying().(*types.Map); ok {
			ref := sc(v.V)
			dom, ds, vals, names := x.mapArrays(mt)
			ks := x.keySort(mt.Key())
			r := MapV{Raw: true, Dom: tSelect(x.heapGet(env.st, dom, ds), ref)}
			for j, l := range vals {
				r.Vals = append(r.Vals, tSelect(x.heapGet(env.st, names[j], arrSort(SInt, arrSort(ks, l.Sort))), ref))
			}
			return r, &ST{K: "map", Key: goT(mt.Key()), Elem: goT(mt.Elem())}, true
		}
	}
	return MapV{}, nil, false
}

func (x *Exec) stZeroLeaves(t *ST) []Term {
	var out []Term
	for _, l := range x.stLeaves(t) {
		out = append(out, x.zeroLeaf(l))
	}
	return out
}

// lookupMap reads m[k] (zero value when absent)
func (x *Exec) lookupMap(env *Env, m MapV, t *ST, k Term) TV {
	ok := tSelect(m.Dom, k)
	var ts []Term
	ls := x.stLeaves(t.Elem)
	for j, a := range m.Vals {
		var z Term
		if m.Raw || strings.HasPrefix(ls[j].Sort, "(Array") {
			z = tSelect(a, k)
		} else {
			z = tIte(ok, tSelect(a, k), x.zeroLeaf(ls[j]))
		}
		ts = append(ts, x.sol.Name("mapv", z))
	}
	return x.stBuild(t.Elem, ts)
}

func (x *Exec) eqTV(env *Env, e *Expr, a, b TV) Term {
	ma, ta, oka := x.asMapIf(env, a)
	mb, _, okb := x.asMapIf(env, b)
	if oka && okb {
		// nil comparison of go maps
		ks := x.stSort(ta.Key)
		conj := []Term{tEq(ma.Dom, mb.Dom)}
		for j := range ma.Vals {
			va, vb := ma.Vals[j], mb.Vals[j]
			if va.S == vb.S {
				continue
			}
			if env.tag == "assume-ghost" {
				conj = append(conj, tEq(va, vb))
				continue
			}
			q := Term{S: fmt.Sprintf("(forall ((k!q %s)) (! (=> (select %s k!q) (= (select %s k!q) (select %s k!q))) :pattern ((select %s k!q)) :pattern ((select %s k!q))))", ks, ma.Dom.S, va.S, vb.S, va.S, vb.S), Sort: SBool, ID: maxID(ma.Dom, va, vb)}
			if !patternOK(va.S) || !patternOK(vb.S) {
				q.S = fmt.Sprintf("(forall ((k!q %s)) (=> (select %s k!q) (= (select %s k!q) (select %s k!q))))", ks, ma.Dom.S, va.S, vb.S)
			}
			conj = append(conj, q)
		}
		return tAnd(conj...)
	}
	if sa, ok := a.V.(SetV); ok {
		if sb, ok := b.V.(SetV); ok {
			return tEq(sa.Dom, sb.Dom)
		}
	}
	// nil
	if ia, ok := a.V.(Iface); ok {
		if ib, ok := b.V.(Iface); ok {
			return x.eqVals(env.st, a.T.Go, ia, ib)
		}
	}
	if isNilTV(b) {
		return x.isNilVal(env, e, a)
	}
	if isNilTV(a) {
		return x.isNilVal(env, e, b)
	}
	if sa, ok := a.V.(Slice); ok {
		if sb, ok := b.V.(Slice); ok {
			return x.seqEq(env, sa, sb)
		}
	}
	if pa, ok := a.V.(Ptr); ok {
		if pb, ok := b.V.(Ptr); ok {
			return x.eqPtr(env.st, pa, pb)
		}
	}
	as, bs := x.flat(env, a), x.flat(env, b)
	if len(as) != len(bs) {
		x.serr(e, "comparison of different types %v and %v", a.T.Go, b.T.Go)
	}
	var eqs []Term
	for i := range as {
		if as[i].Sort != bs[i].Sort {
			x.serr(e, "comparison of sorts %s and %s", as[i].Sort, bs[i].Sort)
		}
		eqs = append(eqs, tEq(as[i], bs[i]))
	}
	return tAnd(eqs...)
}

func patternOK(s string) bool {
	return !strings.Contains(s, "ite ") && !strings.Contains(s, "as const")
}

// seqEq is equality of the contents of two slices
func (x *Exec) seqEq(env *Env, a, b Slice) Term {
	conj := []Term{tEq(a.Len, b.Len)}
	if n, ok := a.Len.lit(); ok && n.Int64() <= 16 {
		for i := int64(0); i < n.Int64(); i++ {
			conj = append(conj, x.seqElemEq(env, a, b, tInt(i)))
		}
		return tAnd(conj...)
	}
	x.sol.quiet++
	k := Term{S: fmt.Sprintf("k!s%d", x.sol.quiet), Sort: SInt}
	body := x.seqElemEq(env, a, b, k)
	x.sol.quiet--
	conj = append(conj, Term{S: rebase("forall", []string{"(" + k.S + " Int)"}, fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s)) %s)", k.S, k.S, a.Len.S, body.S)), Sort: SBool, ID: maxID(body, a.Len)})
	return tAnd(conj...)
}

func (x *Exec) seqElemEq(env *Env, a, b Slice, i Term) Term {
	et := elemType(a.Ty)
	as := x.toLeaves(env.st, et, x.getElem(env.st, a, i))
	bs := x.toLeaves(env.st, et, x.getElem(env.st, b, i))
	var eqs []Term
	for j := range as {
		eqs = append(eqs, tEq(as[j], bs[j]))
	}
	return tAnd(eqs...)
}

type nilV struct{}

func isNilTV(v TV) bool { _, ok := v.V.(nilV); return ok }

func (x *Exec) isNilVal(env *Env, e *Expr, v TV) Term {
	switch w := v.V.(type) {
	case Iface:
		return x.ifaceIsNil(w)
	case Ptr:
		return tNot(x.nonNil(env.st, w))
	case Slice:
		if w.Back != nil {
			return tFalse
		}
		return tEq(w.Arr, tInt(0))
	case Fn:
		if w.I.ok() {
			return tEq(w.I, tInt(0))
		}
		return tFalse
	case Scalar:
		if w.T.Sort == SInt {
			return tEq(w.T, tInt(0))
		}
	case nilV:
		return tTrue
	}
	x.serr(e, "comparison with nil")
	return tFalse
}

func (x *Exec) asMapIf(env *Env, v TV) (MapV, *ST, bool) {
	if _, ok := v.V.(MapV); ok {
		return x.asMap(env, v)
	}
	return MapV{}, nil, false
}

func (x *Exec) eval(env *Env, e *Expr) TV {
	switch e.Op {
	case "int":
		b, _ := new(big.Int).SetString(e.Name, 10)
		return mkInt(tBig(b))
	case "bool":
		return mkBool(tBool(e.Name == "true"))
	case "str":
		return TV{Scalar{T: x.strLit(e.Name), Ty: types.Typ[types.String]}, stStr}
	case "id":
		return x.evalIdent(env, e)
	case "un":
		return x.evalUnary(env, e)
	case "bin":
		return x.evalBinary(env, e)
	case "ite":
		c := x.evalBool(env, e.Args[0])
		a, b := x.eval(env, e.Args[1]), x.eval(env, e.Args[2])
		if c.S == "true" {
			return a
		}
		if c.S == "false" {
			return b
		}
		if isNilTV(a) || isNilTV(b) {
			x.serr(e, "nil in conditional")
		}
		as, bs := x.flat(env, a), x.flat(env, b)
		for i := range as {
			as[i] = x.sol.Name("ite", tIte(c, as[i], bs[i]))
		}
		return x.stBuild(a.T, as)
	case "field":
		return x.evalField(env, e)
	case "index":
		return x.evalIndex(env, e)
	case "upd":
		m, t, ok := x.asMap(env, x.eval(env, e.Args[0]))
		if !ok {
			x.serr(e, "update of something that is not a map")
		}
		k := x.keyOf(env, t, x.eval(env, e.Args[1]))
		v := x.eval(env, e.Args[2])
		vs := x.flat(env, v)
		r := MapV{Dom: x.sol.Name("dom", tStore(m.Dom, k, tTrue))}
		for j := range m.Vals {
			r.Vals = append(r.Vals, x.sol.Name("vals", tStore(m.Vals[j], k, vs[j])))
		}
		return TV{r, t}
	case "slice":
		v := x.eval(env, e.Args[0])
		lo := sc(x.eval(env, e.Args[1]).V)
		hi := sc(x.eval(env, e.Args[2]).V)
		switch s := v.V.(type) {
		case Slice:
			s.Off = tAdd(s.Off, lo)
			s.Len = tSub(hi, lo)
			s.Cap = tSub(s.Cap, lo)
			return TV{s, v.T}
		case Scalar:
			return TV{Scalar{T: x.substr(s.T, lo, hi), Ty: s.Ty}, v.T}
		}
		x.serr(e, "slice expression")
	case "forall", "exists":
		return x.evalQuant(env, e)
	case "call":
		return x.evalCall(env, e)
	}
	x.serr(e, "unknown expression")
	return TV{}
}

func (x *Exec) evalIdent(env *Env, e *Expr) TV {
	if v, ok := env.vars[e.Name]; ok {
		return v
	}
	if e.Name == "nil" {
		return TV{nilV{}, goT(types.Typ[types.UntypedNil])}
	}
	if v, ok := env.st.ghost[e.Name]; ok {
		if tv, ok := v.(TV); ok {
			return tv
		}
	}
	if d, ok := x.w.db.Defs[e.Name]; ok && len(d.Params) == 0 {
		return x.evalDef(env, e, d, nil)
	}
	obj := x.w.lookupName(env.pkg, e.Name)
	if obj == nil {
		x.serr(e, "unknown name %s", e.Name)
	}
	return x.objTV(env, e, obj)
}

func (x *Exec) objTV(env *Env, e *Expr, obj types.Object) TV {
	switch o := obj.(type) {
	case *types.Const:
		t := o.Type()
		switch o.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			if isUntypedInt(t) {
				return mkInt(tBig(b))
			}
			return TV{Scalar{T: tBig(b), Ty: t}, goT(t)}
		case constant.String:
			return TV{Scalar{T: x.strLit(constant.StringVal(o.Val())), Ty: t}, goT(t)}
		case constant.Bool:
			return mkBool(tBool(constant.BoolVal(o.Val())))
		}
	case *types.Var:
		t := o.Type()
		n := o.Pkg().Path() + "." + o.Name()
		return TV{x.loadLoc(env.st, Loc{Kind: lGlobal, Root: t, Glob: n}, t), goT(t)}
	case *types.Func:
		if fn := x.w.prog.FuncValue(o); fn != nil {
			return TV{Fn{Fn: fn}, goT(o.Type())}
		}
	}
	x.serr(e, "cannot use %s", obj)
	return TV{}
}

func (x *Exec) evalUnary(env *Env, e *Expr) TV {
	switch e.Name {
	case "!":
		return mkBool(tNot(x.evalBool(env, e.Args[0])))
	case "-":
		return mkInt(tSub(tInt(0), sc(x.eval(env, e.Args[0]).V)))
	case "*":
		v := x.eval(env, e.Args[0])
		p, ok := v.V.(Ptr)
		if !ok {
			x.serr(e, "dereference of something that is not a pointer")
		}
		return TV{x.loadLoc(env.st, p.Loc, p.Ty), goT(p.Ty)}
	case "&":
		l, t := x.evalLoc(env, e.Args[0])
		return TV{Ptr{Loc: l, Ty: t}, goT(types.NewPointer(t))}
	}
	x.serr(e, "unary")
	return TV{}
}

func (x *Exec) evalBinary(env *Env, e *Expr) TV {
	switch e.Name {
	case "&&", "||", "==>", "<==>":
		a := x.evalBool(env, e.Args[0])
		if e.Name == "==>" && a.S == "false" {
			return mkBool(tTrue)
		}
		if e.Name == "&&" && a.S == "false" {
			return mkBool(tFalse)
		}
		b := x.evalBool(env, e.Args[1])
		switch e.Name {
		case "&&":
			return mkBool(tAnd(a, b))
		case "||":
			return mkBool(tOr(a, b))
		case "==>":
			return mkBool(tImp(a, b))
		}
		return mkBool(tEq(a, b))
	case "in":
		k := x.eval(env, e.Args[0])
		s := x.eval(env, e.Args[1])
		if sv, ok := s.V.(SetV); ok {
			return mkBool(tSelect(sv.Dom, x.keyOf(env, s.T, k)))
		}
		m, t, ok := x.asMap(env, s)
		if !ok {
			x.serr(e, "in")
		}
		return mkBool(tSelect(m.Dom, x.keyOf(env, t, k)))
	}
	a, b := x.eval(env, e.Args[0]), x.eval(env, e.Args[1])
	switch e.Name {
	case "==":
		return mkBool(x.eqTV(env, e, a, b))
	case "!=":
		return mkBool(tNot(x.eqTV(env, e, a, b)))
	case "+", "++":
		if sa, ok := a.V.(SetV); ok { // set + element, set + set
			if sb, ok := b.V.(SetV); ok {
				return TV{SetV{x.arrUnion(a.T, sa.Dom, sb.Dom)}, a.T}
			}
			return TV{SetV{tStore(sa.Dom, x.keyOf(env, a.T, b), tTrue)}, a.T}
		}
		s, t := sc(a.V), sc(b.V)
		if s.Sort == x.ty.strSort() && s.Sort != SInt {
			return TV{Scalar{T: x.specConcat(s, t), Ty: types.Typ[types.String]}, stStr}
		}
		return mkInt(tAdd(s, t))
	case "-":
		if _, ok := a.V.(MapV); ok { // remove a key
			m := a.V.(MapV)
			return TV{MapV{Dom: tStore(m.Dom, x.keyOf(env, a.T, b), tFalse), Vals: m.Vals}, a.T}
		}
		if sa, ok := a.V.(SetV); ok {
			return TV{SetV{tStore(sa.Dom, x.keyOf(env, a.T, b), tFalse)}, a.T}
		}
		return mkInt(tSub(sc(a.V), sc(b.V)))
	case "*":
		return mkInt(tMul(sc(a.V), sc(b.V)))
	case "/":
		return mkInt(tDivT(sc(a.V), sc(b.V)))
	case "%":
		return mkInt(tRemT(sc(a.V), sc(b.V)))
	case "<", "<=", ">", ">=":
		s, t := sc(a.V), sc(b.V)
		if s.Sort != SInt {
			switch e.Name {
			case "<":
				return mkBool(x.strLess(s, t))
			case ">":
				return mkBool(x.strLess(t, s))
			case "<=":
				return mkBool(tNot(x.strLess(t, s)))
			default:
				return mkBool(tNot(x.strLess(s, t)))
			}
		}
		return mkBool(tCmp(e.Name, s, t))
	}
	x.serr(e, "binary operator")
	return TV{}
}

func (x *Exec) specConcat(a, b Term) Term {
	if x.sol.quiet > 0 {
		if x.ty.strTheory {
			return app("String", "str.++", a, b)
		}
	}
	return x.strConcat(a, b)
}

func (x *Exec) arrUnion(t *ST, a, b Term) Term {
	ks := x.stSort(t.Key)
	u := x.sol.Fresh("union", arrSort(ks, SBool))
	x.sol.Assert(Term{S: fmt.Sprintf("(forall ((k %s)) (! (= (select %s k) (or (select %s k) (select %s k))) :pattern ((select %s k))))", ks, u.S, a.S, b.S, u.S), Sort: SBool})
	return u
}

// evalLoc evaluates an expression that denotes a memory location
func (x *Exec) evalLoc(env *Env, e *Expr) (Loc, types.Type) {
	switch e.Op {
	case "un":
		if e.Name == "*" {
			v := x.eval(env, e.Args[0])
			p, ok := v.V.(Ptr)
			if !ok {
				x.serr(e, "dereference of something that is not a pointer")
			}
			return x.resolve(env.st, p.Loc), p.Ty
		}
	case "field":
		// base is a pointer, or a location itself
		if b := e.Args[0]; b.Op == "field" || b.Op == "un" && b.Name == "*" {
			if l, t, ok := x.tryLoc(env, b); ok {
				if pt, isP := t.Underlying().(*types.Pointer); isP {
					p := x.loadLoc(env.st, l, t).(Ptr)
					l, t = x.resolve(env.st, p.Loc), pt.Elem()
				}
				return x.fieldLoc(env, e, l, t, e.Name)
			}
		}
		v := x.eval(env, e.Args[0])
		p, ok := v.V.(Ptr)
		if !ok {
			x.serr(e, "not a location")
		}
		return x.fieldLoc(env, e, x.resolve(env.st, p.Loc), p.Ty, e.Name)
	case "id":
		if v, ok := env.vars[e.Name]; ok {
			if p, ok := v.V.(Ptr); ok {
				return x.resolve(env.st, p.Loc), p.Ty
			}
		}
	}
	x.serr(e, "not a location")
	return Loc{}, nil
}

func (x *Exec) tryLoc(env *Env, e *Expr) (l Loc, t types.Type, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isS := r.(specError); !isS {
				panic(r)
			}
			ok = false
		}
	}()
	l, t = x.evalLoc(env, e)
	return l, t, true
}

func (x *Exec) fieldLoc(env *Env, e *Expr, l Loc, t types.Type, name string) (Loc, types.Type) {
	path, ft := findField(t, name)
	if path == nil {
		x.serr(e, "no field %s in %s", name, t)
	}
	for _, p := range path {
		l = l.field(p)
	}
	return l, ft
}

// findField looks up a (possibly embedded) field
func findField(t types.Type, name string) ([]string, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []string{name}, s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if p, ft := findField(s.Field(i).Type(), name); p != nil {
				return append([]string{s.Field(i).Name()}, p...), ft
			}
		}
	}
	return nil, nil
}

func (x *Exec) evalField(env *Env, e *Expr) TV {
	// package-qualified name
	if b := e.Args[0]; b.Op == "id" {
		if _, isVar := env.vars[b.Name]; !isVar {
			if p := x.w.importNamed(env.pkg, b.Name); p != nil {
				if o := p.Scope().Lookup(e.Name); o != nil {
					return x.objTV(env, e, o)
				}
			}
		}
	}
	v := x.eval(env, e.Args[0])
	switch w := v.V.(type) {
	case Ptr:
		l, t := x.fieldLoc(env, e, x.resolve(env.st, w.Loc), w.Ty, e.Name)
		return TV{x.loadLoc(env.st, l, t), goT(t)}
	case *Struct:
		names, tps, _ := x.ty.structFields(v.T.Go)
		i := fieldIndex(names, e.Name)
		if i < 0 {
			if path, _ := findField(v.T.Go, e.Name); len(path) > 1 {
				cur := v
				for _, p := range path {
					names, tps, _ := x.ty.structFields(cur.T.Go)
					j := fieldIndex(names, p)
					cur = TV{cur.V.(*Struct).F[j], goT(tps[j])}
				}
				return cur
			}
			x.serr(e, "no field %s in %s", e.Name, v.T.Go)
		}
		return TV{w.F[i], goT(tps[i])}
	}
	x.serr(e, "field of %T", v.V)
	return TV{}
}

func (x *Exec) evalIndex(env *Env, e *Expr) TV {
	v := x.eval(env, e.Args[0])
	k := x.eval(env, e.Args[1])
	switch w := v.V.(type) {
	case Slice:
		return TV{x.getElem(env.st, w, sc(k.V)), goT(elemType(w.Ty))}
	case *Struct:
		i := sc(k.V)
		if n, ok := i.lit(); ok {
			_, tps, _ := x.ty.structFields(v.T.Go)
			return TV{w.F[n.Int64()], goT(tps[n.Int64()])}
		}
		et := elemType(v.T.Go)
		var acc []Term
		for j := len(w.F) - 1; j >= 0; j-- {
			ts := x.toLeaves(env.st, et, w.F[j])
			if acc == nil {
				acc = ts
				continue
			}
			for q := range ts {
				acc[q] = tIte(tEq(i, tInt(int64(j))), ts[q], acc[q])
			}
		}
		return TV{x.fromLeaves(et, acc), goT(et)}
	case Scalar:
		if w.T.Sort == x.ty.strSort() {
			return mkInt(x.strAt(env.st, w.T, sc(k.V)))
		}
	case SetV:
		return mkBool(tSelect(w.Dom, x.keyOf(env, v.T, k)))
	}
	if m, t, ok := x.asMap(env, v); ok {
		return x.lookupMap(env, m, t, x.keyOf(env, t, k))
	}
	x.serr(e, "index of %T", v.V)
	return TV{}
}

func (x *Exec) evalQuant(env *Env, e *Expr) TV {
	x.sol.quiet++
	defer func() { x.sol.quiet-- }()
	x.w.qcount++
	inner := env
	var decls []string
	var guards []Term
	for _, v := range e.Vars {
		t := x.resolveType(env, v.Type, e.Pos)
		var ts []Term
		for _, l := range x.stLeaves(t) {
			n := fmt.Sprintf("%s%s!q%d", sanitize(v.Name), sanitize(l.Path), x.w.qcount)
			if l.Path == "" {
				n = fmt.Sprintf("%s!q%d", sanitize(v.Name), x.w.qcount)
			}
			decls = append(decls, "("+n+" "+l.Sort+")")
			c := Term{S: n, Sort: l.Sort}
			if l.Kind == kInt {
				if lo, hi := intRange(l.Type); lo != "" {
					guards = append(guards, Term{S: "(<= " + lo + " " + n + " " + hi + ")", Sort: SBool})
				}
			}
			ts = append(ts, c)
		}
		inner = inner.with(v.Name, x.stBuild(t, ts))
	}
	body := x.evalBool(inner, e.Args[0])
	if len(guards) > 0 {
		if e.Op == "forall" {
			body = tImp(tAnd(guards...), body)
		} else {
			body = tAnd(append(guards, body)...)
		}
	}
	if body.S == "true" || body.S == "false" {
		return mkBool(body)
	}
	b := body.S
	if len(e.Trig) > 0 {
		b = "(! " + b
		for _, tr := range e.Trig {
			b += " :pattern ("
			for i, t := range tr {
				if i > 0 {
					b += " "
				}
				v := x.eval(inner, t)
				ts := x.flat(inner, v)
				b += ts[0].S
			}
			b += ")"
		}
		b += ")"
	}
	if len(e.Trig) == 0 {
		return mkBool(Term{S: rebase(e.Op, decls, b), Sort: SBool, ID: body.ID})
	}
	return mkBool(Term{S: "(" + e.Op + " (" + strings.Join(decls, " ") + ") " + b + ")", Sort: SBool, ID: body.ID})
}

// rebase builds a quantified formula. Integer variables that are used as index into a slice that starts at some offset
// are replaced by variables that range over positions of the underlying array, as sums can not be matched by the solvers.
// All variants are equivalent.
func rebase(op string, decls []string, body string) string {
	bodies := []string{body}
	for _, d := range decls {
		if !strings.HasSuffix(d, " Int)") {
			continue
		}
		n := strings.TrimSuffix(d[1:], " Int)")
		var offs []string
		from := 0
		for {
			i := strings.Index(body[from:], "(+ ")
			if i < 0 {
				break
			}
			start := from + i + 3
			from = start
			// one operand, then the variable
			end := sexprEnd(body, start)
			if end < 0 || !strings.HasPrefix(body[end:], " "+n+")") {
				continue
			}
			off := body[start:end]
			if strings.Contains(off, "!q") || strings.Contains(off, "!s") {
				continue
			}
			// only if it is an index
			if !isIndex(body, start-3, end+len(n)+2) {
				continue
			}
			dup := false
			for _, o := range offs {
				dup = dup || o == off
			}
			if !dup {
				offs = append(offs, off)
			}
		}
		if len(offs) == 0 || len(bodies)*len(offs) > 4 {
			continue
		}
		var next []string
		if isDirectIndex(body, n) {
			next = append(next, bodies...)
		}
		for _, off := range offs {
			for _, b := range bodies {
				r := strings.ReplaceAll(b, "(+ "+off+" "+n+")", "\x00")
				r = replaceToken(r, n, "(- "+n+" "+off+")")
				next = append(next, strings.ReplaceAll(r, "\x00", n))
			}
		}
		bodies = next
	}
	var out []string
	for _, b := range bodies {
		out = append(out, "("+op+" ("+strings.Join(decls, " ")+") "+b+")")
	}
	if len(out) == 1 {
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}

// sexprEnd returns the end of the expression that starts at i
func sexprEnd(s string, i int) int {
	if i >= len(s) {
		return -1
	}
	if s[i] != '(' {
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '(' {
			i++
		}
		return i
	}
	depth := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return i + 1
			}
		}
	}
	return -1
}

// isIndex checks that s[i:j] is the last operand of a select
func isIndex(s string, i, j int) bool {
	if j >= len(s) || s[j] != ')' {
		return false
	}
	// find the enclosing open parenthesis
	depth := 0
	for k := i - 1; k >= 0; k-- {
		switch s[k] {
		case ')':
			depth++
		case '(':
			if depth == 0 {
				return strings.HasPrefix(s[k:], "(select ")
			}
			depth--
		}
	}
	return false
}

func isDirectIndex(s, n string) bool {
	from := 0
	for {
		i := strings.Index(s[from:], " "+n+")")
		if i < 0 {
			return false
		}
		from += i + 1
		if isIndex(s, from, from+len(n)) {
			return true
		}
	}
}

func replaceToken(s, tok, by string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '(' || s[i] == ')' || s[i] == ' ' || s[i] == '\x00' {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\x00' {
			j++
		}
		if s[i:j] == tok {
			b.WriteString(by)
		} else {
			b.WriteString(s[i:j])
		}
		i = j
	}
	return b.String()
}

func (x *Exec) evalDef(env *Env, e *Expr, d *Def, args []TV) TV {
	if len(args) != len(d.Params) {
		x.serr(e, "wrong number of arguments for %s", d.Name)
	}
	if d.Body == nil { // uninterpreted
		var ts []Term
		for _, a := range args {
			ts = append(ts, x.flat(env, a)...)
		}
		denv := &Env{pkg: x.w.pkgOf(d.Pkg), st: env.st, tps: env.tps, vars: map[string]TV{}}
		rt := x.resolveType(denv, d.Ret, e.Pos)
		ls := x.stLeaves(rt)
		var out []Term
		for j, l := range ls {
			n := "f_" + d.Name
			if len(ls) > 1 {
				n += fmt.Sprintf("_%d", j)
			}
			var ss []string
			for _, t := range ts {
				ss = append(ss, t.Sort)
			}
			x.sol.Global("fun:"+n+" "+strings.Join(ss, " "), "(declare-fun "+n+" ("+strings.Join(ss, " ")+") "+l.Sort+")")
			if len(ts) == 0 {
				out = append(out, Term{S: n, Sort: l.Sort})
			} else {
				out = append(out, app(l.Sort, n, ts...))
			}
		}
		return x.stBuild(rt, out)
	}
	inner := &Env{vars: map[string]TV{}, st: env.st, old: env.old, pre: env.pre, pkg: x.w.pkgOf(d.Pkg), tps: env.tps, tag: env.tag}
	if inner.pkg == nil {
		inner.pkg = env.pkg
	}
	for i, p := range d.Params {
		inner.vars[p.Name] = args[i]
	}
	v := x.eval(inner, d.Body)
	if x.con != nil && x.con.Options["opaque"] != "" && isBoolT(v) {
		for _, o := range strings.Split(x.con.Options["opaque"], ",") {
			if o == d.Name {
				return x.opaque(d.Name, v)
			}
		}
	}
	return v
}

func isBoolT(v TV) bool {
	t, ok := v.V.(Scalar)
	return ok && t.T.Sort == SBool
}

var boundRE = regexp.MustCompile(`[^\s()]+!q\d*`)

// opaque abstracts a formula: equal formulas (up to the names of bound variables) become the same unknown.
// This only forgets what the formula says, and so proves less.
func (x *Exec) opaque(name string, v TV) TV {
	t := sc(v.V)
	if t.S == "true" || t.S == "false" {
		return v
	}
	names := map[string]string{}
	key := boundRE.ReplaceAllStringFunc(t.S, func(n string) string {
		if _, ok := names[n]; !ok {
			names[n] = fmt.Sprint("!q", len(names))
		}
		return names[n]
	})
	if x.opaques == nil {
		x.opaques = map[string]string{}
	}
	c, ok := x.opaques[key]
	if !ok {
		c = fmt.Sprintf("opaque!%s!%d", name, len(x.opaques))
		x.opaques[key] = c
	}
	x.sol.Global("opaque:"+c, "(declare-const "+c+" Bool)")
	return mkBool(Term{S: c, Sort: SBool, ID: t.ID})
}

func (x *Exec) evalCall(env *Env, e *Expr) TV {
	argn := func(n int) {
		if len(e.Args) != n {
			x.serr(e, "wrong number of arguments")
		}
	}
	switch e.Name {
	case "old":
		argn(1)
		if env.old == nil {
			x.serr(e, "old is not available here")
		}
		c := *env
		c.st = env.old
		c.old = env.old
		return x.eval(&c, e.Args[0])
	case "pre":
		argn(1)
		if env.pre == nil {
			x.serr(e, "pre is not available here")
		}
		c := *env
		c.st = env.pre
		return x.eval(&c, e.Args[0])
	case "len":
		argn(1)
		v := x.eval(env, e.Args[0])
		switch w := v.V.(type) {
		case Slice:
			return mkInt(w.Len)
		case *Struct:
			return mkInt(tInt(int64(len(w.F))))
		case Scalar:
			if w.T.Sort == x.ty.strSort() {
				return mkInt(x.strLen(w.T))
			}
			if v.T.K == "go" {
				if mt, ok := v.T.Go.Underlying().(*types.Map); ok {
					return mkInt(x.mapLen(env.st, mt, w.T))
				}
			}
		}
		x.serr(e, "len of %T", v.V)
	case "cap":
		return mkInt(x.eval(env, e.Args[0]).V.(Slice).Cap)
	case "view":
		argn(1)
		return x.evalView(env, e, x.eval(env, e.Args[0]))
	case "mapview":
		m, t, ok := x.asMap(env, x.eval(env, e.Args[0]))
		if !ok {
			x.serr(e, "not a map")
		}
		return TV{m, t}
	case "dom":
		m, t, ok := x.asMap(env, x.eval(env, e.Args[0]))
		if !ok {
			x.serr(e, "not a map")
		}
		return TV{SetV{m.Dom}, &ST{K: "set", Key: t.Key}}
	case "empty":
		t := x.resolveType(env, e.Vars[0].Type, e.Pos)
		ks := x.stSort(t.Key)
		d := tConstArr(ks, SBool, tFalse)
		if t.K == "set" {
			return TV{SetV{d}, t}
		}
		m := MapV{Dom: d}
		for _, l := range x.stLeaves(t.Elem) {
			m.Vals = append(m.Vals, tConstArr(ks, l.Sort, x.zeroLeaf(l)))
		}
		return TV{m, t}
	case "isempty":
		v := x.eval(env, e.Args[0])
		var dom Term
		var t *ST
		if s, ok := v.V.(SetV); ok {
			dom, t = s.Dom, v.T
		} else {
			m, mt, ok := x.asMap(env, v)
			if !ok {
				x.serr(e, "isempty")
			}
			dom, t = m.Dom, mt
		}
		ks := x.stSort(t.Key)
		return mkBool(tEq(dom, tConstArr(ks, SBool, tFalse)))
	case "zero":
		v := x.eval(env, e.Args[0])
		return TV{x.zero(v.T.Go), v.T}
	case "iszero":
		v := x.eval(env, e.Args[0])
		var eqs []Term
		zs := x.toLeaves(env.st, v.T.Go, x.zero(v.T.Go))
		for i, t := range x.flat(env, v) {
			eqs = append(eqs, tEq(t, zs[i]))
		}
		return mkBool(tAnd(eqs...))
	case "fresh", "allocated":
		argn(1)
		v := x.eval(env, e.Args[0])
		var r Term
		if w, ok := v.V.(Scalar); ok && w.T.Sort == SStr { // an abstract byte string has no identity
			return mkBool(tTrue)
		}
		switch w := v.V.(type) {
		case Slice:
			r = w.Arr
			if w.Back != nil {
				return mkBool(tTrue)
			}
		case Ptr:
			l := x.resolve(env.st, w.Loc)
			if l.Kind == lLocal {
				return mkBool(tTrue)
			}
			r = l.Ref
		case Scalar:
			r = w.T
		case Iface:
			if w.Conc != nil {
				return mkBool(tTrue)
			}
			r = w.I
		default:
			x.serr(e, "fresh")
		}
		if e.Name == "allocated" { // it exists by now
			return mkBool(tCmp("<", r, env.st.next))
		}
		return mkBool(tCmp(">=", r, env.old.next))
	case "typeis":
		v := x.eval(env, e.Args[0])
		t := typed(x.resolveGo(env, e.Vars[0].Type, e.Pos))
		i, ok := v.V.(Iface)
		if !ok {
			x.serr(e, "not an interface")
		}
		if i.Conc != nil {
			return mkBool(tBool(types.Identical(i.ConcTy, t)))
		}
		if x.isNilIface(i) {
			return mkBool(tFalse)
		}
		return mkBool(tAnd(tNot(tEq(i.I, tInt(0))), tEq(app(SInt, "typeid", i.I), tInt(int64(x.typeID(t))))))
	case "unbox":
		v := x.eval(env, e.Args[0])
		t := typed(x.resolveGo(env, e.Vars[0].Type, e.Pos))
		i, ok := v.V.(Iface)
		if !ok {
			x.serr(e, "not an interface")
		}
		if i.Conc != nil {
			if !types.Identical(i.ConcTy, t) { // any value
				return TV{x.fresh(env.st, t, "unbox"), goT(t)}
			}
			return TV{i.Conc, goT(t)}
		}
		return TV{x.unbox(env.st, i.I, t), goT(t)}
	case "arr": // identity of the backing array
		s := x.eval(env, e.Args[0]).V.(Slice)
		return mkInt(s.Arr)
	case "off":
		s := x.eval(env, e.Args[0]).V.(Slice)
		return mkInt(s.Off)
	case "backat": // element of the backing array
		s := x.eval(env, e.Args[0]).V.(Slice)
		i := sc(x.eval(env, e.Args[1]).V)
		s.Off = tInt(0)
		return TV{x.getElem(env.st, s, i), goT(elemType(s.Ty))}
	case "num": // numeric value of an identifier
		v := x.eval(env, e.Args[0])
		if s, ok := v.V.(*Struct); ok {
			acc := tInt(0)
			for _, b := range s.F[0].(*Struct).F {
				acc = tAdd(tMul(acc, tInt(256)), sc(b))
			}
			return mkInt(acc)
		}
		return mkInt(sc(v.V))
	case "refof":
		v := x.eval(env, e.Args[0])
		return mkInt(x.flat(env, v)[0])
	case "int": // conversion to a mathematical integer
		return mkInt(sc(x.eval(env, e.Args[0]).V))
	case "min", "max":
		a, b := sc(x.eval(env, e.Args[0]).V), sc(x.eval(env, e.Args[1]).V)
		op := "<="
		if e.Name == "max" {
			op = ">="
		}
		return mkInt(tIte(tCmp(op, a, b), a, b))
	case "ghost":
		if v, ok := env.st.ghost[e.Args[0].Name].(TV); ok {
			return v
		}
		x.serr(e, "unknown ghost variable")
	}
	if d, ok := x.w.db.Defs[e.Name]; ok {
		var args []TV
		for i, a := range e.Args {
			v := x.eval(env, a)
			if isNilTV(v) && i < len(d.Params) && d.Params[i].Type != "" {
				t := x.resolveType(&Env{pkg: x.w.pkgOf(d.Pkg), tps: env.tps, st: env.st}, d.Params[i].Type, e.Pos)
				v = TV{x.zero(t.Go), t}
			}
			args = append(args, v)
		}
		return x.evalDef(env, e, d, args)
	}
	// constructor or conversion: T(x)
	if o := x.w.lookupName(env.pkg, e.Name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			t := tn.Type()
			if st, isS := t.Underlying().(*types.Struct); isS && len(e.Args) == st.NumFields() && !isID(t) {
				s := &Struct{Ty: t}
				for _, a := range e.Args {
					s.F = append(s.F, x.eval(env, a).V)
				}
				return TV{s, goT(t)}
			}
			if len(e.Args) == 1 {
				v := x.eval(env, e.Args[0])
				return TV{x.retype(v.V, v.T.Go, t), goT(t)}
			}
		}
	}
	x.serr(e, "unknown function %s", e.Name)
	return TV{}
}

// view of an abstract object

func (x *Exec) viewOf(t types.Type) (*View, *types.Named) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := types.Unalias(t).(*types.Named); !isN {
			t = p.Elem()
		}
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, nil
	}
	v := x.w.db.Views[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	return v, n
}

func tparamMap(n *types.Named) map[string]types.Type {
	m := map[string]types.Type{}
	tps := n.Origin().TypeParams()
	for i := 0; i < tps.Len(); i++ {
		if n.TypeArgs() != nil && i < n.TypeArgs().Len() {
			m[tps.At(i).Obj().Name()] = n.TypeArgs().At(i)
		} else {
			m[tps.At(i).Obj().Name()] = tps.At(i)
		}
	}
	return m
}

func (x *Exec) evalView(env *Env, e *Expr, v TV) TV {
	t := v.T.Go
	if i, ok := v.V.(Iface); ok && i.Conc != nil {
		return x.evalView(env, e, TV{i.Conc, goT(i.ConcTy)})
	}
	vw, n := x.viewOf(t)
	if vw == nil {
		x.serr(e, "no view for %s", t)
	}
	inner := &Env{vars: map[string]TV{}, st: env.st, old: env.old, pkg: x.w.pkgOf(vw.Pkg), tps: tparamMap(n), tag: env.tag}
	if vw.Body != nil {
		inner.vars[vw.Param] = v
		return x.eval(inner, vw.Body)
	}
	gt := x.resolveType(inner, vw.Ghost, e.Pos)
	id := x.toLeaves(env.st, t, v.V)[0]
	var ts []Term
	for _, l := range x.stLeaves(gt) {
		a := x.heapGet(env.st, x.viewArray(n, l), arrSort(SInt, l.Sort))
		ts = append(ts, x.sol.Name("view"+l.Path, tSelect(a, id)))
	}
	return x.stBuild(gt, ts)
}

func (x *Exec) viewArray(n *types.Named, l Leaf) string {
	name := "view:" + typeName(n) + l.Path
	if l.Refs { // stored references are to things that exist
		x.refArr[name] = true
	}
	return name
}

// regions

type region struct {
	arrays map[string]Sort // heap arrays (name -> sort) and
	ref    Term            // the reference inside of them
	loc    *Loc            // or a local location
	t      types.Type
	leaves map[string]Leaf
	all    bool  // all references
	idx    *Term // only one element of an array
}

// regions returns what a modifies clause allows to change
func (x *Exec) regions(env *Env, e *Expr) []region {
	if e.Op == "call" {
		switch e.Name {
		case "mapof":
			v := x.eval(env, e.Args[0])
			mt := v.T.Go.Underlying().(*types.Map)
			return []region{x.mapRegion(mt, sc(v.V))}
		case "allof":
			tn, field := e.Args[0].Name, ""
			if e.Args[0].Op == "field" {
				tn, field = e.Args[0].Args[0].Name, "."+e.Args[0].Name
				if x.w.importNamed(env.pkg, tn) != nil { // a type of another package
					tn, field = tn+field, ""
				}
			}
			t := x.resolveGo(env, tn, e.Pos)
			r := region{arrays: map[string]Sort{}, all: true, leaves: map[string]Leaf{}}
			for _, leaf := range x.ty.Leaves(t) {
				if field != "" && leaf.Path != field && !strings.HasPrefix(leaf.Path, field+".") {
					continue
				}
				n, srt := x.leafArray(Loc{Kind: lHeap, Root: t}, leaf)
				r.arrays[n] = srt
			}
			return []region{r}
		case "elems":
			v := x.eval(env, e.Args[0])
			s := v.V.(Slice)
			et := elemType(s.Ty)
			if s.Back != nil {
				var out []region
				for k := int64(0); k < s.BackN; k++ {
					l := x.resolve(env.st, s.Back.field(fmt.Sprint(k)))
					out = append(out, x.locRegion(env.st, l, et))
				}
				return out
			}
			r := region{arrays: map[string]Sort{}, ref: s.Arr, leaves: map[string]Leaf{}}
			for _, leaf := range x.ty.Leaves(et) {
				n, srt := x.leafArray(Loc{Kind: lElem, Root: et}, leaf)
				r.arrays[n] = srt
			}
			return []region{r}
		case "view":
			v := x.eval(env, e.Args[0])
			t := v.T.Go
			if i, ok := v.V.(Iface); ok && i.Conc != nil {
				v = TV{i.Conc, goT(i.ConcTy)}
				t = i.ConcTy
			}
			vw, n := x.viewOf(t)
			if vw == nil {
				x.serr(e, "no view for %s", t)
			}
			if vw.Body != nil {
				inner := &Env{vars: map[string]TV{vw.Param: v}, st: env.st, old: env.old, pkg: x.w.pkgOf(vw.Pkg), tps: tparamMap(n)}
				return x.viewRegions(inner, vw.Body)
			}
			inner := &Env{vars: map[string]TV{}, st: env.st, pkg: x.w.pkgOf(vw.Pkg), tps: tparamMap(n)}
			gt := x.resolveType(inner, vw.Ghost, e.Pos)
			r := region{arrays: map[string]Sort{}, ref: x.toLeaves(env.st, t, v.V)[0], leaves: map[string]Leaf{}}
			for _, l := range x.stLeaves(gt) {
				r.arrays[x.viewArray(n, l)] = arrSort(SInt, l.Sort)
			}
			return []region{r}
		}
		if d, ok := x.w.db.Defs[e.Name]; ok && d.Body != nil {
			inner := &Env{vars: map[string]TV{}, st: env.st, old: env.old, pkg: x.w.pkgOf(d.Pkg), tps: env.tps}
			for i, p := range d.Params {
				inner.vars[p.Name] = x.eval(env, e.Args[i])
			}
			return x.regions(inner, d.Body)
		}
	}
	if e.Op == "bin" && e.Name == "++" { // union of regions
		return append(x.regions(env, e.Args[0]), x.regions(env, e.Args[1])...)
	}
	l, t := x.evalLoc(env, e)
	return []region{x.locRegion(env.st, l, t)}
}

// viewRegions: the memory behind a concrete view
func (x *Exec) viewRegions(env *Env, e *Expr) []region {
	if e.Op == "call" && e.Name == "mapview" {
		return x.regions(env, &Expr{Op: "call", Name: "mapof", Args: e.Args, Pos: e.Pos})
	}
	if e.Op == "call" && e.Name == "view" {
		return x.regions(env, e)
	}
	x.serr(e, "modifies of this view")
	return nil
}

func (x *Exec) mapRegion(mt *types.Map, ref Term) region {
	dom, ds, vals, names := x.mapArrays(mt)
	ks := x.keySort(mt.Key())
	r := region{arrays: map[string]Sort{dom: ds, x.cntName(mt): arrSort(SInt, SInt)}, ref: ref}
	for j, l := range vals {
		r.arrays[names[j]] = arrSort(SInt, arrSort(ks, l.Sort))
	}
	return r
}

func (x *Exec) locRegion(st *State, l Loc, t types.Type) region {
	if l.Kind == lLocal || l.Kind == lGlobal {
		return region{loc: &l, t: t}
	}
	r := region{arrays: map[string]Sort{}, ref: l.Ref, leaves: map[string]Leaf{}}
	for _, leaf := range x.ty.Leaves(t) {
		n, srt := x.leafArray(l, leaf)
		r.arrays[n] = srt
		r.leaves[n] = leaf
	}
	if l.Kind == lElem {
		i := l.Idx
		r.idx = &i
	}
	return r
}

func (x *Exec) havocRegion(st *State, r region) {
	if r.loc != nil {
		x.storeLoc(st, *r.loc, r.t, x.fresh(st, r.t, "havoc"))
		return
	}
	for _, n := range sortedKeys(r.arrays) {
		srt := r.arrays[n]
		_, es := splitArr(srt)
		a := x.heapGet(st, n, srt)
		if r.all {
			x.noteStore(n, x.sol.Fresh("any", SInt))
			h := x.sol.Fresh("hv_"+n, srt)
			s0 := st.next
			// what is made later is not affected
			x.sol.Assert(Term{S: fmt.Sprintf("(forall ((r Int)) (! (=> (>= r %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", s0.S, h.S, a.S, h.S), Sort: SBool})
			if f := domFact(n, h); f.ok() {
				x.sol.Assert(f)
			}
			if f := x.refFact(n, h, st.next); f.ok() {
				x.sol.Assert(f)
			}
			x.heapSet(st, n, h)
			continue
		}
		x.noteStore(n, r.ref)
		if r.idx != nil {
			_, es2 := splitArr(es)
			v := x.sol.Fresh("hv", es2)
			x.heapSet(st, n, tStore(a, r.ref, tStore(tSelect(a, r.ref), *r.idx, v)))
			continue
		}
		v := x.sol.Fresh("hv_"+n, es)
		if l, ok := r.leaves[n]; ok && l.Kind == kInt {
			x.leafFacts(st, l, v)
		}
		if strings.HasSuffix(n, "#cnt") {
			x.sol.Assert(tCmp(">=", v, tInt(0)))
		}
		x.heapSet(st, n, tStore(a, r.ref, v))
		if f := domFact(n, st.heap[n]); f.ok() {
			x.sol.Assert(f)
		}
		if f := x.refFact(n, st.heap[n], st.next); f.ok() {
			x.sol.Assert(f)
		}
	}
}

// contract helper

func (c *Contract) fullKey() string {
	k := c.Pkg + "." + c.Key
	k = strings.TrimPrefix(k, modPath+"/")
	return k
}

// bindEnv builds the environment of a contract
func (x *Exec) bindEnv(con *Contract, st *State, sig *types.Signature, hasRecv bool, recvT types.Type, args []Val, tps map[string]types.Type) *Env {
	env := &Env{vars: map[string]TV{}, st: st, pkg: x.w.pkgOf(con.Pkg), tps: tps}
	names := con.params
	i := 0
	if hasRecv {
		if len(names) == 0 {
			panic(specError{con.Pos + ": missing receiver name"})
		}
		env.vars[names[0]] = TV{args[0], goT(recvT)}
		names = names[1:]
		i = 1
	}
	if len(names) != sig.Params().Len() {
		panic(specError{fmt.Sprintf("%s: contract of %s has %d parameters, the function has %d", con.Pos, con.Key, len(names), sig.Params().Len())})
	}
	for j, n := range names {
		env.vars[n] = TV{args[i+j], goT(sig.Params().At(j).Type())}
	}
	return env
}

func (x *Exec) bindResults(con *Contract, env *Env, sig *types.Signature, rets []Val) *Env {
	if len(con.Results) == 0 && sig.Results().Len() > 0 && len(con.Ensures) == 0 {
		return env
	}
	if len(con.Results) != sig.Results().Len() {
		panic(specError{fmt.Sprintf("%s: contract of %s has %d results, the function has %d", con.Pos, con.Key, len(con.Results), sig.Results().Len())})
	}
	e := env
	for i, n := range con.Results {
		e = e.with(n, TV{rets[i], goT(sig.Results().At(i).Type())})
	}
	return e
}

func (x *Exec) oldEnv(st *State) *Env {
	e := *x.env0
	e.st = x.entry
	e.old = x.entry
	return &e
}

func fnTParams(fn *ssa.Function) map[string]types.Type {
	m := map[string]types.Type{}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	tps := o.TypeParams()
	for i := 0; i < tps.Len(); i++ {
		if i < len(fn.TypeArgs()) {
			m[tps.At(i).Obj().Name()] = fn.TypeArgs()[i]
		} else {
			m[tps.At(i).Obj().Name()] = tps.At(i)
		}
	}
	return m
}

var _ = token.NoPos
