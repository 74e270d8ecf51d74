package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value
type Val interface{}

// Scalar is a value made from a single term
type Scalar struct {
	T  Term
	Ty types.Type
}

// Struct is a struct, array or tuple value
type Struct struct {
	Ty types.Type
	F  []Val
}

// Slice is a slice value
type Slice struct {
	Arr, Off, Len, Cap Term
	Ty                 types.Type
	Back               *Loc // slice of an array that has a location of its own
	BackN              int64
}

// Ptr is a pointer to a known location
type Ptr struct {
	Loc Loc
	Ty  types.Type // type of the element
}

// Iface is an interface value. I is the term identifying it (may be unset when Conc is known).
type Iface struct {
	I      Term
	Conc   Val
	ConcTy types.Type
}

// Fn is a function value
type Fn struct {
	Fn      *ssa.Function
	Bind    []Val
	Builtin *ssa.Builtin
	I       Term   // opaque function
	Origin  string // where an opaque function came from ("Type.Field" or "param:name")
}

// IterV is an iterator over a map (made by range)
type IterV struct{ Obj int }

type locKind int

const (
	lHeap locKind = iota
	lLocal
	lElem
	lGlobal
)

// Loc is a memory location: a root object together with a path of components
type Loc struct {
	Kind locKind
	Obj  int        // lLocal
	Root types.Type // type of the root object (of the elements for lElem)
	Ref  Term       // lHeap: object, lElem: backing array
	Idx  Term       // lElem
	Path []string   // component names
	Glob string
}

func (l Loc) field(name string) Loc {
	p := make([]string, len(l.Path), len(l.Path)+1)
	copy(p, l.Path)
	l.Path = append(p, name)
	return l
}

// Obj is an object that has not been stored anywhere in the symbolic heap
type Obj struct {
	V    Val
	Ty   types.Type
	Fwd  *Loc // set when the object was moved into the heap
	Name string
	Iter *iterObj
	Dead bool // the object was copied elsewhere and may not be used any more
}

type iterObj struct {
	m       Term // the map being iterated over
	mty     *types.Map
	dom0    Term // keys when iteration started
	visited Term
	isStr   bool
	mval    Val
}

// Frame is the activation of a function
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	call    ssa.CallInstruction // the instruction in the calling frame that is waiting for us (nil: none)
	defers  []deferred
	loops   []*loopRec
	onRet   func(x *Exec, st *State, rets []Val) // called instead of returning to the frame below
	depth   int
	retVals []Val
	tp      map[*types.TypeParam]types.Type
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

// State is the state of one path
type State struct {
	frames []*Frame
	objs   map[int]Obj
	heap   map[string]Term
	next   Term
	ghost  map[string]Val
	trace  []string
	calls  map[string]int // counters for things on this path
	facts  map[string]bool
}

func (st *State) clone() *State {
	n := &State{next: st.next}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = append([]*loopRec{}, f.loops...)
		n.frames[i] = &g
	}
	n.objs = make(map[int]Obj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.heap = make(map[string]Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.calls = make(map[string]int, len(st.calls))
	for k, v := range st.calls {
		n.calls[k] = v
	}
	n.facts = make(map[string]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.trace = append([]string{}, st.trace...)
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (l Loc) pathString() string {
	if len(l.Path) == 0 {
		return ""
	}
	return "." + strings.Join(l.Path, ".")
}

// typeAt returns the type of the component at the given path
func (x *Exec) typeAt(root types.Type, path []string) types.Type {
	t := root
	for _, p := range path {
		names, tps, ok := x.ty.structFields(t)
		if !ok {
			return types.Typ[types.Int] // ghost component
		}
		found := false
		for i, n := range names {
			if n == p {
				t = tps[i]
				found = true
				break
			}
		}
		if !found {
			panic(unsupported{"no component " + p + " in " + t.String()})
		}
	}
	return t
}

// heap arrays

func (x *Exec) heapGet(st *State, name string, sort Sort) Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	return x.heapInit(name, sort)
}

// heapInit returns the contents of a heap array before the function under verification started.
func (x *Exec) heapInit(name string, sort Sort) Term {
	if t, ok := x.heap0[name]; ok {
		return t
	}
	n := "H0_" + sanitize(name) + fmt.Sprintf("!%d", len(x.heap0))
	x.sol.Global("heap:"+name, "(declare-const "+n+" "+sort+")")
	t := Term{S: n, Sort: sort}
	x.heap0[name] = t
	if f := domFact(name, t); f.ok() {
		x.sol.Fact("nildom:"+name, "(assert "+f.S+")")
	}
	if f := x.refFact(name, t, x.next0); f.ok() {
		x.sol.Fact("refs:"+name, "(assert "+f.S+")")
	}
	return t
}

// refFact says that all references stored in an array by things made before next are to things made before next
func (x *Exec) refFact(name string, t Term, next Term) Term {
	if !x.refArr[name] || next.S == "" {
		return Term{}
	}
	_, es := splitArr(t.Sort)
	if strings.HasPrefix(es, "(Array") {
		ks, _ := splitArr(es)
		return Term{S: fmt.Sprintf("(forall ((r Int) (k %s)) (! (=> (< r %s) (and (<= 0 (select (select %s r) k)) (< (select (select %s r) k) %s))) :pattern ((select (select %s r) k))))", ks, next.S, t.S, t.S, next.S, t.S), Sort: SBool}
	}
	return Term{S: fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) (and (<= 0 (select %s r)) (< (select %s r) %s))) :pattern ((select %s r))))", next.S, t.S, t.S, next.S, t.S), Sort: SBool}
}

// domFact says that the nil map is empty
func domFact(name string, t Term) Term {
	if !strings.HasSuffix(name, "#dom") {
		return Term{}
	}
	_, es := splitArr(t.Sort)
	ks, _ := splitArr(es)
	return tEq(tSelect(t, tInt(0)), tConstArr(ks, SBool, tFalse))
}

func (x *Exec) heapSet(st *State, name string, t Term) {
	st.heap[name] = x.sol.Name("H_"+name, t)
}

func heapKeys(a, b map[string]Term) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// mapArrays returns the names of the heap arrays that hold the contents of maps of the given type
func (x *Exec) mapArrays(mt *types.Map) (dom string, domSort Sort, vals []Leaf, names []string) {
	ks := x.keySort(mt.Key())
	base := "map[" + typeName(mt.Key()) + "]" + typeName(mt.Elem())
	dom = base + "#dom"
	domSort = arrSort(SInt, arrSort(ks, SBool))
	for _, l := range x.ty.Leaves(mt.Elem()) {
		vals = append(vals, l)
		names = append(names, base+"#val"+l.Path)
		if l.Kind == kRef {
			x.refArr[base+"#val"+l.Path] = true
		}
	}
	return
}

func (x *Exec) keySort(t types.Type) Sort {
	ls := x.ty.Leaves(t)
	if len(ls) != 1 {
		panic(unsupported{"map key of type " + t.String()})
	}
	return ls[0].Sort
}

// fromLeaves builds a value of the given type from scalar components
func (x *Exec) fromLeaves(t types.Type, ts []Term) Val {
	v, rest := x.fromLeaves1(t, ts)
	if len(rest) != 0 {
		panic("fromLeaves: leftover")
	}
	return v
}

func (x *Exec) fromLeaves1(t types.Type, ts []Term) (Val, []Term) {
	if names, tps, ok := x.ty.structFields(t); ok {
		s := &Struct{Ty: t, F: make([]Val, len(names))}
		for i := range names {
			s.F[i], ts = x.fromLeaves1(tps[i], ts)
		}
		return s, ts
	}
	if _, o := opaqueLeaf(t); o {
		return Scalar{T: ts[0], Ty: t}, ts[1:]
	}
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		return Scalar{T: ts[0], Ty: t}, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if x.ty.absBytes && isByteSlice(t) {
			return Scalar{T: ts[0], Ty: t}, ts[1:]
		}
		return Slice{Arr: ts[0], Off: ts[1], Len: ts[2], Cap: ts[3], Ty: t}, ts[4:]
	case *types.Pointer:
		return Ptr{Loc: Loc{Kind: lHeap, Root: u.Elem(), Ref: ts[0]}, Ty: u.Elem()}, ts[1:]
	case *types.Interface:
		return Iface{I: ts[0]}, ts[1:]
	case *types.Signature:
		return Fn{I: ts[0]}, ts[1:]
	}
	return Scalar{T: ts[0], Ty: t}, ts[1:]
}

// toLeaves returns the scalar components of a value of the given type
func (x *Exec) toLeaves(st *State, t types.Type, v Val) []Term {
	switch v := v.(type) {
	case *Struct:
		_, tps, ok := x.ty.structFields(t)
		if !ok {
			panic(unsupported{fmt.Sprintf("struct value for %s", t)})
		}
		var out []Term
		for i, f := range v.F {
			out = append(out, x.toLeaves(st, tps[i], f)...)
		}
		return out
	case Scalar:
		return []Term{v.T}
	case Slice:
		v = x.materialize(st, v)
		return []Term{v.Arr, v.Off, v.Len, v.Cap}
	case Ptr:
		return []Term{x.ptrTerm(st, v)}
	case Iface:
		return []Term{x.ifaceTerm(st, v)}
	case Fn:
		return []Term{x.fnTerm(v)}
	}
	panic(unsupported{fmt.Sprintf("value %T as %s", v, t)})
}

func (x *Exec) fnTerm(f Fn) Term {
	if f.I.ok() {
		return f.I
	}
	if f.Fn == nil {
		panic(unsupported{"builtin as value"})
	}
	// a fresh, non-nil function
	n, ok := x.fnIDs[f.Fn]
	if !ok {
		n = len(x.fnIDs) + 1
		x.fnIDs[f.Fn] = n
	}
	if len(f.Bind) == 0 {
		return tInt(int64(1000000000 + n))
	}
	t := x.sol.Fresh("closure", SInt)
	x.sol.Assert(tCmp(">", t, tInt(0)))
	return t
}

// ptrTerm returns the reference of a pointer, moving the object into the heap if needed.
func (x *Exec) ptrTerm(st *State, p Ptr) Term {
	l := x.resolve(st, p.Loc)
	if len(l.Path) != 0 {
		// the address of a component: a reference of its own kind, which cannot be followed any more
		panic(unsupported{"address of a component stored as a value (" + typeName(l.Root) + l.pathString() + ")"})
	}
	switch l.Kind {
	case lHeap:
		return l.Ref
	case lLocal:
		return x.escape(st, l.Obj)
	case lElem:
		panic(unsupported{"address of a slice element stored as a value"})
	case lGlobal:
		return x.globalRef(l.Glob)
	}
	panic("ptrTerm")
}

func (x *Exec) globalRef(name string) Term {
	n := "glob_" + sanitize(name)
	x.sol.Global("globref:"+name, "(declare-const "+n+" Int)")
	t := Term{S: n, Sort: SInt}
	x.sol.Assert(tAnd(tCmp(">", t, tInt(0)), tCmp("<", t, x.next0)))
	return t
}

// escape moves a local object into the heap
func (x *Exec) escape(st *State, id int) Term {
	o := st.objs[id]
	if o.Fwd != nil {
		return o.Fwd.Ref
	}
	ref := x.alloc(st, o.Name)
	l := Loc{Kind: lHeap, Root: o.Ty, Ref: ref}
	v := o.V
	o.Fwd = &l
	o.V = nil
	st.objs[id] = o
	x.storeLoc(st, l, o.Ty, v)
	return ref
}

// alloc returns a fresh reference
func (x *Exec) alloc(st *State, name string) Term {
	r := x.sol.Fresh("ref_"+name, SInt)
	x.allocs[r.S] = true
	n := x.sol.Fresh("next", SInt)
	x.sol.Assert(tEq(r, st.next))
	x.sol.Assert(tEq(n, tAdd(r, tInt(1))))
	st.next = n
	return r
}

// resolve follows forwarded objects
func (x *Exec) resolve(st *State, l Loc) Loc {
	if l.Kind == lLocal {
		o, ok := st.objs[l.Obj]
		if !ok {
			panic("resolve: unknown object")
		}
		if o.Fwd != nil {
			r := *o.Fwd
			r.Path = append(append([]string{}, r.Path...), l.Path...)
			return r
		}
	}
	return l
}

func fieldIndex(names []string, n string) int {
	for i, m := range names {
		if m == n {
			return i
		}
	}
	return -1
}

// loadLoc loads a value of type t
func (x *Exec) loadLoc(st *State, l Loc, t types.Type) Val {
	l = x.resolve(st, l)
	switch l.Kind {
	case lLocal:
		if st.objs[l.Obj].Dead {
			panic(unsupported{"array used after a slice of it was stored"})
		}
		v := st.objs[l.Obj].V
		ty := st.objs[l.Obj].Ty
		for _, p := range l.Path {
			s, ok := v.(*Struct)
			if !ok {
				panic(unsupported{"component " + p + " of " + ty.String()})
			}
			names, tps, _ := x.ty.structFields(ty)
			i := fieldIndex(names, p)
			v, ty = s.F[i], tps[i]
		}
		return v
	case lGlobal:
		return x.loadGlobal(st, l, t)
	}
	var ts []Term
	for _, leaf := range x.ty.Leaves(t) {
		ts = append(ts, x.loadLeaf(st, l, leaf))
	}
	v := x.fromLeaves(t, ts)
	if f, ok := v.(Fn); ok && len(l.Path) > 0 {
		f.Origin = typeBase(l.Root) + "." + l.Path[len(l.Path)-1]
		return f
	}
	return v
}

func typeBase(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin().Obj().Name()
	}
	return typeName(t)
}

func (x *Exec) leafArray(l Loc, leaf Leaf) (name string, sort Sort) {
	if l.Kind == lElem {
		return "[]" + typeName(l.Root) + l.pathString() + leaf.Path, arrSort(SInt, arrSort(SInt, leaf.Sort))
	}
	return typeName(l.Root) + l.pathString() + leaf.Path, arrSort(SInt, leaf.Sort)
}

func (x *Exec) loadLeaf(st *State, l Loc, leaf Leaf) Term {
	name, sort := x.leafArray(l, leaf)
	if (leaf.Kind == kRef || leaf.Kind == kArr) && l.Kind != lElem {
		x.refArr[name] = true
	}
	a := x.heapGet(st, name, sort)
	var t Term
	if l.Kind == lElem {
		t = tSelect(tSelect(a, l.Ref), l.Idx)
	} else {
		t = tSelect(a, l.Ref)
	}
	t = x.sol.Name("ld"+leaf.Path, t)
	x.leafFacts(st, leaf, t)
	return t
}

// leafFacts assumes that a value read from memory is well-formed
func (x *Exec) leafFacts(st *State, leaf Leaf, t Term) {
	if x.sol.quiet > 0 {
		return
	}
	switch leaf.Kind {
	case kInt:
		lo, hi := intRange(leaf.Type)
		if lo != "" {
			if _, ok := t.lit(); !ok {
				x.sol.Assert(Term{S: "(<= " + lo + " " + t.S + " " + hi + ")", Sort: SBool})
			}
		}
	case kRef:
		x.sol.Assert(tAnd(tCmp(">=", t, tInt(0)), tCmp("<", t, st.next)))
	case kIface:
		x.sol.Assert(tAnd(tCmp(">=", t, tInt(0)), tCmp("<", t, st.next)))
	case kArr:
		x.sol.Assert(tAnd(tCmp(">=", t, tInt(0)), tCmp("<", t, st.next)))
	case kOff, kLen, kCap:
		x.sol.Assert(tCmp(">=", t, tInt(0)))
		if leaf.Kind == kLen {
			x.sol.Assert(tCmp("<=", t, Term{S: "9223372036854775807", Sort: SInt}))
		}
	case kStr:
		x.sol.Assert(tCmp(">=", x.strLen(t), tInt(0)))
	}
}

func (x *Exec) strLen(t Term) Term {
	if x.ty.strTheory {
		return app(SInt, "str.len", t)
	}
	return app(SInt, "slen", t)
}

// storeLoc stores a value
func (x *Exec) storeLoc(st *State, l Loc, t types.Type, v Val) {
	l = x.resolve(st, l)
	switch l.Kind {
	case lLocal:
		o := st.objs[l.Obj]
		if o.Dead {
			panic(unsupported{"array used after a slice of it was stored"})
		}
		o.V = x.updatePath(o.Ty, o.V, l.Path, v)
		st.objs[l.Obj] = o
		return
	case lGlobal:
		panic(unsupported{"assignment to global variable " + l.Glob})
	}
	ts := x.toLeaves(st, t, v)
	for i, leaf := range x.ty.Leaves(t) {
		x.storeLeaf(st, l, leaf, ts[i])
	}
}

func (x *Exec) storeLeaf(st *State, l Loc, leaf Leaf, v Term) {
	name, sort := x.leafArray(l, leaf)
	a := x.heapGet(st, name, sort)
	x.noteStore(name, l.Ref)
	if l.Kind == lElem {
		x.heapSet(st, name, tStore(a, l.Ref, tStore(tSelect(a, l.Ref), l.Idx, v)))
	} else {
		x.heapSet(st, name, tStore(a, l.Ref, v))
	}
}

func (x *Exec) updatePath(ty types.Type, old Val, path []string, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s, ok := old.(*Struct)
	if !ok {
		panic(unsupported{"update of component of " + ty.String()})
	}
	names, tps, _ := x.ty.structFields(ty)
	i := fieldIndex(names, path[0])
	n := &Struct{Ty: s.Ty, F: append([]Val{}, s.F...)}
	n.F[i] = x.updatePath(tps[i], s.F[i], path[1:], v)
	return n
}

// zero returns the zero value
func (x *Exec) zero(t types.Type) Val {
	var ts []Term
	for _, l := range x.ty.Leaves(t) {
		ts = append(ts, x.zeroLeaf(l))
	}
	return x.fromLeaves(t, ts)
}

func (x *Exec) zeroLeaf(l Leaf) Term {
	switch l.Sort {
	case SInt:
		return tInt(0)
	case SBool:
		return tFalse
	}
	if l.Kind == kStr {
		return x.strLit("")
	}
	n := "zero_" + sanitize(l.Sort)
	if l.Kind == kOpaque && l.Sort == "Opq" && l.Type != nil {
		n += "_" + sanitize(typeName(l.Type))
	}
	x.sol.Global("zero:"+n, "(declare-const "+n+" "+l.Sort+")")
	return Term{S: n, Sort: l.Sort}
}

// fresh returns an arbitrary well-formed value
func (x *Exec) fresh(st *State, t types.Type, name string) Val {
	var ts []Term
	ls := x.ty.Leaves(t)
	for _, l := range ls {
		c := x.sol.Fresh(name+l.Path, l.Sort)
		x.leafFacts(st, l, c)
		ts = append(ts, c)
	}
	v := x.fromLeaves(t, ts)
	x.sliceFacts(v)
	return v
}

func (x *Exec) sliceFacts(v Val) {
	switch v := v.(type) {
	case Slice:
		x.sol.Assert(tAnd(tCmp("<=", v.Len, v.Cap), tImp(tEq(v.Arr, tInt(0)), tEq(v.Cap, tInt(0)))))
	case *Struct:
		for _, f := range v.F {
			x.sliceFacts(f)
		}
	}
}

// ifaceTerm returns the term identifying an interface value
func (x *Exec) ifaceTerm(st *State, i Iface) Term {
	if i.I.ok() {
		return i.I
	}
	if i.Conc == nil {
		return tInt(0)
	}
	if p, ok := i.Conc.(Ptr); ok && len(x.resolve(st, p.Loc).Path) != 0 {
		// the address of a component: some value that is not nil, and that nothing is known about
		t := x.sol.Fresh("component", SInt)
		x.sol.Assert(tCmp(">", t, tInt(0)))
		return t
	}
	ls := x.ty.Leaves(i.ConcTy)
	ts := x.toLeaves(st, i.ConcTy, i.Conc)
	id := x.typeID(i.ConcTy)
	if len(ts) == 0 { // empty struct
		t := app(SInt, "ifc_"+fmt.Sprint(id), tInt(0))
		x.sol.Global(fmt.Sprintf("ifc:%d", id), fmt.Sprintf("(declare-fun ifc_%d (Int) Int)", id))
		x.sol.Assert(tAnd(tCmp(">", t, tInt(0)), tEq(app(SInt, "typeid", t), tInt(int64(id)))))
		return t
	}
	x.declIfc(id, ls)
	t := app(SInt, fmt.Sprintf("ifc_%d", id), ts...)
	t = x.sol.Name("iface", t)
	conj := []Term{tCmp(">", t, tInt(0)), tEq(app(SInt, "typeid", t), tInt(int64(id)))}
	for k := range ts {
		conj = append(conj, tEq(app(ls[k].Sort, fmt.Sprintf("unifc_%d_%d", id, k), t), ts[k]))
	}
	x.sol.Assert(tAnd(conj...))
	return t
}

func (x *Exec) declIfc(id int, ls []Leaf) {
	var ss []string
	for k, l := range ls {
		ss = append(ss, l.Sort)
		x.sol.Global(fmt.Sprintf("unifc:%d:%d", id, k), fmt.Sprintf("(declare-fun unifc_%d_%d (Int) %s)", id, k, l.Sort))
	}
	x.sol.Global(fmt.Sprintf("ifc:%d", id), fmt.Sprintf("(declare-fun ifc_%d (%s) Int)", id, strings.Join(ss, " ")))
}

func (x *Exec) typeID(t types.Type) int {
	n := fullName(t)
	if id, ok := x.typeIDs[n]; ok {
		return id
	}
	id := len(x.typeIDs) + 1
	x.typeIDs[n] = id
	return id
}

// eqVals returns equality of two values of the given type
func (x *Exec) eqVals(st *State, t types.Type, a, b Val) Term {
	if s, ok := a.(Slice); ok { // only comparison with nil is possible in go
		if _, ok := b.(Slice); ok {
			bs := b.(Slice)
			if s.Back != nil || bs.Back != nil {
				return tFalse
			}
			if bs.Arr.S == "0" {
				return tEq(s.Arr, tInt(0))
			}
			if s.Arr.S == "0" {
				return tEq(bs.Arr, tInt(0))
			}
		}
	}
	if pa, ok := a.(Ptr); ok {
		if pb, ok := b.(Ptr); ok {
			return x.eqPtr(st, pa, pb)
		}
	}
	if ia, ok := a.(Iface); ok {
		if ib, ok := b.(Iface); ok {
			// avoid to materialize values for comparison with nil
			if x.isNilIface(ib) {
				return x.ifaceIsNil(ia)
			}
			if x.isNilIface(ia) {
				return x.ifaceIsNil(ib)
			}
		}
	}
	if fa, ok := a.(Fn); ok {
		if fb, ok := b.(Fn); ok {
			if fb.I.ok() && fb.I.S == "0" {
				if fa.Fn != nil {
					return tFalse
				}
				return tEq(fa.I, tInt(0))
			}
		}
	}
	as, bs := x.toLeaves(st, t, a), x.toLeaves(st, t, b)
	var eqs []Term
	for i := range as {
		eqs = append(eqs, tEq(as[i], bs[i]))
	}
	return tAnd(eqs...)
}

func (x *Exec) isNilIface(i Iface) bool {
	return i.Conc == nil && (!i.I.ok() || i.I.S == "0")
}

func (x *Exec) ifaceIsNil(i Iface) Term {
	if i.Conc != nil {
		return tFalse
	}
	if !i.I.ok() {
		return tTrue
	}
	return tEq(i.I, tInt(0))
}

func (x *Exec) eqPtr(st *State, a, b Ptr) Term {
	la, lb := x.resolve(st, a.Loc), x.resolve(st, b.Loc)
	if la.Kind == lHeap && lb.Kind == lHeap && len(la.Path) == 0 && len(lb.Path) == 0 {
		return tEq(la.Ref, lb.Ref)
	}
	isNil := func(l Loc) bool { return l.Kind == lHeap && l.Ref.S == "0" }
	if isNil(la) {
		la, lb = lb, la
	}
	if isNil(lb) {
		// address of something
		switch la.Kind {
		case lLocal, lElem, lGlobal:
			return tFalse
		case lHeap:
			if len(la.Path) > 0 {
				return tFalse
			}
		}
	}
	if la.Kind == lLocal && lb.Kind == lLocal {
		return tBool(la.Obj == lb.Obj && la.pathString() == lb.pathString())
	}
	if la.Kind != lb.Kind && (la.Kind == lLocal || lb.Kind == lLocal) {
		return tFalse
	}
	if la.Kind == lGlobal && lb.Kind == lGlobal {
		return tBool(la.Glob == lb.Glob && la.pathString() == lb.pathString())
	}
	if la.Kind == lHeap && lb.Kind == lHeap && la.pathString() == lb.pathString() && types.Identical(la.Root, lb.Root) {
		return tEq(la.Ref, lb.Ref)
	}
	panic(unsupported{"comparison of addresses of components"})
}

// nonNil returns the condition for a pointer to be dereferencable
func (x *Exec) nonNil(st *State, p Ptr) Term {
	l := x.resolve(st, p.Loc)
	if l.Kind != lHeap {
		return tTrue
	}
	return tNot(tEq(l.Ref, tInt(0)))
}

func (x *Exec) newObj(st *State, t types.Type, v Val, name string) int {
	x.objCount++
	st.objs[x.objCount] = Obj{V: v, Ty: t, Name: name}
	return x.objCount
}

// strLit returns the term for a string constant
func (x *Exec) strLit(s string) Term {
	if x.ty.strTheory {
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range []byte(s) {
			switch {
			case c == '"':
				b.WriteString(`""`)
			case c < 32 || c >= 127 || c == '\\':
				fmt.Fprintf(&b, "\\u{%x}", c)
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		return Term{S: b.String(), Sort: "String"}
	}
	id, ok := x.strLits[s]
	if !ok {
		id = len(x.strLits)
		x.strLits[s] = id
	}
	n := fmt.Sprintf("strlit_%d", id)
	x.sol.Global("strlit:"+n, fmt.Sprintf("(define-fun %s () Str (slit %d))", n, id))
	t := Term{S: n, Sort: SStr}
	if x.sol.quiet == 0 {
		x.sol.Assert(tEq(app(SInt, "slen", t), tInt(int64(len(s)))))
	}
	return t
}
