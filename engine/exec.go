package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a named proof obligation. It may be instantiated on several paths.
type Obligation struct {
	Func     string
	Name     string
	Props    []string
	VCs      int
	Proved   int
	Backends map[string]int
	Time     time.Duration
	Failed   bool
	Reason   string
	Detail   string
	Query    string
}

// Exec verifies a single function
type Exec struct {
	w   *World
	ty  *Typer
	sol *Solver

	heap0    map[string]Term
	next0    Term
	refArr   map[string]bool
	typeIDs  map[string]int
	strLits  map[string]int
	strParts map[string][]Term // of concatenations
	opaques  map[string]string // formulas that are not looked into
	before   map[string]bool   // functions with a before clause that were called
	fnIDs    map[*ssa.Function]int
	objCount int

	fn    *ssa.Function
	con   *Contract
	entry *State
	env0  *Env

	probe     int
	obls      map[string]*Obligation
	oblOrder  []string
	recorders []map[string][]Term
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	allocs    map[string]bool
	inlined   map[string]bool
	discover  int
	returned  int
	usedCons  map[*Contract]bool
	trusted   map[string]bool
	assumes   map[string]bool
	paths     int
	steps     int
	maxDepth  int
	loopCount int
	invCount  int
	invNames  map[string]bool
	axDone    bool
	curPos    token.Pos
}

func (x *Exec) noteStore(name string, ref Term) {
	for _, r := range x.recorders {
		r[name] = append(r[name], ref)
	}
}

func (x *Exec) assume(why string) { x.assumes[why] = true }

// oblige proves t, and then assumes it
func (x *Exec) oblige(st *State, name string, t Term) {
	if x.probe > 0 {
		x.sol.Assert(t)
		return
	}
	o, ok := x.obls[name]
	if !ok {
		o = &Obligation{Func: x.con.fullKey(), Name: name, Props: x.con.Props, Backends: map[string]int{}}
		x.obls[name] = o
		x.oblOrder = append(x.oblOrder, name)
	}
	o.VCs++
	start := time.Now()
	var r Result
	var be string
	if o.Failed { // do not waste time on it
		r, be = x.sol.Prove(t, false)
	} else {
		r, be = x.sol.Prove(t, true)
	}
	o.Time += time.Since(start)
	if debugPaths {
		fmt.Println("   ", name, r, strings.Join(st.trace, " ; "))
	}
	if r == Unsat {
		o.Proved++
		o.Backends[be]++
	} else if !o.Failed {
		o.Failed = true
		o.Reason = fmt.Sprintf("%s (%s)", r, be)
		o.Detail = "path: " + strings.Join(st.trace, " ; ")
		x.sol.Push()
		x.sol.Assert(tNot(t))
		o.Query = x.sol.Script()
		x.sol.Pop()
		if len(o.Query) > 400000 {
			o.Query = o.Query[:400000]
		}
	}
	x.sol.Assert(t)
}

func (st *State) note(s string) {
	st.trace = append(st.trace, s)
}

func (x *Exec) posString(p token.Pos) string {
	pp := x.w.fset.Position(p)
	if !pp.IsValid() {
		return "?"
	}
	f := pp.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// run executes the path until it ends
func (x *Exec) run(st *State) {
	for {
		x.steps++
		if x.steps > 3000000 {
			panic(unsupported{"too many steps"})
		}
		if time.Now().After(x.sol.deadline) {
			panic(unsupported{"deadline exceeded"})
		}
		f := st.top()
		ins := f.block.Instrs[f.idx]
		f.idx++
		if p := ins.Pos(); p.IsValid() {
			x.curPos = p
		}
		if !x.step(st, f, ins) {
			return
		}
	}
}

// fork runs both continuations, each if feasible.
func (x *Exec) fork(st *State, cond Term, name string, then, els func(*State)) {
	if cond.S == "true" {
		then(st)
		return
	}
	if cond.S == "false" {
		els(st)
		return
	}
	cond = x.sol.Name("c", cond)
	nc := tNot(cond)
	ft := x.sol.Feasible(cond)
	fe := true
	if ft {
		fe = x.sol.Feasible(nc)
	}
	if ft {
		x.sol.Push()
		x.sol.Assert(cond)
		s := st
		if fe {
			s = st.clone()
		}
		s.note(name + "+")
		then(s)
		x.sol.Pop()
	}
	if fe {
		x.sol.Push()
		x.sol.Assert(nc)
		st.note(name + "-")
		els(st)
		x.sol.Pop()
	}
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Ptr{Loc: Loc{Kind: lGlobal, Root: deref(v.Type()), Glob: globName(v)}, Ty: deref(v.Type())}
	case *ssa.Function:
		return Fn{Fn: v}
	case *ssa.Builtin:
		return Fn{Builtin: v}
	}
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func globName(g *ssa.Global) string { return g.Pkg.Pkg.Path() + "." + g.Name() }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref: " + t.String())
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Scalar{T: tBool(constant.BoolVal(c.Value)), Ty: t}
	case constant.String:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return Scalar{T: x.strLit(constant.StringVal(c.Value)), Ty: t}
		}
		return Scalar{T: x.strLit(constant.StringVal(c.Value)), Ty: t}
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return x.floatConst(c)
		}
		return Scalar{T: tBig(b), Ty: t}
	}
	return x.floatConst(c)
}

func (x *Exec) floatConst(c *ssa.Const) Val {
	n := "float_" + sanitize(strings.ReplaceAll(c.Value.ExactString(), "-", "m"))
	x.sol.Global(n, "(declare-const "+n+" Opq)")
	return Scalar{T: Term{S: n, Sort: "Opq"}, Ty: c.Type()}
}

func sc(v Val) Term {
	switch v := v.(type) {
	case Scalar:
		return v.T
	}
	panic(unsupported{fmt.Sprintf("scalar expected, got %T", v)})
}

// loadGlobal reads a package level variable.
func (x *Exec) loadGlobal(st *State, l Loc, t types.Type) Val {
	if !x.w.constGlobal(l.Glob) {
		if v, ok := st.ghost["global:"+l.Glob+l.pathString()]; ok {
			return v
		}
		// any value: every read may see another one
		return x.fresh(st, t, "global")
	}
	key := "gv_" + sanitize(l.Glob+l.pathString())
	// errors are distinct constants
	if _, ok := t.Underlying().(*types.Interface); ok && len(l.Path) == 0 {
		if isErrorType(t) {
			id := x.w.globID(l.Glob)
			g := app(SInt, "gerr", tInt(int64(id)))
			x.sol.Global("gerr:"+l.Glob, fmt.Sprintf("(assert (and (> (gerr %d) 0) (= (ungerr (gerr %d)) %d)))", id, id, id))
			return Iface{I: g}
		}
	}
	var ts []Term
	for _, leaf := range x.ty.Leaves(t) {
		n := key + sanitize(leaf.Path)
		x.sol.Global("global:"+n, "(declare-const "+n+" "+leaf.Sort+")")
		c := Term{S: n, Sort: leaf.Sort}
		x.leafFacts(st, leaf, c)
		if leaf.Kind == kRef || leaf.Kind == kArr || leaf.Kind == kIface {
			x.sol.Assert(tCmp(">", c, tInt(0)))
		}
		ts = append(ts, c)
	}
	v := x.fromLeaves(t, ts)
	x.sliceFacts(v)
	if f, ok := v.(Fn); ok {
		f.Origin = l.Glob
		return f
	}
	return v
}

func isErrorType(t types.Type) bool {
	return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}

// onlySliced checks that an array is only ever used to make slices
func onlySliced(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r.(type) {
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// step executes one instruction. It returns false when the path has ended (or was continued by somebody else).
func (x *Exec) step(st *State, f *Frame, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(i.Type())
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 16 && onlySliced(i) {
			// make([]T, constant)
			f.env[i] = x.makeSlice(st, types.NewSlice(at.Elem()), tInt(at.Len()), tInt(at.Len()))
			return true
		}
		id := x.newObj(st, t, x.zero(t), i.Comment)
		f.env[i] = Ptr{Loc: Loc{Kind: lLocal, Obj: id, Root: t}, Ty: t}
	case *ssa.Phi:
		// handled on entry of the block
		panic("phi")
	case *ssa.BinOp:
		f.env[i] = x.binop(st, i.Op, x.val(st, f, i.X), x.val(st, f, i.Y), i.X.Type(), i.Y.Type(), i.Type())
	case *ssa.UnOp:
		return x.unop(st, f, i)
	case *ssa.Convert:
		f.env[i] = x.convert(st, x.val(st, f, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		f.env[i] = x.convert(st, x.val(st, f, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeType:
		f.env[i] = x.retype(x.val(st, f, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		f.env[i] = x.val(st, f, i.X)
	case *ssa.MakeInterface:
		f.env[i] = Iface{Conc: x.val(st, f, i.X), ConcTy: i.X.Type()}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		v := Fn{Fn: fn}
		for _, b := range i.Bindings {
			v.Bind = append(v.Bind, x.val(st, f, b))
		}
		f.env[i] = v
	case *ssa.MakeSlice:
		f.env[i] = x.makeSlice(st, i.Type(), sc(x.val(st, f, i.Len)), sc(x.val(st, f, i.Cap)))
	case *ssa.MakeMap:
		f.env[i] = x.makeMap(st, i.Type())
	case *ssa.MakeChan:
		f.env[i] = Scalar{T: x.alloc(st, "chan"), Ty: i.Type()}
	case *ssa.FieldAddr:
		p := x.val(st, f, i.X).(Ptr)
		x.oblige(st, "nil:"+x.relPos(f, i), x.nonNil(st, p))
		stt := deref(i.X.Type()).Underlying().(*types.Struct)
		fl := stt.Field(i.Field)
		if _, opq := opaqueLeaf(deref(i.X.Type())); opq {
			panic(unsupported{"field of opaque " + i.X.Type().String()})
		}
		f.env[i] = Ptr{Loc: x.resolve(st, p.Loc).field(fl.Name()), Ty: fl.Type()}
	case *ssa.Field:
		v := x.val(st, f, i.X)
		s, ok := v.(*Struct)
		if !ok {
			panic(unsupported{"field of " + i.X.Type().String()})
		}
		f.env[i] = s.F[i.Field]
	case *ssa.IndexAddr:
		return x.indexAddr(st, f, i)
	case *ssa.Index:
		return x.index(st, f, i)
	case *ssa.Lookup:
		f.env[i] = x.lookup(st, f, i)
	case *ssa.MapUpdate:
		m := x.val(st, f, i.Map)
		x.oblige(st, "nilmap:"+x.relPos(f, i), tNot(tEq(sc(m), tInt(0))))
		mt := i.Map.Type().Underlying().(*types.Map)
		x.mapUpdate(st, mt, sc(m), x.val(st, f, i.Key), x.val(st, f, i.Value))
	case *ssa.Range:
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported{"range over string"})
		}
		m := sc(x.val(st, f, i.X))
		dom, ds, _, _ := x.mapArrays(mt)
		ks := x.keySort(mt.Key())
		d0 := x.sol.Name("dom0", tSelect(x.heapGet(st, dom, ds), m))
		id := x.newObj(st, i.X.Type(), nil, "iter")
		o := st.objs[id]
		o.Iter = &iterObj{m: m, mty: mt, dom0: d0, visited: tConstArr(ks, SBool, tFalse)}
		st.objs[id] = o
		f.env[i] = IterV{Obj: id}
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.Extract:
		s, ok := x.val(st, f, i.Tuple).(*Struct)
		if !ok {
			panic(fmt.Sprintf("extract from %T", x.val(st, f, i.Tuple)))
		}
		f.env[i] = s.F[i.Index]
	case *ssa.Slice:
		f.env[i] = x.sliceOp(st, f, i)
	case *ssa.SliceToArrayPointer:
		panic(unsupported{"slice to array pointer"})
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Store:
		p := x.val(st, f, i.Addr).(Ptr)
		x.oblige(st, "nil:"+x.relPos(f, i), x.nonNil(st, p))
		x.storeLoc(st, p.Loc, deref(i.Addr.Type()), x.val(st, f, i.Val))
	case *ssa.Call:
		return x.call(st, f, i, &i.Call, i)
	case *ssa.Go:
		x.assume("goroutines run to completion where they are started (one schedule); sync.WaitGroup, Mutex and atomics behave sequentially")
		return x.call(st, f, nil, &i.Call, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if !i.Call.IsInvoke() {
			d.fn = x.val(st, f, i.Call.Value)
		} else {
			d.fn = x.val(st, f, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, f, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.idx-- // come back for the others
			return x.callValues(st, f, nil, d.call, d.fn, d.args, i)
		}
	case *ssa.Panic:
		x.panics(st, "panic:"+x.relPos(f, i))
		return false
	case *ssa.Return:
		var rets []Val
		for _, r := range i.Results {
			rets = append(rets, x.val(st, f, r))
		}
		return x.ret(st, f, rets)
	case *ssa.Jump:
		return x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := sc(x.val(st, f, i.Cond))
		cur := f.block
		x.forkJump(st, c, fmt.Sprintf("%s", x.posString(condPos(i))), cur.Succs[0], cur.Succs[1])
		return false
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", ins)})
	}
	return true
}

func condPos(i *ssa.If) token.Pos {
	if i.Cond.Pos().IsValid() {
		return i.Cond.Pos()
	}
	return i.Block().Instrs[0].Pos()
}

func (x *Exec) forkJump(st *State, c Term, name string, a, b *ssa.BasicBlock) {
	go1 := func(to *ssa.BasicBlock) func(*State) {
		return func(s *State) {
			if x.jump(s, s.top(), to) {
				x.run(s)
			}
		}
	}
	x.fork(st, c, name, go1(a), go1(b))
}

// relPos names an instruction independently of line numbers
func (x *Exec) relPos(f *Frame, i ssa.Instruction) string {
	n := 0
	for _, b := range f.fn.Blocks {
		for _, j := range b.Instrs {
			if fmt.Sprintf("%T", j) == fmt.Sprintf("%T", i) {
				n++
			}
			if j == i {
				return fmt.Sprintf("%s#%s%d", f.fn.Name(), strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa."), n)
			}
		}
	}
	return f.fn.Name()
}

func (x *Exec) panics(st *State, name string) {
	if x.con.Panics != nil && x.entry != nil {
		x.oblige(st, name, x.evalBool(x.oldEnv(st), x.con.Panics))
	} else {
		x.oblige(st, name, tFalse)
	}
	x.paths++
}

// ret returns from the topmost frame
func (x *Exec) ret(st *State, f *Frame, rets []Val) bool {
	for _, l := range f.loops {
		if l.stopOnExit {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(x, st, rets)
		return false
	}
	if len(st.frames) == 0 {
		panic("ret: no frame")
	}
	if f.call != nil {
		if v, ok := f.call.(*ssa.Call); ok {
			x.setResult(st, st.top(), v, rets)
		}
	}
	return true
}

func (x *Exec) setResult(st *State, f *Frame, v *ssa.Call, rets []Val) {
	res := v.Call.Signature().Results()
	switch res.Len() {
	case 0:
	case 1:
		f.env[v] = rets[0]
	default:
		f.env[v] = &Struct{Ty: res, F: rets}
	}
}

// unop

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) bool {
	v := x.val(st, f, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(Ptr)
		x.oblige(st, "nil:"+x.relPos(f, i), x.nonNil(st, p))
		f.env[i] = x.loadLoc(st, p.Loc, i.Type())
	case token.NOT:
		f.env[i] = Scalar{T: tNot(sc(v)), Ty: i.Type()}
	case token.SUB:
		f.env[i] = Scalar{T: tSub(tInt(0), sc(v)), Ty: i.Type()}
	case token.XOR:
		panic(unsupported{"bitwise complement"})
	case token.ARROW:
		panic(unsupported{"channel receive"})
	default:
		panic(unsupported{"unary " + i.Op.String()})
	}
	return true
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	switch op {
	case token.EQL:
		return Scalar{T: x.eqVals(st, ta, a, b), Ty: tr}
	case token.NEQ:
		return Scalar{T: tNot(x.eqVals(st, ta, a, b)), Ty: tr}
	}
	bt, isBasic := ta.Underlying().(*types.Basic)
	if !isBasic {
		panic(unsupported{"operation " + op.String() + " on " + ta.String()})
	}
	s, t := sc(a), sc(b)
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return Scalar{T: x.strConcat(s, t), Ty: tr}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			switch op {
			case token.LSS:
				return Scalar{T: x.strLess(s, t), Ty: tr}
			case token.GTR:
				return Scalar{T: x.strLess(t, s), Ty: tr}
			case token.LEQ:
				return Scalar{T: tNot(x.strLess(t, s)), Ty: tr}
			}
			return Scalar{T: tNot(x.strLess(s, t)), Ty: tr}
		}
		panic(unsupported{"string operation " + op.String()})
	}
	if bt.Info()&types.IsInteger == 0 {
		if bt.Info()&types.IsBoolean != 0 {
			switch op {
			case token.AND, token.LAND:
				return Scalar{T: tAnd(s, t), Ty: tr}
			case token.OR, token.LOR:
				return Scalar{T: tOr(s, t), Ty: tr}
			}
		}
		// floating point: an arbitrary result
		x.assume("floating point operations return arbitrary values")
		return x.fresh(st, tr, "float")
	}
	wrap := func(r Term) Val {
		if m, ok := wraps(tr); ok {
			if _, lit := r.lit(); lit {
				v, _ := r.lit()
				return Scalar{T: tBig(new(big.Int).Mod(v, big.NewInt(m))), Ty: tr}
			}
			r = x.sol.Name("w", app(SInt, "mod", r, tInt(m)))
		} else if len(r.S) > 60 {
			r = x.sol.Name("ar", r)
		}
		return Scalar{T: r, Ty: tr}
	}
	switch op {
	case token.ADD:
		return wrap(tAdd(s, t))
	case token.SUB:
		if bt.Info()&types.IsUnsigned != 0 {
			if _, narrow := wraps(tr); !narrow {
				x.oblige(st, "nounderflow", tCmp(">=", s, t))
			}
		}
		return wrap(tSub(s, t))
	case token.MUL:
		return wrap(tMul(s, t))
	case token.QUO:
		x.oblige(st, "divzero", tNot(tEq(t, tInt(0))))
		return Scalar{T: x.sol.Name("quo", tDivT(s, t)), Ty: tr}
	case token.REM:
		x.oblige(st, "divzero", tNot(tEq(t, tInt(0))))
		return Scalar{T: x.sol.Name("rem", tRemT(s, t)), Ty: tr}
	case token.LSS:
		return Scalar{T: tCmp("<", s, t), Ty: tr}
	case token.LEQ:
		return Scalar{T: tCmp("<=", s, t), Ty: tr}
	case token.GTR:
		return Scalar{T: tCmp(">", s, t), Ty: tr}
	case token.GEQ:
		return Scalar{T: tCmp(">=", s, t), Ty: tr}
	case token.SHL, token.SHR:
		n, ok := t.lit()
		if ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < 63 {
			p := tBig(new(big.Int).Lsh(big.NewInt(1), uint(n.Int64())))
			if op == token.SHL {
				return wrap(tMul(s, p))
			}
			return Scalar{T: x.sol.Name("shr", app(SInt, "div", s, p)), Ty: tr}
		}
	case token.AND:
		for _, pair := range [][2]Term{{s, t}, {t, s}} {
			if n, ok := pair[1].lit(); ok && n.Sign() > 0 {
				m := new(big.Int).Add(n, big.NewInt(1))
				if new(big.Int).And(m, n).Sign() == 0 && bt.Info()&types.IsUnsigned != 0 { // 2^k-1
					return Scalar{T: x.sol.Name("and", app(SInt, "mod", pair[0], tBig(m))), Ty: tr}
				}
			}
		}
	}
	x.sol.Global("bit:"+op.String(), "(declare-fun bit_"+opName(op)+" (Int Int) Int)")
	r := x.sol.Name("bit", app(SInt, "bit_"+opName(op), s, t))
	x.leafFacts(st, Leaf{Kind: kInt, Sort: SInt, Type: tr}, r)
	if op == token.OR && bt.Info()&types.IsUnsigned != 0 { // of disjoint bits
		if sh, n, ok := shiftedBy(s); ok {
			_ = sh
			x.sol.Assert(tImp(tAnd(tCmp("<", t, n), tCmp(">=", t, tInt(0))), tEq(r, tAdd(s, t))))
		}
		if sh, n, ok := shiftedBy(t); ok {
			_ = sh
			x.sol.Assert(tImp(tAnd(tCmp("<", s, n), tCmp(">=", s, tInt(0))), tEq(r, tAdd(s, t))))
		}
	}
	return Scalar{T: r, Ty: tr}
}

// shiftedBy recognises a multiplication by a constant
func shiftedBy(t Term) (a string, n Term, ok bool) {
	if strings.HasPrefix(t.S, "(* ") {
		j := strings.LastIndex(t.S, " ")
		if v, isL := (Term{S: t.S[j+1 : len(t.S)-1], Sort: SInt}).lit(); isL {
			return t.S, tBig(v), true
		}
	}
	return "", Term{}, false
}

func opName(op token.Token) string {
	switch op {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	panic(unsupported{"operator " + op.String()})
}

// stringParts splits a concatenation
func (x *Exec) stringParts(t Term) []Term {
	if p, ok := x.strParts[t.S]; ok {
		return p
	}
	return []Term{t}
}

// litOf returns the string constant of a term
func (x *Exec) litOf(t Term) (string, bool) {
	if !strings.HasPrefix(t.S, "strlit_") {
		return "", false
	}
	for s, id := range x.strLits {
		if t.S == fmt.Sprintf("strlit_%d", id) {
			return s, true
		}
	}
	return "", false
}

func (x *Exec) strConcat(a, b Term) Term {
	if x.ty.strTheory {
		return x.sol.Name("cat", app("String", "str.++", a, b))
	}
	if a.S == x.strLit("").S {
		return b
	}
	if b.S == x.strLit("").S {
		return a
	}
	var parts []Term
	for _, p := range append(x.stringParts(a), x.stringParts(b)...) {
		if n := len(parts); n > 0 {
			if s, ok := x.litOf(parts[n-1]); ok {
				if t, ok := x.litOf(p); ok {
					parts[n-1] = x.strLit(s + t)
					continue
				}
			}
		}
		parts = append(parts, p)
	}
	r := parts[0]
	for _, p := range parts[1:] { // in a canonical form: from the left, adjacent literals joined
		l := r
		r = app(SStr, "scat", l, p)
		if x.sol.quiet == 0 {
			r = x.sol.Name("cat", r)
			x.sol.Assert(tEq(x.strLen(r), tAdd(x.strLen(l), x.strLen(p))))
		}
	}
	x.strParts[r.S] = parts
	return r
}

func (x *Exec) strLess(a, b Term) Term {
	if x.ty.strTheory {
		return app(SBool, "str.<", a, b)
	}
	return app(SBool, "sless", a, b)
}

// retype changes the static type of a value
func (x *Exec) retype(v Val, from, to types.Type) Val {
	switch v := v.(type) {
	case Scalar:
		v.Ty = to
		return v
	case Slice:
		v.Ty = to
		return v
	case *Struct:
		return &Struct{Ty: to, F: v.F}
	case Ptr:
		return v
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.retype(v, from, to)
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x.retype(v, from, to)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			t := sc(v)
			if m, ok := wraps(to); ok {
				if lo, hi := intRange(from); !(lo == "0" && rangeWithin(hi, m)) {
					t = x.sol.Name("conv", app(SInt, "mod", t, tInt(m)))
				}
			} else if tb.Info()&types.IsUnsigned != 0 && fb.Info()&types.IsUnsigned == 0 {
				x.oblige(st, "convnonneg", tCmp(">=", t, tInt(0)))
			}
			return Scalar{T: t, Ty: to}
		}
		x.assume("conversions between numbers and strings or floats return arbitrary values")
		return x.fresh(st, to, "conv")
	}
	if fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		if x.ty.absBytes {
			return Scalar{T: sc(v), Ty: to}
		}
		return x.strToBytes(st, sc(v), to)
	}
	if tok && tb.Info()&types.IsString != 0 && isByteSlice(from) {
		if x.ty.absBytes {
			return Scalar{T: sc(v), Ty: to}
		}
		return x.bytesToStr(st, v.(Slice), to)
	}
	if _, ok := types.Unalias(to).(*types.TypeParam); ok {
		return x.retype(v, from, to)
	}
	if _, ok := types.Unalias(from).(*types.TypeParam); ok {
		return x.retype(v, from, to)
	}
	panic(unsupported{"conversion from " + from.String() + " to " + to.String()})
}

func rangeWithin(hi string, m int64) bool {
	v, ok := new(big.Int).SetString(hi, 10)
	return ok && v.Cmp(big.NewInt(m)) < 0
}

func (x *Exec) strToBytes(st *State, s Term, to types.Type) Val {
	r := x.alloc(st, "bytes")
	n := x.strLen(s)
	sl := Slice{Arr: r, Off: tInt(0), Len: n, Cap: n, Ty: to}
	x.sol.Global("sbytes", "(declare-fun sbytes (Str) (Array Int Int))")
	x.setElems(st, sl, []Term{app(arrSort(SInt, SInt), "sbytes", s)})
	x.sol.Global("bstr", "(declare-fun bstr ((Array Int Int) Int Int) Str)")
	x.sol.Assert(tEq(app(SStr, "bstr", app(arrSort(SInt, SInt), "sbytes", s), tInt(0), n), s))
	return sl
}

func (x *Exec) bytesToStr(st *State, s Slice, to types.Type) Val {
	x.sol.Global("bstr", "(declare-fun bstr ((Array Int Int) Int Int) Str)")
	a := x.elemArrays(st, s)[0]
	t := x.sol.Name("bstr", app(SStr, "bstr", a, s.Off, s.Len))
	x.sol.Assert(tEq(x.strLen(t), s.Len))
	return Scalar{T: t, Ty: to}
}

// slices

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem().Underlying().(*types.Array).Elem()
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if s, ok := coreType(tp).(*types.Slice); ok {
			return s.Elem()
		}
	}
	panic(unsupported{"element type of " + t.String()})
}

func coreType(tp *types.TypeParam) types.Type {
	it := tp.Constraint().Underlying().(*types.Interface)
	for i := 0; i < it.NumEmbeddeds(); i++ {
		if u, ok := it.EmbeddedType(i).(*types.Union); ok && u.Len() == 1 {
			return u.Term(0).Type().Underlying()
		}
	}
	return nil
}

// elemArrays returns the arrays that hold the elements of the backing array of s
func (x *Exec) elemArrays(st *State, s Slice) []Term {
	et := elemType(s.Ty)
	var out []Term
	for _, leaf := range x.ty.Leaves(et) {
		n, srt := x.leafArray(Loc{Kind: lElem, Root: et}, leaf)
		out = append(out, tSelect(x.heapGet(st, n, srt), s.Arr))
	}
	return out
}

func (x *Exec) setElems(st *State, s Slice, as []Term) {
	et := elemType(s.Ty)
	for k, leaf := range x.ty.Leaves(et) {
		n, srt := x.leafArray(Loc{Kind: lElem, Root: et}, leaf)
		x.noteStore(n, s.Arr)
		x.heapSet(st, n, tStore(x.heapGet(st, n, srt), s.Arr, as[k]))
	}
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c Term) Val {
	if x.ty.absBytes && isByteSlice(t) {
		panic(unsupported{"byte slice made in abstract mode"})
	}
	x.oblige(st, "makeslice", tAnd(tCmp(">=", n, tInt(0)), tCmp("<=", n, c)))
	r := x.alloc(st, "slice")
	s := Slice{Arr: r, Off: tInt(0), Len: n, Cap: c, Ty: t}
	var as []Term
	for _, leaf := range x.ty.Leaves(elemType(t)) {
		as = append(as, tConstArr(SInt, leaf.Sort, x.zeroLeaf(leaf)))
	}
	x.setElems(st, s, as)
	return s
}

// getElem reads element i of a slice
func (x *Exec) getElem(st *State, s Slice, i Term) Val {
	et := elemType(s.Ty)
	if s.Back != nil {
		l := *s.Back
		n := s.backLen()
		if lit, ok := tAdd(s.Off, i).lit(); ok {
			return x.loadLoc(st, l.field(lit.String()), et)
		}
		return x.iteElems(st, s, et, tAdd(s.Off, i), n)
	}
	return x.loadLoc(st, Loc{Kind: lElem, Root: et, Ref: s.Arr, Idx: tAdd(s.Off, i)}, et)
}

func (s Slice) backLen() int64 { return s.BackN }

func (x *Exec) iteElems(st *State, s Slice, et types.Type, idx Term, n int64) Val {
	var acc []Term
	for k := n - 1; k >= 0; k-- {
		ts := x.toLeaves(st, et, x.loadLoc(st, s.Back.field(fmt.Sprint(k)), et))
		if acc == nil {
			acc = ts
			continue
		}
		for j := range ts {
			acc[j] = tIte(tEq(idx, tInt(k)), ts[j], acc[j])
		}
	}
	if acc == nil { // there are no elements
		for _, leaf := range x.ty.Leaves(et) {
			acc = append(acc, x.zeroLeaf(leaf))
		}
	}
	for j := range acc {
		acc[j] = x.sol.Name("ite", acc[j])
	}
	return x.fromLeaves(et, acc)
}

// materialize turns a slice of a local array into one on the heap
func (x *Exec) materialize(st *State, s Slice) Slice {
	if s.Back == nil {
		return s
	}
	et := elemType(s.Ty)
	r := x.alloc(st, "backing")
	out := Slice{Arr: r, Off: s.Off, Len: s.Len, Cap: s.Cap, Ty: s.Ty}
	leaves := x.ty.Leaves(et)
	as := make([]Term, len(leaves))
	for j, leaf := range leaves {
		as[j] = tConstArr(SInt, leaf.Sort, x.zeroLeaf(leaf))
	}
	for k := int64(0); k < s.BackN; k++ {
		ts := x.toLeaves(st, et, x.loadLoc(st, s.Back.field(fmt.Sprint(k)), et))
		for j := range ts {
			as[j] = tStore(as[j], tInt(k), ts[j])
		}
	}
	for j := range as {
		as[j] = x.sol.Name("elems", as[j])
	}
	x.setElems(st, out, as)
	// the array itself may no longer be used
	l := x.resolve(st, *s.Back)
	if l.Kind == lLocal && len(l.Path) == 0 {
		o := st.objs[l.Obj]
		o.Dead = true
		st.objs[l.Obj] = o
	} else {
		x.assume("a slice of an array that is stored as a value is not used to modify the array later")
	}
	return out
}

func (x *Exec) sliceOp(st *State, f *Frame, i *ssa.Slice) Val {
	v := x.val(st, f, i.X)
	opt := func(e ssa.Value, def Term) Term {
		if e == nil {
			return def
		}
		return sc(x.val(st, f, e))
	}
	switch v := v.(type) {
	case Ptr: // array
		at := deref(i.X.Type()).Underlying().(*types.Array)
		n := tInt(at.Len())
		lo := opt(i.Low, tInt(0))
		hi := opt(i.High, n)
		max := opt(i.Max, n)
		x.oblige(st, "nil:"+x.relPos(f, i), x.nonNil(st, v))
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, max), tCmp("<=", max, n)))
		l := x.resolve(st, v.Loc)
		return Slice{Back: &l, BackN: at.Len(), Off: lo, Len: tSub(hi, lo), Cap: tSub(max, lo), Ty: i.Type(), Arr: tInt(1)}
	case Slice:
		lo := opt(i.Low, tInt(0))
		hi := opt(i.High, v.Len)
		max := opt(i.Max, v.Cap)
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, max), tCmp("<=", max, v.Cap)))
		r := v
		r.Off = x.sol.Name("off", tAdd(v.Off, lo))
		r.Len = x.sol.Name("len", tSub(hi, lo))
		r.Cap = x.sol.Name("cap", tSub(max, lo))
		r.Ty = i.Type()
		return r
	case Scalar: // string
		lo := opt(i.Low, tInt(0))
		hi := opt(i.High, x.strLen(v.T))
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, x.strLen(v.T))))
		return Scalar{T: x.substr(v.T, lo, hi), Ty: i.Type()}
	}
	panic(unsupported{"slice of " + i.X.Type().String()})
}

func (x *Exec) substr(s, lo, hi Term) Term {
	if x.ty.strTheory {
		return x.sol.Name("sub", app("String", "str.substr", s, lo, tSub(hi, lo)))
	}
	r := x.sol.Name("sub", app(SStr, "ssub", s, lo, hi))
	x.sol.Assert(tEq(x.strLen(r), tSub(hi, lo)))
	return r
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) bool {
	idx := sc(x.val(st, f, i.Index))
	switch v := x.val(st, f, i.X).(type) {
	case Slice:
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), idx), tCmp("<", idx, v.Len)))
		et := elemType(v.Ty)
		k := tAdd(v.Off, idx)
		if v.Back != nil {
			n, ok := k.lit()
			if !ok {
				return x.caseIndex(st, f, i, k, v.BackN, *v.Back, et)
			}
			f.env[i] = Ptr{Loc: v.Back.field(n.String()), Ty: et}
			return true
		}
		f.env[i] = Ptr{Loc: Loc{Kind: lElem, Root: et, Ref: v.Arr, Idx: x.sol.Name("idx", k)}, Ty: et}
		return true
	case Ptr:
		at := deref(i.X.Type()).Underlying().(*types.Array)
		x.oblige(st, "nil:"+x.relPos(f, i), x.nonNil(st, v))
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), idx), tCmp("<", idx, tInt(at.Len()))))
		n, ok := idx.lit()
		if !ok {
			return x.caseIndex(st, f, i, idx, at.Len(), v.Loc, at.Elem())
		}
		f.env[i] = Ptr{Loc: x.resolve(st, v.Loc).field(n.String()), Ty: at.Elem()}
		return true
	}
	panic(unsupported{"index of " + i.X.Type().String()})
}

// caseIndex splits on the value of an index into an array
func (x *Exec) caseIndex(st *State, f *Frame, i ssa.Value, idx Term, n int64, l Loc, et types.Type) bool {
	var rec func(s *State, k int64)
	rec = func(s *State, k int64) {
		take := func(s *State) {
			s.top().env[i] = Ptr{Loc: x.resolve(s, l).field(fmt.Sprint(k)), Ty: et}
			x.run(s)
		}
		if k == n-1 {
			take(s)
			return
		}
		x.fork(s, tEq(idx, tInt(k)), fmt.Sprintf("idx=%d", k), take, func(s *State) { rec(s, k+1) })
	}
	rec(st, 0)
	return false
}

func (x *Exec) index(st *State, f *Frame, i *ssa.Index) bool {
	idx := sc(x.val(st, f, i.Index))
	switch v := x.val(st, f, i.X).(type) {
	case *Struct: // array
		n := int64(len(v.F))
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), idx), tCmp("<", idx, tInt(n))))
		if k, ok := idx.lit(); ok {
			if k.Sign() < 0 || k.Int64() >= n {
				return false
			}
			f.env[i] = v.F[k.Int64()]
			return true
		}
		var acc []Term
		for k := n - 1; k >= 0; k-- {
			ts := x.toLeaves(st, i.Type(), v.F[k])
			if acc == nil {
				acc = ts
				continue
			}
			for j := range ts {
				acc[j] = tIte(tEq(idx, tInt(k)), ts[j], acc[j])
			}
		}
		f.env[i] = x.fromLeaves(i.Type(), acc)
		return true
	case Scalar: // string
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), idx), tCmp("<", idx, x.strLen(v.T))))
		f.env[i] = Scalar{T: x.strAt(st, v.T, idx), Ty: i.Type()}
		return true
	}
	panic(unsupported{"index of " + i.X.Type().String()})
}

func (x *Exec) strAt(st *State, s, i Term) Term {
	if x.ty.strTheory {
		return app(SInt, "str.to_code", app("String", "str.at", s, i))
	}
	r := app(SInt, "schar", s, i)
	if x.sol.quiet == 0 {
		r = x.sol.Name("char", r)
		x.sol.Assert(tAnd(tCmp(">=", r, tInt(0)), tCmp("<=", r, tInt(255))))
	}
	return r
}

// maps

func (x *Exec) cntName(mt *types.Map) string {
	return "map[" + typeName(mt.Key()) + "]" + typeName(mt.Elem()) + "#cnt"
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	mt := t.Underlying().(*types.Map)
	r := x.alloc(st, "map")
	x.initMap(st, mt, r)
	return Scalar{T: r, Ty: t}
}

func (x *Exec) initMap(st *State, mt *types.Map, r Term) {
	dom, ds, vals, names := x.mapArrays(mt)
	ks := x.keySort(mt.Key())
	x.noteStore(dom, r)
	x.heapSet(st, dom, tStore(x.heapGet(st, dom, ds), r, tConstArr(ks, SBool, tFalse)))
	for k, l := range vals {
		x.noteStore(names[k], r)
		x.heapSet(st, names[k], tStore(x.heapGet(st, names[k], arrSort(SInt, arrSort(ks, l.Sort))), r, tConstArr(ks, l.Sort, x.zeroLeaf(l))))
	}
	c := x.cntName(mt)
	x.noteStore(c, r)
	x.heapSet(st, c, tStore(x.heapGet(st, c, arrSort(SInt, SInt)), r, tInt(0)))
}

func (x *Exec) keyTerm(st *State, mt *types.Map, k Val) Term {
	ts := x.toLeaves(st, mt.Key(), k)
	if len(ts) != 1 {
		panic(unsupported{"composite map key"})
	}
	return ts[0]
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k Term) (v Val, ok Term) {
	dom, ds, vals, names := x.mapArrays(mt)
	ks := x.keySort(mt.Key())
	ok = tSelect(tSelect(x.heapGet(st, dom, ds), m), k)
	if m.S == "0" {
		ok = tFalse
	}
	ok = x.sol.Name("has", ok)
	var ts []Term
	for j, l := range vals {
		t := tSelect(tSelect(x.heapGet(st, names[j], arrSort(SInt, arrSort(ks, l.Sort))), m), k)
		t = x.sol.Name("mv"+l.Path, tIte(ok, t, x.zeroLeaf(l)))
		x.leafFacts(st, l, t)
		ts = append(ts, t)
	}
	v = x.fromLeaves(mt.Elem(), ts)
	if x.sol.quiet == 0 {
		x.sliceFacts(v)
	}
	return
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) Val {
	mt, isMap := i.X.Type().Underlying().(*types.Map)
	if !isMap { // string
		s := sc(x.val(st, f, i.X))
		idx := sc(x.val(st, f, i.Index))
		x.oblige(st, "bounds:"+x.relPos(f, i), tAnd(tCmp("<=", tInt(0), idx), tCmp("<", idx, x.strLen(s))))
		return Scalar{T: x.strAt(st, s, idx), Ty: i.Type()}
	}
	m := sc(x.val(st, f, i.X))
	k := x.keyTerm(st, mt, x.val(st, f, i.Index))
	v, ok := x.mapGet(st, mt, m, k)
	if i.CommaOk {
		return &Struct{Ty: i.Type(), F: []Val{v, Scalar{T: ok, Ty: types.Typ[types.Bool]}}}
	}
	return v
}

func (x *Exec) mapUpdate(st *State, mt *types.Map, m Term, key, value Val) {
	dom, ds, vals, names := x.mapArrays(mt)
	ks := x.keySort(mt.Key())
	k := x.keyTerm(st, mt, key)
	ts := x.toLeaves(st, mt.Elem(), value)
	d := x.heapGet(st, dom, ds)
	had := tSelect(tSelect(d, m), k)
	c := x.cntName(mt)
	ca := x.heapGet(st, c, arrSort(SInt, SInt))
	cur := tSelect(ca, m)
	x.noteStore(c, m)
	x.heapSet(st, c, tStore(ca, m, tIte(had, cur, tAdd(cur, tInt(1)))))
	x.noteStore(dom, m)
	x.heapSet(st, dom, tStore(d, m, tStore(tSelect(d, m), k, tTrue)))
	for j, l := range vals {
		a := x.heapGet(st, names[j], arrSort(SInt, arrSort(ks, l.Sort)))
		x.noteStore(names[j], m)
		x.heapSet(st, names[j], tStore(a, m, tStore(tSelect(a, m), k, ts[j])))
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m Term, key Val) {
	dom, ds, _, _ := x.mapArrays(mt)
	k := x.keyTerm(st, mt, key)
	d := x.heapGet(st, dom, ds)
	had := tSelect(tSelect(d, m), k)
	c := x.cntName(mt)
	ca := x.heapGet(st, c, arrSort(SInt, SInt))
	cur := tSelect(ca, m)
	// deleting from a nil map does nothing
	nz := tNot(tEq(m, tInt(0)))
	x.noteStore(c, m)
	x.heapSet(st, c, tStore(ca, m, tIte(tAnd(nz, had), tSub(cur, tInt(1)), cur)))
	x.noteStore(dom, m)
	x.heapSet(st, dom, tIte(nz, tStore(d, m, tStore(tSelect(d, m), k, tFalse)), d))
}

func (x *Exec) mapLen(st *State, mt *types.Map, m Term) Term {
	c := x.cntName(mt)
	n := tIte(tEq(m, tInt(0)), tInt(0), tSelect(x.heapGet(st, c, arrSort(SInt, SInt)), m))
	if x.sol.quiet > 0 {
		return n
	}
	n = x.sol.Name("maplen", n)
	dom, ds, _, _ := x.mapArrays(mt)
	ks := x.keySort(mt.Key())
	d := tSelect(x.heapGet(st, dom, ds), m)
	x.sol.Assert(tCmp(">=", n, tInt(0)))
	x.sol.Assert(Term{S: fmt.Sprintf("(=> (and (not (= %s 0)) (= %s 0)) (forall ((k %s)) (! (not (select %s k)) :pattern ((select %s k)))))", m.S, n.S, ks, d.S, d.S), Sort: SBool})
	// a non-empty map has a key
	w := x.sol.Fresh("someKey", ks)
	x.sol.Assert(tImp(tCmp(">", n, tInt(0)), tSelect(d, w)))
	return n
}

// next advances a map iterator
func (x *Exec) next(st *State, f *Frame, i *ssa.Next) bool {
	it := x.val(st, f, i.Iter).(IterV)
	o := st.objs[it.Obj]
	io := *o.Iter
	tup := i.Type().(*types.Tuple)
	dom, ds, _, _ := x.mapArrays(io.mty)
	ks := x.keySort(io.mty.Key())
	d := tSelect(x.heapGet(st, dom, ds), io.m)
	d = x.sol.Name("domcur", d)
	// name the sets so that they can be used in patterns
	vis := io.visited
	// 1. finished
	x.sol.Push()
	s := st.clone()
	s.note("rangeend")
	x.sol.Assert(Term{S: fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k)) %s))", ks, io.dom0.S, d.S, vis.S, io.dom0.S, d.S, visPattern(vis)), Sort: SBool})
	if x.sol.Feasible(tTrue) {
		s.top().env[i] = &Struct{Ty: tup, F: []Val{Scalar{T: tFalse, Ty: types.Typ[types.Bool]}, x.zeroOr(s, tup.At(1).Type()), x.zeroOr(s, tup.At(2).Type())}}
		x.run(s)
	}
	x.sol.Pop()
	// 2. one more
	x.sol.Push()
	k := x.fresh(st, io.mty.Key(), "key")
	kt := x.keyTerm(st, io.mty, k)
	x.sol.Assert(tAnd(tSelect(d, kt), tNot(tSelect(vis, kt))))
	if x.sol.Feasible(tTrue) {
		st.note("rangenext")
		io.visited = x.sol.Name("visited", tStore(vis, kt, tTrue))
		o.Iter = &io
		st.objs[it.Obj] = o
		v, _ := x.mapGet(st, io.mty, io.m, kt)
		f.env[i] = &Struct{Ty: tup, F: []Val{Scalar{T: tTrue, Ty: types.Typ[types.Bool]}, k, v}}
		x.run(st)
	}
	x.sol.Pop()
	return false
}

func visPattern(v Term) string {
	if strings.HasPrefix(v.S, "(") {
		return ""
	}
	return ":pattern ((select " + v.S + " k))"
}

func (x *Exec) zeroOr(st *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Scalar{T: tInt(0), Ty: types.Typ[types.Int]}
	}
	return x.zero(t)
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) bool {
	v := x.val(st, f, i.X).(Iface)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	result := func(s *State, val Val, ok bool) {
		if i.CommaOk {
			s.top().env[i] = &Struct{Ty: i.Type(), F: []Val{val, Scalar{T: tBool(ok), Ty: types.Typ[types.Bool]}}}
		} else {
			s.top().env[i] = val
		}
	}
	if v.Conc != nil {
		if toIface {
			if types.Implements(v.ConcTy, i.AssertedType.Underlying().(*types.Interface)) {
				result(st, v, true)
				return true
			}
		} else if types.Identical(v.ConcTy, i.AssertedType) {
			result(st, v.Conc, true)
			return true
		}
		if !i.CommaOk {
			x.panics(st, "typeassert:"+x.relPos(f, i))
			return false
		}
		result(st, x.zero(i.AssertedType), false)
		return true
	}
	var cond Term
	if x.isNilIface(v) {
		cond = tFalse
	} else if toIface {
		n := "implements_" + sanitize(typeName(i.AssertedType))
		x.sol.Global(n, "(declare-fun "+n+" (Int) Bool)")
		cond = tAnd(tNot(tEq(v.I, tInt(0))), app(SBool, n, app(SInt, "typeid", v.I)))
	} else {
		cond = tAnd(tNot(tEq(v.I, tInt(0))), tEq(app(SInt, "typeid", v.I), tInt(int64(x.typeID(i.AssertedType)))))
	}
	then := func(s *State) {
		if toIface {
			result(s, v, true)
		} else {
			result(s, x.unbox(s, v.I, i.AssertedType), true)
		}
		x.run(s)
	}
	if !i.CommaOk {
		x.oblige(st, "typeassert:"+x.relPos(f, i), cond)
		then(st)
		return false
	}
	x.fork(st, cond, "type", then, func(s *State) {
		result(s, x.zero(i.AssertedType), false)
		x.run(s)
	})
	return false
}

// unbox returns the value inside of an interface of known dynamic type
func (x *Exec) unbox(st *State, t Term, ty types.Type) Val {
	ls := x.ty.Leaves(ty)
	id := x.typeID(ty)
	x.declIfc(id, ls)
	var ts []Term
	for k, l := range ls {
		c := app(l.Sort, fmt.Sprintf("unifc_%d_%d", id, k), t)
		if x.sol.quiet == 0 {
			c = x.sol.Name("unbox", c)
			x.leafFacts(st, l, c)
		}
		ts = append(ts, c)
	}
	// keep the identity: re-boxing gives the same interface value
	if x.sol.quiet == 0 && len(ts) > 0 {
		x.sol.Assert(tEq(app(SInt, fmt.Sprintf("ifc_%d", id), ts...), t))
	}
	return x.fromLeaves(ty, ts)
}

// evaluation of loop-free expressions for candidate invariants

func (x *Exec) evalPure(st *State, f *Frame, v ssa.Value, header *ssa.BasicBlock, depth int) (res Val, ok bool) {
	if depth > 6 {
		return nil, false
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return x.val(st, f, v), true
	}
	if ins, isIns := v.(ssa.Instruction); isIns && ins.Block() == header {
		switch i := v.(type) {
		case *ssa.Phi:
			r, ok := f.env[i]
			return r, ok
		case *ssa.BinOp:
			a, ok1 := x.evalPure(st, f, i.X, header, depth+1)
			b, ok2 := x.evalPure(st, f, i.Y, header, depth+1)
			if !ok1 || !ok2 {
				return nil, false
			}
			if bt, isB := i.X.Type().Underlying().(*types.Basic); !isB || bt.Info()&types.IsInteger == 0 {
				return nil, false
			}
			switch i.Op {
			case token.ADD, token.SUB:
				if i.Op == token.ADD {
					return Scalar{T: tAdd(sc(a), sc(b)), Ty: i.Type()}, true
				}
				return Scalar{T: tSub(sc(a), sc(b)), Ty: i.Type()}, true
			}
			return nil, false
		case *ssa.Call:
			if b, isB := i.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
				a, ok := x.evalPure(st, f, i.Call.Args[0], header, depth+1)
				if !ok {
					return nil, false
				}
				if s, isS := a.(Slice); isS {
					return Scalar{T: s.Len, Ty: types.Typ[types.Int]}, true
				}
			}
			return nil, false
		case *ssa.UnOp:
			if i.Op == token.MUL {
				p, ok := x.evalPure(st, f, i.X, header, depth+1)
				if !ok {
					return nil, false
				}
				return x.loadLoc(st, p.(Ptr).Loc, i.Type()), true
			}
			return nil, false
		case *ssa.FieldAddr:
			p, ok := x.evalPure(st, f, i.X, header, depth+1)
			if !ok {
				return nil, false
			}
			stt := deref(i.X.Type()).Underlying().(*types.Struct)
			fl := stt.Field(i.Field)
			return Ptr{Loc: x.resolve(st, p.(Ptr).Loc).field(fl.Name()), Ty: fl.Type()}, true
		}
		return nil, false
	}
	r, ok := f.env[v]
	return r, ok
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
