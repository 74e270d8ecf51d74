package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(st *State, f *Frame, res *ssa.Call, common *ssa.CallCommon, ins ssa.Instruction) bool {
	fnv := x.val(st, f, common.Value)
	var args []Val
	for _, a := range common.Args {
		args = append(args, x.val(st, f, a))
	}
	return x.callValues(st, f, res, common, fnv, args, ins)
}

// finishCall hands the results of a call to the caller
func (x *Exec) finishCall(st *State, f *Frame, res *ssa.Call, rets []Val) bool {
	if res != nil {
		x.setResult(st, f, res, rets)
	}
	return true
}

func (x *Exec) callValues(st *State, f *Frame, res *ssa.Call, common *ssa.CallCommon, fnv Val, args []Val, ins ssa.Instruction) bool {
	if common.IsInvoke() {
		recv := fnv.(Iface)
		if recv.Conc != nil {
			fn := x.w.prog.LookupMethod(recv.ConcTy, common.Method.Pkg(), common.Method.Name())
			if fn == nil {
				panic(unsupported{"method " + common.Method.Name() + " of " + recv.ConcTy.String()})
			}
			return x.callFn(st, f, res, fn, nil, append([]Val{recv.Conc}, args...), ins)
		}
		x.oblige(st, "nil:"+x.relPos(f, ins), tNot(x.ifaceIsNil(recv)))
		it := common.Value.Type()
		sig := common.Signature()
		if isErrorType(it) {
			return x.finishCall(st, f, res, []Val{x.fresh(st, types.Typ[types.String], "errstr")})
		}
		cands := []types.Type{it}
		if r := common.Method.Type().(*types.Signature).Recv(); r != nil {
			cands = append(cands, r.Type())
		}
		for _, c := range cands {
			n, ok := types.Unalias(c).(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				continue
			}
			con := x.w.db.Contracts[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+common.Method.Name()]
			if con != nil {
				if con.Model != "" {
					return x.callModel(st, f, res, con, append([]Val{recv}, args...), sig, tparamMap(n), ins)
				}
				return x.applyContract(st, f, res, con, sig, true, it, append([]Val{recv}, args...), tparamMap(n), ins)
			}
		}
		panic(unsupported{"no contract for interface method " + typeName(it) + "." + common.Method.Name()})
	}
	fv, ok := fnv.(Fn)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T", fnv)})
	}
	if fv.Builtin != nil {
		return x.builtin(st, f, res, common, fv.Builtin, args, ins)
	}
	if fv.Fn != nil {
		return x.callFn(st, f, res, fv.Fn, fv.Bind, args, ins)
	}
	return x.callOpaque(st, f, res, common.Signature(), fv, args, ins)
}

// fnKey returns the package and the key of the contract of a function
func fnKey(fn *ssa.Function) (pkg, key string) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Object() == nil || o.Object().Pkg() == nil {
		return "", o.Name()
	}
	pkg = o.Object().Pkg().Path()
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg, n.Obj().Name() + "." + o.Name()
		}
		return pkg, typeName(t) + "." + o.Name()
	}
	return pkg, o.Name()
}

func (x *Exec) contractOf(fn *ssa.Function) *Contract {
	if fn.Synthetic != "" && fn.Origin() == nil {
		return nil
	}
	if fn.Parent() != nil {
		return nil
	}
	pkg, key := fnKey(fn)
	return x.w.db.Contracts[pkg+"."+key]
}

func (x *Exec) callFn(st *State, f *Frame, res *ssa.Call, fn *ssa.Function, bind, args []Val, ins ssa.Instruction) bool {
	pkg, key := fnKey(fn)
	if bi, ok := builtins[pkg+"."+key]; ok && fn.Parent() == nil {
		rets, done := bi(x, st, f, res, fn, args, ins)
		if !done {
			return false
		}
		if rets == nil && fn.Signature.Results().Len() > 0 {
			return true // a frame was pushed
		}
		return x.finishCall(st, f, res, rets)
	}
	con := x.contractOf(fn)
	if con != nil && con.Options["inlinevariadic"] != "" && len(args) > 0 {
		if s, ok := args[len(args)-1].(Slice); ok && s.Back != nil {
			if _, lit := s.Len.lit(); lit {
				con = nil
			}
		}
	}
	if con != nil && con.Options["inline"] == "" {
		if con.Model != "" {
			return x.callModel(st, f, res, con, args, fn.Signature, fnTParams(fn), ins)
		}
		var recvT types.Type
		if r := fn.Signature.Recv(); r != nil {
			recvT = r.Type()
		}
		return x.applyContract(st, f, res, con, fn.Signature, recvT != nil, recvT, args, fnTParams(fn), ins)
	}
	x.pushFrame(st, res, fn, bind, args)
	return true
}

func inlinable(pkg string) bool {
	if strings.HasPrefix(pkg, modPath) {
		return true
	}
	switch pkg {
	case "slices", "maps", "cmp", "golang.org/x/exp/slices", "golang.org/x/exp/maps", "golang.org/x/exp/constraints":
		return true
	case "github.com/FAU-CDI/drincw/pathbuilder":
		return true
	}
	return false
}

func (x *Exec) pushFrame(st *State, res *ssa.Call, fn *ssa.Function, bind, args []Val) {
	pkg, key := fnKey(fn)
	if fn.Parent() == nil && pkg != "" && !inlinable(pkg) && fn.Synthetic == "" {
		panic(unsupported{"no contract for external function " + pkg + "." + key})
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if len(fn.Blocks) == 0 && fn.Origin() != nil && len(fn.Origin().Blocks) == 0 && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported{"no body for " + fn.String()})
	}
	if len(st.frames) > 24 {
		panic(unsupported{"inlining too deep at " + fn.String()})
	}
	n := 0
	for _, g := range st.frames {
		if g.fn == fn {
			n++
		}
	}
	if n > 0 {
		panic(unsupported{"recursive call of " + fn.String() + " without contract"})
	}
	if fn.Parent() == nil && pkg != "" && strings.HasPrefix(pkg, modPath) {
		x.inlined[strings.TrimPrefix(pkg, modPath+"/")+"."+key] = true
	}
	g := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], depth: len(st.frames)}
	if res != nil {
		g.call = res
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("call of %s with %d arguments", fn, len(args)))
	}
	for i, p := range fn.Params {
		g.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		g.env[v] = bind[i]
	}
	st.frames = append(st.frames, g)
}

// callModel calls the go function that models con
func (x *Exec) callModel(st *State, f *Frame, res *ssa.Call, con *Contract, args []Val, sig *types.Signature, tps map[string]types.Type, ins ssa.Instruction) bool {
	x.useContract(con)
	mpkg, mname := con.Pkg, con.Model
	if i := strings.LastIndex(mname, "."); i >= 0 {
		mpkg, mname = modPath+"/"+mname[:i], mname[i+1:]
	}
	fn := x.w.findFunc(mpkg, mname)
	if fn == nil {
		panic(specError{con.Pos + ": no model function " + con.Model})
	}
	if n := fn.TypeParams().Len(); n > 0 {
		var ts []types.Type
		for i := 0; i < n; i++ {
			t, ok := tps[fn.TypeParams().At(i).Obj().Name()]
			if !ok {
				panic(specError{con.Pos + ": model has different type parameters"})
			}
			ts = append(ts, t)
		}
		inst := x.w.instantiate(fn, ts)
		if inst == nil {
			panic(unsupported{"cannot instantiate model " + con.Model})
		}
		fn = inst
	}
	x.pushFrame(st, res, fn, nil, args)
	return true
}

func (x *Exec) useContract(con *Contract) {
	x.usedCons[con] = true
}

// errorResult returns the last result if it is an error
func errorResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// applyContract replaces a call by the contract of the callee
func (x *Exec) applyContract(st *State, f *Frame, res *ssa.Call, con *Contract, sig *types.Signature, hasRecv bool, recvT types.Type, args []Val, tps map[string]types.Type, ins ssa.Instruction) bool {
	x.useContract(con)
	env := x.bindEnv(con, st, sig, hasRecv, recvT, args, tps)
	at := x.relPos(f, ins)
	if hasRecv && con.Options["nilrecv"] == "" && !con.Iface {
		if p, ok := args[0].(Ptr); ok {
			x.oblige(st, "nilrecv:"+con.Key+"@"+at, x.nonNil(st, p))
		}
	}
	env.old = st
	for i, c := range con.Requires {
		n := c.Name
		if n == "" {
			n = fmt.Sprint(i + 1)
		}
		x.oblige(st, "pre:"+con.Key+":"+n+"@"+at, x.evalBool(env, c.E))
	}
	if x.con != nil && len(x.con.Before[con.Key])+len(x.con.Updates[con.Key]) > 0 {
		x.before[con.Key] = true
		env2 := *x.env0
		env2.st = st
		env2.old = x.entry
		env2.vars = map[string]TV{}
		for n, v := range x.env0.vars {
			env2.vars[n] = v
		}
		for n, v := range env.vars {
			env2.vars["arg_"+n] = v
		}
		for _, c := range x.con.Before[con.Key] {
			x.oblige(st, "before:"+con.Key+":"+c.Name, x.evalBool(&env2, c.E))
		}
		vals := map[string]TV{}
		for _, c := range x.con.Updates[con.Key] {
			old, ok := st.ghost[c.Name].(TV)
			if !ok {
				panic(specError{c.Pos + ": unknown ghost variable " + c.Name})
			}
			v := x.eval(&env2, c.E)
			if isNilTV(v) {
				v = TV{x.zero(old.T.Go), old.T}
			}
			vals[c.Name] = TV{v.V, old.T}
		}
		for n, v := range vals {
			st.ghost[n] = v
		}
	}
	if con.Panics != nil {
		c := x.evalBool(env, con.Panics)
		rest := func(s *State) {
			g := s.top()
			env2 := *env
			env2.st = s
			if x.applyContract2(s, g, res, con, sig, &env2) {
				x.run(s)
			}
		}
		if con.Options["maypanic"] != "" { // it may also return
			if c.S != "false" {
				x.sol.Push()
				x.sol.Assert(c)
				x.panics(st.clone(), "panic:"+con.Key+"@"+at)
				x.sol.Pop()
			}
			return x.applyContract2(st, f, res, con, sig, env)
		}
		x.fork(st, c, "panics", func(s *State) { x.panics(s, "panic:"+con.Key+"@"+at) }, rest)
		return false
	}
	return x.applyContract2(st, f, res, con, sig, env)
}

// forgotten reports if the caller does not need to know the clause
func (x *Exec) forgotten(con *Contract, name string) bool {
	if x.con == nil || x.con.Options["assume"] == "" || con.Trusted || con.Iface {
		return false
	}
	for _, p := range strings.Split(x.con.Options["assume"], ",") {
		if strings.HasPrefix(name, p) {
			return false
		}
	}
	return true
}

func (x *Exec) applyContract2(st *State, f *Frame, res *ssa.Call, con *Contract, sig *types.Signature, env *Env) bool {
	if len(con.Modifies) > 0 {
		x.escapeArgs(env, st)
	}
	old := st.clone()
	env.old = old
	oenv := *env
	oenv.st = old
	var regs []region
	for _, m := range con.Modifies {
		if x.con != nil && x.con.Options["noframe"] != "" && x.con.Options["ignore"] == con.Key {
			continue // the caller promises nothing about what the callee modifies
		}
		regs = append(regs, x.regionsOf(&oenv, m.E, st)...)
	}
	if con.Options["pure"] == "" {
		n := x.sol.Fresh("next", SInt)
		x.sol.Assert(tCmp(">=", n, st.next))
		st.next = n
	}
	for _, r := range regs {
		x.havocRegion(st, r)
	}
	for _, m := range con.Modifies { // ghost variables
		if m.E.Op == "call" && m.E.Name == "ghost" {
			n := m.E.Args[0].Name
			tv, ok := st.ghost[n].(TV)
			if ok {
				st.ghost[n] = x.freshST(st, tv.T, "ghost_"+n)
			}
		}
	}
	var rets []Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		r := x.fresh(st, rs.At(i).Type(), "r_"+con.Key)
		if fv, ok := r.(Fn); ok && i < len(con.Results) {
			fv.Origin = con.Key[strings.LastIndex(con.Key, ".")+1:] + "." + con.Results[i]
			r = fv
		}
		rets = append(rets, r)
	}
	env2 := *env
	env2.st = st
	e := x.bindResults(con, &env2, sig, rets)
	vac := x.vacuous("")
	for _, c := range con.Ensures {
		if strings.HasPrefix(c.Name, "own:") || x.forgotten(con, c.Name) {
			continue
		}
		x.sol.Assert(x.evalBool(e, c.E))
	}
	if !vac {
		x.vacuous("after the call of " + con.Key + " on " + strings.Join(st.trace, " ; "))
	}
	if ei := errorResult(sig); ei >= 0 && con.Options["nofail"] == "" {
		if g := con.Options["nofailerr"]; g != "" { // this error is not a failure
			gv := x.eval(&env2, &Expr{Op: "id", Name: g, Pos: con.Pos})
			is := x.eqVals(st, rs.At(ei).Type(), rets[ei], gv.V)
			if tv, ok := st.ghost["failed"].(TV); ok {
				st.ghost["failed"] = mkBool(x.sol.Name("failed", tOr(sc(tv.V), tAnd(tNot(x.ifaceIsNil(rets[ei].(Iface))), tNot(is)))))
			}
		} else {
			x.noteFailure(st, rets[ei])
		}
	}
	return x.finishCall(st, f, res, rets)
}

// escapeArgs makes sure that what arguments refer to exists before the call
func (x *Exec) escapeArgs(env *Env, st *State) {
	for n, v := range env.vars {
		if _, ok := v.V.(*Struct); !ok || v.T.K != "go" {
			continue
		}
		refs, fns := false, false
		for _, l := range x.ty.Leaves(v.T.Go) {
			if l.Kind == kRef || l.Kind == kArr {
				refs = true
			}
			if l.Type != nil {
				if _, ok := l.Type.Underlying().(*types.Signature); ok {
					fns = true
				}
			}
		}
		if refs && !fns {
			w := x.fromLeaves(v.T.Go, x.toLeaves(st, v.T.Go, v.V))
			env.vars[n] = TV{w, v.T}
		}
	}
}

// vacuous reports (for development) if nothing is possible any more
func (x *Exec) vacuous(what string) bool {
	if !checkVacuity || x.probe > 0 {
		return false
	}
	if x.sol.check(1000*time.Millisecond) != Unsat {
		return false
	}
	if what != "" {
		fmt.Println("VACUOUS", x.con.fullKey(), what)
	}
	return true
}

// noteFailure remembers that an operation failed
func (x *Exec) noteFailure(st *State, err Val) {
	tv, ok := st.ghost["failed"].(TV)
	if !ok {
		return
	}
	st.ghost["failed"] = mkBool(x.sol.Name("failed", tOr(sc(tv.V), tNot(x.ifaceIsNil(err.(Iface))))))
}

// regionsOf evaluates a modifies clause
func (x *Exec) regionsOf(env *Env, e *Expr, st *State) []region {
	if e.Op == "call" && e.Name == "ghost" {
		return nil
	}
	if e.Op == "ite" { // conditional: may modify either
		return append(x.regionsOf(env, e.Args[1], st), x.regionsOf(env, e.Args[2], st)...)
	}
	if len(e.Args) == 1 && e.Args[0].Op == "call" && e.Args[0].Name == "unbox" { // of something of another type
		u := e.Args[0]
		if i, ok := x.eval(env, u.Args[0]).V.(Iface); ok && i.Conc != nil && !types.Identical(i.ConcTy, typed(x.resolveGo(env, u.Vars[0].Type, u.Pos))) {
			return nil
		}
	}
	return x.regions(env, e)
}

// callOpaque calls a function value that is not known
func (x *Exec) callOpaque(st *State, f *Frame, res *ssa.Call, sig *types.Signature, fv Fn, args []Val, ins ssa.Instruction) bool {
	at := x.relPos(f, ins)
	if fv.I.ok() {
		x.oblige(st, "nilfunc:"+at, tNot(tEq(fv.I, tInt(0))))
	}
	if strings.HasPrefix(fv.Origin, "param:") {
		for i := range x.con.Callback {
			cb := &x.con.Callback[i]
			if "param:"+cb.Param == fv.Origin {
				return x.callCallback(st, f, res, cb, sig, args, at)
			}
		}
		panic(unsupported{"no callback clause for " + fv.Origin})
	}
	if con := x.w.db.Contracts["field:"+fv.Origin]; con != nil {
		return x.applyContract(st, f, res, con, sig, false, nil, args, nil, ins)
	}
	panic(unsupported{"call of an unknown function value (" + fv.Origin + ")"})
}

func (x *Exec) callCallback(st *State, f *Frame, res *ssa.Call, cb *Callback, sig *types.Signature, args []Val, at string) bool {
	if len(cb.Args) != sig.Params().Len() || len(cb.Results) != sig.Results().Len() {
		panic(specError{cb.Pos + ": callback has a different signature"})
	}
	base := *x.env0
	base.st = st
	base.old = x.entry
	env := &base
	for i, n := range cb.Args {
		env = env.with(n, TV{args[i], goT(sig.Params().At(i).Type())})
	}
	for i, c := range cb.Requires {
		n := c.Name
		if n == "" {
			n = fmt.Sprint(i + 1)
		}
		x.oblige(st, "callback:"+cb.Param+":"+n, x.evalBool(env, c.E))
	}
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, x.fresh(st, sig.Results().At(i).Type(), "cb_"+cb.Param))
	}
	before := st.clone()
	for i, n := range cb.Results {
		env = env.with(n, TV{rets[i], goT(sig.Results().At(i).Type())})
	}
	e2 := *env
	e2.old = before
	vals := map[string]TV{}
	for _, u := range cb.Updates {
		old, _ := st.ghost[u.Name].(TV)
		v := x.eval(&e2, u.E)
		if isNilTV(v) {
			v = TV{x.zero(old.T.Go), old.T}
		}
		vals[u.Name] = TV{v.V, old.T}
	}
	for n, v := range vals {
		st.ghost[n] = v
	}
	e3 := *env
	e3.st = st
	e3.old = before
	for _, c := range cb.Ensures {
		x.sol.Assert(x.evalBool(&e3, c.E))
	}
	if ei := errorResult(sig); ei >= 0 {
		x.noteFailure(st, rets[ei])
	}
	return x.finishCall(st, f, res, rets)
}

// builtins of the language

func (x *Exec) builtin(st *State, f *Frame, res *ssa.Call, common *ssa.CallCommon, b *ssa.Builtin, args []Val, ins ssa.Instruction) bool {
	at := x.relPos(f, ins)
	one := func(v Val) bool { return x.finishCall(st, f, res, []Val{v}) }
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				return one(Scalar{T: v.Cap, Ty: types.Typ[types.Int]})
			}
			return one(Scalar{T: v.Len, Ty: types.Typ[types.Int]})
		case *Struct:
			return one(Scalar{T: tInt(int64(len(v.F))), Ty: types.Typ[types.Int]})
		case Ptr:
			at := v.Ty.Underlying().(*types.Array)
			return one(Scalar{T: tInt(at.Len()), Ty: types.Typ[types.Int]})
		case Scalar:
			t := common.Args[0].Type()
			if mt, ok := t.Underlying().(*types.Map); ok {
				return one(Scalar{T: x.mapLen(st, mt, v.T), Ty: types.Typ[types.Int]})
			}
			if v.T.Sort == x.ty.strSort() {
				n := x.strLen(v.T)
				x.sol.Assert(tCmp(">=", n, tInt(0)))
				return one(Scalar{T: n, Ty: types.Typ[types.Int]})
			}
		}
	case "append":
		return one(x.appendSlice(st, args[0], args[1], common.Args[0].Type(), common.Args[1].Type()))
	case "copy":
		return one(x.copySlice(st, args[0], args[1], at))
	case "delete":
		mt := common.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, mt, sc(args[0]), args[1])
		return true
	case "clear":
		if mt, ok := common.Args[0].Type().Underlying().(*types.Map); ok {
			m := sc(args[0])
			x.fork(st, tEq(m, tInt(0)), "clearnil", func(s *State) { x.run(s) }, func(s *State) {
				x.initMap(s, mt, m)
				x.run(s)
			})
			return false
		}
	case "panic":
		x.panics(st, "panic:"+at)
		return false
	case "recover":
		return one(Iface{I: tInt(0)})
	case "close", "print", "println":
		return x.finishCall(st, f, res, nil)
	case "min", "max":
		acc := sc(args[0])
		for _, a := range args[1:] {
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			t := sc(a)
			if acc.Sort != SInt {
				panic(unsupported{"min/max"})
			}
			acc = x.sol.Name("minmax", tIte(tCmp(op, acc, t), acc, t))
		}
		return one(Scalar{T: acc, Ty: common.Args[0].Type()})
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	panic(unsupported{"builtin " + b.Name()})
}

// appendSlice models append. The result always has a fresh backing array.
func (x *Exec) appendSlice(st *State, a, b Val, ta, tb types.Type) Val {
	if x.ty.absBytes && isByteSlice(ta) {
		return Scalar{T: x.strConcat(sc(a), sc(b)), Ty: ta}
	}
	s := a.(Slice)
	s = x.materialize(st, s)
	s.Ty = ta
	et := elemType(ta)
	leaves := x.ty.Leaves(et)
	x.assume("append never writes through to another slice (the result has a backing array of its own)")
	if bs, ok := b.(Scalar); ok { // append([]byte, string...)
		b = x.strToBytes(st, bs.T, ta)
	}
	t := b.(Slice)
	t.Ty = ta
	n, lit := t.Len.lit()
	if lit && n.Sign() == 0 {
		return s
	}
	base := x.elemArrays(st, s)
	r := x.alloc(st, "append")
	out := Slice{Arr: r, Off: s.Off, Len: x.sol.Name("alen", tAdd(s.Len, t.Len)), Ty: ta}
	out.Cap = x.sol.Fresh("acap", SInt)
	x.sol.Assert(tCmp(">=", out.Cap, out.Len))
	var as []Term
	if lit && n.Int64() <= 16 {
		as = append(as, base...)
		for k := int64(0); k < n.Int64(); k++ {
			ts := x.toLeaves(st, et, x.getElem(st, t, tInt(k)))
			for j := range leaves {
				as[j] = tStore(as[j], tAdd(tAdd(s.Off, s.Len), tInt(k)), ts[j])
			}
		}
		for j := range as {
			as[j] = x.sol.Name("app", as[j])
		}
	} else {
		t = x.materialize(st, t)
		src := x.elemArrays(st, t)
		for j, leaf := range leaves {
			c := x.sol.Fresh("app", arrSort(SInt, leaf.Sort))
			lo := x.sol.Name("alo", tAdd(s.Off, s.Len))
			x.sol.Assert(Term{S: fmt.Sprintf("(forall ((i Int)) (! (=> (< i %s) (= (select %s i) (select %s i))) :pattern ((select %s i))))", lo.S, c.S, base[j].S, c.S), Sort: SBool})
			x.sol.Assert(Term{S: fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (select %s i) (select %s (+ %s (- i %s))))) :pattern ((select %s i))))", lo.S, lo.S, t.Len.S, c.S, src[j].S, t.Off.S, lo.S, c.S), Sort: SBool})
			// and the other way around, so that elements of the source are found
			x.sol.Assert(Term{S: fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i))))", t.Off.S, t.Off.S, t.Len.S, c.S, lo.S, t.Off.S, src[j].S, src[j].S), Sort: SBool})
			as = append(as, c)
		}
	}
	x.setElems(st, out, as)
	return out
}

func (x *Exec) copySlice(st *State, a, b Val, at string) Val {
	d, ok := a.(Slice)
	if !ok {
		panic(unsupported{"copy"})
	}
	if bs, ok := b.(Scalar); ok {
		b = x.strToBytes(st, bs.T, d.Ty)
	}
	s := b.(Slice)
	et := elemType(d.Ty)
	n := tIte(tCmp("<=", d.Len, s.Len), d.Len, s.Len)
	// known constant length?
	if _, lit := n.lit(); !lit {
		dl, dlit := d.Len.lit()
		sl, slit := s.Len.lit()
		switch {
		case dlit && x.implied(tCmp("<=", d.Len, s.Len)):
			n = tBig(dl)
		case slit && x.implied(tCmp("<=", s.Len, d.Len)):
			n = tBig(sl)
		default:
			n = x.sol.Name("copyn", n)
		}
	}
	if k, lit := n.lit(); lit && k.Int64() <= 64 {
		var vals []Val
		for i := int64(0); i < k.Int64(); i++ {
			vals = append(vals, x.getElem(st, s, tInt(i)))
		}
		for i := int64(0); i < k.Int64(); i++ {
			idx := tAdd(d.Off, tInt(i))
			if d.Back != nil {
				l, ok := idx.lit()
				if !ok {
					panic(unsupported{"copy into an array at a variable position"})
				}
				x.storeLoc(st, d.Back.field(l.String()), et, vals[i])
			} else {
				x.storeLoc(st, Loc{Kind: lElem, Root: et, Ref: d.Arr, Idx: idx}, et, vals[i])
			}
		}
		return Scalar{T: n, Ty: types.Typ[types.Int]}
	}
	if d.Back != nil {
		panic(unsupported{"copy of unknown length into an array"})
	}
	s = x.materialize(st, s)
	src := x.elemArrays(st, s)
	dst := x.elemArrays(st, d)
	var as []Term
	for j, leaf := range x.ty.Leaves(et) {
		c := x.sol.Fresh("cpy", arrSort(SInt, leaf.Sort))
		x.sol.Assert(Term{S: fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i))))", c.S, d.Off.S, d.Off.S, n.S, src[j].S, s.Off.S, d.Off.S, dst[j].S, c.S), Sort: SBool})
		as = append(as, c)
	}
	x.setElems(st, d, as)
	return Scalar{T: n, Ty: types.Typ[types.Int]}
}

func (x *Exec) implied(t Term) bool {
	r, _ := x.sol.Prove(t, false)
	return r == Unsat
}

// builtin models of library functions

type builtinFn func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) (rets []Val, done bool)

var builtins map[string]builtinFn

func nop(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
	return nil, true
}

// freshResults returns arbitrary results
func freshResults(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
	var rets []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		rets = append(rets, x.fresh(st, rs.At(i).Type(), fn.Name()))
	}
	return rets, true
}

func (x *Exec) newError(st *State) Iface {
	r := x.alloc(st, "error")
	return Iface{I: r}
}

func atomicLoad(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
	p := args[0].(Ptr)
	x.oblige(st, "nil:"+x.relPos(f, ins), x.nonNil(st, p))
	v := x.loadLoc(st, p.Loc, p.Ty)
	return []Val{Scalar{T: sc(v), Ty: fn.Signature.Results().At(0).Type()}}, true
}

func atomicStore(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
	p := args[0].(Ptr)
	x.oblige(st, "nil:"+x.relPos(f, ins), x.nonNil(st, p))
	x.storeLoc(st, p.Loc, p.Ty, Scalar{T: sc(args[1]), Ty: p.Ty})
	return nil, true
}

func init() {
	builtins = map[string]builtinFn{
		"slices.SortFunc": sortFunc, "golang.org/x/exp/slices.SortFunc": sortFunc,
		"errors.New": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			return []Val{x.newError(st)}, true
		},
		"fmt.Errorf": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			return []Val{x.newError(st)}, true
		},
		"errors.Join": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			s := args[0].(Slice)
			n, ok := s.Len.lit()
			if !ok {
				panic(unsupported{"errors.Join of unknown length"})
			}
			var anyErr []Term
			for i := int64(0); i < n.Int64(); i++ {
				anyErr = append(anyErr, tNot(x.ifaceIsNil(x.getElem(st, s, tInt(i)).(Iface))))
			}
			e := x.newError(st)
			return []Val{Iface{I: x.sol.Name("joined", tIte(tOr(anyErr...), e.I, tInt(0)))}}, true
		},
		"errors.Is": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			x.sol.Global("errIs", "(declare-fun errIs (Int Int) Bool)")
			a, b := x.ifaceTerm(st, args[0].(Iface)), x.ifaceTerm(st, args[1].(Iface))
			t := app(SBool, "errIs", a, b)
			x.sol.Assert(app(SBool, "errIs", a, a))
			x.sol.Assert(tImp(tEq(a, tInt(0)), tEq(t, tEq(b, tInt(0)))))
			x.sol.Assert(tImp(tEq(a, b), t))
			return []Val{Scalar{T: t, Ty: types.Typ[types.Bool]}}, true
		},
		"fmt.Sprintf": freshResults, "fmt.Sprintln": freshResults,
		"runtime.GC": nop, "runtime/debug.FreeOSMemory": nop,
		"time.Now": freshResults, "time.Time.Sub": freshResults, "time.Since": freshResults, "time.Time.Format": freshResults,
		"sync.Mutex.Lock": nop, "sync.Mutex.Unlock": nop, "sync.RWMutex.Lock": nop, "sync.RWMutex.Unlock": nop,
		"sync.RWMutex.RLock": nop, "sync.RWMutex.RUnlock": nop,
		"sync.WaitGroup.Add": nop, "sync.WaitGroup.Done": nop, "sync.WaitGroup.Wait": nop,
		"sync.Once.Do": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			p := args[0].(Ptr)
			done := sc(x.loadLoc(st, p.Loc, p.Ty))
			x.fork(st, done, "once", func(s *State) { x.run(s) }, func(s *State) {
				x.storeLoc(s, p.Loc, p.Ty, Scalar{T: tTrue, Ty: p.Ty})
				fv := args[1].(Fn)
				if fv.Fn == nil {
					panic(unsupported{"once.Do of unknown function"})
				}
				if x.callFn(s, s.top(), nil, fv.Fn, fv.Bind, nil, ins) {
					x.run(s)
				}
			})
			return nil, false
		},
		"sync/atomic.Bool.Load": atomicLoad, "sync/atomic.Bool.Store": atomicStore,
		"sync/atomic.Int64.Load": atomicLoad, "sync/atomic.Int64.Store": atomicStore,
		"sync/atomic.Bool.Swap": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			p := args[0].(Ptr)
			v := x.loadLoc(st, p.Loc, p.Ty)
			x.storeLoc(st, p.Loc, p.Ty, Scalar{T: sc(args[1]), Ty: p.Ty})
			return []Val{Scalar{T: sc(v), Ty: types.Typ[types.Bool]}}, true
		},
		"sync/atomic.Bool.CompareAndSwap": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			p := args[0].(Ptr)
			v := sc(x.loadLoc(st, p.Loc, p.Ty))
			eq := tEq(v, sc(args[1]))
			x.storeLoc(st, p.Loc, p.Ty, Scalar{T: x.sol.Name("cas", tIte(eq, sc(args[2]), v)), Ty: p.Ty})
			return []Val{Scalar{T: x.sol.Name("cas", eq), Ty: types.Typ[types.Bool]}}, true
		},
		"sync/atomic.Int64.Add": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			p := args[0].(Ptr)
			v := x.sol.Name("atomic", tAdd(sc(x.loadLoc(st, p.Loc, p.Ty)), sc(args[1])))
			x.storeLoc(st, p.Loc, p.Ty, Scalar{T: v, Ty: p.Ty})
			return []Val{Scalar{T: v, Ty: types.Typ[types.Int64]}}, true
		},
		"bytes.Compare": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			return []Val{Scalar{T: x.bytesCompare(st, args[0], args[1]), Ty: types.Typ[types.Int]}}, true
		},
		"cmp.Compare": func(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
			a, b := sc(args[0]), sc(args[1])
			lt := tCmp("<", a, b)
			if a.Sort != SInt {
				lt = x.strLess(a, b)
			}
			t := tIte(tEq(a, b), tInt(0), tIte(lt, tInt(-1), tInt(1)))
			return []Val{Scalar{T: x.sol.Name("cmp", t), Ty: types.Typ[types.Int]}}, true
		},
		"runtime.KeepAlive": nop,
	}
	builtins["strings.Compare"] = builtins["cmp.Compare"]
}

// bytesCompare of two byte slices whose lengths are literals
func (x *Exec) bytesCompare(st *State, a, b Val) Term {
	if sa, ok := a.(Scalar); ok {
		sb := sc(b)
		return x.sol.Name("cmp", tIte(tEq(sa.T, sb), tInt(0), tIte(x.strLess(sa.T, sb), tInt(-1), tInt(1))))
	}
	s, t := a.(Slice), b.(Slice)
	n, ok1 := s.Len.lit()
	m, ok2 := t.Len.lit()
	if !ok1 || !ok2 || n.Cmp(m) != 0 || n.Int64() > 64 {
		panic(unsupported{"bytes.Compare of slices of unknown length"})
	}
	r := tInt(0)
	for i := n.Int64() - 1; i >= 0; i-- {
		p, q := sc(x.getElem(st, s, tInt(i))), sc(x.getElem(st, t, tInt(i)))
		r = tIte(tCmp("<", p, q), tInt(-1), tIte(tCmp(">", p, q), tInt(1), r))
	}
	return x.sol.Name("cmp", r)
}
