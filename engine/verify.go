package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const preludeText = `(set-option :global-declarations true)
(declare-sort Str 0)
(declare-sort Opq 0)
(declare-fun slen (Str) Int)
(declare-fun slit (Int) Str)
(declare-fun unslit (Str) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun schar (Str Int) Int)
(declare-fun sless (Str Str) Bool)
(declare-fun typeid (Int) Int)
(declare-fun gerr (Int) Int)
(declare-fun ungerr (Int) Int)
(assert (forall ((i Int)) (! (= (unslit (slit i)) i) :pattern ((slit i)))))
(assert (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s (slit 0)))) :pattern ((slen s)))))
(assert (forall ((s Str) (t Str)) (! (not (and (sless s t) (sless t s))) :pattern ((sless s t) (sless t s)))))
(assert (forall ((s Str) (t Str)) (! (or (= s t) (sless s t) (sless t s)) :pattern ((sless s t)))))
(assert (forall ((s Str)) (not (sless s s))))
(assert (forall ((s Str) (t Str) (u Str)) (! (=> (and (sless s t) (sless t u)) (sless s u)) :pattern ((sless s t) (sless t u)))))
`

// FuncReport is the result for one function
type FuncReport struct {
	more     []*ssa.Function
	Func     string
	Kind     string // function, lemma, model
	Props    []string
	File     string
	Obls     []*Obligation
	Trusted  []string // contracts used that are trusted
	Used     []string // contracts used
	Assumes  []string
	Inlined  []string
	Loops    int
	Invs     int
	Paths    int
	Solver   time.Duration
	Fallback time.Duration
	Wall     time.Duration
	Queries  int
	ByBack   map[string]int
	Error    string // outside of the verified subset
	Failed   bool
	Returned int
	usedCons []*Contract
}

func (w *World) newExec(con *Contract, deadline time.Time) *Exec {
	wc := *w
	x := &Exec{
		w: &wc, con: con,
		heap0: map[string]Term{}, refArr: map[string]bool{}, typeIDs: map[string]int{}, strLits: map[string]int{"": 0}, strParts: map[string][]Term{}, before: map[string]bool{}, fnIDs: map[*ssa.Function]int{},
		obls: map[string]*Obligation{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, allocs: map[string]bool{}, inlined: map[string]bool{},
		usedCons: map[*Contract]bool{}, trusted: map[string]bool{}, assumes: map[string]bool{}, invNames: map[string]bool{},
	}
	x.ty = &Typer{cache: map[types.Type][]Leaf{}, tpSorts: map[*types.TypeParam]Sort{}}
	x.ty.absBytes = con.Options["absBytes"] != ""
	x.ty.concreteID = con.Options["concreteID"] != ""
	x.ty.strTheory = con.Options["strTheory"] != ""
	prel := preludeText
	if !x.ty.strTheory {
		prel = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n" + prel
	}
	x.sol = NewSolver(prel, deadline)
	x.ty.useSort = func(s Sort) { x.sol.Global("sort:"+s, "(declare-sort "+s+" 0)") }
	return x
}

// axioms asserts the axioms
func (x *Exec) axioms(st *State) {
	for i, a := range x.w.db.Axioms {
		if p := x.w.db.AxPkg[i]; p != "" && (p != x.con.Pkg || x.w.pkgOf(p) == nil) { // only for the package it was stated for
			continue
		}
		env := &Env{vars: map[string]TV{}, st: st, old: st, pkg: x.w.pkgOf(x.w.db.AxPkg[i]), tps: map[string]types.Type{}}
		x.sol.Assert(x.evalBool(env, a.E))
	}
}

func (w *World) verify(con *Contract, inst *ssa.Function, timeout time.Duration) (rep *FuncReport) {
	start := time.Now()
	rep = &FuncReport{Func: con.fullKey(), Kind: "function", Props: con.Props, ByBack: map[string]int{}}
	x := w.newExec(con, start.Add(timeout))
	defer func() {
		if r := recover(); r != nil {
			at := x.posString(x.curPos)
			switch e := r.(type) {
			case unsupported:
				rep.Error = "outside of the verified subset: " + e.msg + " (near " + at + ")"
			case specError:
				rep.Error = "contract does not fit the code: " + e.msg + " (near " + at + ")"
			default:
				rep.Error = fmt.Sprintf("internal error: %v (near %s)", r, at)
				if os.Getenv("GOCV_STACK") != "" {
					debug.PrintStack()
				}
			}
			rep.Failed = true
		}
		x.report(rep)
		rep.Wall = time.Since(start)
		x.sol.Close()
	}()
	fn := w.findFunc(con.Pkg, con.Key)
	if fn == nil {
		panic(specError{"function " + con.Key + " does not exist"})
	}
	rep.File = x.posString(fn.Pos())
	x.curPos = fn.Pos()
	if inst != nil {
		fn = inst
	} else if hasCoreType(fn) { // all instances that the code uses are verified
		insts := w.instances(fn)
		if len(insts) == 0 {
			panic(unsupported{"no instance"})
		}
		fn, rep.more = insts[0], insts[1:]
		rep.Func += fmt.Sprint(fn.TypeArgs())
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		w.shared.Lock()
		fn.Pkg.Build()
		w.shared.Unlock()
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported{"function has no body"})
	}
	x.fn = fn
	st := &State{objs: map[int]Obj{}, heap: map[string]Term{}, ghost: map[string]Val{}, calls: map[string]int{}, facts: map[string]bool{}}
	x.sol.emit("(declare-const next0 Int)")
	x.next0 = Term{S: "next0", Sort: SInt}
	x.sol.Assert(tCmp(">", x.next0, tInt(0)))
	st.next = x.next0
	var args []Val
	for i, p := range fn.Params {
		v := x.fresh(st, p.Type(), p.Name())
		if f, ok := v.(Fn); ok {
			n := p.Name()
			if i < len(con.params) {
				n = con.params[i]
			}
			f.Origin = "param:" + n
			v = f
		}
		args = append(args, v)
	}
	hasRecv := fn.Signature.Recv() != nil
	var recvT types.Type
	if hasRecv {
		recvT = fn.Params[0].Type()
		if p, ok := args[0].(Ptr); ok && con.Options["nilrecv"] == "" {
			x.sol.Assert(x.nonNil(st, p))
		}
	}
	env := x.bindEnv(con, st, fn.Signature, hasRecv, recvT, args, fnTParams(fn))
	env.old = st
	x.env0 = env
	st.ghost["failed"] = mkBool(tFalse)
	x.axioms(st)
	for _, c := range con.Requires {
		x.sol.Assert(x.evalBool(env, c.E))
	}
	for _, g := range con.Ghosts {
		t := x.resolveType(env, g.Type, con.Pos)
		v := x.eval(env, g.Init)
		if isNilTV(v) {
			v = TV{x.zero(t.Go), t}
		}
		v.T = t
		st.ghost[g.Name] = v
	}
	// the precondition can be satisfied
	if r := x.coverCheck(); r == Unsat {
		x.oblige(st, "precondition-satisfiable", tFalse)
	}
	x.entry = st.clone()
	env.st = x.entry
	env.old = x.entry
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	f.onRet = func(x *Exec, s *State, rets []Val) { x.finish(s, rets) }
	st.frames = []*Frame{f}
	x.run(st)
	if x.returned == 0 && con.Options["noreturn"] == "" {
		x.oblige(x.entry, "some-path-returns", tFalse)
	}
	for _, k := range sortedKeys(con.Before) {
		if !x.before[k] {
			x.oblige(x.entry, "before:"+k+":called", tFalse)
		}
	}
	for _, k := range sortedKeys(con.Updates) {
		if !x.before[k] && len(con.Before[k]) == 0 {
			x.oblige(x.entry, "update:"+k+":called", tFalse)
		}
	}
	return rep
}

func (x *Exec) coverCheck() Result {
	x.sol.Push()
	defer x.sol.Pop()
	return x.sol.check(2 * time.Second)
}

func (x *Exec) finish(st *State, rets []Val) {
	if x.probe > 0 {
		return
	}
	x.returned++
	x.paths++
	env := *x.env0
	env.st = st
	env.old = x.entry
	e := x.bindResults(x.con, &env, x.fn.Signature, rets)
	if x.con.Panics != nil && x.con.Options["maypanic"] == "" {
		x.oblige(st, "returns-only-if-no-panic", tNot(x.evalBool(x.oldEnv(st), x.con.Panics)))
	}
	for _, c := range x.con.Ensures {
		x.oblige(st, "post:"+c.Name, x.evalBool(e, c.E))
	}
	if ei := errorResult(x.fn.Signature); ei >= 0 && x.con.Options["swallows"] == "" {
		x.oblige(st, "errors-propagate", tImp(sc(st.ghost["failed"].(TV).V), tNot(x.ifaceIsNil(rets[ei].(Iface)))))
	}
	x.frame(st)
}

// frame checks that only what is declared was modified
func (x *Exec) frame(st *State) {
	if x.con.Options["noframe"] != "" {
		return
	}
	oenv := x.oldEnv(st)
	allowed := map[string][]region{}
	for _, m := range x.con.Modifies {
		for _, r := range x.regionsOf(oenv, m.E, x.entry) {
			for n := range r.arrays {
				allowed[n] = append(allowed[n], r)
			}
		}
	}
	for _, n := range heapKeys(st.heap, x.entry.heap) {
		cur := st.heap[n]
		old, ok := x.entry.heap[n]
		if !ok {
			old = x.heapInit(n, cur.Sort)
		}
		if cur.S == old.S {
			continue
		}
		if strings.HasSuffix(n, "#cnt") { // follows the domain
			continue
		}
		r := x.sol.Fresh("frame", SInt)
		hyp := []Term{tCmp("<", r, x.entry.next), tCmp(">", r, tInt(0))}
		a, b := tSelect(cur, r), tSelect(old, r)
		var elems []Term
		anything := false
		for _, reg := range allowed[n] {
			anything = anything || reg.all
		}
		if anything {
			continue
		}
		for _, reg := range allowed[n] {
			if reg.idx != nil {
				elems = append(elems, tAnd(tEq(r, reg.ref)))
				_ = elems
			}
			hyp = append(hyp, tNot(tEq(r, reg.ref)))
		}
		x.oblige(st, "frame:"+n, tImp(tAnd(hyp...), tEq(a, b)))
	}
}

func (x *Exec) report(rep *FuncReport) {
	for _, n := range x.oblOrder {
		o := x.obls[n]
		rep.Obls = append(rep.Obls, o)
		if o.Failed {
			rep.Failed = true
		}
	}
	for c := range x.usedCons {
		rep.usedCons = append(rep.usedCons, c)
		if c.Trusted {
			rep.Trusted = append(rep.Trusted, c.fullKey()+": "+c.Why+c.Model)
		} else {
			rep.Used = append(rep.Used, c.fullKey())
		}
	}
	sort.Strings(rep.Used)
	sort.Strings(rep.Trusted)
	rep.Assumes = sortedKeys(x.assumes)
	rep.Inlined = sortedKeys(x.inlined)
	rep.Loops = x.loopCount
	rep.Invs = x.invCount
	rep.Paths = x.paths
	rep.Solver = x.sol.Time
	rep.Fallback = x.sol.FBTime
	rep.Queries = x.sol.Queries
	rep.Returned = x.returned
	for k, v := range x.sol.ByBack {
		rep.ByBack[k] += v
	}
}

// verifyLemma proves a lemma
func (w *World) verifyLemma(l *Lemma, timeout time.Duration) (rep *FuncReport) {
	start := time.Now()
	rep = &FuncReport{Func: "lemma " + l.Name, Kind: "lemma", Props: l.Props, ByBack: map[string]int{}}
	con := &Contract{Pkg: l.Pkg, Key: "lemma:" + l.Name, Options: map[string]string{}, Props: l.Props, Pos: l.Pos}
	x := w.newExec(con, start.Add(timeout))
	defer func() {
		if r := recover(); r != nil {
			rep.Error = fmt.Sprint(r)
			rep.Failed = true
		}
		x.report(rep)
		rep.Wall = time.Since(start)
		x.sol.Close()
	}()
	st := &State{objs: map[int]Obj{}, heap: map[string]Term{}, ghost: map[string]Val{}, calls: map[string]int{}, facts: map[string]bool{}}
	x.sol.emit("(declare-const next0 Int)")
	x.next0 = Term{S: "next0", Sort: SInt}
	x.sol.Assert(tCmp(">", x.next0, tInt(0)))
	st.next = x.next0
	env := &Env{vars: map[string]TV{}, st: st, old: st, pkg: w.pkgOf(l.Pkg), tps: map[string]types.Type{}}
	x.axioms(st)
	for _, v := range l.Vars {
		t := x.resolveType(env, v.Type, l.Pos)
		env.vars[v.Name] = x.freshST(st, t, v.Name)
	}
	for _, h := range l.Hyps {
		x.sol.Assert(x.evalBool(env, h))
	}
	x.oblige(st, "lemma", x.evalBool(env, l.E))
	return rep
}
