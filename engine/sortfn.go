package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sortFunc is what the documentation of slices.SortFunc promises:
// the elements are permuted, and an earlier one does not compare greater than a later one.
// What the comparison does comes from its contract.
func sortFunc(x *Exec, st *State, f *Frame, res *ssa.Call, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Val, bool) {
	s, ok := args[0].(Slice)
	if !ok {
		panic(unsupported{"sort of an abstract slice"})
	}
	cmp, ok := args[1].(Fn)
	if !ok {
		panic(unsupported{"comparison"})
	}
	before := x.elemArrays(st, s)
	et := elemType(s.Ty)
	leaves := x.ty.Leaves(et)
	var after []Term
	for k := range leaves {
		before[k] = x.sol.Name("unsorted", before[k])
		after = append(after, x.sol.Fresh("sorted", before[k].Sort))
	}
	lo := x.sol.Name("lo", s.Off)
	hi := x.sol.Name("hi", tAdd(s.Off, s.Len))
	p := x.sol.Fresh("perm", arrSort(SInt, SInt))
	q := x.sol.Fresh("inv", arrSort(SInt, SInt))
	in := func(k string) string { return "(and (<= " + lo.S + " " + k + ") (< " + k + " " + hi.S + "))" }
	for k := range leaves {
		a, b := after[k].S, before[k].S
		x.sol.Assert(Term{S: fmt.Sprintf("(forall ((k Int)) (! (ite %s (and %s (= (select %s (select %s k)) k) (= (select %s k) (select %s (select %s k)))) (= (select %s k) (select %s k))) :pattern ((select %s k))))",
			in("k"), in("(select "+p.S+" k)"), q.S, p.S, a, b, p.S, a, b, a), Sort: SBool})
		x.sol.Assert(Term{S: fmt.Sprintf("(forall ((k Int)) (! (=> %s (and %s (= (select %s (select %s k)) k) (= (select %s (select %s k)) (select %s k)))) :pattern ((select %s k))))",
			in("k"), in("(select "+q.S+" k)"), p.S, q.S, a, q.S, b, b), Sort: SBool})
	}
	x.setElems(st, s, after)
	// the comparison
	cf := cmp.Fn
	if cf == nil {
		return nil, true
	}
	if cf.Synthetic != "" && cf.Object() != nil {
		if o, ok := cf.Object().(*types.Func); ok {
			if m := cf.Prog.FuncValue(o); m != nil {
				cf = m
			}
		}
	}
	con := x.contractOf(cf)
	if con == nil || len(cmp.Bind) > 0 || con.Model != "" || con.Options["pure"] == "" && len(con.Modifies) > 0 {
		return nil, true
	}
	x.useContract(con)
	sig := cf.Signature
	elem := func(k string) Val {
		var ts []Term
		for j := range leaves {
			ts = append(ts, Term{S: "(select " + after[j].S + " " + k + ")", Sort: leaves[j].Sort})
		}
		return x.fromLeaves(et, ts)
	}
	x.sol.quiet++
	var recvT types.Type
	if sig.Recv() != nil {
		recvT = sig.Recv().Type()
	}
	env := x.bindEnv(con, st, sig, recvT != nil, recvT, []Val{elem("i!s"), elem("j!s")}, fnTParams(cf))
	env.old = st
	r := Term{S: "r!s", Sort: SInt}
	e := x.bindResults(con, env, sig, []Val{Scalar{T: r, Ty: types.Typ[types.Int]}})
	var conj []Term
	for _, c := range con.Requires {
		conj = append(conj, x.evalBool(env, c.E)) // must hold for all elements, see below
	}
	pre := tAnd(conj...)
	conj = nil
	for _, c := range con.Ensures {
		conj = append(conj, x.evalBool(e, c.E))
	}
	conj = append(conj, tCmp("<=", r, tInt(0)))
	x.sol.quiet--
	if len(con.Requires) > 0 {
		x.oblige(st, "pre:"+con.Key+":sort", Term{S: fmt.Sprintf("(forall ((i!s Int) (j!s Int)) (=> (and %s %s) %s))", in("i!s"), in("j!s"), pre.S), Sort: SBool})
	}
	pats := ""
	for j := range leaves {
		pats += fmt.Sprintf(" :pattern ((select %s i!s) (select %s j!s))", after[j].S, after[j].S)
	}
	x.sol.Assert(Term{S: fmt.Sprintf("(forall ((i!s Int) (j!s Int)) (! (=> (and %s %s (< i!s j!s)) (exists ((r!s Int)) %s))%s))",
		in("i!s"), in("j!s"), tAnd(conj...).S, pats), Sort: SBool})
	return nil, true
}
