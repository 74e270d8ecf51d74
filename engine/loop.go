package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopRec struct {
	info       *loopInfo
	onBack     func(*State)
	stopOnExit bool
}

// havocSet is what a loop may change
type havocSet struct {
	phis   map[*ssa.Phi]bool
	objs   map[int]map[string]bool // leaf paths of local objects
	iters  map[int]bool
	heap   map[string]Sort
	refs   map[string][]Term // references that do not change in the loop
	newRef map[string]bool   // stores to objects made in the loop
	wild   map[string]bool   // other stores
	ghost  map[string]bool
	next   bool
	escape map[int]bool
}

func newHavocSet() *havocSet {
	return &havocSet{phis: map[*ssa.Phi]bool{}, objs: map[int]map[string]bool{}, iters: map[int]bool{}, heap: map[string]Sort{}, refs: map[string][]Term{}, newRef: map[string]bool{}, wild: map[string]bool{}, ghost: map[string]bool{}, escape: map[int]bool{}}
}

// loopsOf finds the natural loops of a function
func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := x.loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, u := range fn.Blocks {
		for _, h := range u.Succs {
			if !h.Dominates(u) {
				continue
			}
			li := m[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = li
			}
			work := []*ssa.BasicBlock{u}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[b] {
					continue
				}
				li.blocks[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	x.loopCache[fn] = m
	return m
}

func (x *Exec) phis(st *State, f *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	n := 0
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		ps = append(ps, p)
		vals = append(vals, x.val(st, f, p.Edges[k]))
	}
	for i, p := range ps {
		f.env[p] = vals[i]
	}
	f.prev, f.block, f.idx = from, to, n
}

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.block
	for n := len(f.loops); n > 0; n-- {
		top := f.loops[n-1]
		if top.info.blocks[to] {
			break
		}
		f.loops = f.loops[:n-1]
		if top.stopOnExit {
			return false
		}
	}
	infos := x.loopsOf(f.fn)
	x.phis(st, f, from, to)
	li := infos[to]
	if li == nil {
		return true
	}
	key := fmt.Sprintf("unroll:%d:%d", len(st.frames), to.Index)
	if n := len(f.loops); n > 0 && f.loops[n-1].info == li && li.blocks[from] {
		rec := f.loops[n-1]
		if rec.onBack != nil {
			rec.onBack(st)
			return false
		}
		f.loops = f.loops[:n-1]
	} else {
		st.calls[key] = 0
	}
	return x.enterLoop(st, f, li, key)
}

// headerLit reports if the condition of the loop is known
func (x *Exec) headerLit(st *State, f *Frame, li *loopInfo) bool {
	i, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Block() != li.header {
		return false
	}
	bt, isB := b.X.Type().Underlying().(*types.Basic)
	if !isB || bt.Info()&types.IsInteger == 0 {
		return false
	}
	l, ok1 := x.evalPure(st, f, b.X, li.header, 0)
	r, ok2 := x.evalPure(st, f, b.Y, li.header, 0)
	if !ok1 || !ok2 {
		return false
	}
	_, l1 := sc(l).lit()
	_, l2 := sc(r).lit()
	return l1 && l2
}

func (x *Exec) enterLoop(st *State, f *Frame, li *loopInfo, key string) bool {
	if x.headerLit(st, f, li) && st.calls[key] < 40 {
		st.calls[key]++
		f.loops = append(f.loops, &loopRec{info: li})
		return true
	}
	return x.genLoop(st, li)
}

func (x *Exec) sameVal(a, b Val) bool {
	switch v := a.(type) {
	case Scalar:
		w, ok := b.(Scalar)
		return ok && v.T.S == w.T.S
	case *Struct:
		w, ok := b.(*Struct)
		if !ok || len(v.F) != len(w.F) {
			return false
		}
		for i := range v.F {
			if !x.sameVal(v.F[i], w.F[i]) {
				return false
			}
		}
		return true
	case Slice:
		w, ok := b.(Slice)
		if !ok {
			return false
		}
		if (v.Back == nil) != (w.Back == nil) {
			return false
		}
		if v.Back != nil && (v.Back.Obj != w.Back.Obj || v.Back.pathString() != w.Back.pathString() || v.Back.Kind != w.Back.Kind || v.Back.Ref.S != w.Back.Ref.S) {
			return false
		}
		return v.Arr.S == w.Arr.S && v.Off.S == w.Off.S && v.Len.S == w.Len.S && v.Cap.S == w.Cap.S
	case Ptr:
		w, ok := b.(Ptr)
		return ok && sameLoc(v.Loc, w.Loc)
	case Iface:
		w, ok := b.(Iface)
		if !ok {
			return false
		}
		if v.Conc != nil || w.Conc != nil {
			return v.Conc != nil && w.Conc != nil && types.Identical(v.ConcTy, w.ConcTy) && x.sameVal(v.Conc, w.Conc)
		}
		return v.I.S == w.I.S || x.isNilIface(v) && x.isNilIface(w)
	case Fn:
		w, ok := b.(Fn)
		if !ok || v.Fn != w.Fn || v.I.S != w.I.S || len(v.Bind) != len(w.Bind) {
			return false
		}
		for i := range v.Bind {
			if !x.sameVal(v.Bind[i], w.Bind[i]) {
				return false
			}
		}
		return true
	case IterV:
		w, ok := b.(IterV)
		return ok && v == w
	case TV:
		w, ok := b.(TV)
		return ok && x.sameVal(v.V, w.V)
	case MapV:
		w, ok := b.(MapV)
		if !ok || v.Dom.S != w.Dom.S || len(v.Vals) != len(w.Vals) {
			return false
		}
		for i := range v.Vals {
			if v.Vals[i].S != w.Vals[i].S {
				return false
			}
		}
		return true
	case SetV:
		w, ok := b.(SetV)
		return ok && v.Dom.S == w.Dom.S
	case nil:
		return b == nil
	}
	return false
}

func sameLoc(a, b Loc) bool {
	return a.Kind == b.Kind && a.Obj == b.Obj && a.Ref.S == b.Ref.S && a.Idx.S == b.Idx.S && a.Glob == b.Glob && a.pathString() == b.pathString()
}

// diffVal collects the paths of components that differ
func (x *Exec) diffVal(ty types.Type, a, b Val, path string, out map[string]bool) {
	sa, ok1 := a.(*Struct)
	sb, ok2 := b.(*Struct)
	if ok1 && ok2 {
		names, tps, ok := x.ty.structFields(ty)
		if ok {
			for i := range names {
				x.diffVal(tps[i], sa.F[i], sb.F[i], path+"."+names[i], out)
			}
			return
		}
	}
	if !x.sameVal(a, b) {
		out[path] = true
	}
}

// runLoop runs the body of the loop once, starting in an arbitrary state
func (x *Exec) runBody(st *State, li *loopInfo, hs *havocSet, assume func(*State), onBack func(head, back *State)) {
	x.sol.Push()
	defer x.sol.Pop()
	s := st.clone()
	x.havocLoop(st, s, hs)
	if assume != nil {
		assume(s)
	}
	head := s.clone()
	f := s.top()
	f.loops = append(f.loops, &loopRec{info: li, stopOnExit: true, onBack: func(b *State) { onBack(head, b) }})
	x.probe++
	func() {
		defer func() { x.probe-- }()
		x.run(s)
	}()
}

func (x *Exec) genLoop(st *State, li *loopInfo) bool {
	depth := len(st.frames) - 1
	hs := newHavocSet()
	entryID := x.sol.next
	for round := 0; ; round++ {
		if round > 15 {
			panic(unsupported{"loop does not stabilize in " + st.top().fn.String()})
		}
		changed := false
		mark := func(p *bool) {
			if !*p {
				*p = true
				changed = true
			}
		}
		rec := map[string][]Term{}
		x.recorders = append(x.recorders, rec)
		x.discover++
		x.runBody(st, li, hs, nil, func(head, b *State) {
			hf, bf := head.frames[depth], b.frames[depth]
			if len(hf.defers) != len(bf.defers) {
				panic(unsupported{"defer in a loop"})
			}
			for _, ins := range li.header.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if !hs.phis[p] && !x.sameVal(hf.env[p], bf.env[p]) {
					hs.phis[p] = true
					changed = true
				}
				if hs.phis[p] {
					if _, isFn := bf.env[p].(Fn); isFn {
						panic(unsupported{"function value changed by a loop"})
					}
					x.toLeaves(b, p.Type(), bf.env[p]) // move to the heap
				}
			}
			for id, o := range head.objs {
				if _, ok := st.objs[id]; !ok {
					continue
				}
				n := b.objs[id]
				if o.Dead != n.Dead {
					hs.escape[id] = true
					changed = true
					continue
				}
				if o.Iter != nil {
					if o.Iter.visited.S != n.Iter.visited.S {
						v := hs.iters[id]
						mark(&v)
						hs.iters[id] = true
					}
					continue
				}
				if o.Fwd == nil && n.Fwd != nil {
					hs.escape[id] = true
					changed = true
					continue
				}
				if o.Fwd != nil {
					continue
				}
				d := map[string]bool{}
				x.diffVal(o.Ty, o.V, n.V, "", d)
				for p := range d {
					if hs.objs[id] == nil {
						hs.objs[id] = map[string]bool{}
					}
					if !hs.objs[id][p] {
						hs.objs[id][p] = true
						changed = true
					}
				}
				for p := range hs.objs[id] {
					x.toLeaves(b, x.typeAt(o.Ty, splitPath(p)), pathVal(x, o.Ty, n.V, splitPath(p)))
				}
			}
			for n, v := range head.ghost {
				if !hs.ghost[n] && !x.sameVal(v, b.ghost[n]) {
					hs.ghost[n] = true
					changed = true
				}
			}
			if head.next.S != b.next.S {
				mark(&hs.next)
			}
			for _, n := range heapKeys(head.heap, b.heap) {
				if _, ok := hs.heap[n]; ok {
					continue
				}
				h, okh := head.heap[n]
				if !okh {
					h = x.heap0[n]
				}
				t, okb := b.heap[n]
				if !okb {
					t = x.heap0[n]
				}
				if h.S != t.S {
					hs.heap[n] = t.Sort
					changed = true
				}
			}
		})
		x.discover--
		x.recorders = x.recorders[:len(x.recorders)-1]
		for _, n := range sortedKeys(rec) {
			for _, r := range rec[n] {
				if x.allocs[r.S] && r.ID > entryID {
					if !hs.newRef[n] {
						hs.newRef[n] = true
						changed = true
					}
					continue
				}
				t, ok := x.sol.Expand(r, entryID)
				if !ok {
					if !hs.wild[n] {
						hs.wild[n] = true
						changed = true
					}
					continue
				}
				dup := false
				for _, o := range hs.refs[n] {
					dup = dup || o.S == t.S
				}
				if !dup {
					hs.refs[n] = append(hs.refs[n], t)
					changed = true
				}
			}
		}
		if len(hs.escape) > 0 {
			for id := range hs.escape {
				o := st.objs[id]
				if o.Fwd == nil {
					if o.Dead || o.V == nil {
						panic(unsupported{"object used by a loop in an unsupported way"})
					}
					x.escape(st, id)
				}
			}
			ph := hs.phis
			hs = newHavocSet()
			hs.phis = ph
			entryID = x.sol.next
			continue
		}
		if !changed {
			break
		}
	}
	// a phi that is havocked needs a representation as terms: move its objects to the heap
	f := st.top()
	for _, ins := range li.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if hs.phis[p] {
			x.toLeaves(st, p.Type(), f.env[p])
		}
	}
	for id, ps := range hs.objs {
		o := st.objs[id]
		for p := range ps {
			x.toLeaves(st, x.typeAt(o.Ty, splitPath(p)), pathVal(x, o.Ty, o.V, splitPath(p)))
		}
	}

	var cands []*cand
	if x.discover == 0 {
		cands = x.candidates(st, li, hs)
		cands = x.filterCands(st, cands, st)
		for round := 0; round < 25; round++ {
			failed := map[*cand]bool{}
			x.runBody(st, li, hs, func(s *State) { x.assumeCands(cands, s) }, func(head, b *State) {
				var alive []*cand
				for _, c := range cands {
					if !failed[c] {
						alive = append(alive, c)
					}
				}
				keep := map[*cand]bool{}
				for _, c := range x.filterCands(b, alive, b) {
					keep[c] = true
				}
				for _, c := range alive {
					if !keep[c] {
						failed[c] = true
					}
				}
			})
			if len(failed) == 0 {
				break
			}
			var rest []*cand
			for _, c := range cands {
				if !failed[c] {
					rest = append(rest, c)
				}
			}
			cands = rest
		}
		if debugLoops {
			fmt.Printf("-- loop in %s at %s (probe %d)\n", st.top().fn, x.posString(li.header.Instrs[0].Pos()), x.probe)
			for _, c := range cands {
				fmt.Println("   inv", c.name)
			}
			for n := range hs.heap {
				fmt.Println("   heap", n, "refs", hs.refs[n], "new", hs.newRef[n], "wild", hs.wild[n])
			}
		}
		if x.probe == 0 {
			x.loopCount++
			for _, c := range cands {
				x.invCount++
				x.invNames[c.name] = true
			}
		}
	}
	s := st.clone()
	x.havocLoop(st, s, hs)
	x.assumeCands(cands, s)
	s.top().loops = append(s.top().loops, &loopRec{info: li, onBack: func(b *State) { x.paths++ }})
	*st = *s
	return true
}

var debugLoops = false

var debugPaths bool

var checkVacuity bool

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], ".")
}

func pathVal(x *Exec, ty types.Type, v Val, path []string) Val {
	for _, p := range path {
		names, tps, _ := x.ty.structFields(ty)
		i := fieldIndex(names, p)
		v, ty = v.(*Struct).F[i], tps[i]
	}
	return v
}

func (x *Exec) havocLoop(st, s *State, hs *havocSet) {
	f := s.top()
	oldNext := st.next
	if hs.next {
		n := x.sol.Fresh("next", SInt)
		x.sol.Assert(tCmp(">=", n, oldNext))
		s.next = n
	}
	for _, ins := range f.block.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if hs.phis[p] {
			n := p.Comment
			if n == "" {
				n = p.Name()
			}
			f.env[p] = x.fresh(s, p.Type(), n)
		}
	}
	ids := make([]int, 0, len(hs.objs))
	for id := range hs.objs {
		ids = append(ids, id)
	}
	sortInts(ids)
	for _, id := range ids {
		o := s.objs[id]
		for _, p := range sortedKeys(hs.objs[id]) {
			path := splitPath(p)
			t := x.typeAt(o.Ty, path)
			if _, isFn := pathVal(x, o.Ty, o.V, path).(Fn); isFn {
				panic(unsupported{"function value changed by a loop"})
			}
			o.V = x.updatePath(o.Ty, o.V, path, x.fresh(s, t, "lv_"+o.Name))
		}
		s.objs[id] = o
	}
	for id := range hs.iters {
		o := s.objs[id]
		io := *o.Iter
		io.visited = x.sol.Fresh("visited", io.visited.Sort)
		ks, _ := splitArr(io.visited.Sort)
		// only keys that were there at the start, or were added since
		dom, ds, _, _ := x.mapArrays(io.mty)
		_ = dom
		_ = ds
		_ = ks
		o.Iter = &io
		s.objs[id] = o
	}
	for _, n := range sortedKeys(hs.heap) {
		srt := hs.heap[n]
		a := x.heapGet(st, n, srt)
		_, es := splitArr(srt)
		if !hs.wild[n] && !hs.newRef[n] {
			for _, r := range hs.refs[n] {
				a = tStore(a, r, x.sol.Fresh("lh_"+n, es))
			}
			s.heap[n] = x.sol.Name("H_"+n, a)
			if f := domFact(n, s.heap[n]); f.ok() {
				x.sol.Assert(f)
			}
			if f := x.refFact(n, s.heap[n], s.next); f.ok() {
				x.sol.Assert(f)
			}
			continue
		}
		h := x.sol.Fresh("LH_"+n, srt)
		if !hs.wild[n] {
			conj := []string{fmt.Sprintf("(< r %s)", oldNext.S)}
			for _, r := range hs.refs[n] {
				conj = append(conj, fmt.Sprintf("(not (= r %s))", r.S))
			}
			an := x.sol.Name("H_"+n, a)
			x.sol.Assert(Term{S: fmt.Sprintf("(forall ((r Int)) (! (=> (and %s) (= (select %s r) (select %s r))) :pattern ((select %s r)) %s))", strings.Join(conj, " "), h.S, an.S, h.S, pat(an, "r")), Sort: SBool})
		}
		s.heap[n] = h
		if f := domFact(n, h); f.ok() {
			x.sol.Assert(f)
		}
		if f := x.refFact(n, h, s.next); f.ok() {
			x.sol.Assert(f)
		}
	}
	for _, n := range sortedKeys(hs.ghost) {
		if tv, ok := s.ghost[n].(TV); ok {
			s.ghost[n] = x.freshST(s, tv.T, "ghost_"+n)
		} else {
			panic(unsupported{"ghost " + n + " in loop"})
		}
	}
}

func pat(a Term, v string) string {
	if strings.HasPrefix(a.S, "(") {
		return ""
	}
	return ":pattern ((select " + a.S + " " + v + "))"
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// cand is a candidate invariant
type cand struct {
	name string
	eval func(*State) Term
}

func (x *Exec) candTerm(c *cand, s *State) (t Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				if debugLoops {
					fmt.Println("   cand", c.name, r.msg)
				}
				ok = false
			case specError:
				if debugLoops {
					fmt.Println("   cand", c.name, r.msg)
				}
				ok = false
			default:
				panic(r)
			}
		}
	}()
	return c.eval(s), true
}

func (x *Exec) assumeCands(cands []*cand, s *State) {
	for _, c := range cands {
		if t, ok := x.candTerm(c, s); ok {
			x.sol.Assert(t)
		}
	}
}

// filterCands returns the candidates that hold in the given state
func (x *Exec) filterCands(st *State, cands []*cand, s *State) []*cand {
	type ct struct {
		c *cand
		t Term
	}
	x.sol.Push()
	defer x.sol.Pop()
	var ts []ct
	for _, c := range cands {
		if t, ok := x.candTerm(c, s.clone()); ok {
			ts = append(ts, ct{c, t})
		}
	}
	var prove func(ts []ct) []*cand
	prove = func(ts []ct) []*cand {
		if len(ts) == 0 {
			return nil
		}
		var all []Term
		for _, c := range ts {
			all = append(all, c.t)
		}
		r, _ := x.sol.Prove(tAnd(all...), false)
		if r == Unsat {
			var out []*cand
			for _, c := range ts {
				out = append(out, c.c)
			}
			return out
		}
		if len(ts) == 1 {
			if debugLoops && strings.HasPrefix(ts[0].c.name, "user") {
				fmt.Println("   drop", ts[0].c.name, r)
				if d := os.Getenv("GOCV_DROP"); d != "" && strings.Contains(ts[0].c.name, d) {
					os.WriteFile(fmt.Sprintf("/tmp/drop-%d.smt2", x.sol.Queries), []byte(x.sol.Script()+"\n(assert (not "+ts[0].t.S+"))\n(check-sat)\n"), 0o644)
				}
			}
			return nil
		}
		n := len(ts) / 2
		return append(prove(ts[:n]), prove(ts[n:])...)
	}
	return prove(ts)
}

// lvar is something that changes in a loop
type lvar struct {
	name    string
	ty      *ST
	get     func(*State) Val
	entry   Val
	changed bool
}

func (x *Exec) loopVars(st *State, li *loopInfo, hs *havocSet) []lvar {
	depth := len(st.frames) - 1
	var vars []lvar
	f := st.top()
	for _, ins := range li.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		vars = append(vars, lvar{name: n, ty: goT(p.Type()), entry: f.env[p], changed: hs.phis[p], get: func(s *State) Val { return s.frames[depth].env[p] }})
	}
	ids := make([]int, 0, len(st.objs))
	for id, o := range st.objs {
		if o.Iter == nil && !o.Dead {
			ids = append(ids, id)
		}
	}
	sortInts(ids)
	for _, id := range ids {
		o := st.objs[id]
		get := func(s *State) Val {
			return x.loadLoc(s, Loc{Kind: lLocal, Obj: id, Root: o.Ty}, o.Ty)
		}
		if o.Fwd == nil {
			vars = append(vars, lvar{name: o.Name, ty: goT(o.Ty), entry: o.V, changed: len(hs.objs[id]) > 0, get: get})
			continue
		}
		vars = append(vars, lvar{name: o.Name, ty: goT(o.Ty), entry: get(st), changed: true, get: get})
	}
	return vars
}

func (x *Exec) candidates(st *State, li *loopInfo, hs *havocSet) []*cand {
	var out []*cand
	add := func(name string, eval func(*State) Term) {
		out = append(out, &cand{name, eval})
	}
	depth := len(st.frames) - 1
	f := st.top()
	pre := st.clone()
	vars := x.loopVars(st, li, hs)

	term := func(v lvar, s *State) Term { return sc(v.get(s)) }
	for _, v := range vars {
		if !v.changed {
			continue
		}
		v := v
		switch e := v.entry.(type) {
		case Scalar:
			switch e.T.Sort {
			case SInt:
				if b, ok := v.ty.Go.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					add(v.name+" >= entry", func(s *State) Term { return tCmp(">=", term(v, s), e.T) })
					add(v.name+" <= entry", func(s *State) Term { return tCmp("<=", term(v, s), e.T) })
				} else {
					add(v.name+" == entry", func(s *State) Term { return tEq(term(v, s), e.T) })
					add(v.name+" != nil", func(s *State) Term { return tNot(tEq(term(v, s), tInt(0))) })
				}
			default:
				add(v.name+" == entry", func(s *State) Term { return tEq(term(v, s), e.T) })
			}
		case Iface:
			add(v.name+" == nil", func(s *State) Term { return x.ifaceIsNil(v.get(s).(Iface)) })
		case Ptr:
			add(v.name+" != nil", func(s *State) Term { return x.nonNil(s, v.get(s).(Ptr)) })
		case Slice:
			add("len "+v.name+" >= entry", func(s *State) Term { return tCmp(">=", v.get(s).(Slice).Len, e.Len) })
			add("len "+v.name+" == entry", func(s *State) Term { return tEq(v.get(s).(Slice).Len, e.Len) })
			add("off "+v.name+" == entry", func(s *State) Term { return tEq(v.get(s).(Slice).Off, e.Off) })
			add("len "+v.name+" <= cap", func(s *State) Term { return tCmp("<=", v.get(s).(Slice).Len, v.get(s).(Slice).Cap) })
			if e.Back == nil {
				add("arr "+v.name+" entry or new", func(s *State) Term {
					a := v.get(s).(Slice).Arr
					return tOr(tEq(a, e.Arr), tCmp(">=", a, pre.next))
				})
				add("nil "+v.name, func(s *State) Term {
					w := v.get(s).(Slice)
					return tImp(tEq(w.Arr, tInt(0)), tEq(w.Cap, tInt(0)))
				})
			}
			for _, w := range vars {
				w := w
				we, ok := w.entry.(Scalar)
				if !ok || !w.changed || we.T.Sort != SInt {
					continue
				}
				if b, ok := w.ty.Go.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				add("len "+v.name+" - "+w.name+" const", func(s *State) Term {
					return tEq(tSub(v.get(s).(Slice).Len, term(w, s)), tSub(e.Len, we.T))
				})
			}
		}
	}
	// the condition of the loop
	if i, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := i.Cond.(*ssa.BinOp); ok && b.Block() == li.header {
			if bt, isB := b.X.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsInteger != 0 {
				side := func(s *State) (Term, Term) {
					fr := s.frames[depth]
					l, ok1 := x.evalPure(s, fr, b.X, li.header, 0)
					r, ok2 := x.evalPure(s, fr, b.Y, li.header, 0)
					if !ok1 || !ok2 {
						panic(unsupported{"header"})
					}
					return sc(l), sc(r)
				}
				switch b.Op {
				case token.LSS:
					add("header <", func(s *State) Term { l, r := side(s); return tCmp("<=", l, r) })
				case token.LEQ:
					add("header <=", func(s *State) Term { l, r := side(s); return tCmp("<=", l, tAdd(r, tInt(1))) })
				case token.GTR:
					add("header >", func(s *State) Term { l, r := side(s); return tCmp(">=", l, r) })
				case token.GEQ:
					add("header >=", func(s *State) Term { l, r := side(s); return tCmp(">=", l, tSub(r, tInt(1))) })
				case token.NEQ:
					add("header != a", func(s *State) Term { l, r := side(s); return tCmp("<=", l, r) })
					add("header != b", func(s *State) Term { l, r := side(s); return tCmp(">=", l, r) })
				}
			}
		}
	}
	// iterators
	var iterIDs []int
	for id := range hs.iters {
		iterIDs = append(iterIDs, id)
	}
	sortInts(iterIDs)
	for _, id := range iterIDs {
		id := id
		io := st.objs[id].Iter
		ks, _ := splitArr(io.visited.Sort)
		add("visited within map", func(s *State) Term {
			v := s.objs[id].Iter.visited
			return Term{S: fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) %s %s))", ks, v.S, io.dom0.S, pat(v, "k"), pat(io.dom0, "k")), Sort: SBool}
		})
	}
	// frames
	for _, n := range sortedKeys(hs.wild) {
		srt, ok := hs.heap[n]
		if !ok {
			continue
		}
		n := n
		a := x.sol.Name("H_"+n, x.heapGet(st, n, srt))
		conj := []string{fmt.Sprintf("(< r %s)", pre.next.S)}
		for _, r := range hs.refs[n] {
			conj = append(conj, fmt.Sprintf("(not (= r %s))", r.S))
		}
		add("frame "+n, func(s *State) Term {
			h := x.sol.Name("H_"+n, x.heapGet(s, n, srt))
			return Term{S: fmt.Sprintf("(forall ((r Int)) (! (=> (and %s) (= (select %s r) (select %s r))) %s %s))", strings.Join(conj, " "), h.S, a.S, pat(h, "r"), pat(a, "r")), Sort: SBool}
		})
	}
	for _, n := range sortedKeys(hs.heap) {
		n := n
		srt := hs.heap[n]
		if strings.HasSuffix(n, "#cnt") {
			for _, r := range hs.refs[n] {
				r := r
				add("count "+n, func(s *State) Term { return tCmp(">=", tSelect(x.heapGet(s, n, srt), r), tInt(0)) })
			}
		}
		// scalar fields of known objects
		if _, es := splitArr(srt); !strings.HasPrefix(es, "(") && !strings.HasPrefix(n, "[]") {
			for _, r := range hs.refs[n] {
				r := r
				e := tSelect(x.heapGet(st, n, srt), r)
				add("field "+n+" == entry", func(s *State) Term { return tEq(tSelect(x.heapGet(s, n, srt), r), e) })
				if es == SInt {
					add("field "+n+" >= entry", func(s *State) Term { return tCmp(">=", tSelect(x.heapGet(s, n, srt), r), e) })
				}
			}
		}
	}
	// ghosts
	for _, n := range sortedKeys(hs.ghost) {
		n := n
		if e, ok := st.ghost[n].(TV); ok {
			add("ghost "+n+" == entry", func(s *State) Term {
				env := &Env{st: s, pkg: x.env0.pkg}
				return x.eqTV(env, &Expr{Op: "id", Name: n}, s.ghost[n].(TV), e)
			})
			if n == "failed" {
				for _, v := range vars {
					v := v
					if v.ty.K == "go" && isErrorType(v.ty.Go) {
						add("failed ==> "+v.name, func(s *State) Term {
							return tImp(sc(s.ghost["failed"].(TV).V), tNot(x.ifaceIsNil(v.get(s).(Iface))))
						})
					}
				}
			}
		}
	}
	// values used in the loop
	uses := map[ssa.Value]bool{}
	for b := range li.blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if ui, ok := (*op).(ssa.Instruction); ok && li.blocks[ui.Block()] {
					continue
				}
				uses[*op] = true
			}
		}
	}
	all := append([]lvar{}, vars...)
	var names []string
	byName := map[string]ssa.Value{}
	for v := range uses {
		if _, ok := f.env[v]; ok {
			names = append(names, v.Name())
			byName[v.Name()] = v
		}
	}
	for _, n := range sortedStrings(names) {
		v := byName[n]
		if _, isAlloc := v.(*ssa.Alloc); isAlloc {
			continue
		}
		e := f.env[v]
		all = append(all, lvar{name: n, ty: goT(v.Type()), entry: e, get: func(s *State) Val { return e }})
	}
	// values of the callers
	for d := 0; d < depth; d++ {
		g := st.frames[d]
		var names []string
		by := map[string]ssa.Value{}
		for v := range g.env {
			switch v.(type) {
			case *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.Field, *ssa.Index, *ssa.UnOp, *ssa.Slice:
				names = append(names, v.Name())
				by[v.Name()] = v
			}
		}
		for _, n := range sortedStrings(names) {
			v := by[n]
			e := g.env[v]
			if _, isTuple := v.Type().(*types.Tuple); isTuple || e == nil {
				continue
			}
			all = append(all, lvar{name: fmt.Sprintf("%s@%d", n, d), ty: goT(v.Type()), entry: e, get: func(s *State) Val { return e }})
		}
	}
	// user supplied
	for i := range x.con.LoopInvs {
		li := &x.con.LoopInvs[i]
		var rec func(k int, bound []lvar, plus []int64)
		count := 0
		base := *x.env0
		rec = func(k int, bound []lvar, plus []int64) {
			if count > 400 {
				return
			}
			if k == len(li.Holes) {
				count++
				bs := append([]lvar{}, bound...)
				ps := append([]int64{}, plus...)
				var ns []string
				for j, b := range bs {
					n := b.name
					if ps[j] > 0 {
						n += "+1"
					}
					ns = append(ns, n)
				}
				add("user "+li.Pos+"["+strings.Join(ns, ",")+"]", func(s *State) Term {
					env := base
					env.st = s
					env.old = x.entry
					env.pre = pre
					e := &env
					for j, b := range bs {
						v := b.get(s)
						if ps[j] > 0 {
							v = Scalar{T: tAdd(sc(v), tInt(ps[j])), Ty: b.ty.Go}
						}
						e = e.with(li.Holes[j].Name, TV{v, b.ty})
					}
					for _, id := range iterIDs {
						io := s.objs[id].Iter
						e = e.with("visited", TV{SetV{io.visited}, &ST{K: "set", Key: goT(io.mty.Key())}})
						e = e.with("iterdom", TV{SetV{io.dom0}, &ST{K: "set", Key: goT(io.mty.Key())}})
					}
					t := x.evalBool(e, li.E)
					return t
				})
				return
			}
			h := li.Holes[k]
			ht := x.resolveType(&base, h.Type, li.Pos)
			if ht.K == "map" && ht.Key.K == "go" && ht.Elem.K == "go" {
				ht = goT(types.NewMap(ht.Key.Go, ht.Elem.Go))
			}
			for _, v := range all {
				if v.ty.K != "go" || ht.K != "go" {
					continue
				}
				isInt := false
				if b, ok := v.ty.Go.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !isID(v.ty.Go) {
					isInt = true
				}
				if isUntypedInt(ht.Go) {
					if !isInt {
						continue
					}
					rec(k+1, append(bound, v), append(plus, 0))
					rec(k+1, append(bound, v), append(plus, 1))
					continue
				}
				if !types.Identical(v.ty.Go, ht.Go) && fullName(v.ty.Go) != fullName(ht.Go) {
					continue
				}
				rec(k+1, append(bound, v), append(plus, 0))
			}
		}
		rec(0, nil, nil)
	}
	return out
}

func sortedStrings(a []string) []string {
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	return sortedKeys(m)
}
