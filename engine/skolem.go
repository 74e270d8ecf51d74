package main

import "strings"

// sexp is a parsed s-expression
type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	var stack []*sexp
	cur := &sexp{}
	for i := 0; i < len(s); {
		switch s[i] {
		case ' ', '\n', '\t':
			i++
		case '(':
			stack = append(stack, cur)
			cur = &sexp{}
			i++
		case ')':
			if len(stack) == 0 {
				return nil
			}
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if cur.list == nil {
				cur.list = []*sexp{}
			}
			p.list = append(p.list, cur)
			cur = p
			i++
		case '|', '"':
			return nil // not used by this engine in quantified goals
		default:
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
				j++
			}
			cur.list = append(cur.list, &sexp{atom: s[i:j]})
			i = j
		}
	}
	if len(stack) != 0 || len(cur.list) != 1 {
		return nil
	}
	return cur.list[0]
}

func (e *sexp) head() string {
	if len(e.list) > 0 {
		return e.list[0].atom
	}
	return ""
}

func (e *sexp) write(b *strings.Builder) {
	if e.list == nil {
		b.WriteString(e.atom)
		return
	}
	b.WriteByte('(')
	for i, c := range e.list {
		if i > 0 {
			b.WriteByte(' ')
		}
		c.write(b)
	}
	b.WriteByte(')')
}

func (e *sexp) String() string {
	var b strings.Builder
	e.write(&b)
	return b.String()
}

// rename replaces variables (bound names are unique, so that nothing is captured)
func (e *sexp) rename(m map[string]string) *sexp {
	if e.list == nil {
		if n, ok := m[e.atom]; ok {
			return &sexp{atom: n}
		}
		return e
	}
	r := &sexp{list: make([]*sexp, len(e.list))}
	for i, c := range e.list {
		r.list[i] = c.rename(m)
	}
	return r
}

// skolemized splits a goal into hypotheses and a goal without outer quantifiers.
// Array reads of the goal that only depend on the skolem constants, but are below an inner quantifier,
// are returned as well: they are not visible to the instantiation otherwise.
func (s *Solver) skolemized(goal string) (hyps []string, rest string, touch []string, ok bool) {
	if !strings.Contains(goal, "(forall ") || !strings.Contains(goal, "(exists ") || len(goal) > 200000 {
		return
	}
	e := parseSexp(goal)
	if e == nil {
		return
	}
	sk := map[string]bool{}
	for {
		switch e.head() {
		case "forall":
			if len(e.list) != 3 {
				return
			}
			m := map[string]string{}
			for _, d := range e.list[1].list {
				c := s.Fresh("sk", Sort(d.list[1].String()))
				m[d.list[0].atom] = c.S
				sk[c.S] = true
			}
			e = e.list[2].rename(m)
			continue
		case "!":
			e = e.list[1]
			continue
		case "=>":
			if len(e.list) == 3 {
				hyps = append(hyps, e.list[1].String())
				e = e.list[2]
				continue
			}
		}
		break
	}
	if len(sk) == 0 {
		return
	}
	seen := map[string]bool{}
	var visit func(e *sexp, bound map[string]bool) (ground, skolem bool)
	visit = func(e *sexp, bound map[string]bool) (ground, skolem bool) {
		if e.list == nil {
			return !bound[e.atom], sk[e.atom]
		}
		if h := e.head(); h == "forall" || h == "exists" {
			b := map[string]bool{}
			for n := range bound {
				b[n] = true
			}
			for _, d := range e.list[1].list {
				b[d.list[0].atom] = true
			}
			visit(e.list[2], b)
			return false, false
		}
		ground = true
		for _, c := range e.list {
			g, k := visit(c, bound)
			ground = ground && g
			skolem = skolem || k
		}
		if ground && skolem && e.head() == "select" && len(bound) > 0 {
			t := e.String()
			if !seen[t] {
				seen[t] = true
				touch = append(touch, t)
			}
		}
		return
	}
	visit(e, map[string]bool{})
	return hyps, e.String(), touch, true
}

// proveSkolemized tries again with the reads of the goal made visible
func (s *Solver) proveSkolemized(t Term) bool {
	s.Push()
	defer s.Pop()
	hyps, rest, touch, ok := s.skolemized(t.S)
	if !ok || len(touch) == 0 || len(touch) > 40 {
		return false
	}
	for _, h := range hyps {
		s.Assert(Term{S: h, Sort: SBool})
	}
	for _, r := range touch {
		srt := s.sortOf(parseSexp(r))
		if srt == "" {
			continue
		}
		c := s.Fresh("touch", srt)
		s.Assert(Term{S: "(= " + c.S + " " + r + ")", Sort: SBool})
	}
	s.Assert(tNot(Term{S: rest, Sort: SBool}))
	return s.check(candTimeout) == Unsat
}

func (s *Solver) retrySkolemized(t Term) bool {
	s.Pop() // without the goal
	ok := s.proveSkolemized(t)
	s.Push()
	s.Assert(tNot(t))
	return ok
}

// sortOf a term made of constants, selections and updates
func (s *Solver) sortOf(e *sexp) Sort {
	if e.list == nil {
		return s.sorts[e.atom]
	}
	switch e.head() {
	case "select":
		a := s.sortOf(e.list[1])
		if a == "" {
			return ""
		}
		t := parseSexp(string(a))
		if t.head() != "Array" || len(t.list) != 3 {
			return ""
		}
		return Sort(t.list[2].String())
	case "store":
		return s.sortOf(e.list[1])
	case "ite":
		return s.sortOf(e.list[2])
	}
	return ""
}

// noteSort remembers the sort of a declared constant
func (s *Solver) noteSort(line string) {
	if !strings.HasPrefix(line, "(declare-const ") {
		return
	}
	n, srt, ok := strings.Cut(line[len("(declare-const "):len(line)-1], " ")
	if !ok {
		return
	}
	if s.sorts == nil {
		s.sorts = map[string]Sort{}
	}
	s.sorts[n] = Sort(srt)
}
