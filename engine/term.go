package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Sort is an SMT-LIB sort.
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

// Term is an SMT-LIB term. Terms stay small: everything big is named by the solver (see Solver.Name).
type Term struct {
	S    string
	Sort Sort
	ID   int // largest id of any generated constant that occurs in the term
}

func (t Term) String() string { return t.S }
func (t Term) ok() bool       { return t.S != "" }

func maxID(ts ...Term) int {
	m := 0
	for _, t := range ts {
		if t.ID > m {
			m = t.ID
		}
	}
	return m
}

func app(sort Sort, op string, ts ...Term) Term {
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(op)
	for _, t := range ts {
		b.WriteString(" ")
		b.WriteString(t.S)
	}
	b.WriteString(")")
	return Term{S: b.String(), Sort: sort, ID: maxID(ts...)}
}

var (
	tTrue  = Term{S: "true", Sort: SBool}
	tFalse = Term{S: "false", Sort: SBool}
)

func tInt(i int64) Term {
	if i < 0 {
		return Term{S: fmt.Sprintf("(- %d)", -i), Sort: SInt}
	}
	return Term{S: fmt.Sprint(i), Sort: SInt}
}

func tBig(i *big.Int) Term {
	if i.Sign() < 0 {
		return Term{S: "(- " + new(big.Int).Neg(i).String() + ")", Sort: SInt}
	}
	return Term{S: i.String(), Sort: SInt}
}

func tBool(b bool) Term {
	if b {
		return tTrue
	}
	return tFalse
}

// lit returns the integer value of a literal
func (t Term) lit() (*big.Int, bool) {
	if t.Sort != SInt || t.S == "" {
		return nil, false
	}
	s := t.S
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
		neg = true
	}
	if s == "" || s[0] < '0' || s[0] > '9' {
		return nil, false
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

func tAnd(ts ...Term) Term {
	var out []Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.S == "true" || seen[t.S] {
			continue
		}
		if t.S == "false" {
			return tFalse
		}
		seen[t.S] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return app(SBool, "and", out...)
}

func tOr(ts ...Term) Term {
	var out []Term
	for _, t := range ts {
		if t.S == "false" {
			continue
		}
		if t.S == "true" {
			return tTrue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return app(SBool, "or", out...)
}

func tNot(t Term) Term {
	switch t.S {
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	if strings.HasPrefix(t.S, "(not ") {
		return Term{S: t.S[5 : len(t.S)-1], Sort: SBool, ID: t.ID}
	}
	return app(SBool, "not", t)
}

func tImp(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	return app(SBool, "=>", a, b)
}

func tIte(c, a, b Term) Term {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.S == b.S {
		return a
	}
	return app(a.Sort, "ite", c, a, b)
}

func tEq(a, b Term) Term {
	if a.S == b.S {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a.S, a.Sort, b.S, b.Sort))
	}
	if x, ok := a.lit(); ok {
		if y, ok := b.lit(); ok {
			return tBool(x.Cmp(y) == 0)
		}
	}
	if a.Sort == SBool {
		if a.S == "true" {
			return b
		}
		if b.S == "true" {
			return a
		}
		if a.S == "false" {
			return tNot(b)
		}
		if b.S == "false" {
			return tNot(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return tFalse
	}
	return app(SBool, "=", a, b)
}

func isStrLit(t Term) bool { return strings.HasPrefix(t.S, "strlit_") }

func tCmp(op string, a, b Term) Term {
	if x, ok := a.lit(); ok {
		if y, ok := b.lit(); ok {
			c := x.Cmp(y)
			switch op {
			case "<":
				return tBool(c < 0)
			case "<=":
				return tBool(c <= 0)
			case ">":
				return tBool(c > 0)
			case ">=":
				return tBool(c >= 0)
			}
		}
	}
	return app(SBool, op, a, b)
}

func tAdd(a, b Term) Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky {
		return tBig(new(big.Int).Add(x, y))
	}
	if okx && x.Sign() == 0 {
		return b
	}
	if oky && y.Sign() == 0 {
		return a
	}
	return app(SInt, "+", a, b)
}

func tSub(a, b Term) Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky {
		return tBig(new(big.Int).Sub(x, y))
	}
	if oky && y.Sign() == 0 {
		return a
	}
	if a.S == b.S {
		return tInt(0)
	}
	return app(SInt, "-", a, b)
}

func tMul(a, b Term) Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky {
		return tBig(new(big.Int).Mul(x, y))
	}
	if okx && x.IsInt64() && x.Int64() == 1 {
		return b
	}
	if oky && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	return app(SInt, "*", a, b)
}

// tDivT is go's truncated division, tRemT its remainder.
func tDivT(a, b Term) Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky && y.Sign() != 0 {
		return tBig(new(big.Int).Quo(x, y))
	}
	return tIte(tCmp(">=", a, tInt(0)), app(SInt, "div", a, b), app(SInt, "-", app(SInt, "div", app(SInt, "-", a), b)))
}

func tRemT(a, b Term) Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky && y.Sign() != 0 {
		return tBig(new(big.Int).Rem(x, y))
	}
	return tIte(tCmp(">=", a, tInt(0)), app(SInt, "mod", a, b), app(SInt, "-", app(SInt, "mod", app(SInt, "-", a), b)))
}

func arrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// splitArr splits an array sort into its key and element sorts.
func splitArr(s Sort) (k, v Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort: " + s)
}

func tSelect(a, i Term) Term {
	_, v := splitArr(a.Sort)
	return app(v, "select", a, i)
}

func tStore(a, i, v Term) Term {
	return app(a.Sort, "store", a, i, v)
}

func tConstArr(k, v Sort, t Term) Term {
	s := arrSort(k, v)
	return Term{S: "((as const " + s + ") " + t.S + ")", Sort: s, ID: t.ID}
}
