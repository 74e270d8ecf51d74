package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Result is the answer of a solver
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver drives one incremental z3 process, and keeps the script so that single queries can be handed to other solvers.
type Solver struct {
	sorts  map[string]Sort // of constants
	facts  []fact
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader

	script []string // commands in the current scopes
	marks  []int
	next   int

	declared map[string]bool // global declarations (never popped)
	pre      []string        // global declarations in order

	Queries  int
	Time     time.Duration
	ByBack   map[string]int
	FBTime   time.Duration
	quiet    int // no facts, no names: inside of quantifiers
	deadline time.Time
	prelude  string
	memo     map[string]Term
	memoKeys []string
	memoMark []int
	defs     map[string]Term
}

var solverBin = "z3-new"

func NewSolver(prelude string, deadline time.Time) *Solver {
	s := &Solver{declared: map[string]bool{}, ByBack: map[string]int{}, deadline: deadline, prelude: prelude, memo: map[string]Term{}, defs: map[string]Term{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	s.inPipe, _ = s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(s.inPipe, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.in.WriteString("(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n")
	s.in.WriteString(s.prelude)
	s.in.WriteString("\n")
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// restart restarts the process, replaying the current scopes.
func (s *Solver) restart() {
	s.Close()
	s.start()
	for _, l := range s.pre {
		s.in.WriteString(l + "\n")
	}
	m := 0
	for i := range s.facts {
		s.facts[i].level = 0
	}
	for i, l := range s.script {
		for m < len(s.marks) && s.marks[m] == i {
			s.in.WriteString("(push)\n")
			m++
		}
		s.in.WriteString(l + "\n")
	}
	for m < len(s.marks) {
		s.in.WriteString("(push)\n")
		m++
	}
}

func (s *Solver) emit(line string) {
	s.noteSort(line)
	s.script = append(s.script, line)
	s.in.WriteString(line)
	s.in.WriteString("\n")
}

func (s *Solver) Push() {
	s.marks = append(s.marks, len(s.script))
	s.memoMark = append(s.memoMark, len(s.memoKeys))
	s.in.WriteString("(push)\n")
}

func (s *Solver) Pop() {
	n := len(s.marks) - 1
	s.script = s.script[:s.marks[n]]
	s.marks = s.marks[:n]
	for _, k := range s.memoKeys[s.memoMark[n]:] {
		delete(s.memo, k)
	}
	s.memoKeys = s.memoKeys[:s.memoMark[n]]
	s.memoMark = s.memoMark[:n]
	s.in.WriteString("(pop)\n")
	for i := range s.facts {
		if s.facts[i].level > n {
			s.facts[i].level = n
			s.in.WriteString(s.facts[i].line + "\n")
		}
	}
}

// fact is an assertion that holds in every scope
type fact struct {
	line  string
	level int
}

// Fact asserts something about globally declared symbols, in every scope
func (s *Solver) Fact(name, line string) {
	if s.declared[name] {
		return
	}
	s.declared[name] = true
	s.pre = append(s.pre, line)
	s.in.WriteString(line + "\n")
	s.facts = append(s.facts, fact{line, len(s.marks)})
}

// Global declares something that stays declared forever.
// z3 pops declarations made inside of scopes, so they are repeated when needed (global-declarations is set).
func (s *Solver) Global(name, line string) {
	if s.declared[name] {
		return
	}
	s.declared[name] = true
	s.noteSort(line)
	s.pre = append(s.pre, line)
	s.in.WriteString(line + "\n")
}

func sanitize(n string) string {
	var b strings.Builder
	for _, c := range n {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.':
			b.WriteRune(c)
		case c == '[' || c == ']' || c == '*' || c == '/' || c == ',' || c == '(' || c == ')' || c == ':' || c == '$' || c == '#':
			b.WriteRune('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	r := b.String()
	if r[0] >= '0' && r[0] <= '9' {
		r = "n" + r
	}
	if len(r) > 60 {
		r = r[len(r)-60:]
		if r[0] >= '0' && r[0] <= '9' || r[0] == '.' {
			r = "n" + r
		}
	}
	return r
}

// Fresh declares a fresh constant
func (s *Solver) Fresh(name string, sort Sort) Term {
	s.next++
	n := fmt.Sprintf("%s!%d", sanitize(name), s.next)
	s.emit("(declare-const " + n + " " + sort + ")")
	return Term{S: n, Sort: sort, ID: s.next}
}

// Name gives a name to a big term.
func (s *Solver) Name(name string, t Term) Term {
	if len(t.S) < 40 || s.quiet > 0 {
		return t
	}
	if c, ok := s.memo[t.S]; ok {
		return c
	}
	c := s.Fresh(name, t.Sort)
	s.emit("(assert (= " + c.S + " " + t.S + "))")
	c.ID = t.ID
	s.memo[t.S] = c
	s.memoKeys = append(s.memoKeys, t.S)
	s.defs[c.S] = t
	return c
}

// Expand replaces all names that were introduced after the given point by their definitions.
// It fails if the term really depends on something newer.
func (s *Solver) Expand(t Term, maxID int) (Term, bool) {
	if t.ID > maxID {
		return t, false
	}
	out, ok := s.expand(t.S, maxID, 0)
	return Term{S: out, Sort: t.Sort, ID: t.ID}, ok
}

func (s *Solver) expand(e string, maxID int, depth int) (string, bool) {
	if depth > 40 || len(e) > 20000 {
		return "", false
	}
	if !strings.Contains(e, "!") {
		return e, true
	}
	var b strings.Builder
	i := 0
	for i < len(e) {
		c := e[i]
		if c == '(' || c == ')' || c == ' ' {
			b.WriteByte(c)
			i++
			continue
		}
		j := i
		for j < len(e) && e[j] != '(' && e[j] != ')' && e[j] != ' ' {
			j++
		}
		tok := e[i:j]
		i = j
		if k := strings.LastIndexByte(tok, '!'); k >= 0 {
			var n int
			if _, err := fmt.Sscanf(tok[k+1:], "%d", &n); err == nil && n > maxID && !strings.HasPrefix(tok, "H0_") {
				d, ok := s.defs[tok]
				if !ok {
					return "", false
				}
				r, ok := s.expand(d.S, maxID, depth+1)
				if !ok {
					return "", false
				}
				b.WriteString(r)
				continue
			}
		}
		b.WriteString(tok)
	}
	return b.String(), true
}

func (s *Solver) Assert(t Term) {
	if t.S == "true" || s.quiet > 0 {
		return
	}
	s.emit("(assert " + t.S + ")")
}

func (s *Solver) readLine() (string, error) {
	type res struct {
		l   string
		err error
	}
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check runs check-sat in the current scope with the given timeout
func (s *Solver) check(timeout time.Duration) Result {
	if time.Now().After(s.deadline) {
		return Unknown
	}
	start := time.Now()
	s.Queries++
	defer func() {
		s.Time += time.Since(start)
		if d := os.Getenv("GOCV_SLOW"); d != "" && (time.Since(start) > 700*time.Millisecond || os.Getenv("GOCV_ALL") != "") {
			os.WriteFile(fmt.Sprintf("%s/slow-%d.smt2", d, s.Queries), []byte(s.Script()), 0o644)
		}
	}()
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n", timeout.Milliseconds())
	s.in.Flush()
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	out := s.out
	go func() {
		for {
			l, err := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && l == "" {
				continue
			}
			ch <- res{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		switch r.l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if r.err != nil {
			s.restart()
			return Unknown
		}
		if os.Getenv("GOCV_DUMP") != "" {
			os.WriteFile(os.Getenv("GOCV_DUMP"), []byte(s.prelude+"\n"+strings.Join(s.pre, "\n")+"\n"+strings.Join(s.script, "\n")), 0o644)
		}
		panic("solver: " + r.l)
	case <-time.After(timeout*3 + 2*time.Second):
		s.restart()
		return Unknown
	}
}

// Feasible reports if the current scope together with t may be satisfiable.
func (s *Solver) Feasible(t Term) bool {
	if t.S == "false" {
		return false
	}
	s.Push()
	s.Assert(t)
	r := s.check(feasTimeout)
	s.Pop()
	return r != Unsat
}

var (
	feasTimeout  = 400 * time.Millisecond
	candTimeout  = 1500 * time.Millisecond
	proveTimeout = 4000 * time.Millisecond
	fbTimeout    = 20 * time.Second
)

// Prove tries to prove t in the current scope, falling back to the other solvers.
// backend names the solver that gave the verdict.
func (s *Solver) Prove(t Term, fallback bool) (r Result, backend string) {
	if t.S == "true" {
		s.ByBack["simplify"]++
		return Unsat, "simplify"
	}
	s.Push()
	defer s.Pop()
	s.Assert(tNot(t))
	to := proveTimeout
	if !fallback {
		to = candTimeout
	}
	r = s.check(to)
	if r == Unsat {
		s.ByBack[solverBin]++
		return r, solverBin
	}
	if r == Unknown && s.retrySkolemized(t) {
		s.ByBack[solverBin]++
		return Unsat, solverBin
	}
	if !fallback {
		return r, solverBin
	}
	if r == Sat {
		return r, solverBin
	}
	// hand the query to the other solvers
	r, backend = s.portfolio()
	if r == Unsat {
		s.ByBack[backend]++
	}
	return r, backend
}

// Script returns the current query as a complete script
func (s *Solver) Script(extra ...string) string {
	return s.prelude + "\n" + strings.Join(s.pre, "\n") + "\n" + strings.Join(s.script, "\n") + "\n" + strings.Join(extra, "\n") + "\n(check-sat)\n"
}

func (s *Solver) portfolio() (Result, string) {
	if time.Now().After(s.deadline) {
		return Unknown, "deadline"
	}
	start := time.Now()
	defer func() { s.FBTime += time.Since(start) }()
	f, err := os.CreateTemp("", "gocv-*.smt2")
	if err != nil {
		return Unknown, "io"
	}
	f.WriteString(s.Script())
	f.Close()
	defer os.Remove(f.Name())

	ctx, cancel := context.WithTimeout(context.Background(), fbTimeout)
	defer cancel()
	type ans struct {
		r Result
		b string
	}
	cmds := map[string][]string{
		"z3-new-fresh": {"z3-new", f.Name()},
		"z3-4.8":       {"z3", f.Name()},
		"cvc5":         {"cvc5", "--lang=smt2", f.Name()},
		"cvc5-enum":    {"cvc5", "--lang=smt2", "--enum-inst", f.Name()},
		"z3-new-mbqi0": {"z3-new", "smt.mbqi=false", "smt.auto_config=false", f.Name()},
	}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for b, c := range cmds {
		wg.Add(1)
		go func(b string, c []string) {
			defer wg.Done()
			out, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			r := Unknown
			for _, l := range strings.Split(string(out), "\n") {
				switch strings.TrimSpace(l) {
				case "sat":
					r = Sat
				case "unsat":
					r = Unsat
				}
			}
			ch <- ans{r, b}
		}(b, c)
	}
	res := ans{Unknown, "portfolio"}
	for range cmds {
		a := <-ch
		if a.r == Unsat {
			cancel()
			res = a
			break
		}
		if a.r == Sat && res.r == Unknown {
			res = a
		}
	}
	return res.r, res.b
}
