package main

// A solver process driven through a pipe (z3, incremental), with a one-shot
// portfolio fallback (z3 default strategy and cvc5) for queries it gives up on.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Sat SatRes = iota
	Unsat
	Unknown
)

func (r SatRes) String() string { return [...]string{"sat", "unsat", "unknown"}[r] }

type SolverStats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Fallback int
	Time     time.Duration
}

type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	timeout int // ms, incremental
	fbSecs  int // fallback seconds (0 = none)
	Stats   SolverStats

	emitted  map[*Term]string
	declared []*Term
	script   strings.Builder // declarations+asserts of the current path (for fallback)
	pending  strings.Builder
	noteErr  string
}

func NewSolver(c *TermCtx, timeoutMS, fbSecs int) *Solver {
	s := &Solver{c: c, timeout: timeoutMS, fbSecs: fbSecs}
	s.start()
	return s
}

func solverBin() string {
	if b := os.Getenv("VERIF_Z3"); b != "" {
		return b
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin(), "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.w = bufio.NewWriterSize(s.in, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	fmt.Fprintf(s.w, "(set-option :timeout %d)\n(set-option :model.completion true)\n(push)\n", s.timeout)
	s.emitted = map[*Term]string{}
	s.declared = nil
	s.script.Reset()
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Reset begins a new path.
func (s *Solver) Reset() {
	s.raw("(pop)\n(push)\n")
	s.script.Reset()
	s.emitted = map[*Term]string{}
	s.declared = nil
}

func (s *Solver) raw(x string) { s.w.WriteString(x) }
func (s *Solver) say(x string) {
	s.w.WriteString(x)
	s.script.WriteString(x)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst, OpTrue, OpFalse:
		return t.smtExpr(nil)
	}
	if n, ok := s.emitted[t]; ok {
		return n
	}
	if t.op == OpVar {
		n := "|" + t.name + "|"
		s.emitted[t] = n
		s.declared = append(s.declared, t)
		if t.sort == SBool {
			s.say("(declare-const " + n + " Bool)\n")
		} else {
			s.say("(declare-const " + n + " Int)\n")
			if t.lo != nil {
				s.say("(assert (<= " + smtInt(t.lo) + " " + n + "))\n")
			}
			if t.hi != nil {
				s.say("(assert (<= " + n + " " + smtInt(t.hi) + "))\n")
			}
			if d, ok := s.c.dom[t]; ok {
				s.say("(assert (or")
				for _, v := range d {
					s.say(" (= " + n + " " + strconv.FormatInt(v, 10) + ")")
				}
				s.say(" false))\n")
			}
		}
		return n
	}
	e := t.smtExpr(s.ref)
	n := "t" + strconv.Itoa(t.id)
	s.emitted[t] = n
	so := "Int"
	if t.sort == SBool {
		so = "Bool"
	}
	s.say("(define-fun " + n + " () " + so + " " + e + ")\n")
	return n
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	r := s.ref(t)
	s.say("(assert " + r + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc && extra.  On Sat a model of all declared variables is returned.
func (s *Solver) Check(extra *Term) (SatRes, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	defer func() { s.Stats.Time += time.Since(t0) }()
	var r string
	if extra != nil {
		r = s.ref(extra)
	}
	s.raw("(push)\n")
	if extra != nil {
		s.raw("(assert " + r + ")\n")
	}
	s.raw("(check-sat)\n(echo \"@done\")\n")
	s.w.Flush()
	res := Unknown
	bad := false
	for {
		l, err := s.readLine()
		if err != nil {
			s.Close()
			s.restart()
			bad = true
			break
		}
		if l == "@done" || l == "\"@done\"" {
			break
		}
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			bad = true
			s.noteErr = l
		}
	}
	var m Model
	if bad {
		res = Unknown
	}
	if res == Sat && !bad {
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	}
	s.raw("(pop)\n")
	if res == Unknown && s.fbSecs > 0 {
		s.Stats.Fallback++
		res, m = s.fallback(r)
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res, m
}

func (s *Solver) restart() {
	script := s.script.String()
	em, de := s.emitted, s.declared
	s.start()
	s.emitted, s.declared = em, de
	s.say(script)
	s.raw("(push)\n")
}

func (s *Solver) getModel() Model {
	if len(s.declared) == 0 {
		return Model{}
	}
	s.raw("(get-value (")
	for _, v := range s.declared {
		s.raw(" |" + v.name + "|")
	}
	s.raw("))\n(echo \"@done\")\n")
	s.w.Flush()
	var sb strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil
		}
		if l == "@done" || l == "\"@done\"" {
			break
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	return parseModel(sb.String())
}

// parseModel reads ((|name| value) ...)
func parseModel(x string) Model {
	if strings.Contains(x, "(error") {
		return nil
	}
	m := Model{}
	i := 0
	skip := func() {
		for i < len(x) && (x[i] == ' ' || x[i] == '\n') {
			i++
		}
	}
	skip()
	if i >= len(x) || x[i] != '(' {
		return nil
	}
	i++
	for {
		skip()
		if i >= len(x) {
			return nil
		}
		if x[i] == ')' {
			return m
		}
		if x[i] != '(' {
			return nil
		}
		i++
		skip()
		var name string
		if x[i] == '|' {
			j := strings.IndexByte(x[i+1:], '|')
			name = x[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for x[j] != ' ' {
				j++
			}
			name = x[i:j]
			i = j
		}
		skip()
		// value
		var v *big.Int
		if x[i] == '(' { // (- n)
			j := strings.IndexByte(x[i:], ')')
			f := strings.Fields(x[i+1 : i+j])
			if len(f) != 2 || f[0] != "-" {
				return nil
			}
			v, _ = new(big.Int).SetString(f[1], 10)
			if v == nil {
				return nil
			}
			v.Neg(v)
			i += j + 1
		} else {
			j := i
			for x[j] != ')' && x[j] != ' ' {
				j++
			}
			tok := x[i:j]
			switch tok {
			case "true":
				v = one
			case "false":
				v = zero
			default:
				v, _ = new(big.Int).SetString(tok, 10)
				if v == nil {
					return nil
				}
			}
			i = j
		}
		m[name] = v
		skip()
		if i < len(x) && x[i] == ')' {
			i++
		}
	}
}

// fallback runs the query in fresh solver processes.
func (s *Solver) fallback(extra string) (SatRes, Model) {
	var q strings.Builder
	q.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	q.WriteString(s.script.String())
	if extra != "" {
		q.WriteString("(assert " + extra + ")\n")
	}
	q.WriteString("(check-sat)\n")
	if len(s.declared) > 0 {
		q.WriteString("(get-value (")
		for _, v := range s.declared {
			q.WriteString(" |" + v.name + "|")
		}
		q.WriteString("))\n")
	}
	f, err := os.CreateTemp("", "vq*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(q.String())
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.fbSecs+2)*time.Second)
	defer cancel()
	type ans struct {
		r SatRes
		m Model
	}
	ch := make(chan ans, 3)
	run := func(name string, args ...string) {
		out, _ := exec.CommandContext(ctx, name, append(args, f.Name())...).Output()
		txt := string(out)
		nl := strings.IndexByte(txt, '\n')
		if nl < 0 {
			ch <- ans{Unknown, nil}
			return
		}
		switch strings.TrimSpace(txt[:nl]) {
		case "unsat":
			ch <- ans{Unsat, nil}
		case "sat":
			m := Model{}
			if len(s.declared) > 0 {
				m = parseModel(strings.ReplaceAll(txt[nl+1:], "\n", " "))
			}
			if m == nil {
				ch <- ans{Unknown, nil}
			} else {
				ch <- ans{Sat, m}
			}
		default:
			ch <- ans{Unknown, nil}
		}
	}
	go run(solverBin(), "-T:"+strconv.Itoa(s.fbSecs))
	go run("cvc5", "--tlimit="+strconv.Itoa(s.fbSecs*1000))
	go run("cvc5", "--nl-cov", "--tlimit="+strconv.Itoa(s.fbSecs*1000))
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
