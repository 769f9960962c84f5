package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT-LIB2 process. Definitions are global; the path
// condition lives in one push scope.
type Solver struct {
	bank    *TermBank
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	vars    map[string]*Term
	pcLen   int // number of PC terms asserted in the current scope
	scoped  bool
	name    string
	args    []string
	timeout int // ms per query

	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	errs                         []string
}

func NewSolver(bank *TermBank, name string, args ...string) (*Solver, error) {
	s := &Solver{bank: bank, name: name, args: args, timeout: 10000}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.vars = map[string]*Term{}
	s.pcLen, s.scoped = 0, false
	s.in.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.name, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	s.in.WriteString("(set-logic ALL)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	for _, a := range t.a {
		if a != nil {
			s.define(a)
		}
	}
	s.defined[t.id] = true
	if t.op == OVar {
		s.vars[t.name] = t
		fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, t.sort)
		return
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, t.sort, s.bank.body(t))
}

// NewPath drops the previous path's assertions.
func (s *Solver) NewPath() {
	if s.scoped {
		s.in.WriteString("(pop 1)\n")
	}
	if len(s.defined) > 400000 {
		s.restart()
	}
	s.in.WriteString("(push 1)\n")
	s.scoped = true
	s.pcLen = 0
}

func (s *Solver) sync(pc []*Term) {
	for _, t := range pc[s.pcLen:] {
		s.define(t)
		fmt.Fprintf(s.in, "(assert %s)\n", ref(s.bank, t))
	}
	s.pcLen = len(pc)
}

type SatRes int

const (
	RUnknown SatRes = iota
	RSat
	RUnsat
)

// Check decides pc AND extra. With wantModel it also returns a model.
func (s *Solver) Check(pc []*Term, extra *Term, want []*Term) (SatRes, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	s.define(extra)
	for _, v := range want {
		s.define(v)
	}
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n", ref(s.bank, extra))
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.errs = append(s.errs, "solver died: "+err.Error())
		s.restart()
		s.in.WriteString("(push 1)\n")
		s.scoped = true
		s.Unknown++
		return RUnknown, nil
	}
	res := RUnknown
	switch line {
	case "sat":
		res = RSat
		s.Sat++
	case "unsat":
		res = RUnsat
		s.Unsat++
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.errs = append(s.errs, line)
		}
	}
	var m Model
	if res == RSat {
		m = Model{}
		if len(want) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range want {
				fmt.Fprintf(s.in, "%s ", ref(s.bank, v))
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.errs = append(s.errs, "get-value: "+txt)
				res = RUnknown
			} else {
				parseValues(txt, want, m)
			}
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return strings.TrimSpace(b.String()), nil
			}
		}
	}
}

// parseValues reads ((|x| #x01) (|y| true) ...) in order of want.
func parseValues(txt string, want []*Term, m Model) {
	toks := tokenize(txt)
	i := 1
	for _, v := range want {
		// "(" name value ")"
		i++ // (
		i++ // name
		val, n := parseVal(toks, i, v.sort)
		i = n
		i++ // )
		m[v.name] = val
	}
}

func tokenize(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			r = append(r, s[i:i+1])
			i++
		case c == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			r = append(r, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

func parseLit(t string) uint64 {
	switch {
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v
	case t == "true":
		return 1
	case strings.HasPrefix(t, "bv"):
		v, _ := strconv.ParseUint(t[2:], 10, 64)
		return v
	}
	return 0
}

func parseVal(toks []string, i int, s Sort) (uint64, int) {
	if toks[i] != "(" {
		return parseLit(toks[i]), i + 1
	}
	// compound: (_ bvN w), (fp s e m), (_ +zero 11 53), (_ NaN ..), (_ +oo ..)
	j := i
	depth := 0
	for {
		if toks[j] == "(" {
			depth++
		}
		if toks[j] == ")" {
			depth--
			if depth == 0 {
				break
			}
		}
		j++
	}
	body := toks[i+1 : j]
	var v uint64
	eb, mb := uint(11), uint(52)
	if s.W == 32 {
		eb, mb = 8, 23
	}
	switch {
	case body[0] == "fp":
		v = parseLit(body[1])<<(eb+mb) | parseLit(body[2])<<mb | parseLit(body[3])
	case body[0] == "_":
		switch body[1] {
		case "+zero":
			v = 0
		case "-zero":
			v = 1 << (eb + mb)
		case "+oo":
			v = ((1 << eb) - 1) << mb
		case "-oo":
			v = ((1<<eb)-1)<<mb | 1<<(eb+mb)
		case "NaN":
			v = ((1<<eb)-1)<<mb | 1<<(mb-1)
		default:
			v = parseLit(body[1])
		}
	}
	return v, j + 1
}
