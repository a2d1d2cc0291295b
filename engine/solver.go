package main

// Incremental SMT solver process speaking SMT-LIB2 over pipes.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

// hardDeadline ends all solving: every later query is unknown.
var hardDeadline time.Time

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	MaxTime  time.Duration
	Restarts int
}

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	bank    *TermBank
	gen     int // definition generation; terms with smt==gen are defined
	pending []*Term
	vars    []*Term
	Stats   SolverStats
	tmoMS   int
	errs    []string
	log     []*Term // everything asserted on the current path
}

var solverGen = 0

func NewSolver(bank *TermBank, bin string, args []string, tmoMS int) (*Solver, error) {
	s := &Solver{bin: bin, args: args, bank: bank, tmoMS: tmoMS}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmoMS)
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n", s.tmoMS)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n(push 1)\n")
	s.gen++
	s.vars = nil
	s.pending = nil
	return nil
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// Reset starts a fresh bank and solver process.
func (s *Solver) Reset(bank *TermBank) error {
	s.Close()
	s.bank = bank
	s.Stats.Restarts++
	return s.start()
}

// NewPath drops all assertions.
func (s *Solver) NewPath() {
	fmt.Fprintf(s.in, "(pop 1)\n(push 1)\n")
	s.pending = s.pending[:0]
	s.vars = s.vars[:0]
	s.log = s.log[:0]
}

// revive restarts a dead solver process with the assertions of the current path.
func (s *Solver) revive() {
	vars, log := s.vars, append(append([]*Term{}, s.log...), s.pending...)
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.Stats.Restarts++
	if err := s.start(); err != nil {
		return
	}
	s.vars = vars
	s.pending = log
	s.log = nil
}

// UseVar registers a variable for the current path, asserting its domain.
func (s *Solver) UseVar(v *Term) {
	s.vars = append(s.vars, v)
	s.define(v)
	if v.w != 0 {
		s.pending = append(s.pending, v) // marker: domain
	}
}

func (s *Solver) Assert(t *Term) { s.pending = append(s.pending, t) }

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.smt == s.gen {
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OpConst || x.smt == s.gen {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OpVar {
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", x.refSMT(), sortName(x.w))
			x.smt = s.gen
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for i := 0; i < x.n; i++ {
			c := x.a[i]
			if c.op != OpConst && c.smt != s.gen {
				stack = append(stack, c)
				ready = false
			}
		}
		if ready {
			fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", x.refSMT(), sortName(x.w), x.bodySMT())
			x.smt = s.gen
			stack = stack[:len(stack)-1]
		}
	}
}

func (s *Solver) flush() {
	s.log = append(s.log, s.pending...)
	for _, t := range s.pending {
		s.define(t)
		if t.op == OpVar && t.w != 0 {
			if d := t.domSMT(); d != "" {
				fmt.Fprintf(s.in, "(assert %s)\n", d)
			}
			continue
		}
		if t.op == OpVar && t.w == 0 {
			// boolean variables appear as literals through Assert via Eq; a bare
			// bool var in pending may be a registration or an assertion: the
			// registration case is handled by UseVar never adding booleans.
			fmt.Fprintf(s.in, "(assert %s)\n", t.refSMT())
			continue
		}
		fmt.Fprintf(s.in, "(assert %s)\n", t.refSMT())
	}
	s.pending = s.pending[:0]
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l, nil
	}
}

// Check decides satisfiability of the path condition together with extra.
func (s *Solver) Check(extra *Term, wantModel bool) (SatResult, Model) {
	t0 := time.Now()
	if !hardDeadline.IsZero() && t0.After(hardDeadline) {
		s.Stats.Queries++
		s.Stats.Unknown++
		return Unknown, nil
	}
	// the solver's own timeout does not bound its preprocessing
	proc := s.cmd.Process
	guard := time.AfterFunc(time.Duration(s.tmoMS)*time.Millisecond+3*time.Second, func() { proc.Kill() })
	defer guard.Stop()
	s.flush()
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", extra.refSMT())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	l, err := s.readLine()
	res := Unknown
	if err == nil {
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		default:
			if strings.HasPrefix(l, "(error") {
				s.errs = append(s.errs, l)
			}
		}
	} else {
		s.errs = append(s.errs, "solver died: "+err.Error())
		s.revive()
		extra = nil
	}
	var m Model
	if res == Sat && wantModel {
		m = s.model()
		if m == nil {
			res = Unknown
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res, m
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	fmt.Fprintf(s.in, "(get-value (")
	for _, v := range s.vars {
		s.define(v)
		s.in.WriteString(v.refSMT())
		s.in.WriteByte(' ')
	}
	fmt.Fprintf(s.in, "))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		s.errs = append(s.errs, txt)
		return nil
	}
	// parse pairs (|name| value)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		var name string
		if j < 0 {
			break
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name = strings.TrimPrefix(txt[i:i+k], "[")
		if b := strings.LastIndexByte(name, ']'); b >= 0 {
			name = name[:b]
		}
		i += k + 1
		e := i
		d := 0
		for e < len(txt) {
			if txt[e] == '(' {
				d++
			} else if txt[e] == ')' {
				if d == 0 {
					break
				}
				d--
			}
			e++
		}
		val := strings.TrimSpace(txt[i:e])
		i = e
		var u uint64
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, _ = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			u, _ = strconv.ParseUint(f[0], 10, 64)
		default:
			return nil
		}
		m[name] = u
	}
	// z3 prints simple names without bars: handle by falling back to defaults
	return m
}
