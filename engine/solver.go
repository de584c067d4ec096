package main

// A persistent SMT solver process driven over a pipe.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Stats are shared by all workers.
type Stats struct {
	Queries, SatN, UnsatN, UnknownN, ModelHits, Fallbacks int64
	SolverNS                                              int64
}

var stats Stats
var dumpN int64

type Solver struct {
	cmd       *exec.Cmd
	in        *bufio.Writer
	inRaw     io.WriteCloser
	out       *bufio.Reader
	timeoutMS int

	pr      *printer // declared in the current path scope
	sb      strings.Builder
	script  strings.Builder // everything asserted on this path, for fallback solvers
	pending []*Term
	dead    bool
}

func newSolver(timeoutMS int) (*Solver, error) {
	s := &Solver{timeoutMS: timeoutMS}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	bin := os.Getenv("GOSYM_Z3")
	if bin == "" {
		bin = "z3-new"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :model.completion true)\n(push 1)\n", s.firstMS())
	s.dead = false
	s.pr = &printer{done: map[*Term]bool{}, sb: &s.sb}
	return nil
}

// firstMS is what the incremental solver gets before the portfolio takes over:
// without preprocessing it rarely finds later what it did not find at once.
func (s *Solver) firstMS() int {
	if s.timeoutMS > 1000 {
		return 1000
	}
	return s.timeoutMS
}

func (s *Solver) restart() {
	pr := s.pr
	s.close()
	if err := s.start(); err != nil {
		panic(err)
	}
	s.pr = pr
	s.in.WriteString(s.script.String())
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// newPath drops everything of the previous path.
func (s *Solver) newPath() {
	s.pending = s.pending[:0]
	s.sb.Reset()
	s.script.Reset()
	s.pr = &printer{done: map[*Term]bool{}, sb: &s.sb}
	if s.dead {
		s.close()
		if err := s.start(); err != nil {
			panic(err)
		}
		return
	}
	s.in.WriteString("(pop 1)\n(push 1)\n")
}

// assert adds t to the path condition (sent lazily).
func (s *Solver) assert(t *Term) { s.pending = append(s.pending, t) }

func (s *Solver) flush() {
	for _, t := range s.pending {
		s.pr.emit(t)
		fmt.Fprintf(&s.sb, "(assert %s)\n", s.pr.ref(t))
	}
	s.pending = s.pending[:0]
	if s.sb.Len() > 0 {
		str := s.sb.String()
		s.in.WriteString(str)
		s.script.WriteString(str)
		s.sb.Reset()
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides PC and extra; on Sat it returns a model over vars.
func (s *Solver) check(extra *Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.SolverNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.Queries, 1)
	if s.dead {
		return s.fallback(extra, vars)
	}
	s.flush()
	if extra != nil {
		s.pr.emit(extra)
		str := s.sb.String()
		s.in.WriteString(str)
		s.script.WriteString(str)
		s.sb.Reset()
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.pr.ref(extra))
	}
	s.in.WriteString("(check-sat)\n")
	if s.in.Flush() != nil {
		s.dead = true
		return s.fallback(extra, vars)
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line, err)
		}
		s.dead = true
		return s.fallback(extra, vars)
	}
	var res SatResult
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = s.getModel(vars)
		if m == nil {
			return s.fallback(extra, vars)
		}
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		n := atomic.AddInt64(&dumpN, 1)
		x := ""
		if extra != nil {
			x = "(assert " + s.pr.ref(extra) + ")\n"
		}
		os.WriteFile(fmt.Sprintf("%s/%06d-%s-%d.smt2", d, time.Since(t0).Milliseconds(), line, n), []byte("(set-logic QF_BV)\n"+s.script.String()+x+"(check-sat)\n"), 0644)
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	if res == Unknown {
		// an interrupted incremental context is not trusted again: the process
		// is replaced and the path's script replayed into the new one
		s.restart()
		return s.fallback(extra, vars)
	}
	if res == Sat {
		atomic.AddInt64(&stats.SatN, 1)
	} else {
		atomic.AddInt64(&stats.UnsatN, 1)
	}
	return res, m
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	var ask []*Term
	for _, v := range vars {
		if s.pr.done[v] {
			ask = append(ask, v)
		}
	}
	if len(ask) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range ask {
		fmt.Fprintf(s.in, "v%d ", v.id)
	}
	s.in.WriteString("))\n")
	if s.in.Flush() != nil {
		s.dead = true
		return nil
	}
	if !readModel(s.out, ask, m) {
		s.dead = true
		return nil
	}
	return m
}

// readModel parses ((v1 #x00) (v2 true) ...).
func readModel(out *bufio.Reader, ask []*Term, m Model) bool {
	depth := 0
	var sb strings.Builder
	for {
		ch, err := out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(ch)
		if ch == '(' {
			depth++
		} else if ch == ')' {
			depth--
			if depth == 0 {
				break
			}
		} else if depth == 0 && (ch == '\n' || ch == ' ') {
			sb.Reset()
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return false
	}
	byID := map[string]*Term{}
	for _, v := range ask {
		byID[fmt.Sprintf("v%d", v.id)] = v
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byID[toks[i]]
		if !ok {
			continue
		}
		val := toks[i+1]
		n := new(big.Int)
		switch {
		case val == "true":
			n.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			n.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			n.SetString(val[2:], 2)
		case val == "_": // (_ bvN w)
			n.SetString(strings.TrimPrefix(toks[i+2], "bv"), 10)
		default:
			return false
		}
		m[v] = n
		i++
	}
	return true
}

// fallback runs the whole path script on other solvers.
func (s *Solver) fallback(extra *Term, vars []*Term) (SatResult, Model) {
	atomic.AddInt64(&stats.Fallbacks, 1)
	if extra != nil {
		s.pr.emit(extra)
	}
	s.flushDead()
	var q strings.Builder
	q.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	q.WriteString(s.script.String())
	if extra != nil {
		// extra's definitions are already in the script
		fmt.Fprintf(&q, "(assert %s)\n", s.pr.ref(extra))
	}
	q.WriteString("(check-sat)\n")
	var ask []*Term
	for _, v := range vars {
		if s.pr.done[v] {
			ask = append(ask, v)
		}
	}
	tail := ""
	if len(ask) > 0 {
		tail = "(get-value ("
		for _, v := range ask {
			tail += fmt.Sprintf("v%d ", v.id)
		}
		tail += "))\n"
	}
	secs := s.timeoutMS*3/1000 + 5
	// a portfolio, raced: the first definite answer wins
	cmds := [][]string{
		{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", secs*1000)},
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)},
	}
	type answer struct {
		res SatResult
		m   Model
	}
	ch := make(chan answer, len(cmds))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	script := q.String() + tail
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			rd := bufio.NewReader(strings.NewReader(string(out)))
			line, _ := rd.ReadString('\n')
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- answer{Unsat, nil}
				return
			case "sat":
				m := Model{}
				if len(ask) == 0 || readModel(rd, ask, m) {
					ch <- answer{Sat, m}
					return
				}
			}
			ch <- answer{Unknown, nil}
		}()
	}
	for range cmds {
		a := <-ch
		switch a.res {
		case Unsat:
			atomic.AddInt64(&stats.UnsatN, 1)
			return Unsat, nil
		case Sat:
			atomic.AddInt64(&stats.SatN, 1)
			return Sat, a.m
		}
	}
	atomic.AddInt64(&stats.UnknownN, 1)
	return Unknown, nil
}

func (s *Solver) flushDead() {
	for _, t := range s.pending {
		s.pr.emit(t)
		fmt.Fprintf(&s.sb, "(assert %s)\n", s.pr.ref(t))
	}
	if !s.dead {
		// keep the live process in step
		s.in.WriteString(s.sb.String())
	}
	s.pending = s.pending[:0]
	s.script.WriteString(s.sb.String())
	s.sb.Reset()
}
