package main

// Solver processes and a pool of them.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type Solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReader(o)
	return s.cmd.Start()
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) check(q string, timeoutMs int) (Result, string) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, err.Error()
		}
	}
	var pre, post string
	switch s.name {
	case "branch":
		// resetting costs more than these queries
		if s.n++; s.n%500 == 0 {
			s.kill()
			s.start()
		}
		pre = fmt.Sprintf("(set-option :timeout %d)\n(push)\n", timeoutMs)
		post = "(pop)\n"
	case "cvc5":
		pre = fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", timeoutMs)
	default:
		pre = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", timeoutMs)
	}
	type rr struct {
		r   Result
		msg string
	}
	ch := make(chan rr, 1)
	go func() {
		if _, err := io.WriteString(s.in, pre+q+"(check-sat)\n"+post+"(echo \"DONE\")\n"); err != nil {
			ch <- rr{Unknown, err.Error()}
			return
		}
		res := Unknown
		msg := ""
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- rr{Unknown, "solver died: " + err.Error()}
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat":
				res = Sat
			case "unsat":
				res = Unsat
			case "unknown", "timeout":
				res = Unknown
				msg = line
			case "DONE", "\"DONE\"":
				ch <- rr{res, msg}
				return
			default:
				if strings.Contains(line, "error") {
					msg += line
					res = Unknown
				}
			}
		}
	}()
	select {
	case x := <-ch:
		if strings.HasPrefix(x.msg, "solver died") {
			s.kill()
		}
		if strings.Contains(x.msg, "error") {
			return Unknown, x.msg
		}
		return x.r, x.msg
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
		s.kill()
		return Unknown, "timeout"
	}
}

type Pool struct {
	free chan *slot
}

type slot struct {
	z3, z3n, cvc5, br *Solver
}

var (
	statQueries int64
	statTimeNs  int64
	statBackend sync.Map // name -> *int64
)

func backendCount(name string) {
	v, _ := statBackend.LoadOrStore(name, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

func NewPool(n int) *Pool {
	p := &Pool{free: make(chan *slot, n)}
	for i := 0; i < n; i++ {
		p.free <- &slot{
			z3:   &Solver{name: "z3", args: []string{"z3", "-in"}},
			z3n:  &Solver{name: "z3-new", args: []string{"z3-new", "-in"}},
			br:   &Solver{name: "branch", args: []string{"z3", "-in"}},
			cvc5: &Solver{name: "cvc5", args: []string{"cvc5", "--incremental", "--lang=smt2"}},
		}
	}
	return p
}

func (p *Pool) Close() {
	for i := 0; i < cap(p.free); i++ {
		s := <-p.free
		s.z3.kill()
		s.z3n.kill()
		s.br.kill()
		s.cvc5.kill()
	}
}

// Check decides satisfiability. full: also try the fallback solvers.
func (p *Pool) Check(asserts []*Term, timeoutMs int, full bool) (Result, string) {
	for _, a := range asserts {
		if a.Op == "false" {
			backendCount("simplifier")
			return Unsat, "simplifier"
		}
	}
	q := printQuery(asserts)
	s := <-p.free
	defer func() { p.free <- s }()
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&statQueries, 1)
		atomic.AddInt64(&statTimeNs, int64(time.Since(t0)))
	}()
	if timeoutMs == feasMs {
		return s.br.check(q, timeoutMs)
	}
	r, msg := s.z3.check(q, timeoutMs)
	if strings.Contains(msg, "error") {
		panic("solver error: " + msg + "\n" + q)
	}
	if r != Unknown || !full {
		if r == Unsat {
			backendCount("z3-4.8.12")
		}
		return r, "z3"
	}
	r, msg = s.z3n.check(q, timeoutMs*2)
	if r != Unknown {
		if r == Unsat {
			backendCount("z3-5.3.2")
		}
		return r, "z3-new"
	}
	r, msg = s.cvc5.check(q, timeoutMs*2)
	if r == Unsat {
		backendCount("cvc5-1.1.2")
	}
	return r, "cvc5 " + msg
}
