// Command verifreplay runs the real code of /repo on concrete inputs and compares it with
// independent oracles. It is built with "go build -overlay" as a package of /repo's module,
// so that it can import internals/...; nothing is written into /repo.
//
// Parent: generates cases (enumerated first, then random until the budget is used) and feeds
// them to worker processes. A worker that dies or hangs is itself an observation.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Case struct {
	Group string `json:"g"`
	In    string `json:"i"`
}

type reply struct {
	OK     bool   `json:"ok"`
	Detail string `json:"d"`
}

type Prop struct {
	Rule   string
	Stands []string
	// Gen emits cases: first the enumerated ones, then random ones until emit returns false.
	Gen func(r *rand.Rand, deep bool, emit func(group, in string) bool)
	// Check returns "" when the real code behaves as the oracle says.
	Check func(group, in string) string
	// Split breaks a failing batch case into its parts.
	Split func(group, in string) []Case
	// Timeout of one case.
	Timeout time.Duration
}

var props = map[string]*Prop{}

type failure struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Input  string `json:"input"`
}

type report struct {
	Cases    int            `json:"cases"`
	Distinct int            `json:"distinct"`
	Groups   map[string]int `json:"groups"`
	Samples  []string       `json:"samples"`
	Rule     string         `json:"rule"`
	Failures []failure      `json:"failures"`
	Error    string         `json:"error"`
	Stands   []string       `json:"stands_in_for"`
}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dir  string
	errb *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 6000 {
		t.b = append([]byte{}, t.b[len(t.b)-4000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(prop, scratch string, n int) (*worker, error) {
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", n))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	w := &worker{dir: dir, errb: &tail{}}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(self, "-worker", "-prop", prop)
	w.cmd.Dir = dir
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	w.cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	w.cmd.Stderr = w.errb
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) stop() {
	w.in.Close()
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Wait()
}

// ask runs one case; dead reports that the worker is gone.
func (w *worker) ask(c Case, to time.Duration) (r reply, dead bool) {
	b, _ := json.Marshal(c)
	type res struct {
		r   reply
		err error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			ch <- res{err: err}
			return
		}
		for {
			line, err := w.out.ReadString('\n')
			if err != nil {
				ch <- res{err: err}
				return
			}
			if !strings.HasPrefix(line, "\x01R ") {
				continue // output of the code under test
			}
			var r reply
			err = json.Unmarshal([]byte(line[3:]), &r)
			ch <- res{r, err}
			return
		}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			w.stop()
			return reply{false, "the compiler process ended (exit or crash) on this input: " + lastLines(w.errb.String())}, true
		}
		return x.r, false
	case <-time.After(to):
		w.stop()
		return reply{false, fmt.Sprintf("no answer within %v", to)}, true
	}
}

func lastLines(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return strings.TrimSpace(s)
}

var outFd *os.File

func workerMain(p *Prop) {
	// the code under test may print to stdout: keep the real one for replies
	fd, _ := syscall.Dup(1)
	outFd = os.NewFile(uintptr(fd), "reply")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	syscall.Dup2(int(null.Fd()), 1)
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	debug.SetMaxStack(256 << 20)
	for {
		line, err := sc.ReadString('\n')
		if err != nil {
			return
		}
		var c Case
		json.Unmarshal([]byte(line), &c)
		d := safeCheck(p, c)
		b, _ := json.Marshal(reply{d == "", d})
		outFd.WriteString("\x01R " + string(b) + "\n")
	}
}

func safeCheck(p *Prop, c Case) (d string) {
	defer func() {
		if x := recover(); x != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "candice/internals/") && !strings.Contains(l, "verifreplay") || strings.Contains(l, "candice/pkg") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			d = fmt.Sprintf("panic: %v\n%s", x, strings.Join(keep, "\n"))
		}
	}()
	return p.Check(c.Group, dec(c.In))
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Int("budget", 20, "seconds")
	outp := flag.String("out", "", "report file")
	deep := flag.Bool("deep", false, "")
	isWorker := flag.Bool("worker", false, "")
	one := flag.String("case", "", "run one case: group:input")
	flag.Parse()
	p := props[*prop]
	rep := &report{Groups: map[string]int{}}
	defer func() {
		if *outp != "" {
			b, _ := json.Marshal(rep)
			os.WriteFile(*outp, b, 0644)
		}
	}()
	if p == nil {
		rep.Error = "no concrete runs for this property"
		return
	}
	if *isWorker {
		workerMain(p)
		return
	}
	if *one != "" {
		g, in, _ := strings.Cut(*one, ":")
		fmt.Println(p.Check(g, in))
		return
	}
	if p.Timeout == 0 {
		p.Timeout = 20 * time.Second
	}
	rep.Rule, rep.Stands = p.Rule, p.Stands
	scratch, err := os.MkdirTemp("", "candreplay")
	if err != nil {
		rep.Error = err.Error()
		return
	}
	defer os.RemoveAll(scratch)
	deadline := time.Now().Add(time.Duration(*budget) * time.Second)
	ch := make(chan Case, 64)
	stop := make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	seen := map[string]bool{}
	var failed []failure
	nw := 8
	var wg sync.WaitGroup
	serial := 0
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			ask := func(c Case) reply {
				for try := 0; ; try++ {
					if w == nil {
						mu.Lock()
						serial++
						n := serial
						mu.Unlock()
						var err error
						if w, err = startWorker(*prop, scratch, n); err != nil {
							return reply{true, ""}
						}
					}
					r, dead := w.ask(c, p.Timeout)
					if dead {
						w = nil
					}
					if !r.OK && try == 0 {
						// confirm in a fresh process
						if w != nil {
							w.stop()
							w = nil
						}
						continue
					}
					return r
				}
			}
			for c := range ch {
				r := ask(c)
				if r.OK {
					continue
				}
				if p.Split != nil {
					found := false
					for _, sc := range p.Split(c.Group, dec(c.In)) {
						sc.In = enc(sc.In)
						if r2 := ask(sc); !r2.OK {
							c, r, found = sc, r2, true
							break
						}
					}
					_ = found
				}
				mu.Lock()
				failed = append(failed, failure{Case: c.Group + ":" + short(dec(c.In)), Detail: r.Detail, Input: dec(c.In)})
				n := len(failed)
				mu.Unlock()
				if n >= 6 {
					once.Do(func() { close(stop) })
				}
			}
		}(i)
	}
	r := rand.New(rand.NewSource(*seed))
	emit := func(group, in string) bool {
		if time.Now().After(deadline) {
			return false
		}
		mu.Lock()
		rep.Cases++
		rep.Groups[group]++
		k := group + "\x00" + in
		if !seen[k] {
			if len(seen) < 2000000 {
				seen[k] = true
			}
			rep.Distinct++
		}
		if rep.Groups[group] <= 2 && len(rep.Samples) < 12 {
			rep.Samples = append(rep.Samples, group+": "+short(in))
		}
		mu.Unlock()
		select {
		case ch <- Case{group, enc(in)}:
			return true
		case <-stop:
			return false
		}
	}
	p.Gen(r, *deep, emit)
	close(ch)
	wg.Wait()
	sort.Slice(failed, func(i, j int) bool { return len(failed[i].Input) < len(failed[j].Input) })
	rep.Failures = failed
	for _, f := range failed {
		fmt.Printf("FAIL %s\n  %s\n", f.Case, strings.ReplaceAll(f.Detail, "\n", "\n  "))
	}
	fmt.Printf("%s: %d cases, %d failures\n", *prop, rep.Cases, len(failed))
}

// cases may hold any bytes: JSON strings would replace invalid UTF-8
func enc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}
func dec(s string) string {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q…(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}
