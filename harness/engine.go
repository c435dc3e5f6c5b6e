package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Part is one generated check of a property: a generator of cases and an
// oracle (Judge) that runs the code under test on a case and decides it.
type Part struct {
	Name     string
	Isolated bool // judge every case in a fresh child process
	Race     bool // run with the race-detector build
	Serial   bool // one CPU, no asynchronous preemption: goroutines switch between updates only
	Quick    int  // cases in the quick tier (total over all shards)
	Thorough int
	New      func() any
	Gen      func(t *rapid.T) any
	Judge    func(c any, o *Obs) error
}

// Prop is a listed property with all parts that decide it.
type Prop struct {
	ID    string
	Rule  string // how cases are made, what makes one non-trivial
	Level string
	Assum []string
	Parts []Part
}

// Obs collects what a judged case looked like.
type Obs struct {
	Nontrivial bool
	Classes    map[string]int
}

func (o *Obs) Class(format string, a ...any) {
	if o.Classes == nil {
		o.Classes = map[string]int{}
	}
	o.Classes[fmt.Sprintf(format, a...)]++
}

func (o *Obs) ClassIf(b bool, name string) {
	if b {
		o.Class("%s", name)
	}
}

// Viol is a broken property. Key identifies a specific defect for the
// known-findings file; it is empty for everything else.
type Viol struct {
	Key string
	Msg string
}

func (v *Viol) Error() string { return v.Msg }

func bad(format string, a ...any) error { return &Viol{Msg: fmt.Sprintf(format, a...)} }

func badKey(key, format string, a ...any) error {
	return &Viol{Key: key, Msg: fmt.Sprintf(format, a...)}
}

// Trouble is a failure of the harness itself, never a verdict.
type Trouble struct{ Msg string }

func (t *Trouble) Error() string { return "harness: " + t.Msg }

func trouble(format string, a ...any) error { return &Trouble{Msg: fmt.Sprintf(format, a...)} }

const wegoFrame = "github.com/ynqa/wego"

// isWegoStack says whether a stack (innermost first) was inside wego code:
// some wego frame comes before the judge's own frames.
func isWegoStack(st string) bool {
	i := strings.Index(st, wegoFrame)
	return i >= 0
}

// judgeSafe runs a judge in this process, turning panics into verdicts.
func judgeSafe(p *Part, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if isWegoStack(st) {
				err = bad("panic: %v\n%s", r, trimStack(st))
			} else {
				err = trouble("panic in harness: %v\n%s", r, st)
			}
		}
	}()
	if f := os.Getenv("WV_SLOW"); f != "" { // slow cases, for development
		defer func(t0 time.Time) {
			if d := time.Since(t0); d > 1500*time.Millisecond {
				b, _ := json.Marshal(c)
				if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
					fmt.Fprintf(w, "%s %.1fs %s\n", p.Name, d.Seconds(), clip(string(b)))
					w.Close()
				}
			}
		}(time.Now())
	}
	return p.Judge(c, o)
}

func trimStack(st string) string {
	var keep []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, wegoFrame) {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// ---- child process execution -------------------------------------------

type execResult struct {
	Viol       *Viol
	Trouble    string
	Nontrivial bool
	Classes    map[string]int
	Done       bool
}

const childCPU = 60 // seconds of CPU one case may burn; cases need milliseconds

const childMem = 8 << 30 // bytes of address space; cases need below 2 GB of it

// limitSelf bounds the CPU time and the memory of this process, so that the
// code under test meets its limits and not those of the machine.
func limitSelf(mem bool) {
	_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: childCPU, Max: childCPU + 5})
	if mem { // the race detector reserves much more
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: childMem, Max: childMem})
	}
}

// execMain is the child: one case on stdin, the verdict on fd 3.
func execMain(prop *Prop, part *Part) {
	limitSelf(!part.Race)
	c := part.New()
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot decode case:", err)
		os.Exit(4)
	}
	out := os.NewFile(3, "verdict")
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null // progress output of the code under test
	}
	o := &Obs{}
	err := judgeSafe(part, c, o)
	res := execResult{Nontrivial: o.Nontrivial, Classes: o.Classes, Done: true}
	fillResult(&res, err)
	b, _ := json.Marshal(res)
	out.Write(b)
	out.Close()
	os.Exit(0)
}

// auxMain is a fresh process computing something for a judge: input on
// stdin, result on fd 3.
func auxMain(name string) {
	limitSelf(true)
	in, err := io.ReadAll(os.Stdin)
	f := auxFuncs[name]
	if err != nil || f == nil {
		fmt.Fprintln(os.Stderr, "harness: bad aux call")
		os.Exit(4)
	}
	out := os.NewFile(3, "result")
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	b, err := json.Marshal(f(in))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
	out.Write(b)
	out.Close()
	os.Exit(0)
}

func fillResult(res *execResult, err error) {
	var v *Viol
	switch {
	case err == nil:
	case errors.As(err, &v):
		res.Viol = v
	default:
		res.Trouble = err.Error()
	}
}

func selfBinary(race bool) string {
	if race {
		if b := os.Getenv("WV_RACE_BIN"); b != "" {
			return b
		}
	}
	if b := os.Getenv("WV_BIN"); b != "" {
		return b
	}
	b, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return b
}

type limitedBuffer struct {
	buf bytes.Buffer
	max int
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if room := l.max - l.buf.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.buf.Write(p[:room])
	}
	return len(p), nil
}

func childEnv(part *Part) []string {
	env := append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if part.Serial {
		env = append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1")
	}
	return env
}

// runChild judges one case in a fresh process.
func runChild(prop *Prop, part *Part, caseJSON []byte, o *Obs) error {
	cmd := exec.Command(selfBinary(part.Race), "exec", prop.ID, part.Name)
	cmd.Stdin = bytes.NewReader(caseJSON)
	stderr := &limitedBuffer{max: 1 << 20}
	cmd.Stderr = stderr
	pr, pw, err := os.Pipe()
	if err != nil {
		return trouble("pipe: %v", err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = childEnv(part)
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return trouble("start child: %v", err)
	}
	pw.Close()
	timedOut := false
	timer := time.AfterFunc(400*time.Second, func() { timedOut = true; cmd.Process.Kill() })
	var out bytes.Buffer
	out.ReadFrom(pr)
	pr.Close()
	werr := cmd.Wait()
	timer.Stop()
	var res execResult
	if jerr := json.Unmarshal(out.Bytes(), &res); jerr == nil && res.Done && werr == nil {
		o.Nontrivial = o.Nontrivial || res.Nontrivial
		for k, v := range res.Classes {
			if o.Classes == nil {
				o.Classes = map[string]int{}
			}
			o.Classes[k] += v
		}
		if res.Trouble != "" {
			return &Trouble{Msg: res.Trouble}
		}
		if res.Viol != nil {
			return res.Viol
		}
		return nil
	}
	if timedOut {
		return trouble("child did not finish within 400 s of wall time (inconclusive)")
	}
	return classifyDeath(cmd.ProcessState, stderr.buf.String())
}

// classifyDeath turns the abnormal end of a child into a verdict, or into
// trouble when it is not clearly caused by the code under test.
func classifyDeath(ps *os.ProcessState, se string) error {
	ws, _ := ps.Sys().(syscall.WaitStatus)
	switch {
	case ps.ExitCode() == 66 || strings.Contains(se, "WARNING: DATA RACE"):
		if isWegoStack(se) {
			return bad("data race\n%s", trimStack(se))
		}
		return trouble("data race outside wego\n%s", se)
	case strings.Contains(se, "all goroutines are asleep"):
		if isWegoStack(se) {
			return bad("deadlock: all goroutines are asleep\n%s", trimStack(se))
		}
		return trouble("deadlock outside wego\n%s", se)
	case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL && ps.UserTime()+ps.SystemTime() >= childCPU*time.Second):
		return bad("runaway: one case used more than %d s of CPU time", childCPU)
	case strings.Contains(se, "SIGXCPU"):
		return bad("runaway: one case used more than %d s of CPU time", childCPU)
	case strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:"):
		if isWegoStack(se) {
			l := se
			if i := strings.Index(l, "panic:"); i >= 0 {
				l = l[i:]
			} else if i := strings.Index(l, "fatal error:"); i >= 0 {
				l = l[i:]
			}
			first := strings.SplitN(l, "\n", 2)[0]
			return bad("crash: %s\n%s", first, trimStack(se))
		}
		return trouble("child crashed outside wego\n%s", tail(se, 4000))
	}
	return trouble("child ended abnormally: %v\n%s", ps, tail(se, 4000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- shard --------------------------------------------------------------

type failure struct {
	Part string          `json:"part"`
	Msg  string          `json:"msg"`
	Key  string          `json:"key,omitempty"`
	Case json.RawMessage `json:"case"`
}

type shardReport struct {
	Part        string
	Evaluations int
	Nontrivial  int
	Hashes      []uint64
	Samples     []json.RawMessage
	Classes     map[string]int
	Known       map[string]int
	KnownMsg    map[string]string
	Failure     *failure
	Trouble     string
}

type fakeTB struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "wv" }
func (f *fakeTB) Logf(format string, a ...any) {
	if len(f.log) < 200 {
		f.log = append(f.log, fmt.Sprintf(format, a...))
	}
}
func (f *fakeTB) Log(a ...any)                   { f.Logf("%s", fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(string, ...any)           { panic(tbStop{}) }
func (f *fakeTB) Skip(...any)                    { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                       { panic(tbStop{}) }
func (f *fakeTB) Errorf(format string, a ...any) { f.Logf(format, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)                 { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(format string, a ...any) {
	f.Logf(format, a...)
	f.failed = true
	panic(tbStop{})
}
func (f *fakeTB) Fatal(a ...any) { f.Log(a...); f.failed = true; panic(tbStop{}) }
func (f *fakeTB) FailNow()       { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()          { f.failed = true }
func (f *fakeTB) Failed() bool   { return f.failed }

func hashCase(part string, b []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(part))
	h.Write(b)
	return h.Sum64()
}

const shrinkBudget = 15 * time.Second

// stopFlag names the file by which the shards of one check tell each other
// that a violation has been found.
func stopFlag() string {
	if d := os.Getenv("WV_SCRATCH"); d != "" {
		return filepath.Join(d, "violation-found")
	}
	return ""
}

// watchStop becomes true once the flag file exists or the deadline has passed.
func watchStop(flag string, deadline time.Duration) *atomic.Bool {
	over := &atomic.Bool{}
	start := time.Now()
	go func() {
		for !over.Load() {
			time.Sleep(100 * time.Millisecond)
			if flag != "" {
				if _, err := os.Stat(flag); err == nil {
					over.Store(true)
				}
			}
			if deadline > 0 && time.Since(start) > deadline {
				over.Store(true)
			}
		}
	}()
	return over
}

// runShard generates and judges `checks` cases with rapid.
func runShard(prop *Prop, part *Part, isolate bool, curFile string, known map[string]bool, deadline time.Duration) (rep shardReport) {
	rep = shardReport{Part: part.Name, Classes: map[string]int{}, Known: map[string]int{}, KnownMsg: map[string]string{}}
	isolate = isolate || part.Isolated
	var cur *os.File
	if !isolate && curFile != "" {
		f, err := os.Create(curFile)
		if err == nil {
			cur = f
			defer f.Close()
		}
	}
	seen := map[uint64]bool{}
	tb := &fakeTB{}
	var mu sync.Mutex // guards rep against the end of the shrinking time
	var failed atomic.Bool
	failing := false
	var shrinkEnd time.Time         // no more cases are judged after this
	verdicts := map[uint64]string{} // of failing cases: rapid repeats them
	flag := stopFlag()
	over := watchStop(flag, deadline)
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					rep.Trouble = fmt.Sprintf("panic outside a case: %v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if rep.Trouble != "" {
				return // finish quickly; the run is reported as an error
			}
			if !failing && over.Load() {
				return // another shard has found a violation, or time is up
			}
			c := part.Gen(t)
			b, err := json.Marshal(c)
			if err != nil {
				rep.Trouble = "cannot encode case: " + err.Error()
				return
			}
			o := &Obs{}
			if failing {
				if verdicts[hashCase("", b)] != "" {
					t.Fatalf("property violated")
				}
				if time.Now().After(shrinkEnd) {
					return
				}
			}
			if isolate {
				err = runChild(prop, part, b, o)
			} else {
				if cur != nil {
					cur.Truncate(0)
					cur.WriteAt(b, 0)
				}
				// judge the decoded encoding: exactly what a replay judges
				d := part.New()
				if derr := json.Unmarshal(b, d); derr != nil {
					rep.Trouble = "cannot decode case: " + derr.Error()
					return
				}
				err = judgeSafe(part, d, o)
			}
			mu.Lock()
			defer mu.Unlock()
			var v *Viol
			if errors.As(err, &v) {
				if v.Key != "" && known[v.Key] {
					if !failing {
						rep.Known[v.Key]++
						if rep.KnownMsg[v.Key] == "" {
							rep.KnownMsg[v.Key] = v.Msg
						}
					}
					err = nil
				} else {
					if !failing {
						failing = true
						failed.Store(true)
						shrinkEnd = time.Now().Add(shrinkBudget)
						if flag != "" {
							os.WriteFile(flag, nil, 0o644)
						}
					}
					verdicts[hashCase("", b)] = v.Msg
					if rep.Failure == nil || len(b) < len(rep.Failure.Case) {
						rep.Failure = &failure{Part: part.Name, Msg: v.Msg, Key: v.Key, Case: append([]byte(nil), b...)}
					}
					t.Fatalf("property violated")
				}
			}
			if err != nil {
				rep.Trouble = err.Error()
				return
			}
			if failing {
				return // shrinking: do not count
			}
			rep.Evaluations++
			for k, n := range o.Classes {
				rep.Classes[k] += n
			}
			if o.Nontrivial {
				h := hashCase(part.Name, b)
				if !seen[h] {
					seen[h] = true
					if n := len(rep.Samples); n < 2 && len(b) < 1500 {
						rep.Samples = append(rep.Samples, append([]byte(nil), b...))
					}
				}
			}
		})
	}()
	// Shrinking a very large case can take longer than its budget between two
	// attempts: what has been found by then is reported.
	for waited, running := time.Duration(0), true; running; {
		select {
		case <-done:
			running = false
		case <-time.After(time.Second):
			if failed.Load() {
				waited += time.Second
			}
			if waited >= shrinkBudget+10*time.Second {
				mu.Lock() // for good: the generator stops at its next case
				r := rep
				r.Hashes = nil
				return r
			}
		}
	}
	for h := range seen {
		rep.Hashes = append(rep.Hashes, h)
	}
	sort.Slice(rep.Hashes, func(i, j int) bool { return rep.Hashes[i] < rep.Hashes[j] })
	if rep.Failure == nil && tb.failed && rep.Trouble == "" {
		rep.Trouble = "rapid: " + strings.Join(tb.log, "\n")
	}
	return rep
}
