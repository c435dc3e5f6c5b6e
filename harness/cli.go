package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// limitedMain sets a CPU limit on itself and becomes another program.
func limitedMain(args []string) {
	limitSelf(true)
	if n, err := strconv.ParseUint(os.Getenv("WV_FSIZE"), 10, 63); err == nil { // bytes a file may have
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	err := syscall.Exec(args[0], args, os.Environ())
	die(4, "harness: exec %s: %v", args[0], err)
}

type cliResult struct {
	out, err string
	code     int
}

const maxOut = 2 << 20 // bytes of output of one command; real output is below 100 kB

type cappedWriter struct {
	buf  bytes.Buffer
	over func()
	full bool
}

func (w *cappedWriter) Write(p []byte) (int, error) {
	if w.buf.Len() < maxOut {
		w.buf.Write(p)
	} else if !w.full {
		w.full = true
		w.over()
	}
	return len(p), nil
}

// runCLI runs the wego command. An error is a verdict (crash, runaway) or
// harness trouble; a non-zero exit is an ordinary result.
func runCLI(dir, stdin string, env []string, args ...string) (*cliResult, error) {
	bin := os.Getenv("WV_WEGO")
	if bin == "" {
		return nil, trouble("WV_WEGO is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfBinary(false), append([]string{"limited", bin}, args...)...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	out := &cappedWriter{over: cancel}
	se := &limitedBuffer{max: 1 << 20}
	cmd.Stdout, cmd.Stderr = out, se
	cmd.Env = append(append(os.Environ(), "TERM=dumb", "GOTRACEBACK=all"), env...)
	cmd.WaitDelay = 30 * time.Second
	err := cmd.Start()
	if err == nil {
		stood := standsStill(cmd.Process.Pid, cancel)
		err = cmd.Wait()
		if stood() {
			return nil, bad("wego %s: it hangs: nothing has run for %d s", strings.Join(args, " "), stillFor)
		}
	}
	if out.full {
		return nil, bad("wego %s: more than %d bytes of output, it does not stop:\n%s", strings.Join(args, " "), maxOut, clip(out.buf.String()))
	}
	if ctx.Err() != nil {
		return nil, trouble("wego %v did not finish in 400 s (inconclusive)", args)
	}
	res := &cliResult{out: out.buf.String(), err: se.buf.String()}
	var ee *exec.ExitError
	switch {
	case err == nil:
		return res, nil
	case errors.As(err, &ee):
		res.code = ee.ExitCode()
		ws, _ := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() || strings.Contains(res.err, "\ngoroutine ") || strings.Contains(res.err, "SIGXCPU") || res.code == 4 {
			return nil, classifyDeath(ee.ProcessState, res.err)
		}
		return res, nil
	default:
		return nil, trouble("wego: %v", err)
	}
}

// A command that has read its input and uses no CPU time for this many seconds,
// all of its threads asleep, will not go on: nothing else is there to wake it.
const stillFor = 60

// standsStill watches a command and ends it when it stands still.
func standsStill(pid int, end func()) func() bool {
	done := make(chan struct{})
	var stood atomic.Bool
	go func() {
		last, since := "", 0
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			now, asleep := cpuUsed(pid)
			if !asleep || now != last {
				last, since = now, 0
				continue
			}
			if since++; since >= stillFor {
				stood.Store(true)
				end()
				return
			}
		}
	}()
	return func() bool { close(done); return stood.Load() }
}

// cpuUsed gives the CPU time a process has used and whether every thread of
// it is asleep.
func cpuUsed(pid int) (string, bool) {
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	used := ""
	for _, t := range tasks {
		b, err := os.ReadFile(t)
		if err != nil {
			return "", false
		}
		s := string(b)
		f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
		if len(f) < 13 || f[0] != "S" {
			return "", false
		}
		used += f[11] + "+" + f[12] + " "
	}
	return used, used != ""
}

type row struct {
	rank int
	word string
	sim  float64
}

// block is one table of neighbours or one other line of output.
type block struct {
	table bool
	rows  []row
	text  string
}

// parseOutput splits output into neighbour tables and other lines. A table is
// a header line naming rank, word and similarity, a rule and the rows, each
// "rank | word | similarity".
func parseOutput(out string) ([]block, error) {
	var bs []block
	lines := strings.Split(out, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		u := strings.ToUpper(l)
		if strings.Contains(u, "RANK") && strings.Contains(u, "WORD") && strings.Contains(u, "SIMILARITY") && strings.Count(u, "|") == 2 {
			b := block{table: true}
			for i+1 < len(lines) {
				n := lines[i+1]
				if strings.Trim(n, "-+ ") == "" && strings.TrimSpace(n) != "" { // rule
					i++
					continue
				}
				r, ok := parseRow(n)
				if !ok {
					break
				}
				b.rows = append(b.rows, r)
				i++
			}
			bs = append(bs, b)
			continue
		}
		if strings.TrimSpace(l) != "" {
			bs = append(bs, block{text: l})
		}
	}
	return bs, nil
}

func parseRow(l string) (row, bool) {
	i, j := strings.Index(l, "|"), strings.LastIndex(l, "|")
	if i < 0 || i == j {
		return row{}, false
	}
	rank, err := strconv.Atoi(strings.TrimSpace(l[:i]))
	if err != nil {
		return row{}, false
	}
	sim, err := strconv.ParseFloat(strings.TrimSpace(l[j+1:]), 64)
	if err != nil {
		return row{}, false
	}
	return row{rank, strings.TrimSpace(l[i+1 : j]), sim}, true
}

func rowsText(rs []row) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "  %d %q %.6f\n", r.rank, r.word, r.sim)
	}
	return b.String()
}

func caseDir() (string, error) {
	d, err := os.MkdirTemp(scratch(), "cli-")
	if err != nil {
		return "", trouble("%v", err)
	}
	return d, nil
}

func writeFile(name, text string) error {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		return trouble("%v", err)
	}
	if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
		return trouble("%v", err)
	}
	return nil
}
