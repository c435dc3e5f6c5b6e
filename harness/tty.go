package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// ---- a terminal of our own ------------------------------------------------

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	c, err := f.SyscallConn()
	if err != nil {
		return err
	}
	var e syscall.Errno
	if err := c.Control(func(fd uintptr) { _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)) }); err != nil {
		return err
	}
	if e != 0 {
		return e
	}
	return nil
}

// openTerminal makes a pseudo terminal of 1000 columns.
func openTerminal() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, nil, err
	}
	var lock int32
	var n uint32
	if err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)); err == nil {
		err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		size := [4]uint16{50, 1000, 0, 0}
		err = ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

func termMode(f *os.File) (syscall.Termios, error) {
	var m syscall.Termios
	err := ioctl(f, syscall.TCGETS, unsafe.Pointer(&m))
	return m, err
}

type termResult struct {
	cliResult
	before, after syscall.Termios
}

var errNoTerminal = errors.New("no terminal")

const endMark = "=== end of the session ==="

// runTerminal runs the wego command in a terminal: each piece of keys is typed
// once a new prompt has appeared on a line of its own. (Between two prompts the
// terminal itself acts on Ctrl-C.)
func runTerminal(dir, prompt string, keys []string, args ...string) (*termResult, error) {
	master, slave, err := openTerminal()
	if err != nil {
		return nil, errNoTerminal
	}
	defer slave.Close()
	defer master.Close()
	res := &termResult{}
	if res.before, err = termMode(slave); err != nil {
		return nil, errNoTerminal
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfBinary(false), append([]string{"limited", os.Getenv("WV_WEGO")}, args...)...)
	cmd.Dir = dir
	cmd.Stdin, cmd.Stdout = slave, slave
	se := &limitedBuffer{max: 1 << 20}
	cmd.Stderr = se
	cmd.Env = append(os.Environ(), "TERM=xterm", "GOTRACEBACK=all")
	cmd.WaitDelay = 30 * time.Second
	if err := cmd.Start(); err != nil {
		return nil, trouble("wego: %v", err)
	}
	var mu sync.Mutex
	var out bytes.Buffer
	read, ready := make(chan struct{}), make(chan struct{}, 1)
	from := 0 // where the output after the last typing begins
	go func() {
		defer close(read)
		buf := make([]byte, 1<<14)
		for {
			n, err := master.Read(buf)
			mu.Lock()
			if out.Len() < 8*maxOut {
				out.Write(buf[:n])
			} else {
				cancel()
			}
			b := out.Bytes()
			ended := bytes.Contains(b[max(0, len(b)-n-len(endMark)):], []byte(endMark))
			if new := escapes.ReplaceAll(b[from:], nil); bytes.HasSuffix(new, []byte(prompt)) && (from == 0 || bytes.Contains(new, []byte("\n"))) {
				select {
				case ready <- struct{}{}:
				default:
				}
			}
			mu.Unlock()
			if ended || err != nil {
				return
			}
		}
	}()
	done := make(chan struct{})
	go func() { // types
		for _, k := range keys {
			select {
			case <-ready:
			case <-done:
				return
			}
			mu.Lock()
			from = out.Len()
			select { // a prompt noticed twice
			case <-ready:
			default:
			}
			mu.Unlock()
			// The prompt appears a moment before the terminal leaves
			// Ctrl-C alone.
			for i := 0; i < 20000; i++ {
				if m, err := termMode(slave); err != nil || m.Lflag&syscall.ISIG == 0 {
					break
				}
				time.Sleep(time.Millisecond)
			}
			master.Write([]byte(k))
		}
	}()
	stood := standsStill(cmd.Process.Pid, cancel)
	err = cmd.Wait()
	close(done)
	if stood() {
		return nil, bad("wego %s in a terminal, typing %q: it hangs: nothing has run for %d s; the screen ends in %q", strings.Join(args, " "), keys, stillFor, tail(out.String(), 300))
	}
	var modeErr error
	res.after, modeErr = termMode(slave)
	slave.Write([]byte(endMark))
	select {
	case <-read:
	case <-time.After(60 * time.Second):
		return nil, trouble("the terminal does not deliver its output")
	}
	mu.Lock()
	res.out, res.err = out.String(), se.buf.String()
	mu.Unlock()
	if ctx.Err() != nil {
		return nil, trouble("wego %v in a terminal did not finish in 400 s (inconclusive)", args)
	}
	if modeErr != nil {
		return nil, trouble("terminal: %v", modeErr)
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.code = ee.ExitCode()
		ws, _ := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() || strings.Contains(res.err, "\ngoroutine ") || strings.Contains(res.err, "SIGXCPU") || res.code == 4 {
			return nil, classifyDeath(ee.ProcessState, res.err)
		}
	default:
		return nil, trouble("wego: %v", err)
	}
	return res, nil
}

var (
	escapes = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]")
	bells   = strings.NewReplacer("\a", "", "\r\n", "\n")
)

// plainScreen removes what the line editor draws: its escape sequences and the
// lines being edited.
func plainScreen(s, prompt string) string {
	s = strings.TrimSuffix(escapes.ReplaceAllString(bells.Replace(s), ""), endMark)
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.Contains(l, prompt) {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}
