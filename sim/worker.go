package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A worker is a process hosting generated code. It does nothing except when it is
// handed one command, and it answers that command before the simulator goes on: all
// interleaving is decided by the simulator.
type worker struct {
	key  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	rd   *bufio.Reader
	errb *bytes.Buffer
	n    int
}

type replyErr struct {
	Kind string // crash, hang
	Msg  string
}

func (e *replyErr) Error() string { return e.Kind + ": " + e.Msg }

const workerTimeout = 20 * time.Second

func startWorker(p *Pool, key string) (*worker, error) {
	c := p.workerCmd(key)
	c.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=256:malloc_context_size=2:fast_unwind_on_malloc=1",
		"PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "DOTNET_TieredCompilation=1", "DOTNET_gcServer=0", "LC_ALL=C.UTF-8")
	w := &worker{key: key, cmd: c, errb: &bytes.Buffer{}}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = w.errb
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		return nil, err
	}
	w.in, w.rd = in, bufio.NewReaderSize(out, 1<<16)
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	if w.cmd.Process != nil {
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	}
	w.cmd.Wait()
}

func (w *worker) do(cmd string) (string, error) {
	w.n++
	if _, err := io.WriteString(w.in, cmd+"\n"); err != nil {
		return "", w.dead()
	}
	t := time.AfterFunc(workerTimeout, func() { syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL) })
	line, err := w.rd.ReadString('\n')
	for err == nil && !strings.HasPrefix(line, "ok") && !strings.HasPrefix(line, "ex") {
		// not an answer: something a runtime (a JVM, say) has to tell
		line, err = w.rd.ReadString('\n')
	}
	if !t.Stop() && err != nil {
		w.cmd.Wait()
		return "", &replyErr{"hang", fmt.Sprintf("no answer within %v", workerTimeout)}
	}
	if err != nil {
		return "", w.dead()
	}
	return strings.TrimSuffix(line, "\n"), nil
}

func (w *worker) dead() error {
	err := w.cmd.Wait()
	msg := w.errb.String()
	sum := ""
	for _, l := range strings.Split(msg, "\n") {
		if strings.Contains(l, "ERROR: AddressSanitizer") || strings.Contains(l, "SUMMARY") || strings.HasPrefix(l, "READ of") || strings.HasPrefix(l, "WRITE of") {
			sum += strings.TrimSpace(l) + "; "
		}
	}
	if sum == "" {
		sum = tail(msg, 300)
	}
	return &replyErr{"crash", fmt.Sprintf("%v %s", err, sum)}
}

// shard is a private set of workers.
type shard struct {
	p        *Pool
	ws       map[string]*worker
	kt       *ktWorker
	restarts int
	steps    int
}

func newShard(p *Pool) *shard { return &shard{p: p, ws: map[string]*worker{}} }

func (s *shard) close() {
	for _, w := range s.ws {
		w.stop()
	}
}

type infraErr struct{ error }

func (s *shard) do(v *Variant, cmd string) (string, error) {
	if v.Lang == "kt" {
		if s.kt == nil {
			s.kt = &ktWorker{p: s.p, vm: &kvm{limit: 30 << 20}}
		}
		s.steps++
		return s.kt.do(cmd)
	}
	key := workerKey(v)
	w := s.ws[key]
	if w == nil {
		var err error
		w, err = startWorker(s.p, key)
		if err != nil {
			return "", infraErr{err}
		}
		s.ws[key] = w
	}
	s.steps++
	r, err := w.do(cmd)
	if err != nil {
		delete(s.ws, key)
		w.in.Close()
		s.restarts++
		if w.n <= 1 && !strings.Contains(err.Error(), "Sanitizer") {
			return "", infraErr{fmt.Errorf("worker %s did not start: %v", key, err)}
		}
	}
	return r, err
}

func atoi(s string) (int64, bool) {
	v, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if errors.Is(err, strconv.ErrRange) {
		err = nil // Python counts on; the nearest number will do
	}
	return v, err == nil
}
