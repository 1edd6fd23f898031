// Package simexec stands in for os/exec in moco's backup code when it is built
// into the simulator: a command is a goroutine that runs a simulated tool.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"syscall"
	"time"
)

// Proc is a running tool as the backend sees it.
type Proc struct {
	Name   string
	Args   []string
	Env    []string
	Dir    string
	Ctx    context.Context // cancelled when the tool is killed
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Data   any // the backend's
}

// Backend decides what commands do.
type Backend interface {
	// Begin is called by Start; an error is a failure to start. It must not block.
	Begin(p *Proc) error
	// Main runs the tool and returns its exit code.
	Main(p *Proc) int
}

// Active is the backend of the run in progress.
var Active Backend

var ErrNotFound = errors.New("executable file not found in $PATH")
var ErrDot = errors.New("cannot run executable found relative to current directory")
var ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return fmt.Sprintf("exec: %q: %v", e.Name, e.Err) }
func (e *Error) Unwrap() error { return e.Err }

// ProcessState is the part of os.ProcessState that can be offered.
type ProcessState struct{ code int }

func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	return p.code
}
func (p *ProcessState) Success() bool  { return p != nil && p.code == 0 }
func (p *ProcessState) Exited() bool   { return p != nil && p.code >= 0 }
func (p *ProcessState) Pid() int       { return 1000 }
func (p *ProcessState) String() string { return fmt.Sprintf("exit status %d", p.ExitCode()) }

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Process is a running command.
type Process struct {
	Pid int
	c   *Cmd
}

func (p *Process) Kill() error                { p.c.kill(); return nil }
func (p *Process) Signal(sig os.Signal) error { p.c.kill(); return nil }
func (p *Process) Release() error             { return nil }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      context.Context
	kill     context.CancelFunc
	done     chan struct{}
	code     int
	inErr    error
	mu       sync.Mutex
	closers  []io.Closer // closed when Start returns (child's ends of our pipes)
	waitEnds []io.Closer // closed by Wait (our ends of the pipes)
	started  bool
	waited   bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func LookPath(file string) (string, error) { return "/usr/bin/" + file, nil }

func (c *Cmd) String() string { return fmt.Sprint(c.Args) }

func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

// stdinReader hides read errors from the tool: it sees the end of its input.
type stdinReader struct {
	r io.Reader
	c *Cmd
}

func (s *stdinReader) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if err != nil && err != io.EOF {
		s.c.mu.Lock()
		if s.c.inErr == nil {
			s.c.inErr = err
		}
		s.c.mu.Unlock()
		return n, io.EOF
	}
	return n, err
}

func dup(f *os.File) (*os.File, error) {
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		return nil, err
	}
	syscall.CloseOnExec(fd)
	_ = syscall.SetNonblock(fd, true)
	return os.NewFile(uintptr(fd), f.Name()), nil
}

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	defer func() {
		for _, x := range c.closers {
			x.Close()
		}
		c.closers = nil
	}()
	fail := func(err error) error {
		for _, x := range c.waitEnds {
			x.Close()
		}
		return err
	}
	if c.ctx == nil {
		c.ctx = context.Background()
	}
	if err := c.ctx.Err(); err != nil {
		return fail(err)
	}
	b := Active
	if b == nil {
		return fail(&Error{c.Path, ErrNotFound})
	}
	kctx, kill := context.WithCancel(c.ctx)
	c.kill = kill
	p := &Proc{Name: c.Path, Args: append([]string(nil), c.Args[1:]...), Env: c.Environ(), Dir: c.Dir, Ctx: kctx}
	if err := b.Begin(p); err != nil {
		kill()
		return fail(&os.PathError{Op: "fork/exec", Path: c.Path, Err: err})
	}
	var own []io.Closer
	switch in := c.Stdin.(type) {
	case nil:
		p.Stdin = bytes.NewReader(nil)
	case *os.File:
		f, err := dup(in)
		if err != nil {
			kill()
			return fail(err)
		}
		own = append(own, f)
		p.Stdin = f
	default:
		p.Stdin = &stdinReader{in, c}
	}
	out := func(w io.Writer) (io.Writer, error) {
		switch o := w.(type) {
		case nil:
			return io.Discard, nil
		case *os.File:
			if o == os.Stdout || o == os.Stderr {
				return io.Discard, nil
			}
			f, err := dup(o)
			if err != nil {
				return nil, err
			}
			own = append(own, f)
			return f, nil
		default:
			return o, nil
		}
	}
	var err error
	if p.Stdout, err = out(c.Stdout); err == nil {
		p.Stderr, err = out(c.Stderr)
	}
	if err != nil {
		for _, x := range own {
			x.Close()
		}
		kill()
		return fail(err)
	}
	c.Process = &Process{Pid: 1000, c: c}
	c.done = make(chan struct{})
	go func() {
		defer close(c.done)
		code := b.Main(p)
		for _, x := range own {
			x.Close()
		}
		c.mu.Lock()
		c.code = code
		c.mu.Unlock()
	}()
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started || c.done == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	<-c.done
	for _, x := range c.waitEnds {
		x.Close()
	}
	c.kill()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ProcessState = &ProcessState{c.code}
	if c.code != 0 {
		if c.ctx.Err() != nil && c.code < 0 {
			return c.ctx.Err()
		}
		return &ExitError{ProcessState: c.ProcessState}
	}
	if c.inErr != nil {
		return c.inErr
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	l := &lockedBuf{}
	c.Stdout, c.Stderr = l, l
	err := c.Run()
	return l.b.Bytes(), err
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stdin = pr
	c.closers = append(c.closers, pr)
	c.waitEnds = append(c.waitEnds, pw)
	return pw, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stdout = pw
	c.closers = append(c.closers, pw)
	c.waitEnds = append(c.waitEnds, pr)
	return pr, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = pw
	c.closers = append(c.closers, pw)
	c.waitEnds = append(c.waitEnds, pr)
	return pr, nil
}
