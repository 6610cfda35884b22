package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"golang.org/x/sys/unix"
)

// session is one run of an application on a pseudo terminal that stands in for
// standard input and output.
type session struct {
	t             *T
	master        *os.File
	slave         *os.File // our own handle on the terminal
	stdin, stdout *os.File // those of the program
	before        unix.Termios
	profile       termenv.Profile

	oldIn, oldOut, oldErr *os.File

	mu   sync.Mutex
	cond *sync.Cond
	out  []byte // not yet interpreted
	all  []byte // everything, for the record
	em   *emu

	cancel context.CancelFunc

	done    chan struct{}
	model   bento.Model
	err     error
	escaped any // panic that escaped from Run

	cleanup []func()

	soft bool          // what does not happen in time is not a verdict
	what func() string // tells what is waited for
}

// The beat tells whether the machine lets this process run at all.
var (
	beats    atomic.Int64
	beatOnce sync.Once
	devNull  *os.File
)

const beatEvery = 5 * time.Millisecond

func startBeat() {
	beatOnce.Do(func() {
		devNull, _ = os.OpenFile("/dev/null", os.O_RDWR, 0)
		go func() {
			for {
				time.Sleep(beatEvery)
				beats.Add(1)
			}
		}()
	})
}

// patience is for how long something that takes milliseconds is waited for.
const patience = 25 * time.Second

// deadline measures time in which the process was able to run.
type deadline struct {
	start time.Time
	beats int64
}

func newDeadline() deadline { return deadline{time.Now(), beats.Load()} }

// expired reports whether patience is over, and whether the process was running all the time.
func (d deadline) expired() (over, fair bool) {
	e := time.Since(d.start)
	fair = beats.Load()-d.beats > int64(patience/beatEvery)/3
	return e > patience && fair || e > 4*patience, fair
}

func openSlave(name string, flags int) *os.File {
	fd, err := unix.Open(name, flags|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		panic(inconclusive{"cannot open " + name + ": " + err.Error()})
	}
	return os.NewFile(uintptr(fd), name)
}

func getTermios(f *os.File) unix.Termios {
	t, err := unix.IoctlGetTermios(int(f.Fd()), unix.TCGETS)
	if err != nil {
		panic(inconclusive{"cannot get terminal modes: " + err.Error()})
	}
	return *t
}

// newSession makes a terminal of the size.
func (t *T) newSession(w, h int) *session {
	startBeat()
	m, sl, err := openPty()
	if err != nil {
		t.Inconclusivef("no pseudo terminal: %v", err)
	}
	// The master must be pollable, so that reading it ends when it is closed.
	fd, err := unix.FcntlInt(m.Fd(), unix.F_DUPFD_CLOEXEC, 3)
	if err != nil {
		t.Inconclusivef("%v", err)
	}
	_ = m.Close()
	_ = unix.SetNonblock(fd, true)
	s := &session{t: t, master: os.NewFile(uintptr(fd), "ptmx"), slave: sl, done: make(chan struct{})}
	s.cond = sync.NewCond(&s.mu)
	s.em = newEmu(w, h)
	s.em.tolerant = true
	if err := setSize(sl, w, h); err != nil {
		t.Inconclusivef("%v", err)
	}
	s.stdin = openSlave(sl.Name(), unix.O_RDWR)
	s.stdout = openSlave(sl.Name(), unix.O_RDWR)
	// An unusual mode must survive.
	tio := getTermios(sl)
	if t.Chance(50) {
		tio.Lflag ^= unix.ECHOK
	}
	if t.Chance(50) {
		tio.Iflag ^= unix.IXANY
	}
	if t.Chance(30) {
		tio.Cc[unix.VINTR] = 0x1d
	}
	if t.Chance(20) {
		tio.Lflag &^= unix.ICANON | unix.ECHO
		tio.Cc[unix.VMIN] = 0
		tio.Cc[unix.VTIME] = 3
	}
	if t.Chance(20) {
		tio.Lflag &^= unix.ISIG
	}
	if err := unix.IoctlSetTermios(int(sl.Fd()), unix.TCSETS, &tio); err != nil {
		t.Inconclusivef("%v", err)
	}
	s.before = getTermios(sl)
	s.profile = pick(t, allProfiles)
	_ = newBackend(s.stdout, s.profile)
	go s.readOutput()
	return s
}

func (s *session) readOutput() {
	var b [16384]byte
	for {
		n, err := s.master.Read(b[:])
		s.mu.Lock()
		s.out = append(s.out, b[:n]...)
		s.cond.Broadcast()
		s.mu.Unlock()
		if err != nil && !errors.Is(err, syscall.EIO) || errors.Is(err, os.ErrClosed) {
			return
		}
		if err != nil {
			// No one has the terminal open.
			time.Sleep(time.Millisecond)
		}
	}
}

// run runs the application in the background.
func (s *session) run(model bento.Model, ctx context.Context) {
	s.oldIn, s.oldOut, s.oldErr = os.Stdin, os.Stdout, os.Stderr
	os.Stdin, os.Stdout, os.Stderr = s.stdin, s.stdout, devNull
	app := bento.NewApp(model)
	if ctx != nil {
		app = app.WithContext(ctx)
	}
	go s.runApp(app)
}

func (s *session) runApp(app bento.App) {
	defer close(s.done)
	defer func() { s.escaped = recover() }()
	s.model, s.err = app.Run()
}

// close puts everything back.
func (s *session) close() {
	if s.oldIn != nil {
		os.Stdin, os.Stdout, os.Stderr = s.oldIn, s.oldOut, s.oldErr
	}
	for _, f := range s.cleanup {
		f()
	}
	_ = s.master.Close()
	_ = s.slave.Close()
	_ = s.stdin.Close()
	_ = s.stdout.Close()
}

// collect interprets everything written so far.
func (s *session) collect() {
	s.take()
	s.em.sync()
}

// take is collect, but what was written last may be continued: a program's
// output may be cut within a grapheme.
func (s *session) take() {
	if _, err := s.slave.Write(ptyMarker); err != nil {
		s.t.Inconclusivef("cannot write to the terminal: %v", err)
	}
	d := newDeadline()
	timer := time.AfterFunc(4*patience, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer timer.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if i := bytes.Index(s.out, ptyMarker); i >= 0 {
			_, _ = s.em.Write(s.out[:i])
			if len(s.all) < 1<<20 {
				s.all = append(s.all, s.out[:i]...)
			}
			s.out = append(s.out[:0], s.out[i+len(ptyMarker):]...)
			return
		}
		if time.Since(d.start) > 3*patience {
			panic(inconclusive{"the terminal does not pass the output on"})
		}
		s.cond.Wait()
	}
}

// typ types bytes at the terminal.
func (s *session) typ(b []byte) {
	_ = s.master.SetWriteDeadline(time.Now().Add(2 * patience))
	if _, err := s.master.Write(b); err != nil {
		s.t.Inconclusivef("cannot type: %v", err)
	}
}

// pending returns the number of bytes typed that have not been read.
func (s *session) pending() int {
	n, err := unix.IoctlGetInt(int(s.slave.Fd()), unix.TIOCINQ)
	if err != nil {
		s.t.Inconclusivef("cannot count pending input: %v", err)
	}
	return n
}

// resize changes the size of the terminal and tells the program.
func (s *session) resize(w, h int) {
	if err := setSize(s.slave, w, h); err != nil {
		s.t.Inconclusivef("cannot resize: %v", err)
	}
	_ = syscall.Kill(syscall.Getpid(), syscall.SIGWINCH)
}

// await waits for something that has to happen soon.
func (s *session) await(what string, cond func() bool) {
	d := newDeadline()
	wait := 20 * time.Microsecond
	for !cond() {
		over, fair := d.expired()
		if over {
			s.fail(fair, what)
		}
		time.Sleep(wait)
		wait = min(wait*5/4, 5*time.Millisecond)
	}
}

// fail reports that something did not happen in time.
func (s *session) fail(fair bool, what string) {
	dump := goroutines()
	if s.what != nil {
		what = s.what()
	}
	if s.soft {
		s.t.Inconclusivef("%s", what)
	}
	if !fair {
		s.t.Inconclusivef("%s, but the machine is too busy to tell", what)
	}
	for _, g := range dump {
		if strings.Contains(g, "metafates/bento") {
			for _, l := range strings.Split(firstLines(g, 24), "\n") {
				s.t.Logf("%s", l)
			}
		}
	}
	s.t.Failf("%s", what)
}

var goroutineHead = regexp.MustCompile(`^goroutine \d+ (?:gp=\S+ m=\S+ )?\[([^\],]+)`)

func goroutines() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Split(string(buf), "\n\n")
}

// awaitReturn waits until Run has returned.
func (s *session) awaitReturn(why string) {
	d := newDeadline()
	for {
		select {
		case <-s.done:
			if s.escaped != nil {
				s.t.Failf("a panic escapes from Run: %v", s.escaped)
			}
			return
		case <-time.After(50 * time.Millisecond):
		}
		if over, fair := d.expired(); over {
			s.fail(fair, fmt.Sprintf("Run does not return, although %s", why))
		}
	}
}

// restored fails unless the terminal is as it was before.
func (s *session) restored(outputWorks bool) {
	if after := getTermios(s.slave); after != s.before {
		s.t.Failf("the terminal modes are not restored: %+v, at first %+v", after, s.before)
	}
	if outputWorks {
		s.outputRestored()
	}
}

// outputRestored fails unless what can be done by the output has been undone.
func (s *session) outputRestored() {
	s.collect()
	e := s.em
	switch {
	case e.cursorHidden:
		s.t.Failf("the cursor is left hidden")
	case e.alt:
		s.t.Failf("the alternate screen is not left")
	case e.paste:
		s.t.Failf("bracketed paste is left on")
	case e.pen != defaultPen:
		s.t.Failf("the text style %+v is left active", e.pen)
	case len(e.modes) > 0:
		s.t.Failf("terminal modes %v are left on", e.modes)
	}
}

// replace makes the file descriptor refer to what is open as another file.
func (s *session) replace(f, with *os.File) {
	if err := unix.Dup3(int(with.Fd()), int(f.Fd()), unix.O_CLOEXEC); err != nil {
		s.t.Inconclusivef("dup3: %v", err)
	}
}

// ---------------------------------------------------------------- monitor

type eventKind int

const (
	evInit eventKind = iota
	evInitRet
	evRender
	evRenderRet
	evUpdate
	evUpdateRet
	evStart // of a command
	evEnd
	evTyped
	evResized
	evExit // the cause for the program to end has been given
	evReturned
)

var eventNames = []string{"Init", "Init returns", "Render", "Render returns", "Update", "Update returns", "command starts", "command ends", "typed", "resized", "exit caused", "Run returned"}

type event struct {
	kind eventKind
	ver  int // of the model
	id   int // of the command or message
	msg  bento.Msg
	area bento.Rect
	text string
}

func (e event) String() string {
	switch e.kind {
	case evUpdate:
		return fmt.Sprintf("Update of model %d with %T %+v", e.ver, e.msg, e.msg)
	case evUpdateRet:
		return fmt.Sprintf("Update returns model %d", e.ver)
	case evRender:
		return fmt.Sprintf("Render of model %d in %v", e.ver, e.area)
	case evStart, evEnd:
		return fmt.Sprintf("%s: %d", eventNames[e.kind], e.id)
	}
	return strings.TrimSpace(fmt.Sprintf("%s %s", eventNames[e.kind], e.text))
}

// monitor watches the calls the runtime makes.
type monitor struct {
	mu     sync.Mutex
	events []event
	busy   string // the method that is running
	errs   []string

	onInit   func() bento.Cmd
	onUpdate func(m *appModel, msg bento.Msg) bento.Cmd
	onRender func(m *appModel, area bento.Rect, buffer *bento.Buffer)

	updates, renders atomic.Int64
}

func (m *monitor) log(e event) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.events = append(m.events, e)
	return len(m.events) - 1
}

func (m *monitor) errorf(format string, a ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.errs = append(m.errs, fmt.Sprintf(format, a...))
}

func (m *monitor) enter(e event) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.busy != "" {
		m.errs = append(m.errs, fmt.Sprintf("%s is called while %s is running", eventNames[e.kind], m.busy))
	}
	m.busy = eventNames[e.kind]
	m.events = append(m.events, e)
}

func (m *monitor) leave(e event) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.busy = ""
	m.events = append(m.events, e)
}

func (m *monitor) snapshot() []event {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]event(nil), m.events...)
}

// appModel is the model of the application under test. A new one is made by
// each Update.
type appModel struct {
	*monitor
	ver int
}

func (a *appModel) Init() bento.Cmd {
	a.enter(event{kind: evInit, ver: a.ver})
	defer a.leave(event{kind: evInitRet, ver: a.ver})
	if a.onInit == nil {
		return nil
	}
	return a.onInit()
}

func (a *appModel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	a.updates.Add(1)
	a.enter(event{kind: evUpdate, ver: a.ver, msg: msg})
	next := &appModel{a.monitor, a.ver + 1}
	defer func() {
		a.leave(event{kind: evUpdateRet, ver: next.ver, msg: msg})
	}()
	var cmd bento.Cmd
	if a.onUpdate != nil {
		cmd = a.onUpdate(next, msg)
	}
	return next, cmd
}

func (a *appModel) Render(area bento.Rect, buffer *bento.Buffer) {
	a.renders.Add(1)
	a.enter(event{kind: evRender, ver: a.ver, area: area})
	defer a.leave(event{kind: evRenderRet, ver: a.ver, area: area})
	if a.onRender != nil {
		a.onRender(a, area, buffer)
	}
}

// logEvents records the events for the replay of a violation.
func (t *T) logEvents(m *monitor) {
	for _, e := range m.snapshot() {
		t.Logf("%v", e)
	}
}

func sleepShort() { time.Sleep(200 * time.Microsecond) }

var began = time.Now()

func nowNano() int64 { return int64(time.Since(began)) }
