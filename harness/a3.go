package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- A11

// openFiles lists what the process has open, apart from terminals and plain files.
func openFiles() map[string]int {
	out := map[string]int{}
	links, _ := filepath.Glob("/proc/self/fd/*")
	for _, l := range links {
		to, err := os.Readlink(l)
		if err != nil {
			continue
		}
		switch {
		case strings.HasPrefix(to, "pipe:"), strings.HasPrefix(to, "socket:"):
			out[to[:strings.Index(to, ":")]]++
		case strings.HasPrefix(to, "anon_inode:"), to == "/dev/tty":
			out[to]++
		}
	}
	return out
}

// leftovers lists goroutines of the program.
func leftovers() []string {
	var out []string
	for _, g := range goroutines() {
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "github.com/metafates/bento.") || strings.HasPrefix(l, "github.com/muesli/cancelreader.") || strings.HasPrefix(l, "golang.org/x/sync/errgroup.") {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// nothingLeft runs programs and looks for what they leave behind.
func nothingLeft(t *T) {
	p := t.newProgram(programOpts{exits: allExits, chains: true, late: true, size: t.Range(1, 60), quiet: t.Chance(30), stall: t.Chance(30), resize: t.Chance(50)})
	defer p.finish()
	before := openFiles()
	p.run() // releases the commands afterwards
	s := p.s
	s.what = func() string {
		l := leftovers()
		if len(l) == 0 {
			return "goroutines of the program are left"
		}
		t.Logf("%s", firstLines(l[0], 30))
		return fmt.Sprintf("%d goroutines are left although Run has returned and all commands have ended, one of them: %s", len(l), firstLines(l[0], 3))
	}
	s.await("", func() bool {
		if len(leftovers()) == 0 {
			return true
		}
		time.Sleep(2 * time.Millisecond)
		return false
	})
	s.what = nil
	after := openFiles()
	var names []string
	for k := range after {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if after[k] > before[k] {
			t.Failf("Run has returned, but there are %d open files of kind %s, and %d before", after[k], k, before[k])
		}
	}
	started := 0
	for _, l := range p.leaves {
		started += int(l.starts.Load())
	}
	t.Count("commands that ended", started)
	t.Count("ended by: "+p.cause, 1)
	t.Key(p.cause, started, t.Uint64())
	t.Sample("ended by %s with %d commands started", p.cause, started)
}

// ---------------------------------------------------------------- A12

// redirected runs programs whose standard input is no terminal.
func redirected(filesOnly bool) func(t *T) {
	return func(t *T) { redirectedCase(t, filesOnly) }
}

func redirectedCase(t *T, filesOnly bool) {
	signal.Ignore(syscall.SIGHUP, syscall.SIGTTOU, syscall.SIGTTIN)
	_, _ = syscall.Setsid()
	s := t.newSession(t.Range(1, 60), t.Range(1, 20))
	defer s.close()
	if err := unix.IoctlSetInt(int(s.slave.Fd()), unix.TIOCSCTTY, 0); err != nil {
		t.Inconclusivef("no controlling terminal: %v", err)
	}
	defer func() { _ = unix.IoctlSetInt(int(s.slave.Fd()), unix.TIOCNOTTY, 0) }()

	data := strings.Repeat(fmt.Sprintf("not for the program: q %d\n", t.Index), t.IntN(40))
	kind := pick(t, []string{"pipe", "pipe", "closed pipe", "file", "null", "other end closed later"})
	_ = s.stdin.Close()
	var w *os.File
	switch kind {
	case "file":
		f, err := os.CreateTemp("", "verif-stdin")
		if err != nil {
			t.Inconclusivef("%v", err)
		}
		defer func() { _ = os.Remove(f.Name()) }()
		_, _ = f.WriteString(data)
		_, _ = f.Seek(0, 0)
		s.stdin = f
	case "null":
		data = ""
		s.stdin, _ = os.Open("/dev/null")
	default:
		var r *os.File
		var err error
		r, w, err = os.Pipe()
		if err != nil {
			t.Inconclusivef("%v", err)
		}
		if t.Chance(50) {
			// As one that is inherited.
			fd, err := unix.Dup(int(r.Fd()))
			if err != nil {
				t.Inconclusivef("%v", err)
			}
			_ = r.Close()
			r = os.NewFile(uintptr(fd), "/dev/stdin")
		}
		_, _ = w.WriteString(data)
		if kind == "closed pipe" {
			_ = w.Close()
			w = nil
		}
		s.stdin = r
	}
	if w != nil {
		defer w.Close()
	}

	m := &monitor{}
	var seen atomic.Int64
	cause := pick(t, []string{"quit", "quit", "context", "panic in Update"})
	if filesOnly {
		cause = pick(t, []string{"quit", "context", "panic in Update", "panic in Init", "panic in first Render", "output is no terminal"})
	}
	early := filesOnly && (cause == "panic in Init" || cause == "panic in first Render" || cause == "output is no terminal")
	m.onInit = func() bento.Cmd {
		if cause == "panic in Init" {
			panic("boom")
		}
		return nil
	}
	m.onRender = func(*appModel, bento.Rect, *bento.Buffer) {
		if cause == "panic in first Render" {
			panic("boom")
		}
	}
	if cause == "output is no terminal" {
		s.replace(s.stdout, devNull)
	}
	var size atomic.Int64
	m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
		switch msg := msg.(type) {
		case bento.WindowSizeMsg:
			size.Add(1)
		case bento.KeyMsg:
			seen.Add(int64(len(msg.Runes)))
			if strings.ContainsRune(string(msg.Runes), 0xe100) {
				if cause == "panic in Update" {
					panic("boom")
				}
				return bento.Quit
			}
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t.Logf("standard input is: %s, with %d bytes; ended by %s", kind, len(data), cause)
	before := openFiles()
	s.soft = filesOnly
	s.run(&appModel{m, 0}, ctx)
	if filesOnly && !early {
		s.await("the program does not get the size", func() bool { return size.Load() > 0 })
		if cause == "context" {
			cancel()
		} else {
			s.typ([]byte("\ue100"))
		}
	}
	if filesOnly {
		s.awaitReturn("it was ended by " + cause)
		if n := openFiles()["/dev/tty"]; n > before["/dev/tty"] {
			t.Failf("/dev/tty has been opened as standard input is redirected, and is still open after Run has returned %v", s.err)
		}
		t.Count("standard input redirected, ended by: "+cause, 1)
		t.Key(kind, cause, t.Uint64())
		return
	}
	alive := func() {
		select {
		case <-s.done:
			if cause != "context" || ctx.Err() == nil {
				t.Failf("the program ends by itself, with standard input being a %s: %v", kind, s.err)
			}
		default:
		}
	}
	s.await("the program does not get the size", func() bool { alive(); return size.Load() > 0 })
	tio := getTermios(s.slave)
	if tio.Lflag&(unix.ICANON|unix.ECHO) != 0 {
		t.Failf("the terminal is not in raw mode while the program runs")
	}
	var want []rune
	for i := t.Range(1, 60); i > 0; i-- {
		r := rune(0x4e00 + len(want))
		want = append(want, r)
		s.typ([]byte(string(r)))
		if t.Chance(20) {
			dawdle(t.IntN(12))
		}
		if kind == "other end closed later" && w != nil && t.Chance(10) {
			_ = w.Close()
			w = nil
		}
	}
	s.await("keys typed at the terminal do not arrive", func() bool { alive(); return seen.Load() >= int64(len(want)) })
	if cause == "context" {
		cancel()
	} else {
		s.typ([]byte("\ue100"))
	}
	s.awaitReturn("it was ended by " + cause)
	var got []rune
	for _, e := range m.snapshot() {
		if k, ok := e.msg.(bento.KeyMsg); ok && e.kind == evUpdate {
			for _, r := range k.Runes {
				if r != 0xe100 {
					got = append(got, r)
				}
			}
		}
	}
	if string(got) != string(want) {
		t.Failf("%q was typed at the terminal, but the program gets %q", string(want), string(got))
	}
	untouched(t, s.stdin, data)
	ok := map[string]bool{"quit": s.err == nil, "context": errors.Is(s.err, bento.ErrKilled), "panic in Update": errors.Is(s.err, bento.ErrPanicked)}[cause]
	if !ok {
		t.Failf("ended by %s, Run returns the error %v", cause, s.err)
	}
	s.restored(true)
	readBack(t, s, []byte(fmt.Sprintf("<after %d>", t.Index)))
	t.Count("standard input: "+kind, 1)
	t.Count("keys", len(want))
	t.Key(kind, cause, len(want), len(data))
	t.Sample("%s with %d bytes, %d keys, ended by %s", kind, len(data), len(want), cause)
}

func init() {
	trust := []string{"a Linux pseudo terminal stands in for the terminal"}
	register(&Check{
		ID: "A11", Rule: "random programs ended in one of 16 ways, then the commands that were held are let go, and the goroutines and open files of the process are compared with those before; distinct by the random choices",
		Assumptions: append([]string{"goroutines are recognised by the functions on their stacks, and files of kinds other than terminals and plain files are counted"}, trust...),
		Parts: []Part{{Name: "leftovers", Quick: 1200, Thorough: 20000, Child: true, Fn: nothingLeft},
			{Name: "redirected", Quick: 300, Thorough: 6000, Child: true, Fn: redirected(true)},
			{Name: "memory", Quick: 16, Thorough: 160, Child: true, Fn: memoryLeft}},
	})
	register(&Check{
		ID: "A12", Rule: "programs in a session with a controlling terminal whose standard input is a pipe, file or null device, while keys are typed at the terminal; distinct by kind, keys and end",
		Assumptions: trust,
		Parts:       []Part{{Name: "redirected", Quick: 1500, Thorough: 30000, Child: true, Fn: redirected(false)}},
	})
}
