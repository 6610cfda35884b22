package main

import (
	"context"
	"errors"
	"io"
	"os"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- A01, A02: the input is gone

// closedInput runs programs whose input file is closed while they run, so that
// its modes cannot be restored through it any more.
func closedInput(check func(t *T, s *session)) func(t *T) {
	return func(t *T) {
		s := t.newSession(t.Range(1, 60), t.Range(1, 20))
		defer s.close()
		m := &monitor{}
		var seen atomic.Int64
		how := pick(t, []string{"a command", "Update", "Render"})
		var closed atomic.Bool
		gone := func(where string) {
			if where == how && seen.Load() > 0 && closed.CompareAndSwap(false, true) {
				_ = os.Stdin.Close()
			}
		}
		quit := func() bento.Msg {
			gone("a command")
			dawdle(t.Index % 12)
			return bento.Quit()
		}
		m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
			if k, ok := msg.(bento.KeyMsg); ok && k.Type == bento.KeyRunes {
				seen.Add(1)
				gone("Update")
				return bento.Batch(quit, func() bento.Msg { time.Sleep(time.Millisecond); return nil })
			}
			return nil
		}
		m.onRender = func(_ *appModel, area bento.Rect, buffer *bento.Buffer) {
			gone("Render")
			buffer.SetStringN(area.X, area.Y, "some text", area.Width, bento.NewStyle().Red().Bold())
		}
		s.run(&appModel{m, 0}, nil)
		s.soft = true
		s.await("the program does not start", func() bool { return m.updates.Load() > 0 })
		s.typ([]byte("a"))
		s.awaitReturn("it quit")
		s.soft = false
		check(t, s)
		t.Count("input closed by "+how, 1)
		t.Key(how, t.Uint64())
		t.Sample("input closed by %s, Run returns %v", how, s.err)
	}
}

// ---------------------------------------------------------------- A12 and A11: redirected input

// untouched reads what is left of a file and compares it.
func untouched(t *T, f *os.File, data string) {
	if _, err := f.Stat(); errors.Is(err, os.ErrClosed) {
		t.Failf("standard input has been closed")
	}
	if _, err := unix.FcntlInt(f.Fd(), unix.F_GETFD, 0); err != nil {
		t.Failf("standard input has been closed")
	}
	b := make([]byte, len(data))
	n, err := io.ReadFull(f, b)
	if string(b[:n]) != data {
		t.Failf("standard input was not to be read, but only %q of %q is left (%v)", b[:n], data, err)
	}
}

// ---------------------------------------------------------------- A11: memory

// memoryLeft runs one program after the other and counts the objects on the heap.
func memoryLeft(t *T) {
	runtime.GOMAXPROCS(2)
	s := t.newSession(t.Range(1, 60), t.Range(1, 20))
	defer s.close()
	end := pick(t, []string{"quit from Init", "quit by key", "context", "panic"})
	one := func() {
		m := &monitor{}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m.onInit = func() bento.Cmd {
			switch end {
			case "quit from Init":
				return bento.Sequence(bento.Batch(func() bento.Msg { return 1 }, func() bento.Msg { return nil }), bento.Quit)
			case "context":
				return func() bento.Msg { cancel(); return nil }
			case "panic":
				return func() bento.Msg { panic("boom") }
			}
			return nil
		}
		m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
			switch msg.(type) {
			case bento.WindowSizeMsg:
				if end == "quit by key" {
					s.typ([]byte("q"))
				}
			case bento.KeyMsg:
				return bento.Quit
			}
			return nil
		}
		s.done = make(chan struct{})
		s.soft = true
		s.oldIn, s.oldOut, s.oldErr = os.Stdin, os.Stdout, os.Stderr
		os.Stdin, os.Stdout, os.Stderr = s.stdin, s.stdout, devNull
		go s.runApp(bento.NewApp(&appModel{m, 0}).WithContext(ctx))
		s.awaitReturn("it was ended by " + end)
		os.Stdin, os.Stdout, os.Stderr = s.oldIn, s.oldOut, s.oldErr
		s.model, s.err = nil, nil
		s.mu.Lock()
		s.out = s.out[:0]
		s.mu.Unlock()
		_ = unix.IoctlSetInt(int(s.slave.Fd()), unix.TCFLSH, unix.TCIFLUSH)
	}
	objects := func() int64 {
		s.await("goroutines are left", func() bool { return len(leftovers()) == 0 })
		for i := 0; i < 3; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		var st runtime.MemStats
		runtime.ReadMemStats(&st)
		return int64(st.Mallocs - st.Frees)
	}
	const n = 150
	var seen []int64
	for i := 0; i < 4; i++ {
		for j := 0; j < n; j++ {
			one()
		}
		seen = append(seen, objects())
		t.Logf("objects on the heap after %d programs: %d", n*(i+1), seen[i])
	}
	grown := min(seen[2]-seen[1], seen[3]-seen[2])
	if grown >= n {
		t.Failf("the heap grows by %d objects with each %d programs run (%d)", grown, n, seen)
	}
	t.Count("programs run one after the other", 4*n)
	t.Key(end, t.Uint64())
	t.Sample("ended by %s: objects %v", end, seen)
}
