package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- A01-A07

// life runs a program with the options and passes it to the oracle.
func life(opts func(t *T) programOpts, check func(p *program, ev []event)) func(t *T) {
	return func(t *T) {
		p := t.newProgram(opts(t))
		defer p.finish()
		ev := p.run()
		check(p, ev)
		order := ""
		for _, e := range ev {
			switch e.kind {
			case evStart, evEnd:
				order += fmt.Sprintf("%d.%d ", e.kind, e.id)
			case evUpdate:
				order += fmt.Sprintf("u%T ", e.msg)
				if m, ok := e.msg.(leafMsg); ok {
					order += fmt.Sprint(m.id)
				}
			}
		}
		t.Key(p.cause, order)
		t.Count("events", len(ev))
		t.Sample("ended by %s after %d events; commands of Init: %v", p.cause, len(ev), p.root)
		if len(ev) < 4 {
			t.Trivial()
		}
	}
}

func checkRestored(p *program, ev []event) {
	p.s.restored(p.cause != "output" && p.cause != "size")
	p.t.Count("restored after: "+p.cause, 1)
}

// ---------------------------------------------------------------- A08

func leftInput(t *T) {
	p := t.newProgram(programOpts{exits: allExits, chains: true, late: true, size: t.Range(1, 20), quiet: t.Chance(30)})
	defer p.finish()
	p.run()
	s := p.s
	rounds := t.Range(1, 3)
	for i := 0; i < rounds; i++ {
		mark := fmt.Sprintf("<%d.%d", t.Index, i)
		if t.Chance(50) {
			// The next reader is no program of this kind.
			n := t.Range(1, 600)
			b := []byte(mark)
			for len(b) < n {
				b = append(b, byte(t.Range(0x20, 0x7e)))
			}
			b = append(b, '>')
			readBack(t, s, b)
			t.Count("bytes left for another reader", len(b))
		} else {
			// Another program is run on the same terminal.
			secondRun(t, s, i)
		}
	}
	t.Key(p.cause, rounds, t.Uint64())
	t.Sample("ended by %s, then %d more readers", p.cause, rounds)
}

func readBack(t *T, s *session, b []byte) {
	tio := getTermios(s.slave)
	was := tio
	raw := tio
	raw.Lflag &^= unix.ICANON | unix.ECHO | unix.ECHONL | unix.ISIG | unix.IEXTEN
	raw.Iflag &^= unix.IXON | unix.ICRNL | unix.INLCR | unix.IGNCR | unix.ISTRIP | unix.PARMRK | unix.BRKINT | unix.IXANY | unix.IXOFF
	raw.Cc[unix.VMIN], raw.Cc[unix.VTIME] = 0, 1
	if err := unix.IoctlSetTermios(int(s.slave.Fd()), unix.TCSETS, &raw); err != nil {
		t.Inconclusivef("%v", err)
	}
	for len(b) > 0 {
		// In pieces, as a reader that is left over would take only what comes first.
		k := min(len(b), t.Range(1, 200))
		piece := b[:k]
		b = b[k:]
		s.typ(piece)
		time.Sleep(time.Duration(t.IntN(3)) * time.Millisecond)
		var got []byte
		d := newDeadline()
		for !bytes.HasSuffix(got, piece) {
			var r [512]byte
			n, err := unix.Read(int(s.slave.Fd()), r[:])
			if err != nil && err != unix.EINTR && err != unix.EAGAIN {
				t.Inconclusivef("cannot read the terminal: %v", err)
			}
			if n > 0 {
				got = append(got, r[:n]...)
				continue
			}
			// Two seconds of silence are enough for what is there already.
			if time.Since(d.start) > 3*time.Second && beats.Load()-d.beats > 200 {
				t.Failf("%q was typed after Run had returned, but the next reader gets only %q", piece, got)
			}
		}
	}
	if err := unix.IoctlSetTermios(int(s.slave.Fd()), unix.TCSETS, &was); err != nil {
		t.Inconclusivef("%v", err)
	}
}

func secondRun(t *T, s *session, round int) {
	m := &monitor{}
	var got atomic.Int64
	base := rune(0x6000 + 0x200*round)
	m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
		k, ok := msg.(bento.KeyMsg)
		if !ok || k.Type != bento.KeyRunes {
			return nil
		}
		quit := false
		for _, r := range k.Runes {
			if r >= base && r < base+0x200 {
				got.Add(1)
				quit = quit || r == base+0x1ff
			}
		}
		if quit {
			return bento.Quit
		}
		return nil
	}
	s.done = make(chan struct{})
	s.model, s.err, s.escaped = nil, nil, nil
	early := t.Chance(40)
	var want []rune
	for i := t.Range(1, 200); i > 0; i-- {
		want = append(want, base+rune(len(want)))
	}
	if early {
		// Typed before the next program takes over; the terminal keeps it.
		tio := getTermios(s.slave)
		tio.Lflag &^= unix.ICANON | unix.ECHO
		tio.Cc[unix.VMIN] = 1
		tio.Cc[unix.VTIME] = 0
		_ = unix.IoctlSetTermios(int(s.slave.Fd()), unix.TCSETS, &tio)
		s.typ([]byte(string(want[:len(want)/2])))
		time.Sleep(time.Duration(t.IntN(3)) * time.Millisecond)
	}
	s.stdin = openSlave(s.slave.Name(), unix.O_RDWR)
	s.stdout = openSlave(s.slave.Name(), unix.O_RDWR)
	in, out := s.stdin, s.stdout
	s.cleanup = append(s.cleanup, func() { _ = in.Close(); _ = out.Close() })
	os.Stdin, os.Stdout = s.stdin, s.stdout
	go s.runApp(bento.NewApp(&appModel{m, 0}))
	s.soft = true
	s.await("the second program does not start", func() bool { return m.updates.Load() > 0 })
	s.soft = false
	if early {
		s.typ([]byte(string(want[len(want)/2:])))
	} else {
		s.typ([]byte(string(want)))
	}
	d := newDeadline()
	for got.Load() < int64(len(want)) {
		// What the first program does not take away arrives within milliseconds.
		if time.Since(d.start) > 5*time.Second && beats.Load()-d.beats > 400 {
			break
		}
		sleepShort()
	}
	s.typ([]byte(string(base + 0x1ff)))
	s.soft = true
	s.awaitReturn("the second program was asked to quit")
	s.soft = false
	var keys []rune
	for _, e := range m.snapshot() {
		if k, ok := e.msg.(bento.KeyMsg); ok && e.kind == evUpdate {
			for _, r := range k.Runes {
				if r >= base && r < base+0x1ff {
					keys = append(keys, r)
				}
			}
		}
	}
	if string(keys) != string(want) {
		t.Failf("the keys %q typed after the first program had ended reach the second as %q", string(want), string(keys))
	}
	t.Count("keys received by another program", len(want))
}

// ---------------------------------------------------------------- A09

// resizedFrames has a model check the screen against the frame it rendered,
// whenever it is updated, while it resizes the terminal itself.
func resizedFrames(t *T) {
	w, h := t.Range(1, 60), t.Range(1, 16)
	s := t.newSession(w, h)
	defer s.close()
	o := frameOpts{wide: t.IntN(50), huge: 3 * t.IntN(2), colors: t.Chance(60), mods: t.Chance(60)}
	steps := t.Range(4, 40)
	m := &monitor{}
	announced := bento.NewRect(w, h)
	actual := announced
	shown := newGrid(announced)
	stale := false // the screen is garbled until the size is announced
	var fail string
	checks, sizes := 0, 0
	var finished, abort atomic.Bool
	var trail []string

	check := func() {
		s.collect()
		if stale || announced != actual {
			s.em.errs = nil
			return
		}
		if actual.IsEmpty() {
			// There is no screen.
			s.em.errs = nil
			t.Count("terminals of no cell", 1)
			return
		}
		t.checkScreen(s.em, s.profile, shown.area, func(x, y int) (bento.Cell, bool) {
			return *shown.at(x, y), true
		}, "after the rendering of "+fmt.Sprint(shown.area))
		checks++
	}
	guard := func(f func()) (cmd bento.Cmd) {
		// The verdict is given outside of the program.
		defer func() {
			switch r := recover().(type) {
			case nil:
			case failure:
				fail = r.msg
				finished.Store(true)
			case inconclusive:
				abort.Store(true)
				finished.Store(true)
			default:
				panic(r)
			}
		}()
		if !finished.Load() {
			f()
		}
		return nil
	}
	m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
		guard(func() {
			trail = append(trail, fmt.Sprintf("update with %T %v", msg, msg))
			if _, ok := msg.(bento.WindowSizeMsg); ok {
				// The screen may be cleared already.
				s.collect()
				s.em.errs = nil
			} else {
				check()
			}
			switch msg := msg.(type) {
			case bento.WindowSizeMsg:
				announced = bento.NewRect(msg.Width, msg.Height)
				trail = append(trail, fmt.Sprint("announced ", announced))
				sizes++
				if announced == actual {
					stale = false
				}
			case bento.KeyMsg:
			default:
				return
			}
			steps--
			if steps <= 0 {
				if announced == actual && steps < -2 {
					finished.Store(true)
					return
				}
				s.typ([]byte("z"))
				return
			}
			switch t.IntN(5) {
			case 0, 1:
				for k := t.Range(1, 4); k > 0; k-- {
					switch t.IntN(4) {
					case 0: // grow or shrink a little
						w, h = max(0, w+t.Range(-2, 2)), max(0, h+t.Range(-1, 1))
					case 1: // the same size
					case 2:
						w, h = t.Range(1, 10), t.Range(1, 4)
					default:
						w, h = t.size()
					}
					trail = append(trail, fmt.Sprintf("resized to %dx%d", w, h))
					s.em.resize(max(1, w), max(1, h))
					// What a terminal does with the content is its own affair.
					for i := range s.em.cells {
						if t.Chance(30) {
							s.em.cells[i] = emuCell{sym: "#"}
						}
					}
					actual = bento.NewRect(w, h)
					stale = true
					s.resize(w, h)
					if t.Chance(30) {
						dawdle(t.IntN(12))
					}
				}
				if t.Chance(60) {
					s.typ([]byte("x"))
				}
			case 2:
				s.typ([]byte("xyz"[:t.Range(1, 3)]))
			default:
				s.typ([]byte("x"))
			}
		})
		return nil
	}
	m.onRender = func(_ *appModel, area bento.Rect, buffer *bento.Buffer) {
		guard(func() {
			if area != announced {
				fail = fmt.Sprintf("the model is rendered into %v, but the last size announced is %v", area, announced)
				finished.Store(true)
				return
			}
			if buffer.Area() != area {
				fail = fmt.Sprintf("the model is rendered into a buffer of %v, but the last size announced is %v", buffer.Area(), announced)
				finished.Store(true)
				return
			}
			prev := shown
			if prev.area != area {
				prev = newGrid(area)
			}
			g, kind := t.nextFrame(prev, o)
			t.Count("frame: "+kind, 1)
			g.render(buffer)
			shown = g
			trail = append(trail, fmt.Sprintf("rendered %q", g.rows()))
		})
	}
	s.run(&appModel{m, 0}, nil)
	s.await("the program does not go on after a resize", func() bool {
		select {
		case <-s.done:
			return true
		default:
			return finished.Load()
		}
	})
	for _, l := range trail {
		t.Logf("%s", l)
	}
	select {
	case <-s.done:
		t.Failf("the program ends by itself: %v", s.err)
	default:
	}
	// Let it go.
	_ = syscall.Kill(os.Getpid(), syscall.SIGWINCH)
	endSession(t, s)
	if fail != "" {
		t.Failf("%s", fail)
	}
	if abort.Load() {
		t.Inconclusivef("the terminal does not answer")
	}
	t.Count("screens compared", checks)
	t.Count("sizes announced", sizes)
	t.Key(strings.Join(trail, ","), checks)
	if sizes < 2 || checks < 2 {
		t.Trivial()
	}
	t.Sample("%v", trail)
}

// endSession makes the program end in whatever way works.
func endSession(t *T, s *session) {
	for i := 0; i < 2000; i++ {
		select {
		case <-s.done:
			return
		default:
		}
		if i == 0 {
			s.replace(s.stdout, devNull)
		}
		_ = syscall.Kill(os.Getpid(), syscall.SIGWINCH)
		time.Sleep(5 * time.Millisecond)
	}
}

// size picks a size of the terminal.
func (t *T) size() (w, h int) {
	w, h = t.Range(1, 90), t.Range(1, 24)
	if t.Chance(6) {
		w = pick(t, []int{0, 0, 1, 2, 255, 256, 257, 400, 511, 600, 1001})
	}
	if t.Chance(6) {
		h = pick(t, []int{0, 0, 1, 2, 100, 255, 256, 257, 300})
		if w > 100 {
			h = min(h, 60)
		}
	}
	return w, h
}

// stormyResizes resizes at any moment and looks only at what comes out in the end.
func stormyResizes(t *T) {
	w, h := t.Range(1, 60), t.Range(1, 16)
	s := t.newSession(w, h)
	defer s.close()
	p := &program{t: t, m: &monitor{}, s: s, o: programOpts{stall: t.Chance(70)}}
	m := p.m
	var last atomic.Pointer[bento.Rect]
	var drawn atomic.Pointer[bento.Rect]
	var seenKey atomic.Int64
	m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
		p.stall()
		switch msg := msg.(type) {
		case bento.WindowSizeMsg:
			r := bento.NewRect(msg.Width, msg.Height)
			last.Store(&r)
		case bento.KeyMsg:
			for _, r := range msg.Runes {
				if r == 'q' {
					return bento.Quit
				}
				seenKey.Add(1)
			}
		}
		return nil
	}
	m.onRender = func(a *appModel, area bento.Rect, buffer *bento.Buffer) {
		p.stall()
		p.paint(a, area, buffer)
		r := area
		drawn.Store(&r)
		if l := last.Load(); l != nil && *l != area {
			m.errorf("the model is rendered into %v, but the last size announced is %v", area, *l)
		}
	}
	s.run(&appModel{m, 0}, nil)
	s.soft = true
	if t.Chance(60) {
		s.await("the program does not start", func() bool { return m.updates.Load() > 0 })
	}
	s.soft = false
	var trail []string
	typed := int64(0)
	for i := t.Range(1, 25); i > 0; i-- {
		switch t.IntN(4) {
		case 0:
			s.typ([]byte("x"))
			typed++
		default:
			w, h = t.size()
			trail = append(trail, fmt.Sprintf("%dx%d", w, h))
			s.resize(w, h)
		}
		dawdle(t.IntN(13))
	}
	// The last resize.
	w, h = t.size()
	trail = append(trail, fmt.Sprintf("%dx%d", w, h))
	started := m.updates.Load() > 0
	s.resize(w, h)
	t.Logf("resized to %v, program started: %v", trail, started)
	want := bento.NewRect(w, h)
	s.what = func() string {
		l, d := last.Load(), drawn.Load()
		return fmt.Sprintf("the terminal is %v at last, but the last size announced is %v, and the last area drawn %v", want, l, d)
	}
	s.await("", func() bool {
		l, d := last.Load(), drawn.Load()
		return l != nil && *l == want && d != nil && *d == want && seenKey.Load() >= typed
	})
	s.what = nil
	// No other size comes after it.
	time.Sleep(time.Duration(t.IntN(4)) * time.Millisecond)
	n := m.updates.Load()
	s.typ([]byte("x"))
	s.await("a key does not arrive", func() bool { return m.updates.Load() > n })
	if l := last.Load(); *l != want {
		t.Failf("the terminal is %v, but the last size announced is %v", want, *l)
	}
	s.typ([]byte("q"))
	s.soft = true
	s.awaitReturn("the program was asked to quit")
	s.soft = false
	m.mu.Lock()
	errs := m.errs
	m.mu.Unlock()
	if len(errs) > 0 {
		t.Failf("%s", errs[0])
	}
	t.Count("resizes", len(trail))
	t.Key(trail, m.updates.Load())
	t.Sample("%v", trail)
}

// ---------------------------------------------------------------- A10

type tickMsg struct {
	id int
	at time.Time
}

type tick struct {
	id      int
	d       time.Duration
	start   time.Time
	calls   atomic.Int32
	updates atomic.Int32
	seq     bool
}

// ticks runs many ticks of a program, and some called directly.
func ticks(t *T) {
	s := t.newSession(20, 4)
	defer s.close()
	m := &monitor{}
	var all []*tick
	direct := t.Chance(25)
	duration := func() time.Duration {
		switch t.IntN(10) {
		case 0:
			return 0
		case 1:
			return -time.Duration(t.IntN(1e9))
		case 2, 3, 4:
			return time.Duration(t.IntN(3e6))
		case 5:
			return time.Duration(t.IntN(120e6))
		default:
			return time.Duration(t.IntN(25e6))
		}
	}
	newTick := func(d time.Duration) (*tick, bento.Cmd) {
		k := &tick{id: len(all), d: d, start: time.Now()}
		all = append(all, k)
		nothing := t.Chance(5)
		return k, bento.Tick(d, func(at time.Time) bento.Msg {
			if k.calls.Add(1) > 1 {
				m.errorf("the function of a tick is called again")
			}
			if e := at.Sub(k.start); e < k.d {
				m.errorf("a tick of %v is made for a time only %v after it was started", k.d, e)
			}
			if e := time.Since(k.start); e < k.d {
				m.errorf("a tick of %v ends after %v", k.d, e)
			}
			if at.After(time.Now()) {
				m.errorf("a tick of %v is made for a time that has not come", k.d)
			}
			if nothing {
				k.updates.Add(1)
				return nil
			}
			return tickMsg{k.id, at}
		})
	}
	var initial []bento.Cmd
	n := t.Range(1, 60)
	long := 0
	for i := 0; i < n; i++ {
		if t.Chance(6) {
			long++
			_, c := newTick(time.Hour + time.Duration(t.IntN(1e9)))
			all = all[:len(all)-1] // never comes
			initial = append(initial, c)
			continue
		}
		_, c := newTick(duration())
		initial = append(initial, c)
		if t.Chance(10) {
			// Started long before it is run.
			time.Sleep(time.Duration(t.IntN(2000)) * time.Microsecond)
		}
	}
	if direct {
		// Without a program.
		done := make(chan struct{})
		cnt := 0
		for _, c := range initial {
			c := c
			go func() {
				defer func() { done <- struct{}{} }()
				if msg, ok := c().(tickMsg); ok {
					all[msg.id].updates.Add(1)
				}
			}()
			cnt++
		}
		d := newDeadline()
		for i := 0; i < cnt-long; i++ {
			for {
				select {
				case <-done:
				case <-time.After(50 * time.Millisecond):
					if over, fair := d.expired(); over {
						s.fail(fair, "a tick does not end")
					}
					continue
				}
				break
			}
		}
	} else {
		if t.Chance(30) && long == 0 {
			// One after the other.
			m.onInit = func() bento.Cmd { return bento.Sequence(initial...) }
		} else {
			m.onInit = func() bento.Cmd { return bento.Batch(initial...) }
		}
		keys := int64(0)
		var seen atomic.Int64
		m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
			switch msg := msg.(type) {
			case tickMsg:
				k := all[msg.id]
				if k.updates.Add(1) > 1 {
					m.errorf("tick %d comes twice", msg.id)
				}
			case bento.KeyMsg:
				for _, r := range msg.Runes {
					if r == 'q' {
						return bento.Quit
					}
					seen.Add(1)
				}
			}
			return nil
		}
		s.run(&appModel{m, 0}, nil)
		for i := t.IntN(10); i > 0; i-- {
			dawdle(t.IntN(12))
		}
		s.soft = true
		s.await("the program does not start", func() bool { return m.updates.Load() > 0 })
		s.soft = false
		for i := t.IntN(10); i > 0; i-- {
			s.typ([]byte("x"))
			keys++
		}
		s.await("a tick does not come, or a key is not received while ticks are pending", func() bool {
			if seen.Load() < keys {
				return false
			}
			for _, k := range all {
				if k.updates.Load() == 0 {
					return false
				}
			}
			return true
		})
		s.typ([]byte("q"))
		s.awaitReturn("it was asked to quit while ticks were pending")
	}
	for _, k := range all {
		if k.calls.Load() != 1 || k.updates.Load() != 1 {
			t.Failf("the function of a tick of %v is called %d times, and there are %d messages", k.d, k.calls.Load(), k.updates.Load())
		}
	}
	m.mu.Lock()
	errs := m.errs
	m.mu.Unlock()
	if len(errs) > 0 {
		t.Failf("%s", errs[0])
	}
	t.Count("ticks", len(all))
	t.Count("ticks pending at the end", long)
	var ds []time.Duration
	for _, k := range all {
		ds = append(ds, k.d)
	}
	t.Key(direct, ds)
	t.Sample("ticks of %v, directly: %v", ds, direct)
}

// ---------------------------------------------------------------- A05: races

// racyModel does not synchronise anything. Nothing else looks at it before
// Run has returned.
type racyModel struct {
	n       int
	log     []string
	last    map[string]int
	frames  int
	pending int
}

type racyMsg struct{ data []int }

func racyCmd(n int, data []int) bento.Cmd {
	return func() bento.Msg {
		out := make([]int, len(data))
		for i := range data {
			out[i] = data[i] + n
		}
		time.Sleep(time.Duration(n%5) * 100 * time.Microsecond)
		return racyMsg{out}
	}
}

func (r *racyModel) Init() bento.Cmd {
	r.n++
	r.last = map[string]int{}
	var batch, seq []bento.Cmd
	for i := 0; i < 12; i++ {
		batch = append(batch, racyCmd(i, []int{i, r.n}))
		seq = append(seq, racyCmd(i*2, []int{i, r.n}))
		seq = append(seq, bento.Tick(time.Duration(i)*300*time.Microsecond, func(time.Time) bento.Msg { return racyMsg{[]int{1}} }))
	}
	seq = append(seq, bento.Batch(batch[:5]...), bento.Quit)
	return bento.Batch(bento.Batch(batch...), bento.Sequence(seq...))
}

func (r *racyModel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	r.n++
	s := fmt.Sprintf("%T %v", msg, msg)
	r.last[s]++
	r.log = append(r.log, s)
	if m, ok := msg.(racyMsg); ok && r.pending < 40 {
		r.pending++
		return r, racyCmd(r.n, m.data)
	}
	return r, nil
}

func (r *racyModel) Render(area bento.Rect, buffer *bento.Buffer) {
	r.frames++
	if len(r.log) > 0 {
		buffer.SetStringN(area.X, area.Y, r.log[len(r.log)-1], area.Width, bento.NewStyle().Red())
	}
	for k := range r.last {
		r.last[k] += 0
	}
}

func races(t *T) {
	s := t.newSession(t.Range(1, 60), t.Range(1, 20))
	defer s.close()
	// Without a watcher, the signals of the resizes would end up nowhere.
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGWINCH)
	defer signal.Stop(sig)
	r := &racyModel{}
	s.run(r, nil)
	running := true
	k := 0
	for d := newDeadline(); running; k++ {
		select {
		case <-s.done:
			running = false
			continue
		default:
		}
		if over, _ := d.expired(); over {
			t.Inconclusivef("the program does not end")
		}
		switch t.IntN(6) {
		case 0:
			s.resize(t.Range(1, 60), t.Range(1, 20))
		case 1:
			s.typ([]byte("\x1b[?9;9x\x1b[A\x1b[<0;3;3M"))
		case 2:
			s.typ([]byte("\x1b[200~pasted text\x1b[201~"))
		default:
			s.typ([]byte(pick(t, []string{"a", "中文", "xyz\x01", "\x1b[999;1;2~abc"})))
		}
		dawdle(t.IntN(13))
	}
	if s.escaped != nil {
		t.Failf("a panic escapes from Run: %v", s.escaped)
	}
	if s.err != nil && !errors.Is(s.err, bento.ErrKilled) {
		t.Failf("Run returns the error %v", s.err)
	}
	t.Count("updates watched by the race detector", len(r.log))
	t.Count("renderings watched by the race detector", r.frames)
	t.Key(r.log)
	t.Sample("%d updates, %d renderings", len(r.log), r.frames)
}

// slowPart runs programs whose methods take seconds at times.
func slowPart(o programOpts, check func(p *program, ev []event)) Part {
	return Part{Name: "slow", Quick: 48, Thorough: 1000, Child: true, Wide: 6, Fn: life(func(t *T) programOpts {
		o := o
		o.exits, o.slow, o.quiet = allExits[:11], true, !o.ownReturn
		o.late, o.size, o.resize = t.Chance(50), t.Range(5, 60), t.Chance(50)
		return o
	}, check)}
}

// crowdPart runs programs with very many commands.
func crowdPart(n int, delivery, blocking bool, check func(p *program, ev []event)) Part {
	return Part{Name: "crowd", Quick: n, Thorough: 30 * n, Child: true, Fn: life(func(t *T) programOpts {
		return programOpts{exits: []string{"quit", "quit in sequence", "context"}, late: t.Chance(30), size: t.Range(1, 20), quiet: true, crowd: true, ownDelivery: delivery, ownBlocking: blocking}
	}, check)}
}

func init() {
	exits := func(t *T) []string {
		if t.Chance(12) {
			return doubleExits
		}
		return allExits
	}
	random := func(f func(t *T, o *programOpts)) func(t *T) programOpts {
		return func(t *T) programOpts {
			o := programOpts{exits: exits(t), late: true, size: t.Range(1, 40), resize: t.Chance(50), stall: t.Chance(40), quiet: t.Chance(25)}
			f(t, &o)
			return o
		}
	}
	rule := "random programs on a pseudo terminal: trees of batches, sequences, plain, nil, blocked, panicking and ever-repeating commands, keys and resizes at random moments, with 1 to 8 processors, ended in one of 18 ways or by two at a time at a random point; distinct by the order of events seen by the monitor"
	trust := []string{"a Linux pseudo terminal stands in for the terminal", "schedules are those that random delays, processor counts and barriers produce"}
	register(&Check{
		ID: "A01", Rule: rule, Assumptions: append([]string{"when the output cannot be written, only the modes of the input are checked"}, trust...),
		Parts: []Part{{Name: "exits", Quick: 1500, Thorough: 30000, Child: true, Fn: life(random(func(t *T, o *programOpts) { o.chains = true }), checkRestored)},
			{Name: "closed input", Quick: 150, Thorough: 3000, Child: true, Fn: closedInput(func(t *T, s *session) { s.outputRestored() })}},
	})
	register(&Check{
		ID: "A02", Rule: rule, Assumptions: trust,
		Parts: []Part{{Name: "exits", Quick: 1500, Thorough: 30000, Child: true, Fn: life(random(func(t *T, o *programOpts) { o.chains = true }), func(p *program, ev []event) {
			p.checkError()
			p.checkResult(ev)
		})}, {Name: "closed input", Quick: 150, Thorough: 3000, Child: true, Fn: closedInput(func(t *T, s *session) {
			if s.err == nil {
				t.Failf("the modes of the terminal cannot be restored as its file has been closed, but Run returns no error")
			}
		})}},
	})
	register(&Check{
		ID: "A03", Rule: rule, Assumptions: append([]string{"\"always\" is 25 seconds in which the process was able to run"}, trust...),
		Parts: []Part{{Name: "exits", Quick: 2000, Thorough: 40000, Child: true, Fn: life(random(func(t *T, o *programOpts) {
			o.chains = true
			o.ownReturn = true
			o.quiet = t.Chance(10)
		}), func(p *program, ev []event) { p.t.Count("returned after: "+p.cause, 1) })},
			slowPart(programOpts{ownReturn: true}, func(p *program, ev []event) { p.t.Count("returned after: "+p.cause, 1) })},
	})
	register(&Check{
		ID: "A04", Rule: rule, Assumptions: trust,
		Parts: []Part{{Name: "messages", Quick: 3000, Thorough: 60000, Child: true, Fn: life(random(func(t *T, o *programOpts) {
			o.quiet = t.Chance(70)
			o.ownDelivery = true
			o.size = t.Range(1, 90)
		}), func(p *program, ev []event) {
			p.checkMessages(ev)
			p.checkAfter()
		})}, slowPart(programOpts{ownDelivery: true}, func(p *program, ev []event) {
			p.checkMessages(ev)
			p.checkAfter()
		}), crowdPart(100, true, false, func(p *program, ev []event) { p.checkMessages(ev) })},
	})
	register(&Check{
		ID: "A05", Rule: rule + "; a model without any synchronisation under the race detector", Assumptions: trust,
		Parts: []Part{
			{Name: "history", Quick: 1500, Thorough: 30000, Child: true, Fn: life(random(func(t *T, o *programOpts) {
				o.chains = true
				o.stall = t.Chance(80)
			}), func(p *program, ev []event) {
				p.checkHistory(ev)
				p.checkAfter()
			})},
			{Name: "races", Quick: 150, Thorough: 3000, Child: true, Race: true, Fn: races},
		},
	})
	register(&Check{
		ID: "A06", Rule: rule + "; commands that wait for each other or never end", Assumptions: trust,
		Parts: []Part{{Name: "commands", Quick: 3000, Thorough: 60000, Child: true, Fn: life(random(func(t *T, o *programOpts) {
			o.quiet = t.Chance(85)
			o.ownBlocking = true
			o.size = t.Range(1, 120)
		}), func(p *program, ev []event) { p.checkCommands() })},
			slowPart(programOpts{ownBlocking: true}, func(p *program, ev []event) { p.checkCommands() }),
			crowdPart(200, false, true, func(p *program, ev []event) { p.checkCommands() })},
	})
	register(&Check{
		ID: "A07", Rule: rule, Assumptions: trust,
		Parts: []Part{{Name: "sequences", Quick: 3000, Thorough: 60000, Child: true, Fn: life(random(func(t *T, o *programOpts) {
			o.quiet = t.Chance(70)
			o.size = t.Range(1, 90)
		}), func(p *program, ev []event) { p.checkSequences(ev) })},
			slowPart(programOpts{}, func(p *program, ev []event) { p.checkSequences(ev) }),
			crowdPart(100, false, false, func(p *program, ev []event) { p.checkSequences(ev) })},
	})
	register(&Check{
		ID: "A08", Rule: "a random program is run to its end; then bytes are typed and read from the terminal by another reader, or by another program run in the same process; distinct by the random choices", Assumptions: trust,
		Parts: []Part{{Name: "readers", Quick: 1000, Thorough: 20000, Child: true, Fn: leftInput}},
	})
	register(&Check{
		ID: "A09", Rule: "resizes made while the program is updating, with the whole emulated screen compared before the next update, and resizes at random moments, with the last size compared; distinct by sizes and moments", Assumptions: append([]string{"what a terminal of no cell shows is not looked at"}, trust...),
		Parts: []Part{
			{Name: "frames", Quick: 1000, Thorough: 20000, Child: true, Fn: resizedFrames},
			{Name: "storm", Quick: 1500, Thorough: 30000, Child: true, Fn: stormyResizes},
		},
	})
	register(&Check{
		ID: "A10", Rule: "up to 60 ticks at once of random durations (zero and negative as well), in programs and called directly; distinct by durations", Assumptions: append([]string{"no upper bound is put on the time of a tick but patience"}, trust...),
		Parts: []Part{{Name: "ticks", Quick: 500, Thorough: 8000, Child: true, Fn: ticks}},
	})
}
