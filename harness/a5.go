package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// ---------------------------------------------------------------- A13

// roundKey asks the model for another round of commands.
const roundKey = 'R'

type roundMsg struct{}

// roundsModel does the same in each round.
type roundsModel struct {
	cmds     func() bento.Cmd
	widgets  []widgetFunc
	layout   bento.Layout
	input    inputwidget.State
	list     listwidget.State
	throbber throbberwidget.State

	got    atomic.Int64 // messages of commands
	keys   atomic.Int64 // round keys
	frames atomic.Int64
	msgs   atomic.Int64
	width  atomic.Int64
}

func (m *roundsModel) Init() bento.Cmd { return nil }

func (m *roundsModel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	m.msgs.Add(1)
	switch msg := msg.(type) {
	case bento.WindowSizeMsg:
		m.width.Store(int64(msg.Width))
	case roundMsg:
		m.got.Add(1)
	case throbberwidget.TickMsg:
		m.got.Add(1)
		m.throbber.TryUpdate(msg) // the tick that follows is not wanted
	case bento.KeyMsg:
		if len(msg.Runes) == 1 && msg.Runes[0] == roundKey {
			m.keys.Add(1)
			m.input.DeleteLine()
			return m, m.cmds()
		}
		if len(msg.Runes) == 1 && msg.Runes[0] == 'Q' {
			return m, bento.Quit
		}
	}
	if cmd, ok := m.input.TryUpdate(msg); ok {
		return m, cmd
	}
	cmd, _ := m.list.TryUpdate(msg)
	return m, cmd
}

func (m *roundsModel) Render(area bento.Rect, buffer *bento.Buffer) {
	m.frames.Add(1)
	list := listwidget.New(listItems...)
	for i, r := range m.layout.Split(area) {
		switch {
		case i < len(m.widgets):
			m.widgets[i](r, buffer)
		case i == len(m.widgets):
			inputwidget.New().WithPrompt("> ").RenderStateful(r, buffer, &m.input)
		case i == len(m.widgets)+1:
			list.RenderStateful(r, buffer, &m.list)
		default:
			throbberwidget.New().WithType(throbberwidget.TypeMeter).RenderStateful(r, buffer, m.throbber)
		}
	}
}

var listItems = []textwidget.Text{textwidget.NewTextStr("one"), textwidget.NewTextStr("two\nlines"), textwidget.NewTextStr("three")}

// usage is what the process needs at a time.
type usage struct{ objects, bytes, goroutines, files int64 }

func (u usage) less(v usage) usage {
	return usage{u.objects - v.objects, u.bytes - v.bytes, u.goroutines - v.goroutines, u.files - v.files}
}

func (u usage) String() string {
	return fmt.Sprintf("%d objects of %d bytes, %d goroutines, %d files", u.objects, u.bytes, u.goroutines, u.files)
}

func measure() usage {
	// Goroutines that have sent their message may not have ended yet.
	for same, last, i := 0, -1, 0; same < 8 && i < 1000; i++ {
		if n := runtime.NumGoroutine(); n == last {
			same++
		} else {
			same, last = 0, n
		}
		time.Sleep(2 * time.Millisecond)
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	files, _ := os.ReadDir("/proc/self/fd")
	var st runtime.MemStats
	runtime.ReadMemStats(&st)
	return usage{int64(st.Mallocs - st.Frees), int64(st.HeapAlloc), int64(runtime.NumGoroutine()), int64(len(files))}
}

func longRun(n int) func(t *T) {
	return func(t *T) {
		runtime.GOMAXPROCS(2)
		s := t.newSession(t.Range(20, 60), t.Range(8, 20))
		defer s.close()
		s.soft = true
		m := &roundsModel{input: inputwidget.NewState(), list: listwidget.NewState(), throbber: throbberwidget.NewState()}
		src := &textSource{t: t, make: func(n int, nl bool) string { return t.tame(n, 20) }}
		var names []string
		cons := []bento.Constraint{bento.ConstraintLen(1), bento.ConstraintMin(2), bento.ConstraintFill(1)}
		for i := t.Range(1, 4); i > 0; i-- {
			w, name := src.widget()
			m.widgets = append(m.widgets, w)
			names = append(names, name)
			cons = append(cons, t.constraint())
		}
		m.layout = bento.NewLayout(cons...).WithFlex(bento.Flex(t.IntN(6)))

		// The commands of a round, and how many messages of theirs come.
		var kinds []string
		var makers []func() bento.Cmd
		want := int64(0)
		leaf := func() bento.Msg { return roundMsg{} }
		add := func(kind string, k int64, f func() bento.Cmd) {
			kinds = append(kinds, kind)
			makers = append(makers, f)
			want += k
		}
		for i := t.Range(4, 9); i > 0; i-- {
			switch t.IntN(8) {
			case 0:
				add("command", 1, func() bento.Cmd { return leaf })
			case 1:
				add("nothing", 0, func() bento.Cmd { return func() bento.Msg { return nil } })
			case 2:
				add("sequence", 3, func() bento.Cmd { return bento.Sequence(leaf, nil, bento.Batch(leaf, leaf)) })
			case 3:
				add("batch", 4, func() bento.Cmd { return bento.Batch(leaf, bento.Sequence(leaf, leaf), bento.Batch(leaf)) })
			case 4:
				add("tick", 1, func() bento.Cmd {
					return bento.Tick(time.Duration(t.Index%3)*300*time.Microsecond, func(time.Time) bento.Msg { return roundMsg{} })
				})
			case 5:
				add("throbber", 1, func() bento.Cmd { return m.throbber.Tick })
			case 6:
				add("commands", 9, func() bento.Cmd {
					c := make([]bento.Cmd, 9)
					for i := range c {
						c[i] = leaf
					}
					return bento.Batch(c...)
				})
			default:
				add("ticks in sequence", 2, func() bento.Cmd {
					return bento.Sequence(bento.Tick(0, func(time.Time) bento.Msg { return roundMsg{} }), leaf)
				})
			}
		}
		m.cmds = func() bento.Cmd {
			c := make([]bento.Cmd, len(makers))
			for i, f := range makers {
				c[i] = f()
			}
			return bento.Batch(c...)
		}
		var typed strings.Builder
		for i := t.IntN(8); i > 0; i-- {
			typed.WriteString(pick(t, exampleKeys))
		}
		typed.WriteString("\x1b[I" + string(roundKey)) // not one message with the keys before
		resizes := t.Chance(60)
		w0, h0 := t.Range(10, 60), t.Range(4, 20)
		t.Logf("widgets %v, layout %v, commands %v, typed %q, resizes %v", names, m.layout, kinds, typed.String(), resizes)

		// What the harness keeps is not to grow either.
		s.mu.Lock()
		s.out = make([]byte, 0, 4<<20)
		s.mu.Unlock()
		// The runtime keeps what it made for goroutines: let it have enough.
		var all sync.WaitGroup
		stop := make(chan struct{})
		for i := 0; i < 1500; i++ {
			all.Add(1)
			go func() {
				defer all.Done()
				<-stop
			}()
		}
		close(stop)
		all.Wait()
		s.run(m, context.Background())
		s.await("the program does not start", func() bool { return m.width.Load() > 0 })
		round := int64(0)
		one := func() {
			round++
			s.typ([]byte(typed.String()))
			s.await("the commands of a round do not end", func() bool { return m.keys.Load() == round && m.got.Load() == want*round })
			if resizes {
				w := w0 + int(round%2)
				s.resize(w, h0)
				s.await("the new size is not announced", func() bool { return m.width.Load() == int64(w) })
			}
			s.mu.Lock()
			s.out = s.out[:0]
			s.mu.Unlock()
		}
		var seen []usage
		for i := 0; i < 5; i++ {
			for j := 0; j < n; j++ {
				one()
			}
			seen = append(seen, measure())
			t.Logf("after %d rounds, %d messages and %d frames: %v", round, m.msgs.Load(), m.frames.Load(), seen[i])
		}
		// What is left of each round shows in every part of the run.
		least := seen[2].less(seen[1])
		for i := 3; i < len(seen); i++ {
			d := seen[i].less(seen[i-1])
			least = usage{min(least.objects, d.objects), 0, min(least.goroutines, d.goroutines), min(least.files, d.files)}
		}
		total := seen[4].less(seen[1])
		k := int64(n)
		if total.objects >= longRunObjects && least.objects >= k/8 || least.goroutines >= k/2 || least.files >= k/2 || total.bytes >= longRunBytes {
			t.Failf("a program that does the same again and again needs more and more: after %d rounds %v, after %d rounds %v", 2*n, seen[1], 5*n, seen[4])
		}
		s.typ([]byte("Q"))
		s.awaitReturn("it was told to quit")
		t.Count("rounds", int(round))
		t.Count("messages", int(m.msgs.Load()))
		t.Count("frames", int(m.frames.Load()))
		t.Key(t.Uint64())
		t.Sample("%v, %v, typed %q: %v after %d rounds, %v after %d", names, kinds, typed.String(), seen[1], 2*n, seen[4], 5*n)
	}
}

// What the heap of a process may vary by for reasons of its own.
const (
	longRunObjects = 200
	longRunBytes   = 32 << 10
)

func init() {
	register(&Check{
		ID: "A13", Rule: "a program on a pseudo terminal does the same random activities (keys, commands of all kinds, resizes, frames of random widgets) in each of many rounds, and what the process needs after each fifth of them is compared; distinct by the random choices",
		Assumptions: []string{"a Linux pseudo terminal stands in for the terminal", "the widgets and texts of all rounds are the same, so that anything kept for reuse stops growing"},
		Parts: []Part{{Name: "rounds", Quick: 12, Thorough: 400, Child: true, Fn: longRun(80)},
			{Name: "long", Quick: 1, Thorough: 60, Child: true, Fn: longRun(200)}},
	})
}
