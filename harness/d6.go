package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- D06

// page is a screen as the names of the commands say.
type page [][]bento.Cell

func newPage(w, h int) page {
	p := make(page, h)
	for y := range p {
		p[y] = make([]bento.Cell, w)
		for x := range p[y] {
			p[y][x] = bento.NewEmptyCell()
		}
	}
	return p
}

type modelTerm struct {
	w, h               int
	main, other        page // other: the alternate screen
	alt, hidden, paste bool
	// Where the next clearing begins; not known after text or a change of screens.
	x, y  int
	known bool
}

func (m *modelTerm) shown() page {
	if m.alt {
		return m.other
	}
	return m.main
}

// blank clears the cells from one position in reading order to another, inclusive.
func (m *modelTerm) blank(x0, y0, x1, y1 int) {
	p := m.shown()
	for y := range p {
		for x := range p[y] {
			if (y > y0 || y == y0 && x >= x0) && (y < y1 || y == y1 && x <= x1) {
				p[y][x] = bento.NewEmptyCell()
			}
		}
	}
}

// limited fails after some bytes.
type limited struct {
	to   io.Writer
	left int // negative: never
	// Pretends to have written less than all, instead of an error.
	short bool
	tried bool
}

var errBroken = errors.New("broken output")

func (l *limited) Write(p []byte) (int, error) {
	if l.left < 0 {
		return l.to.Write(p)
	}
	n := min(len(p), l.left)
	l.to.Write(p[:n])
	l.left -= n
	if n == len(p) {
		return n, nil
	}
	l.tried = true
	if l.short {
		return n, nil
	}
	return n, errBroken
}

func controlCase(t *T) {
	w, h := t.Range(1, 14), t.Range(1, 6)
	if t.IntN(50) == 0 {
		large := pick(t, [][2]int{{2, 1500}, {8, 400}, {400, 4}, {120, 250}, {2500, 1}})
		w, h = t.Range(1, large[0]), t.Range(1, large[1])
	}
	e := newEmu(w, h)
	out := &limited{to: e, left: -1, short: t.Chance(30)}
	envMu.Lock()
	back := bento.NewDefaultBackend(bytes.NewReader(nil), out)
	envMu.Unlock()
	backend := &sizedBackend{DefaultBackend: &back, w: w, h: h}
	var viewport bento.Viewport = bento.ViewportFullscreen{}
	// What the terminal draws on: all of the screen, or a part of it.
	area := bento.NewRect(w, h)
	if t.Chance(35) {
		if t.Chance(70) {
			area = bento.NewRect(t.IntN(w)+1, t.IntN(h)+1)
			area = area.Positioned(t.IntN(w-area.Width+1), t.IntN(h-area.Height+1))
		}
		viewport = bento.ViewportFixed(area)
	}
	term, err := bento.NewTerminal(backend, viewport)
	if err != nil {
		t.Failf("NewTerminal: %v", err)
	}
	m := &modelTerm{w: w, h: h, main: newPage(w, h), known: true}
	whole := bento.NewRect(w, h)
	last := newGrid(area)
	// Whether what the terminal last drew is what the screen shows.
	stale := false
	kinds := map[string]bool{}
	steps := t.Range(6, 30)
	breakAt := -1
	if t.Chance(15) {
		breakAt = t.IntN(steps)
	}
	t.Logf("screen of %dx%d", w, h)
	for i := 0; i < steps; i++ {
		if i == breakAt {
			out.left = t.IntN(3)
		}
		var err error
		what := ""
		move := func(via func(bento.Position) error, name string) {
			p := bento.NewPosition(t.IntN(w), t.IntN(h))
			what = fmt.Sprintf("%s(%v)", name, p)
			err = via(p)
			m.x, m.y, m.known = p.X, p.Y, true
		}
		// Commands by way of the terminal where it has them, or its backend.
		direct := t.Chance(50)
		op := t.IntN(17)
		if !m.known && op >= 2 && op <= 5 {
			op = 0
		}
		switch op {
		case 0, 1:
			if direct {
				move(backend.SetCursorPosition, "backend.SetCursorPosition")
			} else {
				move(term.SetCursorPosition, "SetCursorPosition")
			}
		case 2:
			what, err = "ClearAfterCursor", backend.ClearAfterCursor()
			m.blank(m.x, m.y, w-1, h-1)
			stale = true
		case 3:
			what, err = "ClearBeforeCursor", backend.ClearBeforeCursor()
			m.blank(0, 0, m.x, m.y)
			stale = true
		case 4:
			what, err = "ClearCurrentLine", backend.ClearCurrentLine()
			m.blank(0, m.y, w-1, m.y)
			stale = true
		case 5:
			what, err = "ClearUntilNewLine", backend.ClearUntilNewLine()
			m.blank(m.x, m.y, w-1, m.y)
			stale = true
		case 6:
			what, err = "ClearAll", backend.ClearAll()
			m.blank(0, 0, w-1, h-1)
			stale = true
		case 7:
			if direct {
				what, err = "backend.HideCursor", backend.HideCursor()
			} else {
				what, err = "HideCursor", term.HideCursor()
			}
			m.hidden = true
		case 8:
			if direct {
				what, err = "backend.ShowCursor", backend.ShowCursor()
			} else {
				what, err = "ShowCursor", term.ShowCursor()
			}
			m.hidden = false
		case 9:
			if direct {
				what, err = "backend.EnableAlternateScreen", backend.EnableAlternateScreen()
			} else {
				what, err = "EnableAlternateScreen", term.EnableAlternateScreen()
			}
			if !m.alt {
				m.alt, m.other, m.known = true, newPage(w, h), false
				stale = true
			}
		case 10:
			if direct {
				what, err = "backend.LeaveAlternateScreen", backend.LeaveAlternateScreen()
			} else {
				what, err = "LeaveAlternateScreen", term.LeaveAlternateScreen()
			}
			if m.alt {
				m.alt, m.known = false, false
				stale = true
			}
		case 11:
			if direct {
				what, err = "backend.EnableBracketedPaste", backend.EnableBracketedPaste()
			} else {
				what, err = "EnableBracketedPaste", term.EnableBracketedPaste()
			}
			m.paste = true
		case 12:
			if direct {
				what, err = "backend.DisableBracketedPaste", backend.DisableBracketedPaste()
			} else {
				what, err = "DisableBracketedPaste", term.DisableBracketedPaste()
			}
			m.paste = false
		case 13:
			// Cells drawn by hand, at any place and in any order.
			var cells []bento.PositionedCell
			for n := t.Range(1, 6); n > 0; n-- {
				c := bento.PositionedCell{Cell: bento.NewCell(pick(t, narrowSymbols)), Position: bento.NewPosition(t.IntN(w), t.IntN(h))}
				t.randomCellStyle(frameOpts{})(&c.Cell)
				cells = append(cells, c)
				m.shown()[c.Position.Y][c.Position.X] = c.Cell
			}
			what = fmt.Sprintf("backend.Draw of %d cells", len(cells))
			if err = backend.Draw(cells); err == nil {
				err = backend.Flush()
			}
			m.known = false
			stale = true
		default:
			// A frame; on a screen that something else has changed, after a clear.
			if stale || t.Chance(20) {
				what = "Clear, "
				if t.Chance(50) {
					what = "Resize, "
					err = term.Resize(area)
				} else {
					err = term.Clear()
				}
				last = newGrid(area)
				if err != nil {
					break
				}
				for y := range m.shown() {
					for x := range m.shown()[y] {
						if area.Contains(bento.NewPosition(x, y)) {
							m.shown()[y][x] = bento.NewEmptyCell()
						} else if y >= area.Y && *e.at(x, y) == (emuCell{sym: " ", pen: defaultPen}) {
							// Clearing a part of the screen may clear what comes after its start.
							m.shown()[y][x] = bento.NewEmptyCell()
						}
					}
				}
			}
			g := last.clone()
			for n := t.IntN(8); n > 0; n-- {
				g.put(area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height), pick(t, narrowSymbols), t.randomCellStyle(frameOpts{}))
			}
			if t.Chance(10) {
				g = newGrid(area)
			}
			what += "Draw"
			_, err = term.Draw(widgetFunc(func(a bento.Rect, b *bento.Buffer) { g.render(b) }))
			p := m.shown()
			for y := area.Y; y < area.Bottom(); y++ {
				for x := area.X; x < area.Right(); x++ {
					p[y][x] = *g.at(x, y)
				}
			}
			last, stale = g, false
			m.hidden, m.known = true, false
		}
		t.Logf("%s", what)
		kinds[what] = true
		t.Count("commands", 1)
		if out.tried {
			if err == nil {
				t.Failf("%s returned no error, although the output accepts no more", what)
			}
			if !out.short && !errors.Is(err, errBroken) {
				t.Failf("%s returned the error %v, which does not tell that of the output, %v", what, err, errBroken)
			}
			t.Count("broken_outputs", 1)
			break
		}
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		e.sync()
		if len(e.raw) > 0 {
			t.Failf("after %s the output ends within the sequence %q", what, e.raw)
		}
		t.checkScreen(e, termenv.Ascii, whole, func(x, y int) (bento.Cell, bool) { return m.shown()[y][x], true }, "after "+what)
		if e.cursorHidden != m.hidden {
			t.Failf("after %s the cursor is hidden: %v", what, e.cursorHidden)
		}
		if e.alt != m.alt {
			t.Failf("after %s the alternate screen is shown: %v", what, e.alt)
		}
		if e.paste != m.paste {
			t.Failf("after %s bracketed paste is on: %v", what, e.paste)
		}
		if len(e.modes) > 0 {
			t.Failf("after %s other modes are on: %v", what, e.modes)
		}
		if m.known && (e.x != m.x || e.y != m.y) {
			t.Failf("after %s the cursor is at %d,%d, want %d,%d", what, e.x, e.y, m.x, m.y)
		}
		if e.pen != defaultPen {
			t.Failf("after %s the style %+v is left active", what, e.pen)
		}
	}
	t.Key(w, h, fmt.Sprint(kinds), e.nSeq, e.nText)
	t.Sample("%d commands on %dx%d, %d control sequences", steps, w, h, e.nSeq)
	if len(kinds) < 3 {
		t.Trivial()
	}
}

// rawModeCase switches the raw mode of a terminal with random settings on and
// off, and asks for its size.
func rawModeCase(t *T) {
	m, s, err := openPty()
	if err != nil {
		t.Inconclusivef("no pseudo terminal: %v", err)
	}
	defer m.Close()
	defer s.Close()
	tio, err := unix.IoctlGetTermios(int(s.Fd()), unix.TCGETS)
	if err != nil {
		t.Inconclusivef("%v", err)
	}
	for _, f := range []uint32{unix.ECHO, unix.ICANON, unix.ISIG, unix.IEXTEN, unix.ECHOE, unix.ECHOK, unix.NOFLSH} {
		if t.Chance(40) {
			tio.Lflag ^= f
		}
	}
	for _, f := range []uint32{unix.IXON, unix.ICRNL, unix.INLCR, unix.IGNCR, unix.BRKINT, unix.IUTF8, unix.IXANY} {
		if t.Chance(40) {
			tio.Iflag ^= f
		}
	}
	if t.Chance(40) {
		tio.Oflag ^= unix.OPOST
	}
	tio.Cc[unix.VMIN], tio.Cc[unix.VTIME] = uint8(t.IntN(4)), uint8(t.IntN(4))
	tio.Cc[unix.VINTR] = uint8(t.IntN(30))
	if err := unix.IoctlSetTermios(int(s.Fd()), unix.TCSETS, tio); err != nil {
		t.Inconclusivef("%v", err)
	}
	before := getTermios(s)
	// The output may be another terminal than the input.
	out := s
	if t.Chance(30) {
		m2, s2, err := openPty()
		if err != nil {
			t.Inconclusivef("no pseudo terminal: %v", err)
		}
		defer m2.Close()
		defer s2.Close()
		out = s2
	}
	outBefore := getTermios(out)
	envMu.Lock()
	backend := bento.NewDefaultBackend(s, out)
	envMu.Unlock()
	resize := func() (w, h int) {
		w, h = t.Range(1, 300), t.Range(1, 120)
		if t.Chance(5) {
			w, h = 0, 0 // a terminal that does not know
		}
		if err := setSize(out, w, h); err != nil {
			t.Inconclusivef("%v", err)
		}
		if out != s {
			if err := setSize(s, t.Range(1, 300), t.Range(1, 120)); err != nil {
				t.Inconclusivef("%v", err)
			}
		}
		return w, h
	}
	w, h := resize()
	for i := t.Range(1, 3); i > 0; i-- {
		if t.Chance(50) { // something else has changed the modes
			tio.Lflag ^= pick(t, []uint32{unix.ECHO, unix.ICANON, unix.ISIG, unix.NOFLSH})
			tio.Cc[unix.VINTR] = uint8(t.IntN(30))
			if err := unix.IoctlSetTermios(int(s.Fd()), unix.TCSETS, tio); err != nil {
				t.Inconclusivef("%v", err)
			}
			before = getTermios(s)
			if out == s {
				outBefore = before
			}
		}
		if err := backend.EnableRawMode(); err != nil {
			t.Failf("EnableRawMode: %v", err)
		}
		r := getTermios(s)
		for _, f := range []struct {
			name string
			on   bool
		}{
			{"echo", r.Lflag&unix.ECHO != 0},
			{"line mode", r.Lflag&unix.ICANON != 0},
			{"signal keys", r.Lflag&unix.ISIG != 0},
			{"extended input processing", r.Lflag&unix.IEXTEN != 0},
			{"flow control", r.Iflag&unix.IXON != 0},
			{"translation of carriage returns", r.Iflag&unix.ICRNL != 0},
		} {
			if f.on {
				t.Failf("in raw mode, %s is on", f.name)
			}
		}
		if r.Cc[unix.VMIN] != 1 || r.Cc[unix.VTIME] != 0 {
			t.Failf("in raw mode, reading waits for %d bytes and %d tenths of a second", r.Cc[unix.VMIN], r.Cc[unix.VTIME])
		}
		size, ok, err := backend.GetSize()
		if err != nil || !ok || size.Width != w || size.Height != h {
			t.Failf("GetSize of a terminal of %dx%d: %v %v %v", w, h, size, ok, err)
		}
		// The bytes of the keys arrive as they are.
		keys := make([]byte, t.Range(1, 40))
		for i := range keys {
			keys[i] = byte(t.IntN(256))
		}
		if _, err := m.Write(keys); err != nil {
			t.Inconclusivef("%v", err)
		}
		got := make([]byte, len(keys))
		if !readAll(s, got) {
			t.Failf("%q was typed in raw mode and cannot be read", keys)
		}
		if !bytes.Equal(got, keys) {
			t.Failf("%q was typed in raw mode and arrived as %q", keys, got)
		}
		for n := t.Range(1, 2); n > 0; n-- {
			if err := backend.DisableRawMode(); err != nil {
				t.Failf("DisableRawMode: %v", err)
			}
			if after := getTermios(s); after != before {
				t.Failf("the modes of the terminal were %+v and are %+v after raw mode", before, after)
			}
			if after := getTermios(out); after != outBefore {
				t.Failf("the modes of the terminal of the output were %+v and are %+v after raw mode", outBefore, after)
			}
		}
		w, h = resize()
		t.Count("raw_modes", 1)
	}
	t.Key(before, w, h)
	t.Sample("modes %+v", before)
}

// readAll reads without waiting for long.
func readAll(f *os.File, b []byte) bool {
	d := newDeadline()
	for n := 0; n < len(b); {
		p := []unix.PollFd{{Fd: int32(f.Fd()), Events: unix.POLLIN}}
		k, err := unix.Poll(p, 50)
		if err != nil && err != unix.EINTR {
			return false
		}
		if k <= 0 {
			if over, _ := d.expired(); over {
				return false
			}
			continue
		}
		k, err = f.Read(b[n:])
		if err != nil {
			return false
		}
		n += k
	}
	return true
}

func init() {
	register(&Check{
		ID:   "D06",
		Rule: "A case is a history of clearings, cursor movements, switches of modes and screens, drawings of single cells and frames, compared with a model of the terminal after each; some meet an output that fails. Others switch raw mode on and off on a terminal with random settings. Non-trivial: at least three kinds of commands; distinct by size, commands and output.",
		Assumptions: []string{
			"clearing up to or from the cursor includes the cell of the cursor, as terminals do",
			"where the cursor is after text is left open",
			"raw mode is not switched on twice in a row",
		},
		Parts: []Part{
			{Name: "commands", Quick: 200000, Thorough: 1500000, Fn: controlCase},
			{Name: "raw mode", Quick: 2000, Thorough: 40000, Fn: rawModeCase},
		},
	})
}
