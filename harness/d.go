package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"unicode"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- rig

type widgetFunc func(area bento.Rect, buffer *bento.Buffer)

func (f widgetFunc) Render(area bento.Rect, buffer *bento.Buffer) { f(area, buffer) }

// sizedBackend is the default backend with a size of our choosing.
type sizedBackend struct {
	*bento.DefaultBackend
	w, h int
}

func (b *sizedBackend) GetSize() (bento.Size, bool, error) {
	return bento.Size{Width: b.w, Height: b.h}, true, nil
}

var envMu sync.Mutex

var profileEnv = map[termenv.Profile][2]string{
	termenv.TrueColor: {"xterm-256color", "truecolor"},
	termenv.ANSI256:   {"xterm-256color", ""},
	termenv.ANSI:      {"xterm-color", ""},
	termenv.Ascii:     {"dumb", ""},
}

// newBackend makes a backend for a terminal of the given colour profile.
func newBackend(out *os.File, profile termenv.Profile) bento.DefaultBackend {
	envMu.Lock()
	defer envMu.Unlock()
	for _, k := range []string{"CI", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "GOOGLE_CLOUD_SHELL", "TERM_PROGRAM"} {
		os.Unsetenv(k)
	}
	os.Setenv("TERM", profileEnv[profile][0])
	os.Setenv("COLORTERM", profileEnv[profile][1])
	if p := termenv.NewOutput(out).ColorProfile(); p != profile {
		panic(fmt.Sprintf("colour profile is %v, not %v", p, profile))
	}
	return bento.NewDefaultBackend(nil, out)
}

var allProfiles = []termenv.Profile{termenv.TrueColor, termenv.TrueColor, termenv.ANSI256, termenv.ANSI, termenv.Ascii}

// checkScreen compares the drawn area of the emulated terminal with the cells wanted.
func (t *T) checkScreen(e *emu, p termenv.Profile, area bento.Rect, want func(x, y int) (bento.Cell, bool), what string) {
	if len(e.errs) > 0 {
		t.Failf("%s: %s", what, e.errs[0])
	}
	n := 0
	for y := area.Y; y < area.Y+area.Height; y++ {
		for x := area.X; x < area.X+area.Width; {
			c, ok := want(x, y)
			if !ok {
				x++
				continue
			}
			if d := compareCell(p, *e.at(x, y), c); d != "" {
				for _, l := range e.dump() {
					t.Logf("  screen %q", l)
				}
				t.Failf("%s: cell %d,%d of the terminal %s", what, x, y, d)
			}
			n++
			x += max(1, width(c.Symbol))
		}
	}
	t.Count("screen_cells_compared", n)
}

// ---------------------------------------------------------------- frames

// grid is the frame a workload wants to see.
type grid struct {
	area  bento.Rect
	cells []bento.Cell
}

func newGrid(area bento.Rect) *grid {
	g := &grid{area: area, cells: make([]bento.Cell, area.Width*area.Height)}
	for i := range g.cells {
		g.cells[i] = bento.NewEmptyCell()
	}
	return g
}

func (g *grid) at(x, y int) *bento.Cell {
	return &g.cells[(y-g.area.Y)*g.area.Width+x-g.area.X]
}

func (g *grid) clone() *grid {
	return &grid{area: g.area, cells: append([]bento.Cell(nil), g.cells...)}
}

// put writes a symbol, keeping the grid well-formed: no half of a wide
// grapheme remains and the cells it covers are blank.
func (g *grid) put(x, y int, sym string, style func(*bento.Cell)) bool {
	w := max(1, width(sym))
	if x+w > g.area.X+g.area.Width {
		return false
	}
	for k := x; k < x+w; k++ {
		g.wipe(k, y)
	}
	c := g.at(x, y)
	*c = bento.NewCell(sym)
	style(c)
	for k := x + 1; k < x+w; k++ {
		*g.at(k, y) = bento.NewEmptyCell()
	}
	return true
}

// wipe blanks the grapheme that covers the cell.
func (g *grid) wipe(x, y int) {
	for s := max(g.area.X, x-6); s <= x; s++ {
		w := width(g.at(s, y).Symbol)
		if s+w > x && w > 1 {
			for k := s; k < s+w && k < g.area.X+g.area.Width; k++ {
				*g.at(k, y) = bento.NewEmptyCell()
			}
		}
	}
	*g.at(x, y) = bento.NewEmptyCell()
}

func (g *grid) covered(x, y int) bool {
	for s := max(g.area.X, x-6); s < x; s++ {
		if w := width(g.at(s, y).Symbol); s+w > x {
			return true
		}
	}
	return false
}

type frameOpts struct {
	wide, huge int
	// Cells without a symbol, of which only the effect on others is known.
	empty  int
	colors bool
	mods   bool
}

func (t *T) randomCellStyle(o frameOpts) func(*bento.Cell) {
	return func(c *bento.Cell) {
		if o.colors && t.Chance(50) {
			c.Fg = t.cellColor()
		}
		if o.colors && t.Chance(40) {
			c.Bg = t.cellColor()
		}
		if o.mods && t.Chance(40) {
			c.Modifier = t.modifier()
		}
	}
}

type oddColor struct{}

func (oddColor) Sequence(bool) string { return "" }

// cellColor is any colour a cell may have, including ones without a representation.
func (t *T) cellColor() bento.Color {
	if t.Chance(20) {
		return pick(t, []bento.Color{termenv.NoColor{}, nil, termenv.RGBColor("red"), termenv.RGBColor(""), termenv.RGBColor("#12"), oddColor{}, bento.ResetColor{}})
	}
	if t.Chance(10) {
		return termenv.RGBColor(fmt.Sprintf("#%03x", t.IntN(4096)))
	}
	return t.color()
}

func (t *T) symbol(o frameOpts) string {
	switch k := t.IntN(100); {
	case k < o.huge:
		return pick(t, hugeSymbols)
	case k < o.huge+o.wide:
		return pick(t, wideSymbols)
	case k < o.huge+o.wide+15:
		return " "
	case k < o.huge+o.wide+15+o.empty:
		return ""
	default:
		return pick(t, narrowSymbols)
	}
}

// nextFrame derives a frame from the one before it.
func (t *T) nextFrame(prev *grid, o frameOpts) (*grid, string) {
	a := prev.area
	g := newGrid(a)
	if a.Width == 0 || a.Height == 0 {
		return g, "empty"
	}
	kind := t.IntN(8)
	switch kind {
	case 0: // all new
		for y := a.Y; y < a.Y+a.Height; y++ {
			for x := a.X; x < a.X+a.Width; {
				s := t.symbol(o)
				g.put(x, y, s, t.randomCellStyle(o))
				x += max(1, width(s))
			}
		}
		return g, "new"
	case 1: // the same
		return prev.clone(), "same"
	case 2: // moved by a column
		for y := a.Y; y < a.Y+a.Height; y++ {
			for x := a.X; x+1 < a.X+a.Width; x++ {
				if prev.covered(x, y) {
					continue
				}
				c := *prev.at(x, y)
				g.put(x+1, y, c.Symbol, func(n *bento.Cell) { *n = c })
			}
		}
		return g, "shifted"
	case 3: // blank, or nearly so
		if t.Chance(50) {
			g.put(a.X+t.IntN(a.Width), a.Y+t.IntN(a.Height), pick(t, narrowSymbols), t.randomCellStyle(o))
		}
		return g, "blank"
	default: // some changes
		g = prev.clone()
		for n := t.Range(1, 1+a.Width*a.Height/4); n > 0; n-- {
			x, y := a.X+t.IntN(a.Width), a.Y+t.IntN(a.Height)
			switch t.IntN(5) {
			case 0:
				g.wipe(x, y)
			case 1: // style only
				c := g.at(x, y)
				if !g.covered(x, y) || t.Chance(30) {
					t.randomCellStyle(o)(c)
				}
			default:
				g.put(x, y, t.symbol(o), t.randomCellStyle(o))
			}
		}
		return g, "changed"
	}
}

func (g *grid) render(buffer *bento.Buffer) {
	for y := g.area.Y; y < g.area.Y+g.area.Height; y++ {
		for x := g.area.X; x < g.area.X+g.area.Width; x++ {
			c := g.at(x, y)
			if *c != bento.NewEmptyCell() {
				*buffer.CellAt(bento.Position{X: x, Y: y}) = *c
			}
		}
	}
}

func (g *grid) rows() []string {
	var out []string
	for y := g.area.Y; y < g.area.Y+g.area.Height; y++ {
		s := ""
		for x := g.area.X; x < g.area.X+g.area.Width; {
			c := g.at(x, y)
			s += c.Symbol
			x += max(1, width(c.Symbol))
		}
		out = append(out, s)
	}
	return out
}

// drawHistory draws a history of frames on an emulated terminal and compares
// the screen with the frame after every drawing.
func drawHistory(t *T, o frameOpts, profile termenv.Profile, fullscreen, skips bool, frames int) {
	pty := getPty()
	defer putPty(pty)

	var viewport bento.Viewport
	var e *emu
	area := bento.NewRect(t.Range(1, 24), t.Range(1, 8))
	if t.Chance(5) {
		area = bento.NewRect(t.Range(60, 140), t.Range(1, 30))
		if t.Chance(20) {
			area = bento.NewRect(t.Range(1, 300), t.Range(30, 300))
		}
	}
	back := newBackend(pty.slave, profile)
	backend := &sizedBackend{DefaultBackend: &back}
	if fullscreen {
		viewport = bento.ViewportFullscreen{}
		backend.w, backend.h = area.Width, area.Height
		e = newEmu(area.Width, area.Height)
	} else {
		area = area.Positioned(t.IntN(12), t.IntN(12))
		if t.Chance(5) {
			area = area.Positioned(t.IntN(300), t.IntN(300))
		}
		viewport = bento.ViewportFixed(area)
		e = newEmu(area.Right()+t.IntN(4), area.Bottom()+t.IntN(4))
		for i := range e.cells {
			x, y := i%e.w, i/e.w
			if !area.Contains(bento.NewPosition(x, y)) {
				e.cells[i] = emuCell{sym: "·", pen: emuPen{fg: "32", bg: "44", mod: bento.ModifierBold}}
			}
		}
		backend.w, backend.h = e.w, e.h
	}
	outside := append([]emuCell(nil), e.cells...)

	term, err := bento.NewTerminal(backend, viewport)
	if err != nil {
		t.Failf("NewTerminal: %v", err)
	}
	pty.collect()
	t.Logf("profile %d, viewport %T %v, terminal %dx%d", profile, viewport, area, e.w, e.h)

	prev := newGrid(area)
	kinds := ""
	for i := 0; i < frames; i++ {
		if fullscreen && i > 0 && t.Chance(15) {
			area = bento.NewRect(t.Range(0, 24), t.Range(0, 8))
			if t.Chance(10) {
				area = prev.area // the same size again
			}
			backend.w, backend.h = area.Width, area.Height
			e.resize(area.Width, area.Height)
			if err := term.Resize(area); err != nil {
				t.Failf("Resize: %v", err)
			}
			e.Write(pty.collect())
			t.Logf("resized to %v", area)
			ng := newGrid(area)
			for y := 0; y < min(area.Height, prev.area.Height); y++ {
				for x := 0; x < min(area.Width, prev.area.Width); x++ {
					if !prev.covered(x, y) {
						c := *prev.at(x, y)
						ng.put(x, y, c.Symbol, func(n *bento.Cell) { *n = c })
					}
				}
			}
			prev = ng
			kinds += "R"
			t.Count("resizes", 1)
		}

		if i > 0 && t.Chance(8) {
			// Clearing makes the terminal blank, or what follows the start of a part of it.
			if err := term.Clear(); err != nil {
				t.Failf("Clear: %v", err)
			}
			e.Write(pty.collect())
			e.sync()
			t.Logf("cleared")
			for k, c := range e.cells {
				x, y := k%e.w, k/e.w
				if area.Contains(bento.NewPosition(x, y)) || fullscreen {
					if c.sym != " " || c.pen != defaultPen {
						t.Failf("cell %d,%d is %v after clearing", x, y, c)
					}
				} else if y < area.Y && c != outside[k] {
					t.Failf("cell %d,%d before the viewport %v changed to %v by clearing", x, y, area, c)
				}
			}
			outside = append(outside[:0], e.cells...)
			prev = newGrid(area)
			kinds += "C"
			t.Count("clearings", 1)
		}
		if t.Chance(10) && len(e.cells) > 0 {
			// What the program does with the cursor does not matter to the next frame.
			var err error
			switch t.IntN(3) {
			case 0:
				err = term.ShowCursor()
			case 1:
				err = term.HideCursor()
			default:
				err = term.SetCursorPosition(bento.NewPosition(t.IntN(e.w), t.IntN(e.h)))
			}
			if err != nil {
				t.Failf("cursor: %v", err)
			}
			e.Write(pty.collect())
			kinds += "c"
		}

		g, kind := t.nextFrame(prev, o)
		kinds += kind[:1]
		before := append([]emuCell(nil), e.cells...)
		skip := map[int]bool{}
		if skips && len(g.cells) > 0 {
			for n := t.IntN(4); n > 0; n-- {
				x, y := area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height)
				// A skipped cell next to wide graphemes old or new has no stable content.
				if g.covered(x, y) || width(g.at(x, y).Symbol) > 1 || before[y*e.w+x].hidden || x+1 < e.w && before[y*e.w+x+1].hidden {
					continue
				}
				g.at(x, y).Skip = true
				skip[y*e.w+x] = true
			}
		}
		t.Logf("frame %d (%s):", i, kind)
		for _, r := range g.rows() {
			t.Logf("  %q", r)
		}
		draw := widgetFunc(func(a bento.Rect, b *bento.Buffer) {
			if a != area {
				t.Failf("rendering into the area %v, want %v", a, area)
			}
			g.render(b)
		})
		if t.Chance(15) {
			// The same steps by hand, with the rows as widgets of their own.
			frame := term.GetFrame()
			if frame.Area() != area {
				t.Failf("the frame has the area %v, want %v", frame.Area(), area)
			}
			for y := 0; y < area.Height; y++ {
				row := bento.Rect{Position: bento.Position{X: area.X, Y: area.Y + y}, Width: area.Width, Height: 1}
				frame.RenderWidget(widgetFunc(func(a bento.Rect, b *bento.Buffer) {
					if a != row {
						t.Failf("rendering into the area %v, want %v", a, row)
					}
					(&grid{area: row, cells: g.cells[y*area.Width : (y+1)*area.Width]}).render(b)
				}), row)
			}
			if err := term.Flush(); err != nil {
				t.Failf("Flush: %v", err)
			}
			if err := term.HideCursor(); err != nil {
				t.Failf("HideCursor: %v", err)
			}
			term.SwapBuffers()
			if err := back.Flush(); err != nil {
				t.Failf("Flush of the backend: %v", err)
			}
			kinds += "h"
			t.Count("frames_by_hand", 1)
		} else if _, err := term.Draw(draw); err != nil {
			t.Failf("Draw: %v", err)
		}
		e.Write(pty.collect())
		e.sync()

		what := fmt.Sprintf("after frame %d", i)
		t.checkScreen(e, profile, area, func(x, y int) (bento.Cell, bool) {
			if skip[y*e.w+x] {
				if *e.at(x, y) != before[y*e.w+x] {
					t.Failf("%s: cell %d,%d is marked to be skipped but changed from %v to %v", what, x, y, before[y*e.w+x], *e.at(x, y))
				}
				return bento.Cell{}, false
			}
			c := *g.at(x, y)
			return c, c.Symbol != ""
		}, what)
		if e.pen != defaultPen {
			t.Failf("%s: the style %+v is left active", what, e.pen)
		}
		if !e.cursorHidden {
			t.Failf("%s: the cursor is shown", what)
		}
		if !fullscreen {
			for k, c := range e.cells {
				if !area.Contains(bento.NewPosition(k%e.w, k/e.w)) && c != outside[k] {
					t.Failf("%s: cell %d,%d outside of the viewport %v changed to %v", what, k%e.w, k/e.w, area, c)
				}
			}
		}
		t.Count("frames", 1)
		// What the library believes to be on the screen includes the skipped cells.
		prev = g.clone()
		for k := range prev.cells {
			prev.cells[k].Skip = false
		}
	}
	t.Count("control_sequences", e.nSeq)
	t.Key(kinds, profile, e.nSeq, e.nText, fullscreen)
	t.Sample("%d frames (%s) on %dx%d, profile %d: %d control sequences, %d graphemes", frames, kinds, e.w, e.h, profile, e.nSeq, e.nText)
	if e.nText == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- D02

// display shows what a terminal displays after drawing cells onto it.
type display struct {
	w     int
	cells []emuCell
}

func (e *emu) drawCell(x, y int, c bento.Cell) {
	w := max(1, width(c.Symbol))
	for k := 0; k < w && x+k < e.w; k++ {
		e.clearWide(x+k, y)
	}
	for k := 0; k < w && x+k < e.w; k++ {
		d := e.at(x+k, y)
		*d = emuCell{sym: c.Symbol, pen: emuPen{fg: fmt.Sprint(c.Fg), bg: fmt.Sprint(c.Bg), mod: c.Modifier}}
		if k > 0 {
			d.sym, d.hidden = "", true
		}
	}
}

func gridBuffer(g *grid) *bento.Buffer {
	b := bento.NewBufferEmpty(g.area)
	g.render(&b)
	return &b
}

func diffCase(t *T) {
	area := bento.NewRect(t.Range(1, 20), t.Range(1, 6)).Positioned(t.IntN(30)-5, t.IntN(30)-5)
	if t.Chance(3) {
		area.Width = 0
	}
	o := frameOpts{wide: 25, huge: 5, colors: true, mods: true}
	g1, _ := t.nextFrame(newGrid(area), o)
	g2, kind := t.nextFrame(g1, o)
	if t.Chance(20) {
		g2, kind = t.nextFrame(g2, o)
	}
	skips := t.Chance(30)
	if skips && t.Chance(50) {
		// What a cell skipped before displays is unknown.
		for k := range g1.cells {
			x, y := area.X+k%area.Width, area.Y+k/area.Width
			if t.Chance(10) && width(g1.cells[k].Symbol) == 1 && !g1.covered(x, y) {
				g1.cells[k].Skip = true
			}
		}
	}
	diffCheck(t, g1, g2, skips)
	t.Key(kind, g1.rows(), g2.rows())
}

func diffCheck(t *T, g1, g2 *grid, skips bool) {
	area := g1.area
	if skips {
		for k := range g2.cells {
			x, y := area.X+k%area.Width, area.Y+k/area.Width
			if t.Chance(10) && width(g2.cells[k].Symbol) == 1 && !g2.covered(x, y) {
				g2.cells[k].Skip = true
			}
		}
	}
	b1, b2 := gridBuffer(g1), gridBuffer(g2)
	c1, c2 := cloneBuffer(b1), cloneBuffer(b2)
	for _, r := range g1.rows() {
		t.Logf("first  %q", r)
	}
	for _, r := range g2.rows() {
		t.Logf("second %q", r)
	}
	updates := b1.Diff(b2)

	for y := area.Y; y < area.Bottom(); y++ {
		for x := area.X; x < area.Right(); x++ {
			if cellAt(b1, x, y) != cellAt(&c1, x, y) || cellAt(b2, x, y) != cellAt(&c2, x, y) {
				t.Failf("Diff changed cell %d,%d of a buffer", x, y)
			}
		}
	}

	e := newEmu(area.Width, area.Height)
	off := func(x, y int) (int, int) { return x - area.X, y - area.Y }
	for y := area.Y; y < area.Bottom(); y++ {
		for x := area.X; x < area.Right(); x++ {
			if !g1.covered(x, y) {
				ex, ey := off(x, y)
				c := *g1.at(x, y)
				if c.Skip {
					c.Symbol = "?"
				}
				e.drawCell(ex, ey, c)
			}
		}
	}
	last := -1
	for _, u := range updates {
		x, y := u.Position.X, u.Position.Y
		if !area.Contains(u.Position) {
			t.Failf("the difference reports position %v outside of %v", u.Position, area)
		}
		i := (y-area.Y)*area.Width + x - area.X
		if i <= last {
			t.Failf("the difference reports %v out of order or twice", u.Position)
		}
		last = i
		c := *g2.at(x, y)
		if u.Cell != c {
			t.Failf("the difference reports %s at %v, but the second buffer has %s", cellString(u.Cell), u.Position, cellString(c))
		}
		if g2.covered(x, y) {
			t.Failf("the difference reports %v, which is covered by a wide grapheme", u.Position)
		}
		if c.Skip {
			t.Failf("the difference reports %v, which is marked to be skipped", u.Position)
		}
		if c == *g1.at(x, y) && !g1.covered(x, y) {
			t.Failf("the difference reports %v, which is unchanged", u.Position)
		}
		ex, ey := off(x, y)
		e.drawCell(ex, ey, u.Cell)
	}
	t.Count("updates_checked", len(updates))
	for y := area.Y; y < area.Bottom(); y++ {
		for x := area.X; x < area.Right(); x++ {
			if g2.covered(x, y) || g2.at(x, y).Skip {
				continue
			}
			c := *g2.at(x, y)
			ex, ey := off(x, y)
			d := *e.at(ex, ey)
			want := emuCell{sym: c.Symbol, pen: emuPen{fg: fmt.Sprint(c.Fg), bg: fmt.Sprint(c.Bg), mod: c.Modifier}}
			if d != want {
				t.Failf("after applying the difference, %d,%d displays %+v, want %+v", x, y, d, want)
			}
		}
	}
	t.Count("cells_displayed", area.Width*area.Height)
	if len(b2.Diff(b2)) != 0 || len(b1.Diff(&c1)) != 0 {
		t.Failf("equal buffers differ")
	}
	t.Sample("%q to %q: %d updates", g1.rows(), g2.rows(), len(updates))
	if len(updates) == 0 {
		t.Trivial()
	}
}

// diffExhaustive enumerates all pairs of rows of a few symbols.
func diffExhaustive(t *T) {
	syms := []string{" ", "a", "世", "⸻"}
	w := 5
	var rows []*grid
	var rec func(g *grid, x int)
	area := bento.NewRect(w, 1)
	rec = func(g *grid, x int) {
		if x >= w {
			rows = append(rows, g)
			return
		}
		for _, s := range syms {
			n := g.clone()
			if n.put(x, 0, s, func(*bento.Cell) {}) {
				rec(n, x+width(s))
			}
		}
	}
	rec(newGrid(area), 0)
	g1 := rows[t.Index%len(rows)]
	if t.Index >= len(rows) {
		t.Trivial()
		return
	}
	for _, g2 := range rows {
		t.trace = t.trace[:0]
		diffCheck(t, g1, g2.clone(), false)
	}
	t.trivial = false
	t.Count("row_pairs_enumerated", len(rows))
	t.Key(g1.rows())
}

// ---------------------------------------------------------------- D04

// modifierTransitions draws cells so that every transition from a combination
// of attributes to another one happens, and checks each cell.
func modifierTransitions(t *T) {
	const n = 512
	// A sequence that contains every ordered pair of combinations.
	from := t.Index * 64 // this case: all pairs (a, b) with a in [from, from+64)
	var seq []bento.Modifier
	for a := from; a < from+64; a++ {
		for b := 0; b < n; b++ {
			seq = append(seq, bento.Modifier(a), bento.Modifier(b))
		}
	}
	var out bytes.Buffer
	back := bento.NewDefaultBackend(nil, &out)
	const w, h = 1024, 64
	e := newEmu(w, h)
	var cells []bento.PositionedCell
	for i, m := range seq {
		c := bento.NewCell("x")
		c.Modifier = m
		cells = append(cells, bento.PositionedCell{Cell: c, Position: bento.NewPosition(i%w, i/w)})
	}
	if err := back.Draw(cells); err != nil {
		t.Failf("Draw: %v", err)
	}
	if err := back.Flush(); err != nil {
		t.Failf("Flush: %v", err)
	}
	e.Write(out.Bytes())
	e.sync()
	if len(e.errs) > 0 {
		t.Failf("%s", e.errs[0])
	}
	for i, m := range seq {
		if got := e.at(i%w, i/w).pen.mod; got != m {
			prev := bento.Modifier(0)
			if i > 0 {
				prev = seq[i-1]
			}
			t.Failf("a cell with the attributes %09b after one with %09b is drawn with %09b", m, prev, got)
		}
	}
	if e.pen != defaultPen {
		t.Failf("the attributes %09b remain active after the drawing", e.pen.mod)
	}
	t.Count("attribute_transitions_observed", len(seq))
	t.Key(from)
	t.Sample("all transitions from the combinations %d to %d to every other one", from, from+63)
}

// ---------------------------------------------------------------- D05

func injectionCase(t *T) {
	area := bento.NewRect(t.Range(1, 30), t.Range(1, 8)).Positioned(t.IntN(4), t.IntN(4))
	var out bytes.Buffer
	back := bento.NewDefaultBackend(nil, &out)
	term, err := bento.NewTerminal(&back, bento.ViewportFixed(area))
	if err != nil {
		t.Failf("NewTerminal: %v", err)
	}
	e := newEmu(area.Right()+2, area.Bottom()+2)
	e.tolerant = true
	kinds := ""
	controls := 0
	ambiguous := false
	for f := 0; f < 3; f++ {
		w, kind, text := t.wildWidget()
		kinds += kind + " "
		for _, r := range text {
			if unicode.IsControl(r) {
				controls++
			}
			// These join neighbouring cells on some terminals, but not on others.
			if r == 0xfe0f || r == 0x200d || unicode.Is(unicode.M, r) || r >= 0x1f1e6 && r <= 0x1f1ff || r >= 0x1f3fb && r <= 0x1f3ff || r >= 0x1100 && r <= 0x11ff || unicode.Is(unicode.Cf, r) {
				ambiguous = true
			}
		}
		t.Logf("%s %q", kind, text)
		_, err := term.Draw(widgetFunc(func(a bento.Rect, b *bento.Buffer) {
			w(a, b)
			for y := a.Y; y < a.Bottom(); y++ {
				for x := a.X; x < a.Right(); x++ {
					if s := cellAt(b, x, y).Symbol; hasControl(s) {
						t.Failf("%s puts the control character in %q into a cell", kind, s)
					}
				}
			}
			t.Count("cells_inspected", a.Width*a.Height)
		}))
		if err != nil {
			t.Failf("Draw: %v", err)
		}
		e.Write(out.Bytes())
		e.sync()
		out.Reset()
		if len(e.errs) > 0 {
			t.Failf("%s: %s", kind, e.errs[0])
		}
		for k := range e.written {
			if ambiguous {
				break
			}
			if !area.Contains(bento.NewPosition(k%e.w, k/e.w)) {
				t.Failf("%s: cell %d,%d outside of the viewport %v was written", kind, k%e.w, k/e.w, area)
			}
		}
	}
	if len(e.modes) > 0 {
		t.Failf("terminal modes were changed: %v", e.modes)
	}
	t.Count("control_characters_in_the_text", controls)
	t.Count("graphemes_on_the_terminal", e.nText)
	t.Key(kinds, area, controls, e.nText)
	t.Sample("%s: %d control characters in the text, %d graphemes drawn", kinds, controls, e.nText)
	if controls == 0 || e.nText == 0 {
		t.Trivial()
	}
}

func init() {
	histories := func(o frameOpts, fullscreen, skips bool) func(t *T) {
		return func(t *T) { drawHistory(t, o, pick(t, allProfiles), fullscreen, skips, t.Range(3, 10)) }
	}
	all := frameOpts{wide: 15, huge: 3, colors: true, mods: true}
	register(&Check{
		ID: "D01",
		Rule: "A case draws a random history of frames (new, unchanged, shifted, blanked, partly changed, with wide, combined and emoji graphemes, colours, attributes, skipped cells) and resizes through a bento terminal on a pseudo terminal, and compares the screen of a terminal emulator fed with the output with the frame after every drawing. " +
			"Non-trivial: something was printed; distinct by kinds of frames, profile and amount of output.",
		Assumptions: []string{"the terminal gives graphemes the width uniseg gives them", "what a cell with a symbol of no width shows is not looked at, only that its neighbours are right", "frames are well-formed: the cells covered by a wide grapheme are blank"},
		Parts: []Part{
			{Name: "fullscreen", Quick: 6000, Thorough: 120000, Fn: histories(all, true, false)},
			{Name: "fullscreen-plain", Quick: 3000, Thorough: 60000, Fn: histories(frameOpts{wide: 30, huge: 4, empty: 5}, true, false)},
			{Name: "fixed", Quick: 3000, Thorough: 60000, Fn: histories(all, false, false)},
			{Name: "skip", Quick: 3000, Thorough: 60000, Fn: histories(frameOpts{wide: 8, empty: 3, colors: true, mods: true}, true, true)},
		},
	})
	register(&Check{
		ID:          "D02",
		Rule:        "A case computes the difference of two well-formed buffers, the second derived from the first, and applies it to a model of a display; all pairs of rows of width five over four symbols are enumerated as well. Non-trivial: the difference is not empty; distinct by the content of the buffers.",
		Assumptions: []string{"buffers are well-formed: the cells covered by a wide grapheme are blank, and none reaches over the end of its row"},
		Parts: []Part{
			{Name: "random", Quick: 60000, Thorough: 1500000, Fn: diffCase},
			{Name: "exhaustive", Quick: 250, Thorough: 250, Fn: diffExhaustive},
		},
	})
	register(&Check{
		ID:          "D03",
		Rule:        "A case draws frames of many differently coloured cells (all kinds of colours, set, unset, invalid and unrepresentable ones) for each colour profile of a terminal and compares the colours the emulated terminal shows for every cell with the closest the profile has. Non-trivial: something was printed; distinct by kinds of frames, profile and amount of output.",
		Assumptions: []string{"termenv's conversion gives the closest colour of a profile"},
		Parts: []Part{
			{Name: "colours", Quick: 6000, Thorough: 150000, Fn: func(t *T) {
				o := frameOpts{wide: 3, colors: true, mods: t.Chance(60)}
				drawHistory(t, o, allProfiles[1+t.Index%4], t.Chance(50), false, t.Range(2, 6))
			}},
		},
	})
	register(&Check{
		ID:   "D04",
		Rule: "The 8 cases of the first part draw a cell after another one for all 512 x 512 ordered pairs of combinations of attributes; the others draw random histories of frames with attributes and colours. After each drawing the attributes of every cell on the emulated terminal are compared with those of the cell.",
		Parts: []Part{
			{Name: "transitions", Quick: 8, Thorough: 8, Fn: modifierTransitions},
			{Name: "histories", Quick: 4000, Thorough: 80000, Fn: func(t *T) {
				drawHistory(t, frameOpts{wide: 5, colors: t.Chance(50), mods: true}, pick(t, allProfiles), true, t.Chance(20), t.Range(3, 8))
			}},
		},
	})
	register(&Check{
		ID:   "D05",
		Rule: "A case renders three widgets with hostile text (control characters of C0 and C1, escape sequences, invalid UTF-8, zero-width and combining characters) through a terminal, inspects every cell for control characters and parses the whole output. Non-trivial: the text contained control characters and something was printed; distinct by widgets, area and amounts.",
		Parts: []Part{
			{Name: "widgets", Quick: 30000, Thorough: 600000, Fn: injectionCase},
		},
	})
}
