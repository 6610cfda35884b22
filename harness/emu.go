package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// A terminal emulator: the monitor that tells what the bytes sent by the
// library make a terminal show.

type emuPen struct {
	fg, bg string // SGR parameters, "39" and "49" for the default
	mod    bento.Modifier
}

var defaultPen = emuPen{fg: "39", bg: "49"}

type emuCell struct {
	sym    string
	hidden bool // covered by the wide grapheme to its left
	pen    emuPen
}

var blankCell = emuCell{sym: " ", pen: defaultPen}

type emu struct {
	w, h  int
	cells []emuCell
	saved []emuCell // the main screen, while the alternate one is shown
	x, y  int
	wrap  bool // the next character goes to the next line
	pen   emuPen

	cursorHidden, alt, paste bool
	modes                    map[string]bool // other private modes that were switched on

	errs []string
	raw  []byte // incomplete input
	run  []byte // text since the last control sequence

	nSeq, nText int
	// Text of unclear width is not an error.
	tolerant  bool
	altEnters int
	written   map[int]bool // cells written since the last call of mark
}

func newEmu(w, h int) *emu {
	e := &emu{w: w, h: h, pen: defaultPen, modes: map[string]bool{}, written: map[int]bool{}}
	e.cells = make([]emuCell, w*h)
	for i := range e.cells {
		e.cells[i] = blankCell
	}
	return e
}

func (e *emu) errorf(format string, a ...any) {
	if len(e.errs) < 20 {
		e.errs = append(e.errs, fmt.Sprintf(format, a...))
	}
}

// resize changes the size and fills the screen with garbage, as the terminal
// may have moved anything anywhere.
func (e *emu) resize(w, h int) {
	e.flushText()
	e.w, e.h = w, h
	e.cells = make([]emuCell, w*h)
	for i := range e.cells {
		e.cells[i] = emuCell{sym: "#", pen: emuPen{fg: "35", bg: "46", mod: bento.ModifierItalic}}
	}
	e.x, e.y = min(e.x, max(0, w-1)), min(e.y, max(0, h-1))
	e.wrap = false
}

func (e *emu) Write(p []byte) (int, error) {
	e.raw = append(e.raw, p...)
	e.parse()
	return len(p), nil
}

func (e *emu) parse() {
	b := e.raw
	i := 0
loop:
	for i < len(b) {
		c := b[i]
		switch {
		case c == 0x1b:
			e.flushText()
			if i+1 >= len(b) {
				break loop
			}
			if b[i+1] != '[' {
				e.errorf("unexpected escape sequence %q", b[i:min(len(b), i+8)])
				i += 2
				continue
			}
			j := i + 2
			for j < len(b) && b[j] >= 0x20 && b[j] <= 0x3f {
				j++
			}
			if j >= len(b) {
				break loop
			}
			if b[j] < 0x40 || b[j] > 0x7e {
				e.errorf("malformed control sequence %q", b[i:j+1])
				i = j + 1
				continue
			}
			e.nSeq++
			e.csi(string(b[i+2:j]), b[j])
			i = j + 1
		default:
			if !utf8.FullRune(b[i:]) {
				break loop
			}
			r, n := utf8.DecodeRune(b[i:])
			if r == utf8.RuneError && n == 1 {
				// An invalid byte is shown as a replacement character.
				e.run = append(e.run, b[i])
				i++
				continue
			}
			if unicode.IsControl(r) {
				e.flushText()
				e.errorf("control character %q", r)
				i += n
				continue
			}
			e.run = append(e.run, b[i:i+n]...)
			i += n
		}
	}
	e.raw = append([]byte(nil), b[i:]...)
}

// sync processes all text; to be called when the output is complete.
func (e *emu) sync() { e.flushText() }

func (e *emu) flushText() {
	if len(e.run) == 0 {
		return
	}
	s := string(e.run)
	e.run = e.run[:0]
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		e.put(g.Str(), g.Width())
	}
}

func (e *emu) at(x, y int) *emuCell { return &e.cells[y*e.w+x] }

// clearWide blanks the rest of a wide grapheme of which a cell is overwritten.
func (e *emu) clearWide(x, y int) {
	s := x
	for s > 0 && e.at(s, y).hidden {
		s--
	}
	if s == x && (x+1 >= e.w || !e.at(x+1, y).hidden) {
		return
	}
	for k := s; k < e.w && (k == s || e.at(k, y).hidden); k++ {
		c := e.at(k, y)
		*c = emuCell{sym: " ", pen: emuPen{fg: c.pen.fg, bg: c.pen.bg}}
		e.written[y*e.w+k] = true
	}
}

func (e *emu) put(sym string, w int) {
	e.nText++
	if e.w == 0 || e.h == 0 {
		e.errorf("text %q on an empty screen", sym)
		return
	}
	if w == 0 {
		if !e.tolerant {
			e.errorf("text %q without width", sym)
		}
		return
	}
	if e.wrap || e.x+w > e.w {
		e.x = 0
		e.wrap = false
		e.y++
		if !e.tolerant {
			e.errorf("the text %q wraps around the end of a line", sym)
		}
		if e.y >= e.h {
			e.y = e.h - 1
			if !e.tolerant {
				e.errorf("the screen scrolls")
			}
			copy(e.cells, e.cells[e.w:])
			for x := 0; x < e.w; x++ {
				*e.at(x, e.h-1) = blankCell
			}
		}
		if w > e.w {
			return
		}
	}
	for k := 0; k < w; k++ {
		e.clearWide(e.x+k, e.y)
	}
	for k := 0; k < w; k++ {
		c := e.at(e.x+k, e.y)
		*c = emuCell{sym: sym, pen: e.pen}
		if k > 0 {
			*c = emuCell{sym: "", hidden: true, pen: e.pen}
		}
		e.written[e.y*e.w+e.x+k] = true
	}
	e.x += w
	if e.x >= e.w {
		e.x = e.w - 1
		e.wrap = true
	}
}

func (e *emu) clear(from, to int) {
	for i := max(0, from); i < to && i < len(e.cells); i++ {
		e.cells[i] = emuCell{sym: " ", pen: emuPen{fg: "39", bg: e.pen.bg}}
		e.written[i] = true
	}
}

func (e *emu) csi(params string, final byte) {
	if strings.HasPrefix(params, "?") && (final == 'h' || final == 'l') {
		on := final == 'h'
		for _, p := range strings.Split(params[1:], ";") {
			switch p {
			case "25":
				e.cursorHidden = !on
			case "1049":
				if on && !e.alt {
					e.saved = append([]emuCell(nil), e.cells...)
					e.clear(0, len(e.cells))
					e.altEnters++
				}
				if !on && e.alt && len(e.saved) == len(e.cells) {
					copy(e.cells, e.saved)
				}
				e.alt = on
			case "2004":
				e.paste = on
			default:
				e.modes[p] = on
				if !on {
					delete(e.modes, p)
				}
			}
		}
		return
	}
	nums := func(def int) []int {
		var out []int
		for _, p := range strings.Split(params, ";") {
			n, err := strconv.Atoi(p)
			if p == "" {
				n, err = def, nil
			}
			if err != nil {
				e.errorf("bad parameters in CSI %q %c", params, final)
				return []int{def, def}
			}
			out = append(out, n)
		}
		return out
	}
	switch final {
	case 'H':
		n := nums(1)
		if len(n) == 1 {
			n = append(n, 1)
		}
		y, x := n[0]-1, n[1]-1
		if len(n) != 2 || x < 0 || y < 0 || x >= e.w || y >= e.h {
			e.errorf("the cursor is moved to row %v column %v of a screen of %dx%d", n[0], n[1], e.w, e.h)
		}
		e.x = max(0, min(x, e.w-1))
		e.y = max(0, min(y, e.h-1))
		e.wrap = false
	case 'J':
		pos := e.y*e.w + e.x
		switch nums(0)[0] {
		case 0:
			e.clear(pos, len(e.cells))
		case 1:
			e.clear(0, pos+1)
		case 2:
			e.clear(0, len(e.cells))
		default:
			e.errorf("CSI %q J", params)
		}
	case 'K':
		row := e.y * e.w
		switch nums(0)[0] {
		case 0:
			e.clear(row+e.x, row+e.w)
		case 1:
			e.clear(row, row+e.x+1)
		case 2:
			e.clear(row, row+e.w)
		default:
			e.errorf("CSI %q K", params)
		}
	case 'm':
		e.sgr(params)
	default:
		e.errorf("unexpected control sequence CSI %q %c", params, final)
	}
}

func (e *emu) sgr(params string) {
	ps := strings.Split(params, ";")
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		n := 0
		if p != "" {
			var err error
			n, err = strconv.Atoi(p)
			if err != nil {
				e.errorf("bad attribute in CSI %q m", params)
				return
			}
		}
		set := func(m bento.Modifier) { e.pen.mod |= m }
		unset := func(m bento.Modifier) { e.pen.mod &^= m }
		switch {
		case n == 0:
			e.pen = defaultPen
		case n == 1:
			set(bento.ModifierBold)
		case n == 2:
			set(bento.ModifierDim)
		case n == 3:
			set(bento.ModifierItalic)
		case n == 4:
			set(bento.ModifierUnderlined)
		case n == 5:
			set(bento.ModifierSlowBlink)
		case n == 6:
			set(bento.ModifierRapidBlink)
		case n == 7:
			set(bento.ModifierReversed)
		case n == 8:
			set(bento.ModifierHidden)
		case n == 9:
			set(bento.ModifierCrossedOut)
		case n == 22:
			unset(bento.ModifierBold | bento.ModifierDim)
		case n == 23:
			unset(bento.ModifierItalic)
		case n == 24:
			unset(bento.ModifierUnderlined)
		case n == 25:
			unset(bento.ModifierSlowBlink | bento.ModifierRapidBlink)
		case n == 27:
			unset(bento.ModifierReversed)
		case n == 28:
			unset(bento.ModifierHidden)
		case n == 29:
			unset(bento.ModifierCrossedOut)
		case n >= 30 && n <= 37 || n == 39 || n >= 90 && n <= 97:
			e.pen.fg = strconv.Itoa(n)
		case n >= 40 && n <= 47 || n == 49 || n >= 100 && n <= 107:
			e.pen.bg = strconv.Itoa(n)
		case n == 38 || n == 48:
			var k int
			switch {
			case i+2 < len(ps) && ps[i+1] == "5":
				k = 3
			case i+4 < len(ps) && ps[i+1] == "2":
				k = 5
			default:
				e.errorf("bad colour in CSI %q m", params)
				return
			}
			for _, v := range ps[i+2 : i+k] {
				if x, err := strconv.Atoi(v); err != nil || x < 0 || x > 255 {
					e.errorf("bad colour in CSI %q m", params)
				}
			}
			c := strings.Join(ps[i:i+k], ";")
			if n == 38 {
				e.pen.fg = c
			} else {
				e.pen.bg = c
			}
			i += k - 1
		default:
			e.errorf("unexpected attribute %d in CSI %q m", n, params)
		}
	}
}

// wantColor returns the SGR parameters a colour has to be sent as under the profile.
func wantColor(p termenv.Profile, c bento.Color, bg bool) string {
	def := "39"
	if bg {
		def = "49"
	}
	if c == nil {
		return def
	}
	switch c.(type) {
	case bento.ResetColor, termenv.NoColor:
		return def
	}
	conv := p.Convert(c)
	if conv == nil {
		return def
	}
	if s := conv.Sequence(bg); s != "" {
		return s
	}
	return def
}

// compareCell tells how the emulated cell differs from what it should be.
func compareCell(p termenv.Profile, got emuCell, want bento.Cell) string {
	if got.hidden {
		return fmt.Sprintf("is covered by a wide grapheme, want %s", cellString(want))
	}
	fg, bg := wantColor(p, want.Fg, false), wantColor(p, want.Bg, true)
	if got.sym != want.Symbol || got.pen.fg != fg || got.pen.bg != bg || got.pen.mod != want.Modifier {
		return fmt.Sprintf("shows %q fg=%s bg=%s mod=%09b, want %q fg=%s bg=%s mod=%09b", got.sym, got.pen.fg, got.pen.bg, got.pen.mod, want.Symbol, fg, bg, want.Modifier)
	}
	return ""
}

func (e *emu) dump() []string {
	var out []string
	for y := 0; y < e.h; y++ {
		var s strings.Builder
		for x := 0; x < e.w; x++ {
			s.WriteString(e.at(x, y).sym)
		}
		out = append(out, s.String())
	}
	return out
}
