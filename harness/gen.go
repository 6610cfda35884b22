package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// ---------------------------------------------------------------- symbols

var narrowSymbols = []string{
	"a", "b", "c", "x", "y", "z", "A", "Q", "Z", "0", "7", "9", "!", "#", ";", "[", "]", "m", "H", "?", "~", "|", "_",
	"é", "e\u0301", "ß", "Ж", "λ", "→", "█", "░", "▏", "┌", "─", "│", "╬", "①", "°", "n\u0303\u0302", "й", "ا", "ש", "€",
}

var wideSymbols = []string{
	"世", "界", "한", "あ", "ｱ\u3000", "＠", "😀", "👩‍👩‍👧", "🇩🇪", "❤️", "👍🏽", "🏳️‍🌈", "语",
}

var hugeSymbols = []string{"⸺", "⸻"}

func init() {
	fix := func(l []string, ok func(w int) bool) (out []string) {
		for _, s := range l {
			if uniseg.GraphemeClusterCount(s) == 1 && ok(uniseg.StringWidth(s)) {
				out = append(out, s)
			}
		}
		return
	}
	narrowSymbols = fix(narrowSymbols, func(w int) bool { return w == 1 })
	wideSymbols = fix(wideSymbols, func(w int) bool { return w == 2 })
	hugeSymbols = fix(hugeSymbols, func(w int) bool { return w > 2 })
	if len(narrowSymbols) < 30 || len(wideSymbols) < 8 || len(hugeSymbols) == 0 {
		panic("symbol pools")
	}
	for _, a := range append(append([]string{" "}, narrowSymbols...), wideSymbols...) {
		for _, b := range append(append([]string{" "}, narrowSymbols...), wideSymbols...) {
			if uniseg.GraphemeClusterCount(a+b) != 2 && !strings.HasPrefix(b, "🇩") {
				panic(fmt.Sprintf("%q and %q combine", a, b))
			}
		}
	}
}

func width(s string) int { return uniseg.StringWidth(s) }

// graphemes splits a string into grapheme clusters, with the same definition
// of a cluster as the library uses.
func graphemes(s string) []string {
	var out []string
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		out = append(out, g.Str())
	}
	return out
}

func hasControl(s string) bool {
	for _, r := range s {
		if unicode.IsControl(r) {
			return true
		}
	}
	return false
}

// word returns a word without blanks; its graphemes do not combine.
func (t *T) word(n int, wide int) string {
	var b strings.Builder
	flag := false
	for i := 0; i < n; i++ {
		var s string
		if t.Chance(wide) {
			s = pick(t, wideSymbols)
			if isFlag(s) && flag {
				s = "世"
			}
		} else {
			s = pick(t, narrowSymbols)
		}
		flag = isFlag(s)
		b.WriteString(s)
	}
	return b.String()
}

func isFlag(s string) bool { return strings.HasPrefix(s, "🇩") }

var oddRunes = []rune{
	0x200b, 0x200d, 0x00a0, 0x0301, 0xfe0f, 0x202e, 0x2028, 0x00ad, 0x1f1e9, 0x1f3fd, 0x3000, 0xfffd, 0x0915, 0x094d, 0x0937, 0x1100, 0x1161,
	'\t', '\r', 0, 0x1b, 0x7f, 0x85, 0x9b, 0x07, 0x08, 0x0b, 0x0c, 0x90, 0x0e,
}

// wild returns any kind of text, including control characters, zero-width and
// combining characters and invalid UTF-8.
func (t *T) wild(n int, newlines bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch k := t.IntN(100); {
		case k < 35:
			b.WriteString(pick(t, narrowSymbols))
		case k < 50:
			b.WriteString(pick(t, wideSymbols))
		case k < 65:
			b.WriteByte(' ')
		case k < 85:
			b.WriteRune(pick(t, oddRunes))
		case k < 88:
			b.WriteString(pick(t, []string{"\x1b[2J", "\x1b[31m", "\x1b]0;x\x07", "\u009b2J", "\x1b[10;10H", "\r\n", "\x1bc", "\xff", "\xc3", "\xe4\xb8"}))
		case k < 91:
			b.WriteString(pick(t, hugeSymbols))
		case k < 95:
			r := rune(t.IntN(0x3200))
			if !newlines && r == '\n' {
				r = 'n'
			}
			b.WriteRune(r)
		default:
			if newlines {
				b.WriteByte('\n')
			} else {
				b.WriteByte('-')
			}
		}
	}
	s := b.String()
	if !newlines {
		s = strings.ReplaceAll(s, "\n", "")
	}
	return s
}

// tame returns text of graphemes of width one and two and blanks.
func (t *T) tame(n, wide int) string {
	var b strings.Builder
	flag := false
	for i := 0; i < n; i++ {
		if t.Chance(20) {
			b.WriteByte(' ')
			flag = false
			continue
		}
		s := pick(t, narrowSymbols)
		if t.Chance(wide) {
			s = pick(t, wideSymbols)
		}
		if isFlag(s) && flag {
			s = "界"
		}
		flag = isFlag(s)
		b.WriteString(s)
	}
	return b.String()
}

// ---------------------------------------------------------------- styles

func (t *T) color() bento.Color {
	switch t.IntN(8) {
	case 0:
		return bento.ResetColor{}
	case 1, 2:
		return termenv.ANSIColor(t.IntN(16))
	case 3, 4:
		return termenv.ANSI256Color(t.IntN(256))
	case 5, 6:
		return termenv.RGBColor(fmt.Sprintf("#%06x", t.IntN(1<<24)))
	default:
		return termenv.ANSIColor(t.IntN(3))
	}
}

func (t *T) modifier() bento.Modifier {
	switch t.IntN(4) {
	case 0:
		return 0
	case 1:
		return 1 << t.IntN(9)
	default:
		return bento.Modifier(t.IntN(512))
	}
}

func (t *T) style() bento.Style {
	s := bento.NewStyle()
	if t.Chance(40) {
		s = s.WithForeground(t.color())
	}
	if t.Chance(40) {
		s = s.WithBackground(t.color())
	}
	if t.Chance(40) {
		s = s.WithModifier(t.modifier())
	}
	if t.Chance(25) {
		s = s.WithoutModifier(t.modifier())
	}
	return s
}

// markStyle returns a style that tells text of index i from other text.
func markStyle(i int) bento.Style {
	return bento.NewStyle().WithForeground(termenv.ANSI256Color(16 + i%200))
}

// ---------------------------------------------------------------- buffers

func cellString(c bento.Cell) string {
	return fmt.Sprintf("%q fg=%v bg=%v mod=%09b skip=%v", c.Symbol, c.Fg, c.Bg, c.Modifier, c.Skip)
}

// dumpBuffer shows the symbols of a buffer, a row per line.
func dumpBuffer(b *bento.Buffer) []string {
	var out []string
	a := b.Area()
	for y := a.Y; y < a.Y+a.Height; y++ {
		var s strings.Builder
		for x := a.X; x < a.X+a.Width; {
			c := b.CellAt(bento.Position{X: x, Y: y})
			s.WriteString(c.Symbol)
			x += max(1, width(c.Symbol))
		}
		out = append(out, s.String())
	}
	return out
}

func (t *T) logBuffer(title string, b *bento.Buffer) {
	t.Logf("%s %v:", title, b.Area())
	for _, l := range dumpBuffer(b) {
		t.Logf("  %q", l)
	}
}

// visibleRow returns the graphemes shown in a row from x0 to x1 (exclusive),
// with the column each starts at. Cells covered by a wide grapheme are left out.
type shown struct {
	x int
	c bento.Cell
}

func visibleRow(b *bento.Buffer, y, x0, x1 int) []shown {
	var out []shown
	for x := x0; x < x1; {
		c := *b.CellAt(bento.Position{X: x, Y: y})
		out = append(out, shown{x, c})
		x += max(1, width(c.Symbol))
	}
	return out
}

func rowText(b *bento.Buffer, y, x0, x1 int) string {
	var s strings.Builder
	for _, c := range visibleRow(b, y, x0, x1) {
		s.WriteString(c.c.Symbol)
	}
	return s.String()
}

// canvas is a buffer filled with a background that makes every change visible.
func (t *T) canvas(area bento.Rect) bento.Buffer {
	b := bento.NewBufferEmpty(area)
	for y := area.Y; y < area.Y+area.Height; y++ {
		for x := area.X; x < area.X+area.Width; x++ {
			c := b.CellAt(bento.Position{X: x, Y: y})
			c.Symbol = string(rune(0x2801 + ((x*7+y*13)%26+26)%26))
			c.Fg = termenv.ANSI256Color(((x+3*y)%256 + 256) % 256)
			c.Bg = termenv.ANSI256Color(((5*x+y)%256 + 256) % 256)
			c.Modifier = bento.Modifier((x ^ y) & 511)
		}
	}
	return b
}

func cloneBuffer(b *bento.Buffer) bento.Buffer {
	n := bento.NewBufferEmpty(b.Area())
	a := b.Area()
	for y := a.Y; y < a.Y+a.Height; y++ {
		for x := a.X; x < a.X+a.Width; x++ {
			p := bento.Position{X: x, Y: y}
			*n.CellAt(p) = *b.CellAt(p)
		}
	}
	return n
}

// sameOutside fails unless both buffers agree outside of the area.
func (t *T) sameOutside(what string, before, after *bento.Buffer, area bento.Rect) {
	a := before.Area()
	if after.Area() != a {
		t.Failf("%s: the area of the buffer changed from %v to %v", what, a, after.Area())
	}
	for y := a.Y; y < a.Y+a.Height; y++ {
		for x := a.X; x < a.X+a.Width; x++ {
			if x >= area.X && x < area.X+area.Width && y >= area.Y && y < area.Y+area.Height {
				continue
			}
			p := bento.Position{X: x, Y: y}
			if *before.CellAt(p) != *after.CellAt(p) {
				t.logBuffer("before", before)
				t.logBuffer("after", after)
				t.Failf("%s: cell %v outside of the area %v changed from %s to %s", what, p, area, cellString(*before.CellAt(p)), cellString(*after.CellAt(p)))
			}
		}
	}
	t.Count("cells_outside_checked", a.Width*a.Height-area.Width*area.Height)
}

func cellAt(b *bento.Buffer, x, y int) bento.Cell { return *b.CellAt(bento.Position{X: x, Y: y}) }

// subArea returns an area inside the given one; often tiny or all of it.
func (t *T) subArea(a bento.Rect) bento.Rect {
	if t.Chance(25) {
		return a
	}
	x0 := t.Range(0, a.Width)
	y0 := t.Range(0, a.Height)
	w := t.Range(0, a.Width-x0)
	h := t.Range(0, a.Height-y0)
	if t.Chance(15) {
		w = min(w, t.Range(0, 2))
	}
	if t.Chance(15) {
		h = min(h, t.Range(0, 2))
	}
	return bento.NewRect(w, h).Positioned(a.X+x0, a.Y+y0)
}
