package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- model of a line

// glyph is a grapheme that takes up cells, with the styles it is drawn in.
type glyph struct {
	sym    string
	w      int
	styles []refStyle
}

type refSpan struct {
	text  string
	style bento.Style
	ref   refStyle
}

type refLine struct {
	spans []refSpan
	align bento.Alignment
	style bento.Style
	ref   refStyle
}

func (l refLine) line() textwidget.Line {
	var spans []textwidget.Span
	for _, s := range l.spans {
		spans = append(spans, textwidget.NewSpan(s.text).WithStyle(s.style))
	}
	return textwidget.NewLine(spans...).WithStyle(l.style).WithAlignment(l.align)
}

// glyphs returns the graphemes of the line that are seen.
func (l refLine) glyphs() []glyph {
	var out []glyph
	for _, s := range l.spans {
		for _, g := range graphemes(s.text) {
			if hasControl(g) || width(g) == 0 {
				continue
			}
			out = append(out, glyph{g, width(g), []refStyle{s.ref}})
		}
	}
	return out
}

func (l refLine) String() string {
	var s []string
	for _, x := range l.spans {
		s = append(s, fmt.Sprintf("%q", x.text))
	}
	return fmt.Sprintf("[%s] alignment %d", strings.Join(s, " "), l.align)
}

func glyphsWidth(gs []glyph) int {
	w := 0
	for _, g := range gs {
		w += g.w
	}
	return w
}

// someStyle is a style with its model, often empty.
func (t *T) someStyle(percent int) (bento.Style, refStyle) {
	s, r := bento.NewStyle(), refStyle{}
	if !t.Chance(percent) {
		return s, r
	}
	for n := t.Range(1, 3); n > 0; n-- {
		s, r, _ = t.styleOp(s, r)
	}
	return s, r
}

func (t *T) refLine(text func(n int) string, maxSpans, maxLen int) refLine {
	var l refLine
	for n := t.IntN(maxSpans + 1); n > 0; n-- {
		s, r := t.someStyle(60)
		l.spans = append(l.spans, refSpan{text(t.IntN(maxLen + 1)), s, r})
	}
	l.align = bento.Alignment(t.IntN(4))
	l.style, l.ref = t.someStyle(40)
	return l
}

// wantRow is what a row of cells shall show: a glyph at some columns, anything
// blank or unchanged elsewhere.
type wantRow struct {
	glyphs map[int]glyph // by column relative to the area
	// Columns whose symbol must not have changed.
	kept func(col int) bool
	// Styles for a column besides those of the glyph.
	under func(col int) []refStyle
}

// alignedRow predicts how a line is placed in a row of the given width.
func alignedRow(gs []glyph, align bento.Alignment, w int, lineStyle refStyle, textStyle []refStyle) wantRow {
	row := wantRow{glyphs: map[int]glyph{}}
	total := glyphsWidth(gs)
	start, end := 0, w // the columns that bear the style of the line
	col := 0
	if total <= w {
		switch align {
		case bento.AlignmentCenter:
			col = (w - total) / 2
		case bento.AlignmentRight:
			col = w - total
		}
		start, end = col, col+total
		if total == 0 {
			end = start
		}
	} else {
		switch align {
		case bento.AlignmentCenter:
			col = -((total - w) / 2)
		case bento.AlignmentRight:
			col = w - total
		}
	}
	gap := map[int]bool{}
	for _, g := range gs {
		if col >= 0 && col+g.w <= w {
			row.glyphs[col] = g
		} else {
			for k := max(0, col); k < col+g.w && k < w; k++ {
				gap[k] = true
			}
		}
		col += g.w
	}
	row.kept = func(c int) bool { return !gap[c] && (c < start || c >= end) }
	row.under = func(c int) []refStyle {
		s := append([]refStyle(nil), textStyle...)
		if c >= start && c < end {
			s = append(s, lineStyle)
		}
		return s
	}
	return row
}

// checkRow compares a row of a buffer with what it shall show. With loose set,
// zero-width characters may be attached to the symbols.
func (t *T) checkRow(what string, before, after *bento.Buffer, x0, y, w int, row wantRow, loose bool) {
	for c := 0; c < w; {
		old, got := cellAt(before, x0+c, y), cellAt(after, x0+c, y)
		g, shown := row.glyphs[c]
		want := old
		for _, s := range row.under(c) {
			want = s.apply(want)
		}
		if !shown {
			if row.kept(c) {
				if got != want {
					t.Failf("%s: cell %d,%d is %s, want %s", what, x0+c, y, cellString(got), cellString(want))
				}
			} else if got.Symbol != old.Symbol && strings.TrimSpace(got.Symbol) != "" {
				t.Failf("%s: cell %d,%d is %s, want none of the text there", what, x0+c, y, cellString(got))
			}
			c++
			continue
		}
		want.Symbol = g.sym
		for _, s := range g.styles {
			want = s.apply(want)
		}
		if loose && got.Symbol != want.Symbol {
			i := strings.Index(got.Symbol, want.Symbol)
			if i >= 0 && zeroWidth(got.Symbol[:i]) && zeroWidth(got.Symbol[i+len(want.Symbol):]) {
				got.Symbol = want.Symbol
			}
		}
		if got != want {
			t.Failf("%s: cell %d,%d is %s, want %s", what, x0+c, y, cellString(got), cellString(want))
		}
		t.Count("graphemes_compared", 1)
		c += g.w
	}
}

func zeroWidth(s string) bool {
	for _, r := range s {
		if width(string(r)) != 0 && !unicode.IsControl(r) && r != 0xfe0f {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- T01

// zero returns text with zero-width and control characters in it.
func (t *T) zero(n int) string {
	var b strings.Builder
	flag := false
	for i := 0; i < n; i++ {
		switch {
		case t.Chance(15):
			b.WriteString(pick(t, []string{"\u200b", "\u0301", "\u00ad", "\u200e"}))
		case t.Chance(10):
			b.WriteString(pick(t, []string{"\x1b", "\x07", "\t", "\u0085", "\r"}))
			flag = false
		default:
			s := pick(t, narrowSymbols)
			if t.Chance(20) {
				s = pick(t, wideSymbols)
			}
			if isFlag(s) && flag {
				s = "x"
			}
			flag = isFlag(s)
			b.WriteString(s)
		}
	}
	return b.String()
}

func textCase(loose bool) func(t *T) {
	return func(t *T) {
		area := t.bufferArea(26, 6)
		buf := t.canvas(area)
		sub := t.subArea(area)
		text := func(n int) string {
			if t.Chance(15) {
				return t.tame(n/2, 25) + pick(t, hugeSymbols) + t.tame(n/2, 25)
			}
			return t.tame(n, 25)
		}
		if loose {
			text = t.zero
		}
		var lines []refLine
		for n := t.IntN(sub.Height + 3); n > 0; n-- {
			lines = append(lines, t.refLine(text, 4, 12))
		}
		before := cloneBuffer(&buf)
		kind := t.IntN(3)
		rows := map[int]wantRow{}
		var textRef refStyle
		name := ""
		aligns := ""
		cut := 0
		unset := wantRow{glyphs: nil, kept: func(int) bool { return true }}
		switch kind {
		case 0: // a text of lines
			var ls []textwidget.Line
			for _, l := range lines {
				ls = append(ls, l.line())
			}
			x := textwidget.NewText(ls...)
			var st bento.Style
			st, textRef = t.someStyle(50)
			al := bento.Alignment(t.IntN(4))
			x = x.WithStyle(st).WithAlignment(al)
			name = fmt.Sprintf("text with alignment %d", al)
			t.Logf("%s in %v of %v", name, sub, area)
			for i, l := range lines {
				t.Logf("  %v", l)
				if i < sub.Height {
					a := l.align
					if a == bento.AlignmentNone {
						a = al
					}
					gs := l.glyphs()
					if glyphsWidth(gs) > sub.Width {
						cut++
					}
					rows[i] = alignedRow(gs, a, sub.Width, l.ref, []refStyle{textRef})
					aligns += fmt.Sprint(a)
				}
			}
			unset.under = func(int) []refStyle { return []refStyle{textRef} }
			x.Render(sub, &buf)
		case 1: // one line
			l := t.refLine(text, 5, 10)
			name = "line"
			t.Logf("line %v in %v of %v", l, sub, area)
			gs := l.glyphs()
			if glyphsWidth(gs) > sub.Width {
				cut++
			}
			rows[0] = alignedRow(gs, l.align, sub.Width, l.ref, nil)
			aligns = fmt.Sprint(l.align)
			unset.under = func(int) []refStyle { return nil }
			l.line().Render(sub, &buf)
		default: // one span
			st, ref := t.someStyle(60)
			l := refLine{spans: []refSpan{{text(t.IntN(20)), st, ref}}}
			name = "span"
			t.Logf("span %v in %v of %v", l, sub, area)
			gs := l.glyphs()
			if glyphsWidth(gs) > sub.Width {
				cut++
			}
			rows[0] = alignedRow(gs, bento.AlignmentLeft, sub.Width, refStyle{}, nil)
			aligns = "s"
			unset.under = func(int) []refStyle { return nil }
			textwidget.NewSpan(l.spans[0].text).WithStyle(st).Render(sub, &buf)
		}
		t.sameOutside(name, &before, &buf, sub)
		for y := 0; y < sub.Height; y++ {
			row, ok := rows[y]
			if !ok {
				row = unset
			}
			t.checkRow(name, &before, &buf, sub.X, sub.Y+y, sub.Width, row, loose)
		}
		shown := 0
		for _, r := range rows {
			shown += len(r.glyphs)
		}
		t.Count("lines_cut", cut)
		t.Key(name, aligns, sub, shown, cut)
		t.Sample("%s in %v of %v: %d graphemes shown, %d lines cut", name, sub, area, shown, cut)
		if shown == 0 || sub.IsEmpty() {
			t.Trivial()
		}
	}
}

// printCase checks the methods that print a line or span at a position.
func printCase(t *T) {
	area := t.bufferArea(24, 4)
	buf := t.canvas(area)
	before := cloneBuffer(&buf)
	l := t.refLine(func(n int) string { return t.word(n, 0) }, 4, 8)
	x, y := area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height)
	limit := t.IntN(area.Width + 3)
	t.Logf("printing %v at %d,%d of %v with limit %d", l, x, y, area, limit)
	var gx, gy int
	if len(l.spans) == 1 && t.Chance(50) {
		l.ref = refStyle{}
		gx, gy = textwidget.NewSpan(l.spans[0].text).WithStyle(l.spans[0].style).Print(&buf, x, y, limit)
	} else {
		gx, gy = l.line().Print(&buf, x, y, limit)
	}
	w := min(limit, area.Right()-x)
	row := wantRow{glyphs: map[int]glyph{}, kept: func(int) bool { return true }}
	col := 0
	for _, g := range l.glyphs() {
		if col+g.w > w {
			break
		}
		g.styles = append([]refStyle{l.ref}, g.styles...)
		row.glyphs[col] = g
		col += g.w
	}
	row.under = func(int) []refStyle { return nil }
	if gx != x+col || gy != y {
		t.Failf("Print returned %d,%d, want %d,%d", gx, gy, x+col, y)
	}
	t.checkRow("print", &before, &buf, x, y, area.Right()-x, row, false)
	t.sameOutside("print", &before, &buf, bento.NewRect(col, 1).Positioned(x, y))
	t.Key(l.String(), x, y, limit)
	t.Sample("%v at %d,%d, limit %d", l, x, y, limit)
	if col == 0 {
		t.Trivial()
	}

	// A style patched onto that of a span.
	first, firstRef := t.someStyle(80)
	second, secondRef := t.someStyle(80)
	sp := textwidget.NewSpan("x").WithStyle(first).WithStylePatch(second)
	c := t.anyCell()
	wantCell := secondRef.apply(firstRef.apply(c))
	c.SetStyle(sp.Style)
	if c != wantCell || sp.String() != "x" {
		t.Failf("a span with a patched style is %q drawn as %s, want %s", sp, cellString(c), cellString(wantCell))
	}

	// The lines in a buffer of their own.
	if lw := glyphsWidth(l.glyphs()); lw > 0 {
		nb := textwidget.NewLines(textwidget.NewLineStr("-"), l.line()).NewBuffer()
		if nb.Area() != bento.NewRect(lw, 2) {
			t.Failf("the buffer of %v after another line is %v, want one of %d columns", l, nb.Area(), lw)
		}
		empty := bento.NewBufferEmpty(nb.Area())
		row := wantRow{glyphs: map[int]glyph{}, kept: func(int) bool { return true }, under: func(int) []refStyle { return nil }}
		col := 0
		for _, g := range l.glyphs() {
			if len(l.spans) > 0 {
				g.styles = append([]refStyle{l.lineRef()}, g.styles...)
			}
			row.glyphs[col] = g
			col += g.w
		}
		t.checkRow("the buffer of lines", &empty, &nb, 0, 1, lw, row, false)
	}

	// The graphemes of a line with their styles.
	base, baseRef := t.someStyle(50)
	sg := l.line().StyledGraphemes(base)
	gs := l.glyphs()
	if len(sg) != len(gs) {
		t.Failf("StyledGraphemes of %v returned %d graphemes, want %d", l, len(sg), len(gs))
	}
	for i, g := range sg {
		c := t.anyCell()
		want := gs[i].styles[0].apply(l.lineRef().apply(baseRef.apply(c)))
		c.SetStyle(g.Style)
		if g.String() != gs[i].sym || g.Width() != gs[i].w || c != want {
			t.Failf("grapheme %d of StyledGraphemes is %q drawn as %s, want %q drawn as %s", i, g.String(), cellString(c), gs[i].sym, cellString(want))
		}
	}
}

func (l refLine) lineRef() refStyle {
	c0, c1 := bento.NewEmptyCell(), bento.NewEmptyCell()
	c1.Modifier = bento.ModifierAll
	c0.Fg, c0.Bg = nil, nil
	c0.SetStyle(l.style)
	c1.SetStyle(l.style)
	return refStyle{fg: c0.Fg, bg: c0.Bg, add: c0.Modifier, clear: bento.ModifierAll &^ c1.Modifier}
}

// ---------------------------------------------------------------- T02

// refLines splits text at its line ends. A line end at the very end of the text
// does not begin another line.
func refLines(s string) []string {
	out := []string{}
	cur := []byte{}
	i := 0
	for i < len(s) {
		switch {
		case s[i] == '\n':
			out = append(out, string(cur))
			cur = cur[:0]
			i++
			if i == len(s) {
				return out
			}
		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
			i++
		default:
			cur = append(cur, s[i])
			i++
		}
	}
	return append(out, string(cur))
}

func splitCase(t *T) {
	var b strings.Builder
	long := 0
	for n := t.IntN(9); n > 0; n-- {
		switch k := t.IntN(10); {
		case k < 2:
		case k < 4:
			b.WriteString(t.wild(t.IntN(12), false))
		default:
			b.WriteString(t.tame(t.IntN(14), 20))
		}
		if t.Chance(1) && t.Chance(30) {
			b.WriteString(strings.Repeat("many\n", pick(t, []int{256, 600, 1100})))
		}
		if t.Chance(1) {
			long++
			unit := pick(t, []string{"x", "long ", "世"})
			b.WriteString(strings.Repeat(unit, pick(t, []int{4095, 4096, 16384, 65535, 65536, 65537, 100000})/len(unit)))
		}
		switch t.IntN(4) {
		case 0:
			b.WriteString("\r\n")
		case 1:
			if t.Chance(20) {
				b.WriteString("\r")
			}
			if n > 1 {
				b.WriteString("\n")
			}
		default:
			b.WriteString("\n")
		}
	}
	s := b.String()
	if long > 0 {
		t.Logf("text of %d bytes", len(s))
	} else {
		t.Logf("text %q", s)
	}
	// More carriage returns before a line end, or some at the end of the text, may
	// or may not count as part of the line end.
	want := refLines(s)
	check := func(what string, lines []textwidget.Line) {
		if len(lines) != len(want) {
			t.Failf("%s has %d lines, want %d", what, len(lines), len(want))
		}
		for i, l := range lines {
			g, w := strings.TrimRight(l.String(), "\r"), strings.TrimRight(want[i], "\r")
			if g != w {
				t.Failf("line %d of %s is %.80q (%d bytes), want %.80q (%d bytes)", i, what, g, len(g), w, len(w))
			}
		}
		t.Count("lines_compared", len(lines))
	}
	x := textwidget.NewTextStr(s)
	check("the text", x.Lines)
	check("the lines", textwidget.NewLinesStr(s))
	if len(want) > 1 && !strings.HasSuffix(s, "\r") && !strings.HasSuffix(want[len(want)-1], "\r") && want[len(want)-1] != "" {
		check("the lines given one by one", textwidget.NewLinesStr(want...))
	}
	base := textwidget.NewText(textwidget.NewLineStr("first"))
	if more := base.WithLinesStr(s); len(more.Lines) != 1+len(want) || more.Lines[0].String() != "first" {
		t.Failf("WithLinesStr gives %d lines, want %d", len(more.Lines), 1+len(want))
	}

	joined := strings.Join(want, "\n")
	tr := func(s string) string {
		l := strings.Split(s, "\n")
		for i := range l {
			l[i] = strings.TrimRight(l[i], "\r")
		}
		return strings.Join(l, "\n")
	}
	if g := x.String(); tr(g) != tr(joined) {
		t.Failf("the string of the text is %.80q, want %.80q", g, joined)
	}
	w := 0
	for _, l := range want {
		w = max(w, width(l))
	}
	if x.Height() != len(want) || x.Width() != w || x.Lines.Height() != len(want) || x.Lines.Width() != w {
		t.Failf("the text is %d x %d, want %d x %d", x.Width(), x.Height(), w, len(want))
	}

	// Rows.
	area := bento.NewRect(t.Range(1, 12), t.Range(1, 8))
	if len(want) > 200 {
		area.Height = len(want) + t.IntN(2)
	}
	buf := t.canvas(area)
	before := cloneBuffer(&buf)
	x.Render(area, &buf)
	for y := 0; y < area.Height; y++ {
		row := wantRow{kept: func(int) bool { return true }, under: func(int) []refStyle { return nil }}
		if y < len(want) && long == 0 {
			row = alignedRow(refLine{spans: []refSpan{{text: want[y]}}}.glyphs(), bento.AlignmentLeft, area.Width, refStyle{}, nil)
		} else if y < len(want) {
			continue
		}
		t.checkRow("the text", &before, &buf, 0, y, area.Width, row, true)
	}

	// A buffer just as large as the lines.
	tame := true
	for _, l := range want {
		for _, g := range graphemes(l) {
			tame = tame && width(g) > 0
		}
	}
	if tame && long == 0 && w > 0 {
		nb := x.Lines.NewBuffer()
		if nb.Area() != bento.NewRect(w, len(want)) {
			t.Failf("the buffer of the lines is %v, want %dx%d", nb.Area(), w, len(want))
		}
		empty := bento.NewBufferEmpty(nb.Area())
		for y := range want {
			row := alignedRow(refLine{spans: []refSpan{{text: want[y]}}}.glyphs(), bento.AlignmentLeft, w, refStyle{}, nil)
			t.checkRow("the buffer of the lines", &empty, &nb, 0, y, w, row, false)
		}
	}
	t.Count("long_lines", long)
	t.Key(s)
	t.Sample("%d bytes, %d lines", len(s), len(want))
	if len(s) == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- T03

// mark gives every grapheme a colour of its own, so that each can be told apart.
func mark(i int) bento.Color { return termenv.RGBColor(fmt.Sprintf("#%06x", i)) }

func markOf(c bento.Color) int {
	s, ok := c.(termenv.RGBColor)
	if !ok {
		return -1
	}
	i := -1
	if n, err := fmt.Sscanf(string(s), "#%06x", &i); err != nil || n != 1 {
		return -1
	}
	return i
}

type para struct {
	lines  [][]string // graphemes
	aligns []bento.Alignment
	marks  [][]int
}

func (t *T) markedText(lines [][]string) (textwidget.Text, para) {
	p := para{lines: lines}
	var out []textwidget.Line
	n := 1
	for _, l := range lines {
		var spans []textwidget.Span
		var ms []int
		for _, g := range l {
			spans = append(spans, textwidget.NewSpan(g).WithStyle(bento.NewStyle().WithForeground(mark(n))))
			ms = append(ms, n)
			n++
		}
		al := bento.Alignment(0)
		if t.Chance(30) {
			al = bento.Alignment(t.Range(1, 3))
		}
		p.aligns = append(p.aligns, al)
		p.marks = append(p.marks, ms)
		out = append(out, textwidget.NewLine(spans...).WithAlignment(al))
	}
	return textwidget.NewText(out...), p
}

func isBlank(g string) bool {
	if g == "\u00a0" {
		return false
	}
	return strings.TrimFunc(g, unicode.IsSpace) == "" || g == "\u200b"
}

type prow struct {
	first, end int // drawn columns, relative
	cells      []shown
	line       int // source line, -1 without marks
}

func wrapCase(words bool) func(t *T) {
	return func(t *T) {
		w := t.Range(1, 18)
		most := 1
		if t.Chance(10) {
			w = t.Range(18, 60)
		} else if t.Chance(1) {
			w, most = t.Range(60, 500), 30
		}
		var lines [][]string
		longest := 0
		zw := t.Chance(15) // zero-width blanks, then without wide graphemes
		count, length := t.Range(1, 4), 50*most
		if most == 1 && t.IntN(4000) == 0 {
			count, length = t.Range(300, 5000), 5
		}
		for n := count; n > 0; n-- {
			var l []string
			if words {
				for k := t.IntN(length / 5); k > 0; k-- {
					ww := 0
					for c := t.Range(1, 8); c > 0; c-- {
						g := pick(t, narrowSymbols)
						if t.Chance(20) {
							g = pick(t, wideSymbols)
						}
						if isFlag(g) {
							g = "世"
						}
						if ww+width(g) > w {
							break
						}
						ww += width(g)
						l = append(l, g)
					}
					if ww == 0 {
						break
					}
					l = append(l, " ")
				}
				if len(l) > 0 && l[len(l)-1] == " " {
					l = l[:len(l)-1]
				}
			} else {
				for k := t.IntN(length); k > 0; k-- {
					switch c := t.IntN(100); {
					case c < 30:
						l = append(l, " ")
					case c < 33 && !zw:
						l = append(l, "\u3000")
					case c < 36:
						l = append(l, pick(t, []string{"\u2003", "\u2003", "\u202f", "\u2007", "\u2009", "\u205f", "\u1680"}))
					case c < 39:
						l = append(l, "\u00a0")
					case c < 45 && zw:
						l = append(l, "\u200b")
					case c < 58 && !zw:
						g := pick(t, wideSymbols)
						if isFlag(g) {
							g = "界"
						}
						l = append(l, g)
					case c < 59 && !zw:
						l = append(l, pick(t, hugeSymbols))
					default:
						l = append(l, pick(t, narrowSymbols))
					}
				}
				if t.Chance(10) {
					l = nil
				}
			}
			longest += len(l)
			lines = append(lines, l)
		}
		text, p := t.markedText(lines)
		trim := t.Chance(50)
		rows0 := 2*longest + len(lines) + 2
		if most > 1 {
			// Two rows one after the other are together fuller than one.
			rows0 = 8*longest/w + 2*len(lines) + 10
		}
		area := bento.NewRect(w, rows0).Positioned(t.IntN(3), t.IntN(3))
		bufArea := bento.NewRect(area.Right()+2, area.Bottom()+2)
		bg := bento.NewCell("·")
		bg.Fg = termenv.ANSIColor(1)
		buf := bento.NewBufferFilled(bufArea, bg)
		before := cloneBuffer(&buf)
		align := bento.Alignment(t.Range(1, 3))
		par := paragraphwidget.New(text).WithWrap(paragraphwidget.NewWrap().WithTrim(trim))
		if !trim && t.Chance(50) {
			par = paragraphwidget.New(text).Wrapped()
		}
		switch align {
		case bento.AlignmentCenter:
			par = par.Center()
		case bento.AlignmentRight:
			par = par.Right()
		default:
			par = par.Left()
		}
		t.Logf("width %d, trim %v, alignment %d", w, trim, align)
		for i, l := range lines {
			t.Logf("  line %q, alignment %d", strings.Join(l, ""), p.aligns[i])
		}
		par.Render(area, &buf)
		t.sameOutside("paragraph", &before, &buf, area)

		lineOf := map[int]int{}
		symOf := map[int]string{}
		var wantMarks []int
		for i, ms := range p.marks {
			for k, m := range ms {
				lineOf[m], symOf[m] = i, lines[i][k]
				if g := lines[i][k]; width(g) > 0 && width(g) <= w && !isBlank(g) {
					wantMarks = append(wantMarks, m)
				}
			}
		}

		var rows []prow
		var gotMarks []int
		for y := area.Y; y < area.Bottom(); y++ {
			r := prow{first: -1, line: -1}
			for _, s := range visibleRow(&buf, y, area.X, area.Right()) {
				sw := max(1, width(s.c.Symbol))
				if s.x+sw > area.Right() {
					t.Failf("row %d reaches over the end of the area: %q", y-area.Y, rowText(&buf, y, area.X, area.Right()))
				}
				if s.c.Symbol == "·" {
					continue
				}
				if r.first < 0 {
					r.first = s.x - area.X
				} else if r.end != s.x-area.X {
					t.Failf("row %d is not contiguous: %q", y-area.Y, rowText(&buf, y, area.X, area.Right()))
				}
				r.end = s.x - area.X + sw
				r.cells = append(r.cells, s)
				m := markOf(s.c.Fg)
				if m < 0 {
					t.Failf("cell %d,%d shows %q in the wrong style", s.x, y, s.c.Symbol)
				}
				if r.line >= 0 && lineOf[m] != r.line {
					t.Failf("row %d shows parts of the lines %d and %d", y-area.Y, r.line, lineOf[m])
				}
				r.line = lineOf[m]
				if symOf[m] != s.c.Symbol {
					t.Failf("%q is shown as %q", symOf[m], s.c.Symbol)
				}
				if !isBlank(s.c.Symbol) {
					gotMarks = append(gotMarks, m)
				}
			}
			rows = append(rows, r)
		}
		for _, l := range dumpBuffer(&buf) {
			t.Logf("  row %q", l)
		}
		if fmt.Sprint(gotMarks) != fmt.Sprint(wantMarks) {
			for i := 0; ; i++ {
				if i >= len(gotMarks) {
					t.Failf("%q and what follows is not shown", symOf[wantMarks[i]])
				}
				if i >= len(wantMarks) || gotMarks[i] != wantMarks[i] {
					t.Failf("the characters shown differ from those of the text at number %d: %q is shown", i, symOf[gotMarks[i]])
				}
			}
		}
		t.Count("characters_followed", len(gotMarks))
		used := 0
		for y, r := range rows {
			if r.first < 0 {
				continue
			}
			used = y + 1
			if trim && isBlank(r.cells[0].c.Symbol) {
				t.Failf("row %d begins with a blank: %q", y, rowText(&buf, area.Y+y, area.X, area.Right()))
			}
			al := p.aligns[r.line]
			if al == bento.AlignmentNone {
				al = align
			}
			rw := r.end - r.first
			wantX := 0
			switch al {
			case bento.AlignmentCenter:
				wantX = w/2 - rw/2
				if d := r.first - (w-rw)/2; d == 0 {
					wantX = r.first
				}
			case bento.AlignmentRight:
				wantX = w - rw
			}
			if r.first != wantX {
				t.Failf("row %d (%q) with alignment %d begins at column %d, want %d", y, rowText(&buf, area.Y+y, area.X, area.Right()), al, r.first, wantX)
			}
		}
		t.Count("rows_checked", used)

		if words {
			// The greedy division is the only one.
			var want []string
			for _, l := range lines {
				cur, cw := "", 0
				for i, word := range strings.Split(strings.Join(l, ""), " ") {
					if i > 0 && cw+1+width(word) > w {
						want = append(want, cur)
						cur, cw = "", 0
					} else if i > 0 {
						cur += " "
						cw++
					}
					cur += word
					cw += width(word)
				}
				want = append(want, cur)
			}
			for y, s := range want {
				var got strings.Builder
				for _, c := range rows[y].cells {
					got.WriteString(c.c.Symbol)
				}
				if got.String() != s {
					t.Failf("row %d is %q, want %q", y, got.String(), s)
				}
			}
			for y := len(want); y < len(rows); y++ {
				if rows[y].first >= 0 {
					t.Failf("there is text in row %d, want %d rows", y, len(want))
				}
			}
		} else if len(lines) == 1 && len(lines[0]) > 0 {
			// A word that fills rows on its own.
			whole := true
			for _, g := range lines[0] {
				whole = whole && !isBlank(g) && width(g) == 1
			}
			if whole {
				for y, r := range rows {
					if k := len(lines[0]) - y*w; k > 0 && len(r.cells) != min(k, w) {
						t.Failf("row %d of a long word has %d of its characters, want %d", y, len(r.cells), min(k, w))
					}
				}
			}
		}

		// Scrolling shows the same rows, shifted.
		sy := t.IntN(used + 2)
		h := t.Range(1, used+2)
		sa := area.WithHeight(h)
		b2 := bento.NewBufferFilled(bufArea, bg)
		par.WithScroll(sy, 0).Render(sa, &b2)
		for y := 0; y < h; y++ {
			for x := area.X; x < area.Right(); x++ {
				want := bg
				if y+sy < area.Height {
					want = cellAt(&buf, x, area.Y+y+sy)
				}
				if got := cellAt(&b2, x, area.Y+y); got != want {
					t.Failf("scrolled by %d, cell %d,%d is %s, want %s as in row %d", sy, x, area.Y+y, cellString(got), cellString(want), y+sy)
				}
			}
		}
		t.sameOutside("scrolled paragraph", &before, &b2, sa)

		t.Key(lines, w, trim, align)
		t.Sample("%q in width %d: %d rows, trim %v", lines, w, used, trim)
		if used == 0 {
			t.Trivial()
		}
	}
}

// ---------------------------------------------------------------- T04

func truncatedCase(t *T) {
	area := t.bufferArea(30, 8)
	wide, tall := 1, 1 // how many times larger than usual
	if t.IntN(300) == 0 {
		wide = t.Range(1, 40)
		area = t.bufferArea(30*wide, 8)
	} else if t.IntN(600) == 0 {
		tall = t.Range(1, 500)
		area = t.bufferArea(8, pick(t, []int{8, 600}))
	}
	buf := t.canvas(area)
	sub := t.subArea(area)
	before := cloneBuffer(&buf)
	text := func(n int) string { return t.tame(n, 20) }
	if sub.Width < 2 {
		text = func(n int) string { return t.tame(n, 0) }
	} else if t.Chance(20) {
		text = t.zero
	}
	var lines []refLine
	var ls []textwidget.Line
	for n := t.IntN(12 * tall); n > 0; n-- {
		l := t.refLine(text, 3, 14*wide)
		lines = append(lines, l)
		ls = append(ls, l.line())
	}
	ts, tr := t.someStyle(40)
	ps, pr := t.someStyle(40)
	align := bento.Alignment(t.Range(1, 3))
	par := paragraphwidget.New(textwidget.NewText(ls...).WithStyle(ts)).WithStyle(ps)
	switch align {
	case bento.AlignmentCenter:
		par = par.Center()
	case bento.AlignmentRight:
		par = par.Right()
	}
	sy, sx := 0, 0
	if t.Chance(60) {
		sy, sx = t.IntN(8*tall), t.IntN(10*wide)
		par = par.WithScroll(sy, sx)
	}
	t.Logf("paragraph with alignment %d in %v of %v, scrolled by %d rows and %d columns", align, sub, area, sy, sx)
	for _, l := range lines {
		t.Logf("  %v", l)
	}
	inner := par
	if t.Chance(25) {
		blk := (&textSource{t: t, make: func(n int, nl bool) string { return t.tame(n, 10) }}).block()
		b2 := cloneBuffer(&buf)
		b2.SetStyle(sub, ps)
		blk.Render(sub, &b2)
		in := blk.Inner(sub)
		if in.Intersection(area) == in {
			inner.Render(in, &b2)
		}
		par.WithBlock(blk).Render(sub, &buf)
		for y := area.Y; y < area.Bottom(); y++ {
			for x := area.X; x < area.Right(); x++ {
				if g, w := cellAt(&buf, x, y), cellAt(&b2, x, y); g != w {
					t.Failf("cell %d,%d of a paragraph in a block is %s, want %s as for the block with the paragraph drawn inside", x, y, cellString(g), cellString(w))
				}
			}
		}
		t.Count("paragraphs_in_blocks", 1)
		t.Key(lines, sub, "block")
		return
	}
	par.Render(sub, &buf)
	t.sameOutside("paragraph", &before, &buf, sub)

	shown, shifted := 0, 0
	for y := 0; y < sub.Height; y++ {
		i := y + sy
		row := wantRow{glyphs: map[int]glyph{}, kept: func(int) bool { return true }, under: func(int) []refStyle { return []refStyle{pr} }}
		if i < len(lines) {
			l := lines[i]
			gs := l.glyphs()
			al := l.align
			if al == bento.AlignmentNone {
				al = align
			}
			if al == bento.AlignmentLeft && sx > 0 {
				off := 0
				for len(gs) > 0 && off < sx {
					off += gs[0].w
					gs = gs[1:]
				}
				if off > sx {
					// The offset is in the middle of a wide grapheme; what happens to it is left open.
					continue
				}
				shifted++
			}
			n, total := 0, 0
			for n < len(gs) && total+gs[n].w <= sub.Width {
				total += gs[n].w
				n++
			}
			col := 0
			switch al {
			case bento.AlignmentCenter:
				col = sub.Width/2 - total/2
				if n > 0 && cellAt(&buf, sub.X+(sub.Width-total)/2, sub.Y+y).Symbol == gs[0].sym && (sub.Width-total)/2 != col {
					col = (sub.Width - total) / 2
				}
			case bento.AlignmentRight:
				col = sub.Width - total
			}
			for _, g := range gs[:n] {
				g.styles = append([]refStyle{tr, l.ref}, g.styles...)
				row.glyphs[col] = g
				col += g.w
			}
			shown += n
		}
		t.checkRow("paragraph", &before, &buf, sub.X, sub.Y+y, sub.Width, row, false)
	}
	t.Count("lines_shifted", shifted)
	t.Key(lines, sub, sy, sx)
	t.Sample("%d lines in %v, scrolled by %d,%d: %d graphemes shown", len(lines), sub, sy, sx, shown)
	if shown == 0 {
		t.Trivial()
	}
}

var _ = blockwidget.New

func init() {
	register(&Check{
		ID:          "T01",
		Rule:        "A case renders a text, line or span of random spans, styles and alignments into a part of a patterned buffer and compares every cell with a model of placing and cutting; the second part uses zero-width and control characters as well, the third prints at a position. Non-trivial: something was shown; distinct by area, alignments and amount shown and cut.",
		Assumptions: []string{"graphemes and widths are as uniseg says", "the area lies in the buffer", "zero-width graphemes may be attached to a neighbour"},
		Parts: []Part{
			{Name: "lines", Quick: 80000, Thorough: 2500000, Fn: textCase(false)},
			{Name: "zero-width", Quick: 40000, Thorough: 1500000, Fn: textCase(true)},
			{Name: "print", Quick: 30000, Thorough: 800000, Fn: printCase},
		},
	})
	register(&Check{
		ID:   "T02",
		Rule: "A case makes text from a random string with both kinds of line ends, empty and very long lines, and compares lines, string, size and the rendered rows with a model. Non-trivial: the string is not empty; distinct by the string.",
		Parts: []Part{
			{Name: "strings", Quick: 20000, Thorough: 400000, Fn: splitCase},
		},
	})
	register(&Check{
		ID:          "T03",
		Rule:        "A case renders a wrapped paragraph in which every grapheme has a colour of its own and follows each of them on the screen; the first part has words separated by single blanks, for which the rows are compared with a greedy division, the second any text. It is then rendered again, scrolled. Non-trivial: something was shown; distinct by text, width, alignment and trimming.",
		Assumptions: []string{"graphemes wider than the area cannot be shown"},
		Parts: []Part{
			{Name: "words", Quick: 20000, Thorough: 600000, Fn: wrapCase(true)},
			{Name: "any", Quick: 20000, Thorough: 600000, Fn: wrapCase(false)},
		},
	})
	register(&Check{
		ID:          "T04",
		Rule:        "A case renders an unwrapped, possibly scrolled paragraph into a part of a patterned buffer and compares every cell with a model; scrolled wrapped paragraphs are compared with unscrolled ones. Non-trivial: something was shown; distinct by text, area and offsets.",
		Assumptions: []string{"the horizontal offset does not fall into a wide grapheme", "no grapheme is wider than the area"},
		Parts: []Part{
			{Name: "truncated", Quick: 60000, Thorough: 2000000, Fn: truncatedCase},
			{Name: "wrapped", Quick: 8000, Thorough: 200000, Fn: wrapCase(false)},
		},
	})
}
