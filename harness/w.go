package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// ---------------------------------------------------------------- W01

func (t *T) popup(s *textSource) popupwidget.Popup {
	p := popupwidget.New().WithStyle(t.style())
	if t.Chance(70) {
		p = p.WithWidth(t.constraint())
	}
	if t.Chance(70) {
		p = p.WithHeight(t.constraint())
	}
	switch t.IntN(4) {
	case 0:
		p = p.Top()
	case 1:
		p = p.Middle()
	case 2:
		p = p.Bottom()
	}
	switch t.IntN(4) {
	case 0:
		p = p.Left()
	case 1:
		p = p.Center()
	case 2:
		p = p.Right()
	}
	if s != nil {
		if t.Chance(40) {
			p = p.WithBlock(s.block())
		}
		if t.Chance(20) {
			p = p.WithPadding(bento.NewPadding(t.IntN(4), t.IntN(4), t.IntN(4), t.IntN(4)))
		}
	}
	return p
}

var throbberTypes = []throbberwidget.Type{
	throbberwidget.TypeLine, throbberwidget.TypeHorizontalBlock, throbberwidget.TypeVerticalBlock, throbberwidget.TypeBrailleEight,
	throbberwidget.TypeParenthesis, throbberwidget.TypeCanadian, throbberwidget.TypeEllipsis, throbberwidget.TypeMeter, throbberwidget.TypePulse,
}

func containCase(t *T) {
	area := t.roomyArea(30, 10)
	if t.Chance(10) {
		area = t.bufferArea(3, 3)
	}
	buf := t.canvas(area)
	sub := t.subArea(area)
	s := &textSource{t: t, make: t.wild}
	var w widgetFunc
	kind := ""
	switch t.IntN(14) {
	case 0:
		p := t.popup(s)
		p.Inner(sub)
		w, kind = p.Render, "popup"
	case 1:
		sc := scrollwidget.New(scrollwidget.Orientation(t.IntN(4)))
		st := scrollwidget.NewState(pick(t, []int{0, 1, 2, 5, 20, 1000, 1000000}))
		st.SetPosition(t.IntN(30))
		if t.Chance(50) {
			st.SetViewportContentLen(t.IntN(40))
		}
		sc.Inner(sub)
		w, kind = func(a bento.Rect, b *bento.Buffer) { sc.RenderStateful(a, b, st) }, "scroll"
	case 2:
		th := throbberwidget.New().WithType(pick(t, throbberTypes))
		st := throbberwidget.NewState()
		for n := t.IntN(12); n > 0; n-- {
			st.TryUpdate(st.Tick())
		}
		w, kind = func(a bento.Rect, b *bento.Buffer) { th.RenderStateful(a, b, st) }, "throbber"
	case 3:
		w, kind = clearwidget.New().Render, "clear"
	case 4:
		w, kind = fillwidget.New(pick(t, narrowSymbols)).WithStyle(t.style()).Render, "fill"
	case 5:
		g := s.gauge().WithRatio(pick(t, []float64{0, 1, math.Nextafter(1, 0), math.SmallestNonzeroFloat64, 0.5, 1.0 / 3}))
		w, kind = g.Render, "gauge"
	default:
		w, kind = s.widget()
	}
	before := cloneBuffer(&buf)
	t.Logf("%s with texts %q in %v of %v", kind, s.all.String(), sub, area)
	w(sub, &buf)
	t.sameOutside(kind, &before, &buf, sub)
	changed := 0
	for y := sub.Y; y < sub.Bottom(); y++ {
		for x := sub.X; x < sub.Right(); x++ {
			if cellAt(&before, x, y) != cellAt(&buf, x, y) {
				changed++
			}
		}
	}
	t.Count("cells_drawn", changed)
	t.Count("rendered_"+kind, 1)
	t.Key(kind, s.all.String(), sub, area)
	t.Sample("%s in %v of %v: %d cells drawn", kind, sub, area, changed)
	if changed == 0 && !sub.IsEmpty() && kind != "scroll" {
		t.Trivial()
	}

	// Again over its own output: stateful widgets keep a state that fits.
	w(sub, &buf)
	t.sameOutside(kind+" again", &before, &buf, sub)
	other := t.subArea(area)
	buf = cloneBuffer(&before)
	w(other, &buf)
	t.sameOutside(kind+" elsewhere", &before, &buf, other)
}

// beyondCase renders texts and blocks into areas that reach beyond the buffer.
func beyondCase(t *T) {
	area := t.bufferArea(16, 6)
	buf := t.canvas(area)
	s := &textSource{t: t, make: t.wild}
	around := bento.NewRect(area.Width+16, area.Height+12).Positioned(area.X-8, area.Y-6)
	given := t.subArea(around)
	common := bento.Rect{}
	x0, y0 := max(area.X, given.X), max(area.Y, given.Y)
	x1, y1 := min(area.Right(), given.Right()), min(area.Bottom(), given.Bottom())
	if x0 < x1 && y0 < y1 {
		common = bento.NewRect(x1-x0, y1-y0).Positioned(x0, y0)
	}
	var w widgetFunc
	kind := ""
	switch t.IntN(4) {
	case 0:
		w, kind = s.block().Render, "block"
	case 1:
		w, kind = s.text(4).Render, "text"
	case 2:
		w, kind = s.line().Render, "line"
	default:
		w, kind = s.span().Render, "span"
	}
	before := cloneBuffer(&buf)
	t.Logf("%s with texts %q in %v, buffer %v", kind, s.all.String(), given, area)
	w(given, &buf)
	t.sameOutside(kind, &before, &buf, common)
	t.Count("rendered_"+kind, 1)
	t.Key(kind, s.all.String(), given, area)
	t.Sample("%s in %v, buffer %v", kind, given, area)
	if common == given {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W02

// top left, top right, bottom left, bottom right, vertical, horizontal
var borderSymbols = map[blockwidget.BorderType][]rune{
	blockwidget.BorderTypeSharp:   []rune("┌┐└┘│─"),
	blockwidget.BorderTypeRounded: []rune("╭╮╰╯│─"),
	blockwidget.BorderTypeDouble:  []rune("╔╗╚╝║═"),
	blockwidget.BorderTypeThick:   []rune("┏┓┗┛┃━"),
}

type refTitle struct {
	line   refLine
	align  bento.Alignment // of the title, none if unset
	bottom *bool
}

func (r refTitle) String() string {
	p := "at the default edge"
	if r.bottom != nil {
		p = map[bool]string{false: "top", true: "bottom"}[*r.bottom]
	}
	return fmt.Sprintf("%v title alignment %d %s", r.line, r.align, p)
}

func blockCase(t *T) {
	area := t.roomyArea(30, 8)
	buf := t.canvas(area)
	sub := t.subArea(area)

	b := blockwidget.New()
	style, styleRef := t.someStyle(50)
	bstyle, bstyleRef := t.someStyle(50)
	tstyle, tstyleRef := t.someStyle(50)
	b = b.WithStyle(style).WithBorderStyle(bstyle).WithTitlesStyle(tstyle)

	var left, top, right, bottom bool
	borderless := false
	if t.Chance(20) {
		// The last choice of sides and of their type counts.
		b = b.WithBorderSides(blockwidget.Side(t.Range(1, 15))).WithBorderType(blockwidget.BorderType(t.IntN(4)))
		borderless = true
	}
	switch t.IntN(4) {
	case 0:
		if borderless || t.Chance(20) {
			b = b.WithBorderSides(blockwidget.SideNone)
		}
	case 1:
		b = b.Bordered()
		left, top, right, bottom = true, true, true, true
	default:
		m := t.Range(1, 15)
		var sides []blockwidget.Side
		add := func(bit int, s blockwidget.Side, f *bool) {
			if m>>bit&1 == 1 {
				sides = append(sides, s)
				*f = true
			}
		}
		add(0, blockwidget.SideLeft, &left)
		add(1, blockwidget.SideTop, &top)
		add(2, blockwidget.SideRight, &right)
		add(3, blockwidget.SideBottom, &bottom)
		t.Shuffle(len(sides), func(i, j int) { sides[i], sides[j] = sides[j], sides[i] })
		if t.Chance(20) && len(sides) > 1 {
			sides = []blockwidget.Side{sides[0] | sides[1]}
			left, top, right, bottom = false, false, false, false
			for i, f := range []*bool{&top, &right, &bottom, &left} {
				*f = sides[0]>>i&1 == 1
			}
		}
		if t.Chance(10) {
			sides = append([]blockwidget.Side{blockwidget.SideNone}, sides...)
			t.Shuffle(len(sides), func(i, j int) { sides[i], sides[j] = sides[j], sides[i] })
		}
		b = b.WithBorderSides(sides...)
	}
	bt := blockwidget.BorderType(t.IntN(4))
	switch t.IntN(2) {
	case 0:
		b = b.WithBorderType(bt)
	default:
		switch bt {
		case blockwidget.BorderTypeSharp:
			b = b.Sharp()
		case blockwidget.BorderTypeRounded:
			b = b.Rounded()
		case blockwidget.BorderTypeDouble:
			b = b.Double()
		default:
			b = b.Thick()
		}
	}
	pad := bento.NewPadding()
	if t.Chance(40) {
		pad = bento.Padding{Top: t.IntN(4), Right: t.IntN(4), Bottom: t.IntN(4), Left: t.IntN(4)}
		b = b.WithPadding(pad)
	}
	defAlign, defBottom := bento.AlignmentLeft, false
	if t.Chance(40) {
		defAlign = bento.Alignment(t.Range(1, 3))
		b = b.WithTitlesAlignment(defAlign)
	}
	if t.Chance(40) {
		defBottom = t.Chance(50)
		p := blockwidget.TitlePositionTop
		if defBottom {
			p = blockwidget.TitlePositionBottom
		}
		b = b.WithTitlePosition(p)
	}
	var titles []refTitle
	onlyOne := t.Chance(50) // keep groups from overlapping more often
	for n := t.IntN(4); n > 0; n-- {
		l := t.refLine(func(n int) string { return t.tame(n, 15) }, 2, 5)
		r := refTitle{line: l}
		ti := blockwidget.NewTitle(l.line())
		if t.Chance(60) {
			r.align = bento.Alignment(t.Range(1, 3))
			if onlyOne && len(titles) > 0 {
				r.align = titles[0].align
			}
			switch {
			case t.Chance(50) || r.align == bento.AlignmentNone:
				ti = ti.WithAlignment(r.align)
			case r.align == bento.AlignmentLeft:
				ti = ti.Left()
			case r.align == bento.AlignmentCenter:
				ti = ti.Center()
			default:
				ti = ti.Right()
			}
		}
		if t.Chance(50) {
			x := t.Chance(50)
			r.bottom = &x
			switch {
			case t.Chance(50) && x:
				ti = ti.Bottom()
			case x:
				ti = ti.WithPosition(blockwidget.TitlePositionBottom)
			case t.Chance(50):
				ti = ti.Top()
			default:
				ti = ti.WithPosition(blockwidget.TitlePositionTop)
			}
		}
		titles = append(titles, r)
		b = b.WithTitle(ti)
		t.Logf("title %v", r)
	}
	t.Logf("block in %v of %v: left %v top %v right %v bottom %v type %d padding %+v, titles aligned %d, at the bottom %v", sub, area, left, top, right, bottom, bt, pad, defAlign, defBottom)

	// What is expected below the titles.
	set := borderSymbols[bt]
	want := cloneBuffer(&buf)
	open := map[bento.Position]string{} // cells where one of several symbols is right
	x0, x1, y0, y1 := sub.X, sub.Right()-1, sub.Y, sub.Bottom()-1
	borders := 0
	for y := sub.Y; y < sub.Bottom(); y++ {
		for x := sub.X; x < sub.Right(); x++ {
			c := want.CellAt(bento.Position{X: x, Y: y})
			*c = styleRef.apply(*c)
			var corner, side []rune
			for _, k := range []struct {
				on  bool
				sym rune
			}{
				{left && top && x == x0 && y == y0, set[0]},
				{right && top && x == x1 && y == y0, set[1]},
				{left && bottom && x == x0 && y == y1, set[2]},
				{right && bottom && x == x1 && y == y1, set[3]},
			} {
				if k.on {
					corner = append(corner, k.sym)
				}
			}
			if left && x == x0 || right && x == x1 {
				side = append(side, set[4])
			}
			if top && y == y0 || bottom && y == y1 {
				side = append(side, set[5])
			}
			if len(corner) > 0 {
				side = corner
			}
			if len(side) > 0 {
				borders++
				*c = bstyleRef.apply(*c)
				c.Symbol = string(side[0])
				if len(side) > 1 {
					open[bento.Position{X: x, Y: y}] = string(side)
				}
			}
		}
	}

	// Where the titles go.
	type placed struct {
		title refTitle
		x, w  int
		y     int
	}
	var all []placed
	hasTop, hasBottom := false, false
	for _, bot := range []bool{false, true} {
		for _, al := range []bento.Alignment{bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight} {
			var group []refTitle
			total := -1
			for _, r := range titles {
				p, a := defBottom, defAlign
				if r.bottom != nil {
					p = *r.bottom
				}
				if r.align != bento.AlignmentNone {
					a = r.align
				}
				if p == bot {
					if bot {
						hasBottom = true
					} else {
						hasTop = true
					}
				}
				if p == bot && a == al {
					group = append(group, r)
					total += glyphsWidth(r.line.glyphs()) + 1
				}
			}
			from, to := sub.X, sub.Right()
			if left {
				from++
			}
			if right {
				to--
			}
			y := sub.Y
			if bot {
				y = sub.Bottom() - 1
			}
			switch al {
			case bento.AlignmentRight:
				for k := len(group) - 1; k >= 0; k-- {
					r := group[k]
					w := glyphsWidth(r.line.glyphs())
					if from >= to {
						break
					}
					at := max(from, to-w)
					all = append(all, placed{r, at, to - at, y})
					to = at - 1
				}
			default:
				at := from
				if al == bento.AlignmentCenter {
					at += max(0, to-from-max(0, total)) / 2
				}
				for _, r := range group {
					if at >= to {
						break
					}
					w := glyphsWidth(r.line.glyphs())
					all = append(all, placed{r, at, min(w, to-at), y})
					at += w + 1
				}
			}
		}
	}

	got := cloneBuffer(&buf)
	b.Render(sub, &got)
	t.sameOutside("block", &buf, &got, sub)
	if sub.IsEmpty() {
		t.Trivial()
		return
	}

	taken := map[bento.Position]int{}
	for _, p := range all {
		for x := p.x; x < p.x+p.w; x++ {
			taken[bento.Position{X: x, Y: p.y}]++
		}
	}
	titlesSeen := 0
	for _, p := range all {
		overlap := false
		for x := p.x; x < p.x+p.w; x++ {
			overlap = overlap || taken[bento.Position{X: x, Y: p.y}] > 1 || open[bento.Position{X: x, Y: p.y}] != ""
		}
		if overlap {
			continue
		}
		l := p.title.line
		al := l.align
		if p.title.align != bento.AlignmentNone {
			al = p.title.align
		}
		row := alignedRow(l.glyphs(), al, p.w, l.ref, []refStyle{tstyleRef})
		t.checkRow(fmt.Sprintf("title %v", p.title), &want, &got, p.x, p.y, p.w, row, false)
		titlesSeen++
	}
	for y := sub.Y; y < sub.Bottom(); y++ {
		for x := sub.X; x < sub.Right(); x++ {
			p := bento.Position{X: x, Y: y}
			if taken[p] > 0 {
				continue
			}
			g, w := cellAt(&got, x, y), cellAt(&want, x, y)
			if o := open[p]; o != "" && strings.Contains(o, g.Symbol) {
				w.Symbol = g.Symbol
			}
			if g != w {
				t.logBuffer("shown", &got)
				t.Failf("cell %d,%d of the block is %s, want %s", x, y, cellString(g), cellString(w))
			}
		}
	}

	// The inner area.
	l, tp, r, bo := pad.Left, pad.Top, pad.Right, pad.Bottom
	if left {
		l++
	}
	if top || hasTop {
		tp++
	}
	if right {
		r++
	}
	if bottom || hasBottom {
		bo++
	}
	inner := b.Inner(sub)
	ww, wh := sub.Width-l-r, sub.Height-tp-bo
	if ww <= 0 || wh <= 0 {
		if !inner.IsEmpty() {
			t.Failf("the inner area is %v, want it empty", inner)
		}
		t.Count("inner_empty", 1)
	} else {
		if w := bento.NewRect(ww, wh).Positioned(sub.X+l, sub.Y+tp); inner != w {
			t.Failf("the inner area is %v, want %v", inner, w)
		}
		for y := inner.Y; y < inner.Bottom(); y++ {
			for x := inner.X; x < inner.Right(); x++ {
				if g, w := cellAt(&got, x, y), styleRef.apply(cellAt(&buf, x, y)); g != w {
					t.Failf("cell %d,%d of the inner area %v is %s, want %s", x, y, inner, cellString(g), cellString(w))
				}
			}
		}
		t.Count("inner_checked", 1)
	}
	t.Count("border_cells", borders)
	t.Count("titles_checked", titlesSeen)
	t.Key(sub, left, top, right, bottom, bt, pad, defAlign, defBottom, fmt.Sprint(titles))
	t.Sample("block in %v: %d border cells, %d titles, inner area %v", sub, borders, titlesSeen, inner)
	if borders == 0 && titlesSeen == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W03

// code returns a narrow symbol for a number below 600.
func code(n int) string { return string(rune(0x1401 + n)) }

func codeOf(s string) int {
	for _, r := range s {
		if r >= 0x1401 && r < 0x1401+600 {
			return int(r - 0x1401)
		}
	}
	return -1
}

// listModel is the position of a list as it shall be.
type listModel struct {
	heights  []int
	padding  int
	offset   int
	selected int // -1: none
}

func (m *listModel) end(first, height int) int {
	last, sum := first, 0
	for last < len(m.heights) && sum+m.heights[last] <= height {
		sum += m.heights[last]
		last++
	}
	return last
}

// settle computes the items shown: the range of as many items as fit whose
// beginning is nearest to the former one and shows what it has to.
func (m *listModel) settle(height int) (first, end int) {
	n := len(m.heights)
	m.offset = min(m.offset, n-1)
	if m.selected < 0 {
		return m.offset, m.end(m.offset, height)
	}
	m.selected = min(m.selected, n-1)
	lo, hi := m.selected, m.selected
	for p := m.padding; p >= 0; p-- {
		lo, hi = max(0, m.selected-p), min(n-1, m.selected+p)
		sum := 0
		for _, h := range m.heights[lo : hi+1] {
			sum += h
		}
		if sum <= height {
			break
		}
	}
	for d := 0; ; d++ {
		for _, f := range []int{m.offset - d, m.offset + d} {
			if f >= 0 && f < n && lo >= f && hi < m.end(f, height) {
				m.offset = f
				return f, m.end(f, height)
			}
		}
		if d > n {
			return -1, -1
		}
	}
}

// listOp does something to the state of a list and to its model.
func (t *T) listOp(st *listwidget.State, m *listModel) string {
	sel := func(i int) { m.selected = max(0, i) }
	more := func(i, n int) int { return i + min(n, math.MaxInt-i) }
	cur := max(0, m.selected)
	key := func(name string) {
		var k bento.KeyMsg
		switch name {
		case "ctrl+u":
			k.Type = bento.KeyCtrlU
		case "ctrl+d":
			k.Type = bento.KeyCtrlD
		case "up":
			k.Type = bento.KeyUp
		case "down":
			k.Type = bento.KeyDown
		default:
			k.Type, k.Runes = bento.KeyRunes, []rune(name)
		}
		if _, ok := st.TryUpdate(k); !ok {
			t.Failf("the key %s was not consumed by the list", name)
		}
	}
	next := func() {
		if m.selected < 0 {
			sel(0)
		} else {
			sel(more(m.selected, 1))
		}
	}
	prev := func() {
		if m.selected < 0 {
			sel(math.MaxInt)
		} else {
			sel(m.selected - 1)
		}
	}
	switch t.IntN(18) {
	case 0:
		i := t.Range(-1, len(m.heights)+2)
		st.Select(i)
		sel(i)
		return fmt.Sprintf("Select(%d)", i)
	case 1, 2:
		st.SelectNext()
		next()
		return "SelectNext"
	case 3, 4:
		st.SelectPrevious()
		prev()
		return "SelectPrevious"
	case 5:
		st.SelectFirst()
		sel(0)
		return "SelectFirst"
	case 6:
		st.SelectLast()
		sel(math.MaxInt)
		return "SelectLast"
	case 7:
		n := t.IntN(10)
		st.ScrollDownBy(n)
		sel(more(cur, n))
		return fmt.Sprintf("ScrollDownBy(%d)", n)
	case 8:
		n := t.IntN(10)
		st.ScrollUpBy(n)
		sel(cur - n)
		return fmt.Sprintf("ScrollUpBy(%d)", n)
	case 9:
		i := t.IntN(len(m.heights) + 3)
		st.SetOffset(i)
		m.offset = i
		return fmt.Sprintf("SetOffset(%d)", i)
	case 10:
		st.Unselect()
		m.selected, m.offset = -1, 0
		return "Unselect"
	case 11:
		key("ctrl+u")
		sel(cur - 8)
		return "ctrl+u"
	case 12:
		key("ctrl+d")
		sel(more(cur, 8))
		return "ctrl+d"
	case 13:
		key("g")
		sel(0)
		return "g"
	case 14:
		key("G")
		sel(math.MaxInt)
		return "G"
	case 15:
		k := pick(t, []string{"j", "down"})
		key(k)
		next()
		return k
	case 16:
		k := pick(t, []string{"k", "up"})
		key(k)
		prev()
		return k
	default:
		k := bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune("z")}
		if _, ok := st.TryUpdate(k); ok {
			t.Failf("the list consumed the key z")
		}
		if _, ok := st.TryUpdate("j"); ok {
			t.Failf("the list consumed a message that is no key")
		}
		return "other"
	}
}

func (t *T) listItems(maxHeight int) (items []textwidget.Text, heights []int) {
	n := t.Range(1, 14)
	if t.Chance(10) {
		n = t.Range(15, 100)
	}
	tall := t.Chance(50)
	for i := 0; i < n; i++ {
		h := 1
		if tall {
			h = t.Range(1, min(4, maxHeight))
		}
		var lines []textwidget.Line
		for j := 0; j < h; j++ {
			lines = append(lines, textwidget.NewLineStr(strings.Repeat(code(i*4+j), t.Range(1, 12))))
		}
		items = append(items, textwidget.NewText(lines...))
		heights = append(heights, h)
	}
	return
}

func listHistory(t *T) {
	area := t.bufferArea(16, 12)
	var sub bento.Rect
	for sub.IsEmpty() {
		sub = t.subArea(area)
	}
	minHeight := sub.Height
	items, heights := t.listItems(minHeight)
	m := listModel{heights: heights, padding: t.IntN(5), selected: -1}
	st := listwidget.NewState()
	up := t.Chance(30)
	l := listwidget.New(items...).WithScrollPadding(m.padding)
	if up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	if t.Chance(50) {
		l = l.WithHighlightStyle(bento.NewStyle().Reversed())
	}
	t.Logf("items of heights %v with scroll padding %d in %v, upwards %v", heights, m.padding, sub, up)
	positions := map[[2]int]bool{}
	for step := t.Range(3, 25); step > 0; step-- {
		op := t.listOp(&st, &m)
		if t.Chance(10) {
			for {
				sub = t.subArea(area)
				if !sub.IsEmpty() {
					break
				}
			}
			if sub.Height < slices.Max(m.heights) {
				sub.Y, sub.Height = area.Y, area.Height
			}
			if sub.Height < slices.Max(m.heights) {
				t.Inconclusivef("items are too tall")
			}
			op += fmt.Sprintf(", resized to %v", sub)
		}
		if t.Chance(8) {
			items, m.heights = t.listItems(sub.Height)
			l = l.WithItems(items...)
			op += fmt.Sprintf(", items changed to heights %v", m.heights)
		}
		if t.Chance(15) {
			t.Logf("%s", op)
			continue
		}
		wantSel := m.selected
		if i, ok := st.Selected(math.MaxInt); ok != (wantSel >= 0) || ok && i != wantSel {
			t.Failf("after %s the selection is %d %v, want %d", op, i, ok, wantSel)
		}
		most := t.IntN(8)
		if i, ok := st.Selected(most); ok != (wantSel >= 0) || ok && i != min(wantSel, most) {
			t.Failf("after %s the selection of at most %d is %d %v, want %d", op, most, i, ok, min(wantSel, most))
		}
		first, end := m.settle(sub.Height)
		if first < 0 {
			t.Inconclusivef("the model finds no position")
		}
		t.Logf("%s: selected %d, items %d to %d", op, m.selected, first, end-1)
		buf := t.canvas(area)
		l.RenderStateful(sub, &buf, &st)
		if i, ok := st.Selected(math.MaxInt); ok != (m.selected >= 0) || ok && i != m.selected {
			t.Failf("after rendering %d items the selection is %d %v, want %d", len(items), i, ok, m.selected)
		}

		// Which line of which item is in each row, in the order of the direction.
		var rows []int
		for y := sub.Y; y < sub.Bottom(); y++ {
			c := -1
			for x := sub.X; x < sub.Right(); x++ {
				k := codeOf(cellAt(&buf, x, y).Symbol)
				if k < 0 {
					continue
				}
				if c >= 0 && c != k {
					t.Failf("row %d shows both %d and %d", y, c, k)
				}
				c = k
			}
			rows = append(rows, c)
		}
		want := make([]int, sub.Height)
		for i := range want {
			want[i] = -1
		}
		at := 0
		for i := first; i < end; i++ {
			for j := 0; j < m.heights[i]; j++ {
				k := at + j
				if up {
					k = sub.Height - at - m.heights[i] + j
				}
				want[k] = i*4 + j
			}
			at += m.heights[i]
		}
		if !slices.Equal(rows, want) {
			seen := false
			for _, r := range rows {
				seen = seen || r >= 0 && r/4 == m.selected
			}
			if m.selected >= 0 && !seen {
				t.Failf("the selected item %d is not visible: rows show items %v, want %v", m.selected, rows, want)
			}
			t.Failf("rows show %v, want %v (4 times the item's index plus the line)", rows, want)
		}
		t.Count("renders", 1)
		positions[[2]int{m.offset, m.selected}] = true
	}
	t.Count("list_positions", len(positions))
	t.Key(m.heights, m.padding, fmt.Sprint(positions))
	t.Sample("%d items, padding %d, height %d: %d positions of offset and selection", len(m.heights), m.padding, sub.Height, len(positions))
	if len(positions) < 2 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W04

func listLook(t *T) {
	area := t.bufferArea(24, 10)
	before := t.canvas(area)
	outer := t.subArea(area)
	var block *blockwidget.Block
	sub := outer
	if t.Chance(25) {
		b := blockwidget.New().Bordered()
		block = &b
		sub = b.Inner(outer)
	}
	if sub.IsEmpty() {
		t.Trivial()
		return
	}
	type item struct {
		lines []refLine
		align bento.Alignment
		ref   refStyle
	}
	var model []item
	var items []textwidget.Text
	m := listModel{selected: -1, padding: t.IntN(3)}
	for n := t.Range(1, 12); n > 0; n-- {
		it := item{align: bento.Alignment(t.IntN(4))}
		var lines []textwidget.Line
		for k := t.Range(1, min(3, sub.Height)); k > 0; k-- {
			l := t.refLine(func(n int) string { return t.tame(n, 20) }, 3, 9)
			it.lines = append(it.lines, l)
			lines = append(lines, l.line())
		}
		var s bento.Style
		s, it.ref = t.someStyle(40)
		model = append(model, it)
		items = append(items, textwidget.NewText(lines...).WithStyle(s).WithAlignment(it.align))
		m.heights = append(m.heights, len(it.lines))
	}
	style, styleRef := t.someStyle(40)
	hl, hlRef := t.someStyle(70)
	symbol := pick(t, []string{"", ">", ">>", "> ", "世", "=>界"})
	repeat := t.Chance(40)
	spacing := listwidget.HighlightSpacing(t.IntN(3))
	up := t.Chance(30)
	l := listwidget.New(items...).WithStyle(style).WithHighlightStyle(hl).WithHighlightSymbol(symbol).
		WithRepeatHighlightSymbol(repeat).WithHighlightSpacing(spacing).WithScrollPadding(m.padding)
	if up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	if block != nil {
		l = l.WithBlock(*block)
	}
	st := listwidget.NewState()
	if t.Chance(75) {
		m.selected = t.IntN(len(items))
		st.Select(m.selected)
	}
	if t.Chance(50) {
		m.offset = t.IntN(len(items))
		st.SetOffset(m.offset)
	}
	first, end := m.settle(sub.Height)
	if first < 0 {
		t.Inconclusivef("the model finds no position")
	}
	t.Logf("list of items of heights %v in %v of %v: symbol %q repeated %v, spacing %d, selected %d, upwards %v; shows %d to %d",
		m.heights, sub, area, symbol, repeat, spacing, m.selected, up, first, end-1)
	for i, it := range model {
		t.Logf("  item %d: %v", i, it.lines)
	}
	got := cloneBuffer(&before)
	if m.selected < 0 && m.offset == 0 && t.Chance(30) {
		l.Render(outer, &got)
	} else {
		l.RenderStateful(outer, &got, &st)
	}
	t.sameOutside("list", &before, &got, outer)

	want := cloneBuffer(&before)
	want.SetStyle(outer, style)
	if block != nil {
		block.Render(outer, &want)
		t.sameOutside("the frame of the list", &want, &got, sub)
	}
	at := 0
	used := map[int]bool{}
	for i := first; i < end; i++ {
		it := model[i]
		selected := i == m.selected
		indent := 0
		if spacing == listwidget.HighlightSpacingAlways || spacing == listwidget.HighlightSpacingWhenSelected && m.selected >= 0 {
			indent = width(symbol)
		}
		over := func(s ...refStyle) []refStyle {
			if selected {
				s = append(s, hlRef)
			}
			return s
		}
		for j, ln := range it.lines {
			y := sub.Y + at + j
			if up {
				y = sub.Bottom() - at - len(it.lines) + j
			}
			used[y] = true
			w := max(0, sub.Width-indent)
			al := ln.align
			if al == bento.AlignmentNone {
				al = it.align
			}
			row := alignedRow(ln.glyphs(), al, w, ln.ref, nil)
			full := wantRow{glyphs: map[int]glyph{}}
			for c, g := range row.glyphs {
				g.styles = over(g.styles...)
				full.glyphs[c+indent] = g
			}
			if indent > 0 {
				sym := strings.Repeat(" ", indent)
				if selected && (j == 0 || repeat) {
					sym = symbol
				}
				c := 0
				for _, g := range graphemes(sym) {
					if c+width(g) > sub.Width {
						break
					}
					full.glyphs[c] = glyph{g, width(g), nil}
					if selected {
						full.glyphs[c] = glyph{g, width(g), []refStyle{hlRef}}
					}
					c += width(g)
				}
			}
			full.kept = func(c int) bool { return c >= indent && row.kept(c-indent) }
			full.under = func(c int) []refStyle {
				s := []refStyle{styleRef, it.ref}
				if c >= indent {
					s = append(s, row.under(c-indent)...)
				}
				if _, ok := full.glyphs[c]; !ok {
					s = over(s...)
				}
				return s
			}
			t.checkRow(fmt.Sprintf("line %d of item %d", j, i), &before, &got, sub.X, y, sub.Width, full, false)
		}
		at += len(it.lines)
	}
	for y := sub.Y; y < sub.Bottom(); y++ {
		if used[y] {
			continue
		}
		row := wantRow{kept: func(int) bool { return true }, under: func(int) []refStyle { return []refStyle{styleRef} }}
		t.checkRow("the row below the items", &before, &got, sub.X, y, sub.Width, row, false)
	}
	t.Count("items_compared", end-first)
	t.Key(sub, m.heights, symbol, repeat, spacing, m.selected, up, first, fmt.Sprint(model))
	t.Sample("%d items in %v, %d shown, selected %d, symbol %q", len(items), sub, end-first, m.selected, symbol)
}

// ---------------------------------------------------------------- W05

func isSpace(g string) bool {
	if g == "\u200b" {
		return true
	}
	if g == "\u00a0" {
		return false
	}
	for _, r := range g {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

type editor struct {
	text   []string
	cursor int
}

func (e *editor) insert(s string) {
	for _, g := range graphemes(s) {
		e.text = slices.Insert(slices.Clone(e.text), e.cursor, g)
		e.cursor++
	}
}

func (e *editor) del() {
	if e.cursor > 0 {
		e.text = slices.Delete(slices.Clone(e.text), e.cursor-1, e.cursor)
		e.cursor--
	}
}

func (e *editor) delWord() {
	for e.cursor > 0 && isSpace(e.text[e.cursor-1]) {
		e.del()
	}
	for e.cursor > 0 && !isSpace(e.text[e.cursor-1]) {
		e.del()
	}
}

func (e *editor) move(n int) { e.cursor = min(max(0, e.cursor+n), len(e.text)) }

var ignoredKeys = []bento.KeyType{
	bento.KeyUp, bento.KeyDown, bento.KeyEnter, bento.KeyTab, bento.KeyEsc, bento.KeyHome, bento.KeyEnd, bento.KeyPgUp, bento.KeyPgDown,
	bento.KeyShiftTab, bento.KeyCtrlLeft, bento.KeyCtrlRight, bento.KeyF1, bento.KeyF12, bento.KeyCtrlB, bento.KeyCtrlC, bento.KeyCtrlZ, bento.KeyInsert,
	bento.KeyCtrlUp, bento.KeyShiftUp, bento.KeyCtrlHome, bento.KeyCtrlQ,
}

// edit does one operation on an input and its model.
func (t *T) edit(st *inputwidget.State, e *editor, text func() string) string {
	key := func(k bento.KeyMsg) {
		cmd, ok := st.TryUpdate(k)
		if !ok || cmd != nil {
			t.Failf("the key %s was not consumed by the input (%v %v)", k, ok, cmd != nil)
		}
	}
	direct := t.Chance(30)
	switch k := t.IntN(26); {
	case k < 7:
		s := text()
		e.insert(s)
		if direct {
			st.Append(s)
			return fmt.Sprintf("Append(%q)", s)
		}
		if s == " " && t.Chance(80) {
			key(bento.KeyMsg{Type: bento.KeySpace, Runes: []rune(s)})
			return "space"
		}
		p := t.Chance(30)
		key(bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(s), Paste: p})
		return fmt.Sprintf("typed %q paste %v", s, p)
	case k < 12:
		n := t.Range(1, 4)
		for i := 0; i < n; i++ {
			e.move(-1)
			if direct {
				st.MoveCursorLeft()
			} else {
				key(bento.KeyMsg{Type: bento.KeyLeft})
			}
		}
		return fmt.Sprintf("left %d", n)
	case k < 15:
		n := t.Range(1, 4)
		for i := 0; i < n; i++ {
			e.move(1)
			if direct {
				st.MoveCursorRight()
			} else {
				key(bento.KeyMsg{Type: bento.KeyRight})
			}
		}
		return fmt.Sprintf("right %d", n)
	case k < 18:
		e.del()
		if direct {
			st.DeleteUnderCursor()
		} else {
			key(bento.KeyMsg{Type: pick(t, []bento.KeyType{bento.KeyBackspace, bento.KeyDelete})})
		}
		return "delete"
	case k < 20:
		e.delWord()
		if direct {
			st.DeleteWordUnderCursor()
		} else {
			key(bento.KeyMsg{Type: bento.KeyCtrlW})
		}
		return "delete word"
	case k < 21:
		e.cursor = 0
		if direct {
			st.MoveCursorBegin()
		} else {
			key(bento.KeyMsg{Type: bento.KeyCtrlA})
		}
		return "begin"
	case k < 22:
		e.cursor = len(e.text)
		if direct {
			st.MoveCursorEnd()
		} else {
			key(bento.KeyMsg{Type: bento.KeyCtrlE})
		}
		return "end"
	case k < 23:
		if t.Chance(70) {
			return "nothing"
		}
		e.text, e.cursor = nil, 0
		st.DeleteLine()
		return "delete line"
	case k < 24:
		kt := pick(t, []bento.KeyType{bento.KeyShiftLeft, bento.KeyShiftRight})
		key(bento.KeyMsg{Type: kt})
		return kt.String() + " (moves nothing)"
	default:
		kt := pick(t, ignoredKeys)
		cmd, ok := st.TryUpdate(bento.KeyMsg{Type: kt})
		if ok || cmd != nil {
			t.Failf("the input consumed the key %s", kt)
		}
		msg := pick(t, []bento.Msg{bento.MouseMsg{}, nil, bento.FocusMsg{}, bento.WindowSizeMsg{Width: 3}, bento.Key{Type: bento.KeyRunes, Runes: []rune("x")}, "x", 'x', bento.KeyRunes})
		if cmd, ok := st.TryUpdate(msg); ok || cmd != nil {
			t.Failf("the input consumed the message %T", msg)
		}
		return "ignored " + kt.String()
	}
}

func editCase(t *T) {
	st := inputwidget.NewState()
	var e editor
	kinds := map[string]bool{}
	text := func() string {
		switch t.IntN(8) {
		case 0:
			return " "
		case 1:
			return string([]rune(t.wild(t.Range(1, 10), true)))
		case 2:
			return t.tame(t.Range(1, 12), 20)
		case 3:
			if t.IntN(4000) == 0 {
				return strings.Repeat(pick(t, []string{"x", "a ", "世"}), pick(t, []int{300, 1100, 4200, 9000}))
			}
			return pick(t, []string{"one two", "  ", "a  b ", "\t", "x\u00a0y", "e\u0301", "\u0301", "👍", "🏽", "foo\nbar", "\u200b"})
		default:
			return t.word(t.Range(1, 3), 15)
		}
	}
	for n := t.Range(1, 40); n > 0; n-- {
		op := t.edit(&st, &e, text)
		kinds[strings.Fields(op)[0]] = true
		if want := strings.Join(e.text, ""); st.String() != want {
			t.Logf("%s", op)
			t.Failf("after %s the content is %q, want %q", op, st.String(), want)
		}
		t.Logf("%s: %q cursor %d", op, strings.Join(e.text, ""), e.cursor)
		t.Count("edits", 1)
	}
	// Where the cursor is shows where text goes.
	e.insert("◆")
	st.Append("◆")
	if want := strings.Join(e.text, ""); st.String() != want {
		t.Failf("text was inserted as in %q, want %q", st.String(), want)
	}
	t.Key(strings.Join(e.text, ""), len(kinds))
	t.Sample("ends with %q", strings.Join(e.text, ""))
	if len(kinds) < 2 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W06

func inputView(t *T) {
	area := t.bufferArea(24, 5)
	var sub bento.Rect
	for sub.IsEmpty() {
		sub = t.subArea(area)
	}
	prompt := pick(t, []string{"", "> ", "世", "input: "})
	placeholder := pick(t, []string{"", "P", "PLACEHOLDER", "PQ世RS"})
	ps, psRef := t.someStyle(40)
	hs, hsRef := t.someStyle(60)
	in := inputwidget.New().WithPrompt(prompt).WithPromptStyle(ps).WithPlaceholder(placeholder).WithPlaceholderStyle(hs)
	// The cursor must be told from the canvas, whatever it is drawn over.
	cur := refStyle{add: bento.ModifierReversed}
	if t.Chance(40) {
		c := mark(t.IntN(1 << 20))
		cur = refStyle{bg: c}
		in = in.WithCursorStyle(bento.NewStyle().WithBackground(c))
	}
	align := bento.Alignment(t.IntN(4))
	switch {
	case align == bento.AlignmentCenter && t.Chance(50):
		in = in.Center()
	case align == bento.AlignmentRight && t.Chance(50):
		in = in.Right()
	case align == bento.AlignmentLeft && t.Chance(50):
		in = in.Left()
	default:
		in = in.WithAlignment(align)
	}
	rows := []int{0}
	vertical := ""
	all := func() (l []int) {
		for i := 0; i < sub.Height; i++ {
			l = append(l, i)
		}
		return
	}
	setVertical := func() {
		switch vertical {
		case "top":
			rows = []int{0}
		case "middle":
			rows = []int{(sub.Height - 1) / 2, sub.Height / 2}
		case "bottom":
			rows = []int{sub.Height - 1}
		case "flex":
			rows = all()
		}
	}
	switch t.IntN(5) {
	case 0:
		in, vertical = in.Top(), "top"
	case 1:
		in, vertical = in.Middle(), "middle"
	case 2:
		in, vertical = in.Bottom(), "bottom"
	case 3:
		in, vertical = in.WithVertical(bento.Flex(t.IntN(6))), "flex"
	}
	setVertical()
	st := inputwidget.NewState()
	shown := true
	var e editor
	serial := 0
	text := func() string {
		var b strings.Builder
		for n := t.Range(1, 6); n > 0; n-- {
			serial++
			if t.Chance(20) {
				b.WriteRune(rune(0x5000 + serial%3000)) // wide
			} else {
				b.WriteString(code(serial % 600))
			}
		}
		return b.String()
	}
	fresh := true // whether the cursor was at the beginning after anything made the window move
	t.Logf("input in %v of %v: prompt %q placeholder %q alignment %d vertical %s", sub, area, prompt, placeholder, align, vertical)
	scrolled := 0
	for step := t.Range(1, 14); step > 0; step-- {
		op := t.edit(&st, &e, text)
		if op == "begin" {
			fresh = true
		}
		if t.Chance(6) {
			shown = !shown
			st.ShowCursor(shown)
		}
		if t.Chance(8) {
			for sub = t.subArea(area); sub.IsEmpty(); {
				sub = t.subArea(area)
			}
			setVertical()
			op += fmt.Sprintf(", resized to %v", sub)
		}
		t.Logf("%s: %q cursor %d shown %v", op, e.text, e.cursor, shown)
		before := t.canvas(area)
		if cur.add != 0 {
			for y := area.Y; y < area.Bottom(); y++ {
				for x := area.X; x < area.Right(); x++ {
					before.CellAt(bento.Position{X: x, Y: y}).Modifier &^= bento.ModifierReversed
				}
			}
		}
		got := cloneBuffer(&before)
		in.RenderStateful(sub, &got, &st)
		t.sameOutside("input", &before, &got, sub)

		// Find the row.
		row := -1
		for y := 0; y < sub.Height; y++ {
			for x := sub.X; x < sub.Right(); x++ {
				if cellAt(&got, x, sub.Y+y) != cellAt(&before, x, sub.Y+y) && row != y {
					if row >= 0 {
						t.Failf("the input uses the rows %d and %d", row, y)
					}
					row = y
				}
			}
		}
		w := sub.Width
		if w < width(prompt)+3 {
			fresh = false
			continue
		}
		var gs []glyph
		if prompt != "" {
			for _, g := range graphemes(prompt) {
				gs = append(gs, glyph{g, width(g), []refStyle{psRef}})
			}
		}
		pw := glyphsWidth(gs)
		cursorStyles := func(s ...refStyle) []refStyle {
			if shown {
				return append(s, cur)
			}
			return s
		}
		switch {
		case len(e.text) == 0 && placeholder == "":
			if shown {
				gs = append(gs, glyph{" ", 1, cursorStyles()})
			}
		case len(e.text) == 0:
			for i, g := range graphemes(placeholder) {
				s := []refStyle{hsRef}
				if i == 0 {
					s = cursorStyles(s...)
				}
				gs = append(gs, glyph{g, width(g), s})
			}
			t.Count("placeholders_seen", 1)
		default:
			if row < 0 {
				t.Failf("nothing is shown")
			}
			first, last := -1, -1
			for _, c := range visibleRow(&got, sub.Y+row, sub.X, sub.Right()) {
				if k := slices.Index(e.text, c.c.Symbol); k >= 0 && c.c.Symbol != " " {
					if first < 0 {
						first = k
					} else if k != last+1 {
						t.Failf("the input shows %q: grapheme %d of %q follows grapheme %d", rowText(&got, sub.Y+row, sub.X, sub.Right()), k, e.text, last)
					}
					last = k
				}
			}
			if first < 0 {
				// Only the end of the text is in view.
				first, last = len(e.text), len(e.text)-1
			}
			if e.cursor < first || e.cursor > last+1 || e.cursor == last+1 && last+1 < len(e.text) {
				t.Failf("the cursor at %d of %q is not in view: %q", e.cursor, e.text, rowText(&got, sub.Y+row, sub.X, sub.Right()))
			}
			for i := first; i <= last; i++ {
				g := glyph{e.text[i], width(e.text[i]), nil}
				if i == e.cursor {
					g.styles = cursorStyles()
				}
				gs = append(gs, g)
			}
			if e.cursor == len(e.text) && shown {
				gs = append(gs, glyph{" ", 1, cursorStyles()})
			}
			if n := glyphsWidth(gs); n > w {
				t.Failf("prompt, the part %q of %q and the cursor at %d need %d of %d cells", e.text[first:last+1], e.text, e.cursor, n, w)
			}
			used := 0
			for i := first; i <= last; i++ {
				used += width(e.text[i])
			}
			room := w - pw - 1
			total := 0
			for _, g := range e.text {
				total += width(g)
			}
			if fresh && total <= room && (first > 0 || last < len(e.text)-1) {
				t.Failf("of %q only %q is shown in %d cells", e.text, e.text[first:last+1], w)
			}
			if last+1 < len(e.text) && used+width(e.text[last+1]) <= room {
				t.Failf("of %q only %q is shown although there is room for more in %d cells", e.text, e.text[first:last+1], w)
			}
			if first > 0 {
				scrolled++
			}
			if total > room {
				fresh = false
			}
		}
		if len(e.text) == 0 {
			fresh = true
		}
		if row < 0 {
			if len(gs) > 0 {
				t.Failf("nothing is shown, want %v", gs)
			}
			continue
		}
		if !slices.Contains(rows, row) {
			t.Failf("the input is in row %d of %d, want one of %v", row, sub.Height, rows)
		}
		t.checkRow("input", &before, &got, sub.X, sub.Y+row, w, alignedRow(gs, align, w, refStyle{}, nil), false)
		t.Count("renders", 1)
	}
	t.Count("renders_scrolled", scrolled)
	t.Key(sub, prompt, placeholder, align, vertical, e.text, e.cursor)
	t.Sample("ends with %q, cursor at %d, in %v; scrolled in %d renders", e.text, e.cursor, sub, scrolled)
}

// ---------------------------------------------------------------- W07

type bar struct{ begin, before, thumb, after, end int }

func scrollCase(t *T) {
	area := t.roomyArea(20, 20)
	sub := t.subArea(area)
	o := pick(t, []scrollwidget.Orientation{scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft, scrollwidget.OrientationHorizontalBottom, scrollwidget.OrientationHorizontalTop})
	vertical := o == scrollwidget.OrientationVerticalLeft || o == scrollwidget.OrientationVerticalRight
	content := t.IntN(30)
	if t.Chance(30) {
		content = pick(t, []int{0, 1, 2, 3, 100, 1000, 12345, 1 << 30})
	}
	viewport := 0
	if t.Chance(60) {
		viewport = t.Range(1, 40)
	}
	before := t.canvas(area)
	sc := scrollwidget.New(o)
	length := sub.Width
	ends := 0
	track, begin, end := "═", "", ""
	if vertical {
		length, ends, track, begin, end = sub.Height, 2, "║", "▲", "▼"
	}
	side := bento.Rect{Position: sub.Position, Width: sub.Width, Height: 1}
	switch o {
	case scrollwidget.OrientationVerticalRight:
		side = bento.NewRect(1, sub.Height).Positioned(sub.Right()-1, sub.Y)
	case scrollwidget.OrientationVerticalLeft:
		side = bento.NewRect(1, sub.Height).Positioned(sub.X, sub.Y)
	case scrollwidget.OrientationHorizontalBottom:
		side.Y = sub.Bottom() - 1
	}
	trackLen := length - ends
	t.Logf("scrollbar %d for %d items, viewport %d, in %v of %v", o, content, viewport, sub, area)

	draw := func(position int) (bar, bool) {
		st := scrollwidget.NewState(content)
		st.SetPosition(position)
		if viewport > 0 {
			st.SetViewportContentLen(viewport)
		}
		got := cloneBuffer(&before)
		sc.RenderStateful(sub, &got, st)
		if sub.IsEmpty() {
			t.sameOutside("scrollbar", &before, &got, bento.Rect{Position: area.Position})
			return bar{}, false
		}
		t.sameOutside("scrollbar", &before, &got, side)
		if content == 0 || trackLen <= 0 {
			t.sameOutside("scrollbar without content or track", &before, &got, bento.Rect{Position: area.Position})
			return bar{}, false
		}
		var syms []string
		for y := side.Y; y < side.Bottom(); y++ {
			for x := side.X; x < side.Right(); x++ {
				g, w := cellAt(&got, x, y), cellAt(&before, x, y)
				syms = append(syms, g.Symbol)
				w.Symbol = g.Symbol
				if g != w {
					t.Failf("the scrollbar changed the style of %s to %s", cellString(w), cellString(g))
				}
			}
		}
		s := strings.Join(syms, "")
		rest, ok := strings.CutPrefix(s, begin)
		rest, ok2 := strings.CutSuffix(rest, end)
		if !ok || !ok2 {
			t.Failf("at position %d the scrollbar is %q, want it to begin with %q and to end with %q", position, s, begin, end)
		}
		var b bar
		parts := []rune(rest)
		for b.before < len(parts) && string(parts[b.before]) == track {
			b.before++
		}
		for b.before+b.thumb < len(parts) && parts[b.before+b.thumb] == '█' {
			b.thumb++
		}
		for b.before+b.thumb+b.after < len(parts) && string(parts[b.before+b.thumb+b.after]) == track {
			b.after++
		}
		if b.thumb < 1 || b.before+b.thumb+b.after != trackLen || len(parts) != trackLen {
			t.Failf("at position %d the scrollbar is %q, want a track of %d cells with one thumb", position, s, trackLen)
		}
		t.Count("bars_seen", 1)
		return b, true
	}

	var positions []int
	if content <= 40 {
		for p := 0; p < content; p++ {
			positions = append(positions, p)
		}
	} else {
		for i := 0; i < 30; i++ {
			positions = append(positions, t.IntN(content))
		}
		positions = append(positions, 0, content-1, content/2)
		slices.Sort(positions)
	}
	vp := viewport
	if vp == 0 {
		vp = length
	}
	last := bar{}
	distinct := map[bar]bool{}
	for i, p := range positions {
		b, ok := draw(p)
		if !ok {
			continue
		}
		distinct[b] = true
		if i == 0 && b.before != 0 {
			t.Failf("at the first position %d cells of the track are before the thumb", b.before)
		}
		if p == content-1 && b.after != 0 {
			t.Failf("at the last position %d cells of the track are after the thumb", b.after)
		}
		if i > 0 && (b.before < last.before || b.before+b.thumb < last.before+last.thumb) {
			t.Failf("the thumb moves back from cells %d+%d to %d+%d at position %d", last.before, last.thumb, b.before, b.thumb, p)
		}
		total := float64(content - 1 + vp)
		share := math.Max(1, float64(trackLen)*float64(vp)/total)
		if math.Abs(float64(b.thumb)-share) > 1.0001 {
			t.Failf("at position %d the thumb is %d cells long, want %.2f of %d", p, b.thumb, share, trackLen)
		}
		if at := float64(trackLen) * float64(p) / total; math.Abs(float64(b.before)-at) > 0.5001 && b.before != trackLen-1 {
			t.Failf("at position %d the thumb starts after %d cells, want %.2f of %d", p, b.before, at, trackLen)
		}
		last = b
	}
	if content > 0 {
		far, ok := draw(content + t.IntN(50))
		if ok && far != last {
			t.Failf("beyond the last position the bar is %+v, want %+v", far, last)
		}
	} else {
		draw(t.IntN(5))
	}
	t.Count("distinct_bars", len(distinct))
	t.Key(o, content, viewport, sub)
	t.Sample("orientation %d, %d items, viewport %d, in %v: %d different bars", o, content, viewport, sub, len(distinct))
	if len(distinct) == 0 {
		t.Trivial()
	}

	// The area beside the bar.
	inner := sc.Inner(sub)
	want := sub
	switch o {
	case scrollwidget.OrientationVerticalRight:
		want.Width--
	case scrollwidget.OrientationVerticalLeft:
		want.X++
		want.Width--
	case scrollwidget.OrientationHorizontalBottom:
		want.Height--
	default:
		want.Y++
		want.Height--
	}
	if want.IsEmpty() || sub.IsEmpty() {
		if !inner.IsEmpty() {
			t.Failf("the area beside the scrollbar in %v is %v, want it empty", sub, inner)
		}
	} else if inner != want {
		t.Failf("the area beside the scrollbar in %v is %v, want %v", sub, inner, want)
	}
}

// ---------------------------------------------------------------- W08

func scrollState(t *T) {
	n := t.IntN(12)
	if t.Chance(20) {
		n = pick(t, []int{0, 1, math.MaxInt, 1 << 40})
	}
	st := scrollwidget.NewState(n)
	last := max(0, n-1)
	pos := 0
	moves := 0
	seen := map[int]bool{}
	var ops []string
	for k := t.Range(1, 30); k > 0; k-- {
		old := pos
		op := ""
		switch t.IntN(9) {
		case 0, 1:
			op = "Next"
			st.Next()
			pos = min(pos+1, last)
			if old == last {
				pos = last
			}
		case 2, 3:
			op = "Prev"
			st.Prev()
			pos = max(0, pos-1)
		case 4:
			op = "First"
			st.First()
			pos = 0
		case 5:
			op = "Last"
			st.Last()
			pos = last
		case 6:
			op = "Scroll forward"
			st.Scroll(scrollwidget.DirectionForward)
			pos = min(pos+1, last)
			if old == last {
				pos = last
			}
		case 7:
			op = "Scroll backward"
			st.Scroll(scrollwidget.DirectionBackward)
			pos = max(0, pos-1)
		default:
			pos = t.IntN(min(last, 1000) + 1)
			if t.Chance(30) {
				pos = last - t.IntN(min(last, 3)+1)
			}
			op = fmt.Sprintf("SetPosition(%d)", pos)
			st.SetPosition(pos)
			if t.Chance(30) {
				st.SetViewportContentLen(t.IntN(10))
			}
		}
		ops = append(ops, op)
		t.Logf("%s: want %d of %d", op, pos, n)
		if st.Position() != pos {
			t.Failf("after %s the position is %d, want %d (was %d of %d)", op, st.Position(), pos, old, n)
		}
		if n > 0 && math.Abs(st.Ratio()-float64(pos)/float64(n)) > 1e-9 {
			t.Failf("the ratio at %d of %d is %v", pos, n, st.Ratio())
		}
		moves++
		seen[pos] = true
	}
	t.Count("moves", moves)
	t.Key(n, ops)
	t.Sample("%d items, %d moves, %d positions", n, moves, len(seen))
	if len(seen) < 2 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W09

func gaugeCase(t *T) {
	area := t.roomyArea(40, 5)
	sub := t.subArea(area)
	uni := t.Chance(50)
	style, styleRef := t.someStyle(40)
	gs, gsRef := t.someStyle(60)
	base := gaugewidget.New().WithUnicode(uni).WithStyle(style).WithGaugeStyle(gs)
	label := ""
	custom := t.Chance(50)
	if custom {
		label = t.tame(t.IntN(12), 0)
		if t.Chance(50) {
			base = base.WithLabelStr(label)
		} else {
			base = base.WithLabel(textwidget.NewSpan(label))
		}
	}
	var ratios []float64
	var set []func() gaugewidget.Gauge
	byRatio := func(r float64) {
		ratios = append(ratios, r)
		set = append(set, func() gaugewidget.Gauge { return base.WithRatio(r) })
	}
	if t.Chance(40) {
		p := t.IntN(101)
		for _, q := range []int{0, p, min(100, p+1), 100} {
			ratios = append(ratios, float64(q)/100)
			set = append(set, func() gaugewidget.Gauge { return base.WithPercent(q) })
		}
	} else {
		rs := []float64{0, 1}
		for i := 0; i < 6; i++ {
			rs = append(rs, t.Float64())
		}
		if sub.Width > 0 {
			// Around the places where a cell or an eighth of it comes in.
			c := (float64(t.IntN(sub.Width)) + float64(t.IntN(17))/16) / float64(sub.Width)
			rs = append(rs, c, math.Max(0, c-1e-6), math.Min(1, c+1e-6))
		}
		rs = append(rs, math.Nextafter(1, 0), math.Nextafter(0, 1))
		for i := range rs {
			rs[i] = math.Min(1, math.Max(0, rs[i]))
		}
		slices.Sort(rs)
		for _, r := range rs {
			byRatio(r)
		}
	}
	t.Logf("gauge in %v of %v, unicode %v, label %q (%v), ratios %v", sub, area, uni, label, custom, ratios)
	before := t.canvas(area)
	previous := 0.0
	fills := map[float64]bool{}
	for i, r := range ratios {
		got := cloneBuffer(&before)
		set[i]().Render(sub, &got)
		t.sameOutside("gauge", &before, &got, sub)
		if sub.IsEmpty() {
			continue
		}
		texts := []string{label}
		if !custom {
			texts = nil
			for p := int(r*100) - 1; p <= int(r*100)+2; p++ {
				if math.Abs(float64(p)-r*100) <= 0.5+1e-9 {
					texts = append(texts, fmt.Sprintf("%d%%", p))
				}
			}
		}
		ly := sub.Height / 2
		lx, lw := -1, 0
		for _, text := range texts {
			w := min(width(text), sub.Width)
			x := (sub.Width - w) / 2
			if s := rowText(&got, sub.Y+ly, sub.X+x, sub.X+x+w); strings.HasPrefix(text, s) && width(s) == w {
				lx, lw = x, w
			}
		}
		if lx < 0 {
			t.Failf("at %v the row %q of the gauge does not show the label %q in its middle", r, rowText(&got, sub.Y+ly, sub.X, sub.Right()), texts)
		}
		want := r * float64(sub.Width)
		tol := 0.5
		if uni {
			tol = 1.0 / 16
		}
		fill := -1.0
		for y := 0; y < sub.Height; y++ {
			f := 0.0
			for x := 0; x < sub.Width; x++ {
				if y == ly && x >= lx && x < lx+lw {
					continue // the label hides how much of it is filled
				}
				old := gsRef.apply(styleRef.apply(cellAt(&before, sub.X+x, sub.Y+y)))
				c := cellAt(&got, sub.X+x, sub.Y+y)
				part := 0.0
				if k := strings.Index("▏▎▍▌▋▊▉█", c.Symbol); k >= 0 && c.Symbol != "" {
					part = float64(k/3+1) / 8
				} else if c.Symbol != " " && c.Symbol != old.Symbol || c.Symbol == " " && !uni {
					t.Failf("at %v cell %d,%d of the gauge is %s", r, x, y, cellString(c))
				}
				if part > 0 && part < 1 && !uni {
					t.Failf("at %v a gauge without Unicode shows %q", r, c.Symbol)
				}
				if share := math.Min(1, math.Max(0, want-float64(x))); math.Abs(part-share) > tol+1e-9 {
					t.Failf("at %v cell %d,%d of the gauge is filled by %v, want %v: %q", r, x, y, part, share, rowText(&got, sub.Y+y, sub.X, sub.Right()))
				}
				if part > 0 && gsRef.fg != nil && c.Fg != gsRef.fg {
					t.Failf("at %v cell %d,%d of the gauge is %s, want the colour %v", r, x, y, cellString(c), gsRef.fg)
				}
				if part > 0 && gsRef.bg != nil && c.Bg != gsRef.bg {
					t.Failf("at %v cell %d,%d of the gauge is %s, want the background %v", r, x, y, cellString(c), gsRef.bg)
				}
				if part == 0 {
					c.Symbol = old.Symbol
					if c != old {
						t.Failf("at %v cell %d,%d of the empty part is %s, want %s", r, x, y, cellString(c), cellString(old))
					}
				}
				f += part
			}
			if y != ly {
				if fill >= 0 && fill != f {
					t.Failf("at %v the rows of the gauge are filled by %v and %v cells", r, fill, f)
				}
				fill = f
			}
		}
		if fill >= 0 {
			if fill < previous {
				t.Failf("the gauge is filled by %v cells at %v, after %v at a smaller ratio", fill, r, previous)
			}
			previous = fill
			fills[fill] = true
		}
		t.Count("gauges_seen", 1)
	}
	t.Key(sub, uni, label, ratios)
	t.Sample("gauge in %v, unicode %v: %d different fillings of %d", sub, uni, len(fills), len(ratios))
	if sub.IsEmpty() {
		t.Trivial()
	}

	// Values out of range.
	r := pick(t, []float64{-0.0001, 1.0001, math.NaN(), math.Inf(1), math.Inf(-1), -5, 100, t.Float64() + 1.00001, math.Nextafter(1, 2), math.Nextafter(0, -1)})
	if !panics(func() { base.WithRatio(r) }) {
		t.Failf("the ratio %v was accepted", r)
	}
	p := pick(t, []int{-1, 101, 1000, math.MaxInt, math.MinInt, 256, 100 + t.Range(1, 1000)})
	if !panics(func() { base.WithPercent(p) }) {
		t.Failf("the percentage %d was accepted", p)
	}
}

// ---------------------------------------------------------------- W10

func tabsCase(t *T) {
	area := t.roomyArea(40, 3)
	sub := t.subArea(area)
	narrow := func(n int) string { return t.tame(n, 0) }
	fit := narrow
	if t.Chance(30) {
		fit = func(n int) string { return t.tame(n, 20) }
	}
	var model []refLine
	var titles []textwidget.Line
	for n := t.IntN(7); n > 0; n-- {
		l := t.refLine(fit, 3, 5)
		model = append(model, l)
		titles = append(titles, l.line())
	}
	tb := tabswidget.New(titles...)
	if t.Chance(20) {
		tb = tabswidget.New().WithTitles(titles...)
	}
	style, styleRef := t.someStyle(40)
	tb = tb.WithStyle(style)
	hlRef := refStyle{add: bento.ModifierReversed}
	if t.Chance(60) {
		var hl bento.Style
		hl, hlRef = t.someStyle(90)
		tb = tb.WithHighlightStyle(hl)
	}
	selected := -1
	if t.Chance(80) {
		selected = t.Range(-1, len(titles)+1)
		tb = tb.Select(selected)
		if t.Chance(10) {
			tb = tb.Unselect()
			selected = -1
		}
	}
	plain := func(s string) refLine { return refLine{spans: []refSpan{{text: s}}} }
	pl, pr, div := plain(" "), plain(" "), plain("│")
	if t.Chance(40) {
		pl = t.refLine(narrow, 2, 3)
		tb = tb.WithPaddingLeft(pl.line())
	} else if t.Chance(20) {
		pl = plain(narrow(3))
		tb = tb.WithPaddingLeftStr(pl.spans[0].text)
	}
	if t.Chance(40) {
		pr = t.refLine(narrow, 2, 3)
		tb = tb.WithPaddingRight(pr.line())
	} else if t.Chance(20) {
		pr = plain(narrow(3))
		tb = tb.WithPaddingRightStr(pr.spans[0].text)
	}
	if t.Chance(40) {
		s, r := t.someStyle(60)
		div = refLine{spans: []refSpan{{text: narrow(3), style: s, ref: r}}}
		tb = tb.WithDivider(textwidget.NewSpan(div.spans[0].text).WithStyle(s))
	} else if t.Chance(20) {
		div = plain(narrow(2))
		tb = tb.WithDividerStr(div.spans[0].text)
	}
	before := t.canvas(area)
	want := cloneBuffer(&before)
	outer := sub
	if t.Chance(20) {
		b := blockwidget.New().Bordered()
		tb = tb.WithBlock(b)
		want.SetStyle(outer, style)
		b.Render(outer, &want)
		sub = b.Inner(outer)
	}
	t.Logf("tabs %v in %v of %v, selected %d, paddings %v %v, divider %v", model, sub, area, selected, pl, pr, div)
	got := cloneBuffer(&before)
	tb.Render(outer, &got)
	t.sameOutside("tabs", &before, &got, outer)
	if sub != outer {
		t.sameOutside("the frame of the tabs", &want, &got, sub)
	}
	if sub.IsEmpty() {
		t.Trivial()
		return
	}
	row := wantRow{glyphs: map[int]glyph{}, kept: func(int) bool { return true }, under: func(int) []refStyle { return []refStyle{styleRef} }}
	col := 0
	full := false
	limit := sub.Width // columns compared
	highlighted := map[int]bool{}
	put := func(l refLine, hl bool) {
		for _, g := range l.glyphs() {
			if full || col+g.w > sub.Width {
				if !full && col < sub.Width {
					// A wide grapheme does not fit: what follows in the last cell is left open.
					limit = min(limit, col)
				}
				full = true
				return
			}
			g.styles = append([]refStyle{l.ref}, g.styles...)
			if hl {
				g.styles = append(g.styles, hlRef)
				for k := 0; k < g.w; k++ {
					highlighted[col+k] = true
				}
			}
			row.glyphs[col] = g
			col += g.w
		}
	}
	for i, l := range model {
		put(pl, false)
		put(l, i == selected)
		put(pr, false)
		if i < len(model)-1 {
			put(div, false)
		}
	}
	t.checkRow("tabs", &before, &got, sub.X, sub.Y, limit, row, false)
	for c := range highlighted {
		if _, ok := row.glyphs[c]; ok || c >= limit {
			continue
		}
		// The second cell of a wide grapheme.
		t.Count("wide_highlighted", 1)
	}
	for y := sub.Y + 1; y < sub.Bottom(); y++ {
		t.checkRow("the row below the tabs", &before, &got, sub.X, y, sub.Width, wantRow{kept: row.kept, under: row.under}, false)
	}
	t.Count("titles", len(model))
	t.Key(sub, selected, fmt.Sprint(model), pl.String(), pr.String(), div.String())
	t.Sample("%d titles in %v, selected %d, %d of %d cells used", len(model), sub, selected, col, sub.Width)
	if len(model) == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W11

func popupCase(t *T) {
	area := t.roomyArea(30, 14)
	before := t.canvas(area)
	sub := t.subArea(area)
	p := popupwidget.New()
	style, styleRef := t.someStyle(60)
	p = p.WithStyle(style)
	type side struct {
		c     bento.Constraint
		flex  int // 0 start, 1 centre, 2 end
		isLen bool
		want  float64
		tol   float64
	}
	one := func(total int, def int) side {
		s := side{flex: 1, tol: 1} // both ends are rounded
		switch t.IntN(7) {
		case 0: // as it is
			s.want = float64(total) * float64(def) / 100
		case 1, 2:
			n := t.IntN(20)
			s.c, s.want = bento.ConstraintLen(n), float64(min(n, total))
		case 3:
			n := t.IntN(101)
			s.c, s.want = bento.ConstraintPercentage(n), float64(total*n)/100
		case 4:
			den := t.Range(1, 6)
			num := t.IntN(den + 1)
			s.c, s.want = bento.ConstraintRatio{Num: num, Den: den}, float64(total*num)/float64(den)
		case 5:
			s.c, s.want, s.tol = t.constraint(), 0, math.Inf(1)
		default:
			n := t.IntN(20)
			s.c, s.want, s.tol = bento.ConstraintMax(n), 0, float64(n)
		}
		return s
	}
	h, v := one(sub.Width, 60), one(sub.Height, 20)
	if h.c != nil {
		p = p.WithWidth(h.c)
	}
	if v.c != nil {
		p = p.WithHeight(v.c)
	}
	for n := t.IntN(4); n > 0; n-- { // the last placement counts
		if t.Chance(50) {
			h.flex = t.IntN(3)
			p = []func() popupwidget.Popup{p.Left, p.Center, p.Right}[h.flex]()
		} else {
			v.flex = t.IntN(3)
			p = []func() popupwidget.Popup{p.Top, p.Middle, p.Bottom}[v.flex]()
		}
	}
	// How padding changes the size is not looked at, only that it holds.
	var pad bento.Padding
	padded := t.Chance(20)
	if padded {
		pad = bento.Padding{Top: t.IntN(3), Right: t.IntN(4), Bottom: t.IntN(3), Left: t.IntN(4)}
		p = p.WithPadding(pad)
	}
	t.Logf("popup of %v x %v placed %d %d in %v of %v, padding %+v", h.c, v.c, h.flex, v.flex, sub, area, pad)
	covered := p.Inner(sub)
	place := func(what string, s side, from, size, total int) {
		if size < 0 || from < 0 || from+size > total {
			t.Failf("the popup covers %d cells from %d of the %d cells of %s", size, from, total, what)
		}
		if math.Abs(float64(size)-s.want) > s.tol+0.0001 {
			t.Failf("the popup covers %d of the %d cells of %s, want %v", size, total, what, s.want)
		}
		ok := true
		switch s.flex {
		case 0:
			ok = from == 0
		case 1:
			ok = from-(total-from-size) <= 1 && from-(total-from-size) >= -1
		default:
			ok = from+size == total
		}
		if !ok && size > 0 {
			t.Failf("the popup covers %d cells from %d of the %d cells of %s, which is not placement %d", size, from, total, what, s.flex)
		}
	}
	if padded {
		if in := sub.Inner(pad); !covered.IsEmpty() && covered.Intersection(in) != covered {
			t.Failf("the popup covers %v, which is not in %v", covered, in)
		}
	} else if !sub.IsEmpty() {
		place("the width", h, covered.X-sub.X, covered.Width, sub.Width)
		place("the height", v, covered.Y-sub.Y, covered.Height, sub.Height)
	} else if !covered.IsEmpty() {
		t.Failf("the popup in the empty area %v covers %v", sub, covered)
	}

	want := cloneBuffer(&before)
	for y := covered.Y; y < covered.Bottom(); y++ {
		for x := covered.X; x < covered.Right(); x++ {
			*want.CellAt(bento.Position{X: x, Y: y}) = styleRef.apply(bento.NewEmptyCell())
		}
	}
	if t.Chance(60) {
		s := &textSource{t: t, make: func(n int, _ bool) string { return t.tame(n, 20) }}
		b := s.block()
		p = p.WithBlock(b)
		b.Render(covered, &want)
		if got, want := p.Inner(sub), b.Inner(covered); got != want && !(got.IsEmpty() && want.IsEmpty()) {
			t.Failf("the inner area of the popup is %v, want %v", got, want)
		}
		inner := p.Inner(sub)
		if !inner.IsEmpty() && inner.Intersection(covered) != inner {
			t.Failf("the inner area %v of the popup is not in the area %v it covers", inner, covered)
		}
	}
	got := cloneBuffer(&before)
	p.Render(sub, &got)
	for y := area.Y; y < area.Bottom(); y++ {
		for x := area.X; x < area.Right(); x++ {
			if g, w := cellAt(&got, x, y), cellAt(&want, x, y); g != w {
				t.Failf("cell %d,%d with a popup over %v is %s, want %s", x, y, covered, cellString(g), cellString(w))
			}
		}
	}
	t.Count("cells_covered", covered.Width*covered.Height)
	t.Key(sub, h.c, v.c, h.flex, v.flex)
	t.Sample("popup of %v x %v in %v covers %v", h.c, v.c, sub, covered)
	if covered.IsEmpty() {
		t.Trivial()
	}
}

func clearFillCase(t *T) {
	area := t.roomyArea(20, 8)
	before := t.canvas(area)
	if t.Chance(30) {
		for i := 0; i < 5; i++ {
			before.CellAt(bento.Position{X: area.X + t.IntN(area.Width), Y: area.Y + t.IntN(area.Height)}).Skip = true
		}
	}
	sub := t.subArea(area)
	got := cloneBuffer(&before)
	want := bento.NewEmptyCell()
	if t.Chance(50) {
		t.Logf("clear %v of %v", sub, area)
		clearwidget.New().Render(sub, &got)
	} else {
		style, ref := t.someStyle(70)
		sym := pick(t, narrowSymbols)
		t.Logf("fill %v of %v with %q", sub, area, sym)
		want = ref.apply(want)
		want.Symbol = sym
		fillwidget.New(sym).WithStyle(style).Render(sub, &got)
	}
	t.sameOutside("clear or fill", &before, &got, sub)
	for y := sub.Y; y < sub.Bottom(); y++ {
		for x := sub.X; x < sub.Right(); x++ {
			if g := cellAt(&got, x, y); g != want {
				t.Failf("cell %d,%d is %s, want %s", x, y, cellString(g), cellString(want))
			}
		}
	}
	t.Key(area, sub, want.Symbol)
	t.Sample("%v of %v with %q", sub, area, want.Symbol)
	if sub.IsEmpty() {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- W12

var throbberFrames = map[throbberwidget.Type][]string{
	throbberwidget.TypeLine:            {"|", "/", "-", "\\"},
	throbberwidget.TypeHorizontalBlock: {"▏", "▎", "▍", "▌", "▋", "▊", "▉", "█"},
	throbberwidget.TypeVerticalBlock:   {"▁", "▂", "▃", "▄", "▅", "▆", "▇", "█"},
	throbberwidget.TypeBrailleEight:    {"⣷", "⣯", "⣟", "⡿", "⢿", "⣻", "⣽", "⣾"},
	throbberwidget.TypeParenthesis:     {"⎛", "⎜", "⎝", "⎞", "⎟", "⎠"},
	throbberwidget.TypeCanadian:        {"ᔐ", "ᯇ", "ᔑ", "ᯇ"},
	throbberwidget.TypeEllipsis:        {"", ".", "..", "..."},
	throbberwidget.TypeMeter:           {"▱▱▱", "▰▱▱", "▰▰▱", "▰▰▰", "▰▰▱", "▰▱▱", "▱▱▱"},
	throbberwidget.TypePulse:           {"█", "▓", "▒", "░"},
}

// lateTick is a command for a tick that is run late.
type lateTick struct {
	cmd bento.Cmd
	gen int
}

// throbberCase runs several throbbers whose ticks are delivered to all of them
// in any order, repeatedly and late.
func throbberCase(t *T) {
	type throb struct {
		st    throbberwidget.State
		w     throbberwidget.Throbber
		kind  throbberwidget.Type
		frame int
		// The tick that is current: the tag it was made with, by its count of advances.
		ticks []bento.Msg // all made so far
		gen   []int       // how far the throbber was when each was made
		later []lateTick
	}
	var all []*throb
	ids := map[int]bool{}
	for n := t.Range(1, 4); n > 0; n-- {
		k := pick(t, throbberTypes)
		if t.Chance(3) {
			for i := pick(t, []int{9, 15, 99, 127, 255, 1023, 65535}); i > 0; i-- {
				throbberwidget.NewState()
			}
		}
		th := &throb{st: throbberwidget.NewState(), w: throbberwidget.New().WithType(k), kind: k}
		if ids[th.st.ID()] {
			t.Failf("two throbbers have the identity %d", th.st.ID())
		}
		th.st.WithFPS(1)
		ids[th.st.ID()] = true
		all = append(all, th)
	}
	made := func(th *throb, m bento.Msg, gen int) {
		tm, ok := m.(throbberwidget.TickMsg)
		if !ok || tm.ID() != th.st.ID() {
			t.Failf("the tick of throbber %d is %T %+v", th.st.ID(), m, m)
		}
		th.ticks = append(th.ticks, m)
		th.gen = append(th.gen, gen)
	}
	own := func(th *throb, m bento.Msg) { made(th, m, th.frame) }
	area := t.bufferArea(8, 3)
	accepted, refused := 0, 0
	steps := t.Range(3, 30)
	if t.Chance(2) {
		steps = t.Range(100, 1500)
	}
	for k := steps; k > 0; k-- {
		th := pick(t, all)
		switch {
		case len(th.later) > 0 && t.Chance(40):
			// The command of an earlier tick takes its time.
			l := th.later[0]
			th.later = th.later[1:]
			made(th, l.cmd(), l.gen)
			t.Logf("late tick of throbber %d made at frame %d, now at %d", th.st.ID(), l.gen, th.frame)
		case t.Chance(5):
			// A tick that is nobody's may be accepted; if it is, it counts as any other.
			cmd, ok := th.st.TryUpdate(throbberwidget.TickMsg{})
			if ok != (cmd != nil) {
				t.Failf("accepted %v, but next tick %v", ok, cmd != nil)
			}
			if ok {
				th.frame++
				own(th, cmd())
				t.Count("anonymous_ticks_accepted", 1)
			}
		case len(th.ticks) == 0 || t.Chance(25):
			own(th, th.st.Tick())
			t.Logf("tick of throbber %d at frame %d", th.st.ID(), th.frame)
		default:
			i := t.IntN(len(th.ticks))
			if t.Chance(60) {
				i = len(th.ticks) - 1
			}
			for _, x := range all {
				cmd, ok := x.st.TryUpdate(th.ticks[i])
				want := x == th && th.gen[i] == th.frame
				if ok != want {
					t.Failf("throbber %d at frame %d accepting a tick of throbber %d made at frame %d: %v, want %v", x.st.ID(), x.frame, th.st.ID(), th.gen[i], ok, want)
				}
				if ok != (cmd != nil) {
					t.Failf("accepted %v, but next tick %v", ok, cmd != nil)
				}
				if ok {
					accepted++
					t.Logf("throbber %d advances", x.st.ID())
					x.frame++
					switch {
					case t.Chance(60):
						// The next tick is made with the state after the advance.
						own(x, cmd())
					case t.Chance(80):
						x.later = append(x.later, lateTick{cmd, x.frame})
					}
				} else {
					refused++
				}
			}
			if _, ok := th.st.TryUpdate(bento.KeyMsg{Type: bento.KeyEnter}); ok {
				t.Failf("the throbber consumed a key")
			}
		}
		// What is shown.
		for _, x := range all {
			before := t.canvas(area)
			got := cloneBuffer(&before)
			x.w.RenderStateful(area, &got, x.st)
			frames := throbberFrames[x.kind]
			f := frames[x.frame%len(frames)]
			fw := width(f)
			if fw > area.Width {
				continue
			}
			var text []string
			var at []bento.Position
			for y := area.Y; y < area.Bottom(); y++ {
				for xx := area.X; xx < area.Right(); xx++ {
					c := cellAt(&got, xx, y)
					if c != cellAt(&before, xx, y) {
						text = append(text, c.Symbol)
						at = append(at, bento.Position{X: xx, Y: y})
					}
				}
			}
			if s := strings.Join(text, ""); s != f {
				t.Failf("throbber of type %v shows %q at frame %d, want %q", x.kind, s, x.frame, f)
			}
			if len(at) > 0 {
				p := at[0]
				dx := (p.X - area.X) - (area.Right() - p.X - fw)
				dy := (p.Y - area.Y) - (area.Bottom() - p.Y - 1)
				if dx > 1 || dx < -1 || dy > 1 || dy < -1 || at[len(at)-1].X != p.X+fw-1 || at[len(at)-1].Y != p.Y {
					t.Failf("%q is shown at %v, not in the middle of %v", f, p, area)
				}
			}
		}
	}
	t.Count("ticks_accepted", accepted)
	t.Count("ticks_refused", refused)
	t.Key(len(all), accepted, refused, area)
	t.Sample("%d throbbers: %d ticks accepted, %d refused", len(all), accepted, refused)
	if accepted == 0 || refused == 0 {
		t.Trivial()
	}
}

func throbberIDs(t *T) {
	const n, each = 8, 200
	got := make([][]int, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < each; i++ {
				st := throbberwidget.NewState()
				got[g] = append(got[g], st.ID())
			}
		}()
	}
	close(start)
	wg.Wait()
	seen := map[int]bool{}
	for _, l := range got {
		for _, id := range l {
			if seen[id] {
				t.Failf("the identity %d was given twice", id)
			}
			seen[id] = true
		}
	}
	t.Count("identities", len(seen))
	t.Key(got[0][0])
}

func init() {
	register(&Check{
		ID:          "W01",
		Rule:        "A case renders one random widget (any of all kinds, hostile texts, random settings) into an area of a patterned buffer, twice, and once elsewhere, comparing every cell outside. Texts and blocks are also given areas that reach beyond the buffer. Non-trivial: something was drawn, or the area is empty; distinct by widget, texts and area.",
		Assumptions: []string{"areas of other widgets lie inside the buffer", "offsets, scroll positions and paddings are not negative"},
		Parts: []Part{
			{Name: "widgets", Quick: 250000, Thorough: 8000000, Fn: containCase},
			{Name: "beyond", Quick: 60000, Thorough: 2000000, Fn: beyondCase},
		},
	})
	register(&Check{
		ID:    "W02",
		Rule:  "A case renders a random block and compares every cell with a model of borders and titles, and the inner area with what borders, titles and padding leave. Titles that overlap others are only required to stay on their edge. Non-trivial: a border or title was seen; distinct by all settings.",
		Parts: []Part{{Name: "blocks", Quick: 250000, Thorough: 8000000, Fn: blockCase}},
	})
	register(&Check{
		ID:          "W03",
		Rule:        "A case is a history of selections, keys, scrolling, resizes and changes of items; after each rendering the items in the rows are decoded and compared with the nearest position that shows what it has to. Non-trivial: at least two positions; distinct by heights, padding and positions.",
		Assumptions: []string{"no item is taller than the area"},
		Parts:       []Part{{Name: "histories", Quick: 100000, Thorough: 3000000, Fn: listHistory}},
	})
	register(&Check{
		ID:          "W04",
		Rule:        "A case renders a list with random items, styles and settings and compares all its cells with a model. Distinct by all of these.",
		Assumptions: []string{"no item is taller than the area"},
		Parts:       []Part{{Name: "lists", Quick: 200000, Thorough: 6000000, Fn: listLook}},
	})
	register(&Check{
		ID:          "W05",
		Rule:        "A case is a history of keys and calls on an input and on a model of a line editor, comparing the content after each. Non-trivial: at least two kinds of operations; distinct by the final content.",
		Assumptions: []string{"graphemes are as uniseg says for each text typed or pasted at once"},
		Parts:       []Part{{Name: "histories", Quick: 200000, Thorough: 5000000, Fn: editCase}},
	})
	register(&Check{
		ID:          "W06",
		Rule:        "A case is a history of edits, resizes and renderings; each rendering is decoded into prompt, window of the text and cursor, and compared. Distinct by area, settings and final text.",
		Assumptions: []string{"at least two cells remain beside prompt and cursor"},
		Parts:       []Part{{Name: "views", Quick: 60000, Thorough: 2000000, Fn: inputView}},
	})
	register(&Check{
		ID:    "W07",
		Rule:  "A case draws the bar of one content length, viewport and area at all positions (or 33 of many) and checks ends, monotony and proportion. Non-trivial: a bar was drawn; distinct by orientation, lengths and area.",
		Parts: []Part{{Name: "bars", Quick: 80000, Thorough: 3000000, Fn: scrollCase}},
	})
	register(&Check{
		ID:          "W08",
		Rule:        "A case is a history of moves of a scroll state compared with a model; the area beside the bar is compared in every scrollbar case. Non-trivial: two positions; distinct by content length and moves.",
		Assumptions: []string{"positions set from outside are within the content"},
		Parts: []Part{
			{Name: "moves", Quick: 200000, Thorough: 5000000, Fn: scrollState},
			{Name: "beside", Quick: 4000, Thorough: 100000, Fn: scrollCase},
		},
	})
	register(&Check{
		ID:    "W09",
		Rule:  "A case draws one gauge at increasing ratios or percentages, comparing each cell outside of the label with its share, and tries values out of range. Distinct by area, label and ratios.",
		Parts: []Part{{Name: "gauges", Quick: 100000, Thorough: 3000000, Fn: gaugeCase}},
	})
	register(&Check{
		ID:    "W10",
		Rule:  "A case renders random tabs and compares all cells of the area with a model. Cells after a wide grapheme that does not fit are left open. Distinct by all settings.",
		Parts: []Part{{Name: "tabs", Quick: 250000, Thorough: 8000000, Fn: tabsCase}},
	})
	register(&Check{
		ID:          "W11",
		Rule:        "A case renders a popup, a clear or a fill widget over a patterned buffer and compares all cells; size and placement of a popup are compared with its constraints. Non-trivial: cells are covered; distinct by area and settings.",
		Assumptions: []string{"popups without padding of their own"},
		Parts: []Part{
			{Name: "popups", Quick: 60000, Thorough: 1500000, Fn: popupCase},
			{Name: "clear and fill", Quick: 10000, Thorough: 200000, Fn: clearFillCase},
		},
	})
	register(&Check{
		ID:   "W12",
		Rule: "A case delivers current, repeated, outdated and foreign ticks to up to four throbbers and compares what they accept and show with a model; another creates 1600 throbbers from eight goroutines. Non-trivial: ticks accepted and refused.",
		Parts: []Part{
			{Name: "ticks", Quick: 3000, Thorough: 200000, Fn: throbberCase},
			{Name: "identities", Quick: 200, Thorough: 2000, Serial: true, Fn: throbberIDs},
			{Name: "identities under race detection", Quick: 30, Thorough: 300, Serial: true, Race: true, Fn: throbberIDs},
		},
	})
}
