package main

import (
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
)

// textSource makes the texts of a generated widget and remembers them.
type textSource struct {
	t    *T
	make func(n int, newlines bool) string
	all  strings.Builder
	// Without blocks around the widgets.
	bare bool
}

func (s *textSource) str(n int, newlines bool) string {
	x := s.make(s.t.IntN(n+1), newlines)
	s.all.WriteString(x)
	s.all.WriteByte('\n')
	return x
}

func (s *textSource) span() textwidget.Span {
	return textwidget.NewSpan(s.str(12, false)).WithStyle(s.t.style())
}

func (s *textSource) line() textwidget.Line {
	t := s.t
	var l textwidget.Line
	if t.Chance(40) {
		l = textwidget.NewLineStr(s.str(20, false))
	} else {
		var spans []textwidget.Span
		for n := t.IntN(4); n > 0; n-- {
			spans = append(spans, s.span())
		}
		l = textwidget.NewLine(spans...)
	}
	return l.WithStyle(t.style()).WithAlignment(bento.Alignment(t.IntN(4)))
}

func (s *textSource) text(maxLines int) textwidget.Text {
	t := s.t
	var x textwidget.Text
	if t.Chance(40) {
		x = textwidget.NewTextStr(s.str(10*max(1, maxLines), maxLines > 1))
	} else {
		var lines []textwidget.Line
		for n := t.IntN(maxLines + 1); n > 0; n-- {
			lines = append(lines, s.line())
		}
		x = textwidget.NewText(lines...)
	}
	return x.WithStyle(t.style()).WithAlignment(bento.Alignment(t.IntN(4)))
}

var allSides = []blockwidget.Side{blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom, blockwidget.SideLeft}

func (s *textSource) block() blockwidget.Block {
	t := s.t
	b := blockwidget.New().WithStyle(t.style()).WithBorderStyle(t.style()).WithTitlesStyle(t.style())
	switch t.IntN(3) {
	case 0:
		b = b.Bordered()
	case 1:
		var sides []blockwidget.Side
		for _, d := range allSides {
			if t.Chance(50) {
				sides = append(sides, d)
			}
		}
		if len(sides) > 0 {
			b = b.WithBorderSides(sides...)
		}
	}
	b = b.WithBorderType(blockwidget.BorderType(t.IntN(4)))
	if t.Chance(40) {
		b = b.WithPadding(bento.NewPadding(t.IntN(3), t.IntN(3), t.IntN(3), t.IntN(3)))
	}
	if t.Chance(30) {
		b = b.WithTitlesAlignment(bento.Alignment(t.Range(1, 3)))
	}
	if t.Chance(30) {
		b = b.WithTitlePosition(blockwidget.TitlePosition(t.IntN(2)))
	}
	for n := t.IntN(4); n > 0; n-- {
		b = b.WithTitle(s.title())
	}
	return b
}

func (s *textSource) title() blockwidget.Title {
	t := s.t
	ti := blockwidget.NewTitle(s.line())
	if t.Chance(60) {
		ti = ti.WithAlignment(bento.Alignment(t.IntN(4)))
	}
	if t.Chance(50) {
		ti = ti.WithPosition(blockwidget.TitlePosition(t.IntN(2)))
	}
	return ti
}

func (s *textSource) paragraph() paragraphwidget.Paragraph {
	t := s.t
	p := paragraphwidget.New(s.text(5)).WithStyle(t.style())
	switch t.IntN(3) {
	case 0:
		p = p.Center()
	case 1:
		p = p.Right()
	}
	switch t.IntN(3) {
	case 0:
		p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(true))
	case 1:
		p = p.Wrapped()
	}
	if t.Chance(40) {
		p = p.WithScroll(t.IntN(6), t.IntN(12))
	}
	if !s.bare && t.Chance(30) {
		p = p.WithBlock(s.block())
	}
	return p
}

func (s *textSource) list() listwidget.List {
	t := s.t
	var items []textwidget.Text
	for n := t.IntN(8); n > 0; n-- {
		items = append(items, s.text(3))
	}
	l := listwidget.New(items...).WithStyle(t.style()).WithHighlightStyle(t.style())
	if t.Chance(60) {
		l = l.WithHighlightSymbol(s.str(3, false))
	}
	l = l.WithHighlightSpacing(listwidget.HighlightSpacing(t.IntN(3))).
		WithRepeatHighlightSymbol(t.Chance(40)).
		WithScrollPadding(t.IntN(4)).
		WithDirection(listwidget.Direction(t.IntN(2)))
	if !s.bare && t.Chance(30) {
		l = l.WithBlock(s.block())
	}
	return l
}

func (t *T) listState() *listwidget.State {
	st := listwidget.NewState()
	if t.Chance(40) {
		st.SetOffset(t.IntN(10))
	}
	for n := t.IntN(4); n > 0; n-- {
		switch t.IntN(7) {
		case 0:
			st.Select(t.IntN(10))
		case 1:
			st.SelectNext()
		case 2:
			st.SelectPrevious()
		case 3:
			st.SelectLast()
		case 4:
			st.ScrollDownBy(t.IntN(5))
		case 5:
			st.ScrollUpBy(t.IntN(5))
		case 6:
			st.SelectFirst()
		}
	}
	return &st
}

func (s *textSource) tabs() tabswidget.Tabs {
	t := s.t
	var titles []textwidget.Line
	for n := t.IntN(6); n > 0; n-- {
		titles = append(titles, s.line())
	}
	tb := tabswidget.New(titles...).WithStyle(t.style()).WithHighlightStyle(t.style())
	if t.Chance(70) {
		tb = tb.Select(t.IntN(7))
	}
	if t.Chance(30) {
		tb = tb.WithPaddingLeft(s.line())
	}
	if t.Chance(30) {
		tb = tb.WithPaddingRightStr(s.str(3, false))
	}
	if t.Chance(30) {
		tb = tb.WithDivider(s.span())
	}
	if !s.bare && t.Chance(30) {
		tb = tb.WithBlock(s.block())
	}
	return tb
}

func (s *textSource) gauge() gaugewidget.Gauge {
	t := s.t
	g := gaugewidget.New().WithUnicode(t.Chance(50)).WithStyle(t.style()).WithGaugeStyle(t.style())
	switch t.IntN(4) {
	case 0:
		g = g.WithPercent(t.IntN(101))
	case 1:
		g = g.WithRatio(float64(t.IntN(2)))
	default:
		g = g.WithRatio(t.Float64())
	}
	switch t.IntN(3) {
	case 0:
		g = g.WithLabel(s.span())
	case 1:
		g = g.WithLabelStr(s.str(10, false))
	}
	return g
}

func (s *textSource) input() (inputwidget.Input, *inputwidget.State) {
	t := s.t
	in := inputwidget.New()
	if t.Chance(50) {
		in = in.WithPrompt(s.str(4, false)).WithPromptStyle(t.style())
	}
	if t.Chance(50) {
		in = in.WithPlaceholder(s.str(10, false)).WithPlaceholderStyle(t.style())
	}
	if t.Chance(30) {
		in = in.WithCursorStyle(t.style())
	}
	in = in.WithAlignment(bento.Alignment(t.IntN(4))).WithVertical(bento.Flex(t.IntN(6)))
	if !s.bare && t.Chance(30) {
		in = in.WithBlock(s.block())
	}
	st := inputwidget.NewState()
	for n := t.IntN(6); n > 0; n-- {
		switch t.IntN(5) {
		case 0, 1:
			st.Append(s.str(12, true))
		case 2:
			st.TryUpdate(bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(s.str(8, true)), Paste: t.Chance(50)})
		default:
			st.TryUpdate(bento.KeyMsg{Type: pick(t, editKeys)})
		}
	}
	if t.Chance(20) {
		st.ShowCursor(false)
	}
	return in, &st
}

var editKeys = []bento.KeyType{
	bento.KeyLeft, bento.KeyRight, bento.KeyShiftLeft, bento.KeyShiftRight, bento.KeyBackspace, bento.KeyDelete,
	bento.KeyCtrlA, bento.KeyCtrlE, bento.KeyCtrlW,
}

// textWidget returns a random widget that shows text.
func (s *textSource) widget() (widgetFunc, string) {
	t := s.t
	switch t.IntN(9) {
	case 0:
		x := s.text(6)
		return x.Render, "text"
	case 1:
		x := s.line()
		return x.Render, "line"
	case 2:
		x := s.span()
		return x.Render, "span"
	case 3:
		x := s.paragraph()
		return x.Render, "paragraph"
	case 4:
		x := s.list()
		st := t.listState()
		return func(a bento.Rect, b *bento.Buffer) { x.RenderStateful(a, b, st) }, "list"
	case 5:
		x := s.tabs()
		return x.Render, "tabs"
	case 6:
		x := s.block()
		return x.Render, "block"
	case 7:
		x := s.gauge()
		return x.Render, "gauge"
	default:
		x, st := s.input()
		return func(a bento.Rect, b *bento.Buffer) { x.RenderStateful(a, b, st) }, "input"
	}
}

func (t *T) wildWidget() (widgetFunc, string, string) {
	s := &textSource{t: t, make: t.wild}
	w, kind := s.widget()
	return w, kind, s.all.String()
}
