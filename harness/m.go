package main

import (
	"math/rand/v2"
	"sync"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// fork returns a source of randomness that repeats for the same seed.
func (t *T) fork(seed uint64) *T {
	f := *t
	f.Rand = rand.New(rand.NewPCG(seed, 7))
	f.counts = map[string]int64{}
	return &f
}

// made is a widget made from a seed: what it was made for is independent of
// where it is rendered.
type made struct {
	draw     widgetFunc
	kind     string
	texts    string
	stateful bool
}

// anyWidget makes a widget of any kind from a seed; each call makes a new one.
func (t *T) anyWidget(seed uint64) made {
	f := t.fork(seed)
	s := &textSource{t: f, make: f.wild}
	m := made{}
	switch f.IntN(14) {
	case 0:
		p := f.popup(s)
		m.draw, m.kind = p.Render, "popup"
	case 1:
		sc := scrollwidget.New(scrollwidget.Orientation(f.IntN(4)))
		st := scrollwidget.NewState(pick(f, []int{0, 1, 2, 5, 20, 1000}))
		st.SetPosition(f.IntN(30))
		if f.Chance(50) {
			st.SetViewportContentLen(f.IntN(40))
		}
		m.draw, m.kind, m.stateful = func(a bento.Rect, b *bento.Buffer) { sc.RenderStateful(a, b, st) }, "scroll", true
	case 2:
		th := throbberwidget.New().WithType(pick(f, throbberTypes))
		st := throbberwidget.NewState()
		for n := f.IntN(12); n > 0; n-- {
			st.TryUpdate(st.Tick())
		}
		m.draw, m.kind, m.stateful = func(a bento.Rect, b *bento.Buffer) { th.RenderStateful(a, b, st) }, "throbber", true
	case 3:
		m.draw, m.kind = clearwidget.New().Render, "clear"
	case 4:
		m.draw, m.kind = fillwidget.New(pick(f, narrowSymbols)).WithStyle(f.style()).Render, "fill"
	default:
		m.draw, m.kind = s.widget()
		m.stateful = m.kind == "list" || m.kind == "input"
	}
	m.texts = s.all.String()
	return m
}

// movedTo copies a buffer to another position.
func movedTo(b *bento.Buffer, x, y int) bento.Buffer {
	a := b.Area()
	n := bento.NewBufferEmpty(a.Positioned(x, y))
	for j := 0; j < a.Height; j++ {
		for i := 0; i < a.Width; i++ {
			*n.CellAt(bento.Position{X: x + i, Y: y + j}) = *b.CellAt(bento.Position{X: a.X + i, Y: a.Y + j})
		}
	}
	return n
}

// sameCellsAs compares two buffers of the same size cell by cell.
func (t *T) sameCellsAs(what string, want, got *bento.Buffer) {
	w, g := want.Area(), got.Area()
	for j := 0; j < w.Height; j++ {
		for i := 0; i < w.Width; i++ {
			a := cellAt(want, w.X+i, w.Y+j)
			b := cellAt(got, g.X+i, g.Y+j)
			if a != b {
				t.logBuffer("first", want)
				t.logBuffer("second", got)
				t.Failf("%s: cell %d,%d (from the corner) was %s and is %s", what, i, j, cellString(a), cellString(b))
			}
		}
	}
	t.Count("cells_compared", w.Width*w.Height)
}

func offset(r bento.Rect, x, y int) bento.Rect { return r.Positioned(r.X+x, r.Y+y) }

func changedCells(a, b *bento.Buffer) int {
	n := 0
	r := a.Area()
	for y := r.Y; y < r.Bottom(); y++ {
		for x := r.X; x < r.Right(); x++ {
			if cellAt(a, x, y) != cellAt(b, x, y) {
				n++
			}
		}
	}
	return n
}

func (t *T) noted(m made, sub, area bento.Rect, changed int) {
	t.Logf("%s with texts %q in %v of %v", m.kind, m.texts, sub, area)
	t.Count("rendered_"+m.kind, 1)
	t.Count("cells_drawn", changed)
	t.Key(m.kind, m.texts, sub, area)
	t.Sample("%s in %v of %v: %d cells drawn", m.kind, sub, area, changed)
	if changed == 0 {
		t.Trivial()
	}
}

// movedCase: the same widget drawn elsewhere looks the same.
func movedCase(t *T) {
	seed := t.Uint64()
	area := t.bufferArea(30, 10)
	sub := t.subArea(area)
	first := t.canvas(area)
	before := cloneBuffer(&first)
	m := t.anyWidget(seed)
	t.noted(m, sub, area, 0)
	m.draw(sub, &first)
	if changedCells(&before, &first) > 0 {
		t.trivial = false
	}

	dx, dy := t.IntN(60), t.IntN(60)
	if t.Chance(20) {
		dx, dy = t.IntN(5000), t.IntN(5000)
	}
	if t.Chance(30) {
		dx, dy = -area.X, -area.Y
	}
	second := movedTo(&before, area.X+dx, area.Y+dy)
	m = t.anyWidget(seed)
	m.draw(offset(sub, dx, dy), &second)
	t.sameCellsAs(m.kind+" in another place", &first, &second)
}

// againCase: a widget drawn again looks the same, whatever it drew in between.
func againCase(t *T) {
	area := t.bufferArea(30, 10)
	sub := t.subArea(area)
	background := t.canvas(area)
	seed := t.Uint64()
	m := t.anyWidget(seed)
	first := cloneBuffer(&background)
	t.noted(m, sub, area, 0)
	m.draw(sub, &first)
	if changedCells(&background, &first) > 0 {
		t.trivial = false
	}
	for n := t.IntN(3); n > 0; n-- {
		if t.Chance(50) {
			scratch := cloneBuffer(&background)
			if m.stateful {
				// Elsewhere the state may have to follow.
				m.draw(sub, &scratch)
			} else {
				m.draw(t.subArea(area), &scratch)
			}
		}
		if t.Chance(50) {
			// Another widget has no influence.
			a := t.bufferArea(30, 10)
			scratch := t.canvas(a)
			t.anyWidget(t.Uint64()).draw(t.subArea(a), &scratch)
		}
		second := cloneBuffer(&background)
		m.draw(sub, &second)
		t.sameCellsAs(m.kind+" again", &first, &second)
	}
	twin := t.anyWidget(seed)
	second := cloneBuffer(&background)
	twin.draw(sub, &second)
	t.sameCellsAs(m.kind+" made again", &first, &second)
}

// parallelCase: widgets are values; the same one may be drawn by several
// goroutines, each into a buffer of its own.
func parallelCase(t *T) {
	const workers = 6
	area := t.bufferArea(30, 10)
	background := t.canvas(area)
	type job struct {
		m       made
		sub     bento.Rect
		buf     bento.Buffer
		crashed any
	}
	var jobs [workers]job
	seed := t.Uint64()
	shared := t.anyWidget(seed)
	for i := range jobs {
		j := &jobs[i]
		j.sub = t.subArea(area)
		j.buf = cloneBuffer(&background)
		switch {
		case t.Chance(30):
			j.m = t.anyWidget(t.Uint64())
		case shared.stateful:
			j.m = t.anyWidget(seed)
		default:
			j.m = shared
		}
		t.Logf("goroutine %d: %s with texts %q in %v", i, j.m.kind, j.m.texts, j.sub)
	}
	want := jobs
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range jobs {
		j := &jobs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { j.crashed = recover() }()
			<-start
			j.m.draw(j.sub, &j.buf)
		}()
	}
	close(start)
	wg.Wait()
	drawn := 0
	for i := range want {
		j := &want[i]
		if c := jobs[i].crashed; c != nil {
			t.Failf("goroutine %d, drawing %s in %v: panic: %v", i, j.m.kind, j.sub, c)
		}
		// Alone.
		j.buf = cloneBuffer(&background)
		j.m.draw(j.sub, &j.buf)
		t.sameCellsAs(j.m.kind+" drawn in parallel and alone", &j.buf, &jobs[i].buf)
		drawn += changedCells(&background, &j.buf)
	}
	t.noted(shared, jobs[0].sub, area, drawn)
}

// ---------------------------------------------------------------- W14

// framedCase: a widget with a block is the block, and the widget without it in
// the block's inner area. Either the block or the widget bears a style, as
// nothing says which of the two goes over the other.
func framedCase(t *T) {
	area := t.bufferArea(34, 10)
	sub := t.subArea(area)
	if t.Chance(60) {
		sub = area
	}
	background := t.canvas(area)
	s := &textSource{t: t, make: t.wild, bare: true}
	b := s.block()
	blockStyled := t.Chance(50)
	if !blockStyled {
		b = b.WithStyle(bento.NewStyle())
	}
	style := bento.NewStyle()
	if !blockStyled {
		style = t.style()
	}

	framed, plain := cloneBuffer(&background), cloneBuffer(&background)
	kind := ""
	inside := b.Inner(sub)
	drawFrame := func() {
		plain.SetStyle(sub, style)
		b.Render(sub, &plain)
	}
	switch t.IntN(6) {
	case 0:
		kind = "list"
		x := s.list().WithStyle(style)
		seed := t.Uint64()
		st, twin := t.fork(seed).listState(), t.fork(seed).listState()
		x.WithBlock(b).RenderStateful(sub, &framed, st)
		drawFrame()
		x.RenderStateful(inside, &plain, twin)
		// The states are the same afterwards.
		one, two := t.canvas(area), t.canvas(area)
		x.RenderStateful(area, &one, st)
		x.RenderStateful(area, &two, twin)
		t.sameCellsAs("list rendered after it was in a block, and after it was in the block's inner area", &two, &one)
	case 1:
		kind = "tabs"
		x := s.tabs().WithStyle(style)
		x.WithBlock(b).Render(sub, &framed)
		drawFrame()
		x.Render(inside, &plain)
	case 2:
		kind = "paragraph"
		x := s.paragraph().WithStyle(style)
		x.WithBlock(b).Render(sub, &framed)
		drawFrame()
		x.Render(inside, &plain)
	case 3, 4:
		kind = "input"
		style = bento.NewStyle()
		seed := t.Uint64()
		make := func() (inputwidget.Input, *inputwidget.State) {
			f := t.fork(seed)
			return (&textSource{t: f, make: f.wild, bare: true}).input()
		}
		x, st := make()
		_, twin := make()
		s.all.WriteString(st.String())
		x.WithBlock(b).RenderStateful(sub, &framed, st)
		drawFrame()
		x.RenderStateful(inside, &plain, twin)
		one, two := t.canvas(area), t.canvas(area)
		x.RenderStateful(area, &one, st)
		x.RenderStateful(area, &two, twin)
		t.sameCellsAs("input rendered after it was in a block, and after it was in the block's inner area", &two, &one)
	case 5:
		kind = "popup"
		p := t.popup(nil).WithStyle(style)
		outer := p.Inner(sub)
		if got, want := p.WithBlock(b).Inner(sub), b.Inner(outer); got != want {
			t.Failf("inner area of a popup with a block in %v: got %v, want %v, the inner area of its block in %v", sub, got, want, outer)
		}
		p.WithBlock(b).Render(sub, &framed)
		p.Render(sub, &plain)
		b.Render(outer, &plain)
	}
	t.Logf("%s with texts %q and a block with inner area %v in %v of %v", kind, s.all.String(), inside, sub, area)
	t.sameCellsAs(kind+" in a block, and alone in the block's inner area", &plain, &framed)
	t.Count("framed_"+kind, 1)
	t.Key(kind, s.all.String(), sub, area)
	t.Sample("%s in %v of %v", kind, inside, sub)
	if inside.IsEmpty() || inside == sub {
		t.Trivial()
	}
}

func init() {
	register(&Check{
		ID:          "W13",
		Rule:        "A case renders one random widget of any kind twice: at a place and at another, once and again after other renderings, or in six goroutines with a buffer each and alone, and compares all cells. Non-trivial: something was drawn; distinct by widget, texts and area.",
		Assumptions: []string{"stateful widgets drawn in parallel have a state each"},
		Parts: []Part{
			{Name: "moved", Quick: 150000, Thorough: 5000000, Fn: movedCase},
			{Name: "again", Quick: 120000, Thorough: 4000000, Fn: againCase},
			{Name: "parallel", Quick: 30000, Thorough: 800000, Fn: parallelCase},
			{Name: "parallel under race detection", Quick: 6000, Thorough: 200000, Race: true, Fn: parallelCase},
		},
	})
	register(&Check{
		ID:          "W14",
		Rule:        "A case renders a random list, tabs, paragraph, input or popup with a random block, and the block and the widget without it in the block's inner area, and compares all cells, and for stateful widgets a further rendering. Non-trivial: the block takes part of the area and leaves part of it; distinct by widget, texts and area.",
		Assumptions: []string{"either the block or the widget bears a style of its own"},
		Parts:       []Part{{Name: "framed", Quick: 100000, Thorough: 6000000, Fn: framedCase}},
	})
}
