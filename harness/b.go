package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- B01

// refStyle is what a style means: what it does to each attribute of a cell.
type refStyle struct {
	fg, bg     bento.Color // nil: kept
	add, clear bento.Modifier
}

func (s refStyle) apply(c bento.Cell) bento.Cell {
	if s.fg != nil {
		c.Fg = s.fg
	}
	if s.bg != nil {
		c.Bg = s.bg
	}
	c.Modifier = c.Modifier&^s.clear | s.add
	return c
}

var namedColors = []struct {
	name  string
	color termenv.ANSIColor
}{
	{"Black", 0}, {"Red", 1}, {"Green", 2}, {"Yellow", 3}, {"Blue", 4}, {"Magenta", 5}, {"Cyan", 6}, {"White", 7},
	{"BrightBlack", 8}, {"BrightRed", 9}, {"BrightGreen", 10}, {"BrightYellow", 11}, {"BrightBlue", 12}, {"BrightMagenta", 13}, {"BrightCyan", 14}, {"BrightWhite", 15},
}

var namedModifiers = []struct {
	name string
	mod  bento.Modifier
}{
	{"Reversed", 64}, {"CrossedOut", 256}, {"Italic", 4}, {"Bold", 1}, {"Underlined", 8}, {"Dim", 2},
}

// styleOp changes a style and its model by one of the methods of styles.
func (t *T) styleOp(s bento.Style, r refStyle) (bento.Style, refStyle, string) {
	setMod := func(m bento.Modifier) {
		r.add |= m
		r.clear &^= m
	}
	switch t.IntN(8) {
	case 0:
		c := pick(t, namedColors)
		name := c.name
		if t.Chance(50) {
			name = "On" + name
			r.bg = c.color
		} else {
			r.fg = c.color
		}
		out := reflect.ValueOf(s).MethodByName(name).Call(nil)
		return out[0].Interface().(bento.Style), r, name
	case 1:
		m := pick(t, namedModifiers)
		setMod(m.mod)
		out := reflect.ValueOf(s).MethodByName(m.name).Call(nil)
		return out[0].Interface().(bento.Style), r, m.name
	case 2:
		a, b, c := uint8(t.IntN(256)), uint8(t.IntN(256)), uint8(t.IntN(256))
		col := termenv.RGBColor(fmt.Sprintf("#%02x%02x%02x", a, b, c))
		if t.Chance(50) {
			r.fg = col
			return s.RGB(a, b, c), r, fmt.Sprintf("RGB(%d,%d,%d)", a, b, c)
		}
		r.bg = col
		return s.OnRGB(a, b, c), r, fmt.Sprintf("OnRGB(%d,%d,%d)", a, b, c)
	case 3:
		c := t.styleColor()
		r.fg = c
		return s.WithForeground(c), r, fmt.Sprintf("WithForeground(%T %v)", c, c)
	case 4:
		c := t.styleColor()
		r.bg = c
		return s.WithBackground(c), r, fmt.Sprintf("WithBackground(%T %v)", c, c)
	case 5, 6:
		m := t.modifier()
		setMod(m)
		return s.WithModifier(m), r, fmt.Sprintf("WithModifier(%09b)", m)
	default:
		m := t.modifier()
		r.clear |= m
		r.add &^= m
		return s.WithoutModifier(m), r, fmt.Sprintf("WithoutModifier(%09b)", m)
	}
}

func (t *T) styleColor() bento.Color {
	if t.Chance(25) {
		return pick(t, []bento.Color{nil, bento.ResetColor{}, termenv.NoColor{}, oddColor{}, termenv.RGBColor("red")})
	}
	return t.color()
}

func (t *T) refStyle() (bento.Style, refStyle) {
	s, r := bento.NewStyle(), refStyle{}
	var ops []string
	for n := t.IntN(7); n > 0; n-- {
		var op string
		s, r, op = t.styleOp(s, r)
		ops = append(ops, op)
	}
	t.Logf("style %s", strings.Join(ops, "."))
	return s, r
}

func (t *T) anyCell() bento.Cell {
	c := bento.NewCell(t.symbol(frameOpts{wide: 20}))
	c.Fg, c.Bg, c.Modifier, c.Skip = t.cellColor(), t.cellColor(), t.modifier(), t.Chance(20)
	return c
}

func styleCase(t *T) {
	a, ra := t.refStyle()
	b, rb := t.refStyle()
	c, rc := t.refStyle()
	ab, bc := a.Patched(b), b.Patched(c)
	abThenC, aThenBC := ab.Patched(c), a.Patched(bc)
	none := bento.NewStyle()

	apply := func(c bento.Cell, ss ...bento.Style) bento.Cell {
		for _, s := range ss {
			c.SetStyle(s)
		}
		return c
	}
	same := func(what string, got, want bento.Cell) {
		t.Count("applications_compared", 1)
		if got != want {
			t.Failf("%s gives %s, want %s", what, cellString(got), cellString(want))
		}
	}
	for i := 0; i < 6; i++ {
		x := t.anyCell()
		switch i {
		case 0:
			x.Modifier = 0
		case 1:
			x.Modifier = bento.ModifierAll
		}
		t.Logf("cell %s", cellString(x))
		same("applying a style", apply(x, a), ra.apply(x))
		same("applying a style", apply(x, b), rb.apply(x))
		same("a patched with b", apply(x, ab), rb.apply(ra.apply(x)))
		same("a, then b", apply(x, a, b), rb.apply(ra.apply(x)))
		same("(a patched with b) patched with c", apply(x, abThenC), rc.apply(rb.apply(ra.apply(x))))
		same("a patched with (b patched with c)", apply(x, aThenBC), rc.apply(rb.apply(ra.apply(x))))
		same("the empty style", apply(x, none), x)
		same("a patched with the empty style", apply(x, a.Patched(none)), ra.apply(x))
		same("the empty style patched with a", apply(x, none.Patched(a)), ra.apply(x))
		same("a patched with itself", apply(x, a.Patched(a)), ra.apply(x))
	}
	for _, m := range []bento.Modifier{t.modifier(), bento.ModifierAll, bento.ModifierBold} {
		x := t.anyCell()
		w := x
		w.Modifier |= m
		same("adding modifiers after removing them", apply(x, none.WithoutModifier(m).WithModifier(m)), w)
		w.Modifier = x.Modifier &^ m
		same("removing modifiers after adding them", apply(x, none.WithModifier(m).WithoutModifier(m)), w)
		if x.Modifier.Contains(m) != (x.Modifier&m == m) {
			t.Failf("Modifier(%09b).Contains(%09b) is wrong", x.Modifier, m)
		}
	}
	all := bento.ModifierBold | bento.ModifierDim | bento.ModifierItalic | bento.ModifierUnderlined | bento.ModifierSlowBlink |
		bento.ModifierRapidBlink | bento.ModifierReversed | bento.ModifierHidden | bento.ModifierCrossedOut
	if !bento.ModifierAll.Contains(all) {
		t.Failf("ModifierAll, %09b, does not contain all modifiers, %09b", bento.ModifierAll, all)
	}
	for _, s := range []struct {
		s bento.Style
		r refStyle
	}{{a, ra}, {b, rb}} {
		if s.s.Foreground.IsSet() != (s.r.fg != nil) || s.s.Background.IsSet() != (s.r.bg != nil) {
			t.Failf("IsSet reports a colour wrongly")
		}
		if s.r.fg != nil && s.s.Foreground.Color() != s.r.fg || s.r.bg != nil && s.s.Background.Color() != s.r.bg {
			t.Failf("Color returns another colour than the one set")
		}
	}
	t.Key(ra, rb, rc)
	t.Sample("%+v, %+v, %+v on 6 cells", ra, rb, rc)
	if ra == (refStyle{}) && rb == (refStyle{}) {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- B02

var (
	styleType  = reflect.TypeOf(bento.Style{})
	colorIface = reflect.TypeOf((*bento.Color)(nil)).Elem()
	cnstrIface = reflect.TypeOf((*bento.Constraint)(nil)).Elem()
	spaceIface = reflect.TypeOf((*bento.Spacing)(nil)).Elem()
)

type builderType struct {
	name string
	make func(t *T) any
	show func(v any) string
}

// builderTypes lists all types with builder methods: how to make a first value
// and how to see everything a value determines.
var builderTypes = []builderType{
	{"style", func(t *T) any { return bento.NewStyle() }, func(v any) string {
		var s strings.Builder
		for _, m := range []bento.Modifier{0, bento.ModifierAll} {
			c := bento.NewEmptyCell()
			c.Modifier = m
			c.SetStyle(v.(bento.Style))
			s.WriteString(cellString(c))
		}
		return s.String()
	}},
	{"padding", func(t *T) any { return bento.NewPadding(t.IntN(4), t.IntN(4)) }, func(v any) string {
		return fmt.Sprint(v, bento.NewRect(40, 30).Inner(v.(bento.Padding)))
	}},
	{"rect", func(t *T) any { return bento.NewRect(t.IntN(9), t.IntN(9)) }, func(v any) string { return fmt.Sprint(v) }},
	{"layout", func(t *T) any { return bento.NewLayout(t.spare(t.constraint())...) }, func(v any) string {
		l := v.(bento.Layout)
		if len(l.Constraints) > 5 {
			return fmt.Sprint(l)
		}
		a, b := l.SplitWithSpacers(bento.NewRect(37, 23).Positioned(2, 1))
		return fmt.Sprint(a, b, l.Constraints)
	}},
	{"span", func(t *T) any { return textwidget.NewSpan(t.tame(8, 20)) }, shows(func(v textwidget.Span) []widgetFunc { return []widgetFunc{v.Render} })},
	{"line", func(t *T) any {
		return textwidget.NewLine(spare(t, textwidget.NewSpan(t.tame(5, 20)), textwidget.NewSpan("+"))...)
	}, shows(func(v textwidget.Line) []widgetFunc { return []widgetFunc{v.Render} })},
	{"text", func(t *T) any {
		return textwidget.NewText(spare(t, textwidget.NewLineStr(t.tame(9, 20)), textwidget.NewLineStr("-"))...)
	}, shows(func(v textwidget.Text) []widgetFunc { return []widgetFunc{v.Render} })},
	{"title", func(t *T) any { return blockwidget.NewTitleStr(t.tame(6, 20)) }, shows(func(v blockwidget.Title) []widgetFunc {
		return []widgetFunc{blockwidget.New().WithTitle(v).Render, blockwidget.New().Bordered().WithTitlesAlignment(bento.AlignmentCenter).WithTitlePosition(blockwidget.TitlePositionBottom).WithTitle(v).Render}
	})},
	{"block", func(t *T) any { return blockwidget.New() }, shows(func(v blockwidget.Block) []widgetFunc {
		return []widgetFunc{v.Render, func(a bento.Rect, b *bento.Buffer) { fillwidget.New("#").Render(v.Inner(a), b) }}
	})},
	{"border set", func(t *T) any { return blockwidget.BorderTypeDouble.Set() }, func(v any) string { return fmt.Sprintf("%+v", v) }},
	{"wrap", func(t *T) any { return paragraphwidget.NewWrap() }, shows(func(v paragraphwidget.Wrap) []widgetFunc {
		return []widgetFunc{paragraphwidget.NewStr("one  two three   four\n  five six seven").WithWrap(v).Render}
	})},
	{"paragraph", func(t *T) any { return paragraphwidget.NewStr(t.tame(30, 20) + "\n" + t.tame(20, 5)) },
		shows(func(v paragraphwidget.Paragraph) []widgetFunc { return []widgetFunc{v.Render} })},
	{"list", func(t *T) any {
		return listwidget.New(spare(t, textwidget.NewTextStr(t.tame(6, 10)), textwidget.NewTextStr("b\nc"), textwidget.NewTextStr("d"))...)
	}, shows(func(v listwidget.List) []widgetFunc {
		st := func(sel int) widgetFunc {
			return func(a bento.Rect, b *bento.Buffer) {
				s := listwidget.NewState()
				if sel >= 0 {
					s.Select(sel)
				}
				v.RenderStateful(a, b, &s)
			}
		}
		return []widgetFunc{v.Render, st(-1), st(1), st(4)}
	})},
	{"tabs", func(t *T) any {
		return tabswidget.New(spare(t, textwidget.NewLineStr("one"), textwidget.NewLineStr(t.tame(4, 10)))...)
	},
		shows(func(v tabswidget.Tabs) []widgetFunc { return []widgetFunc{v.Render} })},
	{"gauge", func(t *T) any { return gaugewidget.New().WithRatio(t.Float64()) }, shows(func(v gaugewidget.Gauge) []widgetFunc { return []widgetFunc{v.Render} })},
	{"input", func(t *T) any { return inputwidget.New() }, shows(func(v inputwidget.Input) []widgetFunc {
		st := func(text string, left int) widgetFunc {
			return func(a bento.Rect, b *bento.Buffer) {
				s := inputwidget.NewState()
				s.Append(text)
				for ; left > 0; left-- {
					s.MoveCursorLeft()
				}
				v.RenderStateful(a, b, &s)
			}
		}
		return []widgetFunc{st("", 0), st("hello", 0), st("a longer text 世界", 3)}
	})},
	{"popup", func(t *T) any { return popupwidget.New() }, shows(func(v popupwidget.Popup) []widgetFunc {
		return []widgetFunc{v.Render, func(a bento.Rect, b *bento.Buffer) { fillwidget.New("#").Render(v.Inner(a), b) }}
	})},
	{"fill", func(t *T) any { return fillwidget.New("x") }, shows(func(v fillwidget.Fill) []widgetFunc { return []widgetFunc{v.Render} })},
	{"throbber", func(t *T) any { return throbberwidget.New() }, shows(func(v throbberwidget.Throbber) []widgetFunc {
		return []widgetFunc{func(a bento.Rect, b *bento.Buffer) { v.RenderStateful(a, b, throbberwidget.NewState()) }}
	})},
	{"scroll", func(t *T) any { return scrollwidget.New(scrollwidget.OrientationVerticalRight) }, shows(func(v scrollwidget.Scroll) []widgetFunc {
		return []widgetFunc{func(a bento.Rect, b *bento.Buffer) { v.RenderStateful(a, b, scrollwidget.NewState(12)) }}
	})},
}

func shows[W any](f func(W) []widgetFunc) func(v any) string {
	return func(v any) string {
		var s strings.Builder
		for _, w := range f(v.(W)) {
			for _, a := range []bento.Rect{bento.NewRect(34, 7), bento.NewRect(11, 3)} {
				b := bento.NewBufferEmpty(a)
				w(a, &b)
				for y := 0; y < a.Height; y++ {
					for x := 0; x < a.Width; x++ {
						c := cellAt(&b, x, y)
						if c != bento.NewEmptyCell() {
							s.WriteString(strconv.Itoa(x))
							s.WriteByte(',')
							s.WriteString(strconv.Itoa(y))
							s.WriteByte(':')
							s.WriteString(c.Symbol)
							s.WriteByte(' ')
							s.WriteString(colorString(c.Fg))
							s.WriteByte('/')
							s.WriteString(colorString(c.Bg))
							s.WriteByte('/')
							s.WriteString(strconv.Itoa(int(c.Modifier)))
							s.WriteByte(';')
						}
					}
				}
				s.WriteByte('|')
			}
		}
		return s.String()
	}
}

func colorString(c bento.Color) string {
	switch c := c.(type) {
	case bento.ResetColor:
		return "-"
	case termenv.ANSIColor:
		return strconv.Itoa(int(c))
	case termenv.ANSI256Color:
		return "x" + strconv.Itoa(int(c))
	case termenv.RGBColor:
		return string(c)
	default:
		return fmt.Sprintf("%T%v", c, c)
	}
}

// spare gives a slice unused capacity, as slices that were appended to have.
func spare[E any](t *T, l ...E) []E {
	out := make([]E, 0, len(l)+t.IntN(4))
	return append(out, l...)
}

func (t *T) spare(l ...bento.Constraint) []bento.Constraint { return spare(t, l...) }

func (t *T) constraint() bento.Constraint {
	switch t.IntN(6) {
	case 0:
		return bento.ConstraintMin(t.IntN(20))
	case 1:
		return bento.ConstraintMax(t.IntN(20))
	case 2:
		return bento.ConstraintLen(t.IntN(20))
	case 3:
		return bento.ConstraintPercentage(t.IntN(101))
	case 4:
		return bento.ConstraintRatio{Num: t.IntN(4), Den: t.Range(1, 5)}
	default:
		return bento.ConstraintFill(t.IntN(4))
	}
}

// arg makes an argument of the type, false if it knows no such values.
func (t *T) arg(typ reflect.Type) (reflect.Value, bool) {
	src := &textSource{t: t, make: func(n int, nl bool) string { return t.tame(n, 15) }}
	v := func(x any) (reflect.Value, bool) { return reflect.ValueOf(x).Convert(typ), true }
	switch typ {
	case styleType:
		return v(t.style())
	case colorIface:
		return v(t.color())
	case cnstrIface:
		return v(t.constraint())
	case spaceIface:
		return v(bento.SpacingSpace(t.IntN(3)))
	case reflect.TypeOf(bento.Padding{}):
		return v(bento.NewPadding(t.IntN(3), t.IntN(3), t.IntN(3), t.IntN(3)))
	case reflect.TypeOf(bento.Modifier(0)):
		return v(t.modifier())
	case reflect.TypeOf(textwidget.Span{}):
		return v(src.span())
	case reflect.TypeOf(textwidget.Line{}):
		return v(src.line())
	case reflect.TypeOf(textwidget.Text{}):
		return v(src.text(3))
	case reflect.TypeOf(blockwidget.Title{}):
		return v(src.title())
	case reflect.TypeOf(blockwidget.Block{}):
		return v(src.block())
	case reflect.TypeOf(paragraphwidget.Wrap{}):
		return v(paragraphwidget.NewWrap().WithTrim(t.Chance(50)))
	case reflect.TypeOf(blockwidget.SideTop):
		return v(pick(t, allSides))
	case reflect.TypeOf(bento.Alignment(0)):
		return v(bento.Alignment(t.Range(1, 3)))
	case reflect.TypeOf(bento.Rect{}):
		return v(bento.NewRect(t.IntN(9), t.IntN(9)))
	}
	switch typ.Kind() {
	case reflect.Bool:
		return v(t.Chance(50))
	case reflect.String:
		return v(t.tame(5, 15))
	case reflect.Int:
		return v(t.IntN(2))
	case reflect.Uint8:
		return v(uint8(t.IntN(256)))
	case reflect.Float64:
		return v(t.Float64())
	case reflect.Slice:
		n := t.Range(1, 3)
		s := reflect.MakeSlice(typ, 0, n+t.IntN(3))
		for i := 0; i < n; i++ {
			e, ok := t.arg(typ.Elem())
			if !ok {
				return e, false
			}
			s = reflect.Append(s, e)
		}
		return s, true
	}
	return reflect.Value{}, false
}

// builders returns the methods of a type that return a value of the same type.
func builders(typ reflect.Type) []reflect.Method {
	var out []reflect.Method
	for i := 0; i < typ.NumMethod(); i++ {
		m := typ.Method(i)
		if m.Type.NumOut() == 1 && m.Type.Out(0) == typ {
			out = append(out, m)
		}
	}
	return out
}

type derivation struct {
	value any
	shown string
	how   string
}

func builderCase(t *T) {
	bt := builderTypes[t.Index%len(builderTypes)]
	first := bt.make(t)
	all := []derivation{{first, bt.show(first), bt.name}}
	methods := builders(reflect.TypeOf(first))
	usable := map[string]bool{}
	changed := 0
	kinds := ""

	steps := t.Range(2, 10)
	for i := 0; i < steps && len(methods) > 0; i++ {
		from := &all[t.IntN(len(all))]
		if t.Chance(40) {
			from = &all[len(all)-1]
		}
		m := pick(t, methods)
		args := []reflect.Value{reflect.ValueOf(from.value)}
		ok := true
		for k := 1; k < m.Type.NumIn(); k++ {
			var a reflect.Value
			a, ok = t.arg(m.Type.In(k))
			if !ok {
				break
			}
			args = append(args, a)
		}
		if !ok {
			continue
		}
		usable[m.Name] = true
		call := func() any {
			if m.Type.IsVariadic() {
				return m.Func.CallSlice(args)[0].Interface()
			}
			return m.Func.Call(args)[0].Interface()
		}
		v := call()
		d := derivation{v, bt.show(v), from.how + "." + m.Name}
		t.Logf("%s(%v)", d.how, args[1:])
		if d.shown != from.shown {
			changed++
		}
		how := from.how
		all = append(all, d)
		kinds += m.Name + ","
		for _, o := range all {
			if s := bt.show(o.value); s != o.shown {
				t.Failf("%s renders differently after calling %s on %s:\n before %s\n after  %s", o.how, m.Name, how, o.shown, s)
			}
		}
		t.Count("values_compared", len(all))
		t.Count("calls_of_"+bt.name, 1)
		if t.Chance(50) {
			continue
		}
		// The same derivation again gives the same.
		if s := bt.show(call()); s != d.shown {
			t.Failf("%s called a second time gives something else:\n first  %s\n second %s", d.how, d.shown, s)
		}
		for _, o := range all {
			if s := bt.show(o.value); s != o.shown {
				t.Failf("%s renders differently after calling %s on %s a second time:\n before %s\n after  %s", o.how, m.Name, how, o.shown, s)
			}
		}
		t.Count("values_compared", len(all))
	}
	t.Key(bt.name, kinds, all[len(all)-1].shown)
	if t.Index < 40 {
		names := make([]string, 0, len(usable))
		for k := range usable {
			names = append(names, k)
		}
		sort.Strings(names)
		t.Sample("%s: %d values derived with %v, %d of the calls changed something", bt.name, len(all), names, changed)
	}
	for k := range usable {
		t.Count("called_"+bt.name+"."+k, 1)
	}
	if changed == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- B03

type cellSet map[bento.Position]bool

func cellsOf(r bento.Rect) cellSet {
	s := cellSet{}
	for y := r.Y; y < r.Y+r.Height; y++ {
		for x := r.X; x < r.X+r.Width; x++ {
			s[bento.Position{X: x, Y: y}] = true
		}
	}
	return s
}

func (s cellSet) filter(f func(p bento.Position) bool) cellSet {
	out := cellSet{}
	for p := range s {
		if f(p) {
			out[p] = true
		}
	}
	return out
}

func (t *T) sameCells(what string, got bento.Rect, want cellSet) {
	if got.Width < 0 || got.Height < 0 {
		t.Failf("%s has a negative size: %v", what, got)
	}
	if g := cellsOf(got); !reflect.DeepEqual(g, want) {
		t.Failf("%s is %v of %d cells, want %d cells", what, got, len(g), len(want))
	}
	t.Count("areas_compared", 1)
}

func (t *T) smallRect() bento.Rect {
	r := bento.NewRect(t.IntN(8), t.IntN(8)).Positioned(t.IntN(12)-4, t.IntN(12)-4)
	return r
}

// sameRect tells whether a rectangle is the one with the given edges, or empty like it.
func (t *T) sameRect(what string, got bento.Rect, left, top, right, bottom int) {
	want := bento.Rect{Position: bento.Position{X: left, Y: top}, Width: right - left, Height: bottom - top}
	if right <= left || bottom <= top {
		if got.Width < 0 || got.Height < 0 || got.Width*got.Height != 0 {
			t.Failf("%s is %v, want an empty one", what, got)
		}
		return
	}
	if got != want {
		t.Failf("%s is %v, want %v", what, got, want)
	}
}

func (t *T) rowsAndColumns(r bento.Rect) {
	rows, columns := r.Rows(), r.Columns()
	if r.Width > 0 && r.Height > 0 {
		if len(rows) != r.Height || len(columns) != r.Width {
			t.Failf("%v has %d rows and %d columns", r, len(rows), len(columns))
		}
		for i, x := range rows {
			if x != bento.NewRect(r.Width, 1).Positioned(r.X, r.Y+i) {
				t.Failf("row %d of %v is %v", i, r, x)
			}
		}
		for i, x := range columns {
			if x != bento.NewRect(1, r.Height).Positioned(r.X+i, r.Y) {
				t.Failf("column %d of %v is %v", i, r, x)
			}
		}
	} else {
		for _, x := range append(rows, columns...) {
			if x.Width*x.Height != 0 {
				t.Failf("%v has a row or column %v", r, x)
			}
		}
	}
}

func rectCase(t *T) {
	r, o := t.smallRect(), t.smallRect()
	p := bento.Padding{Top: t.IntN(4), Right: t.IntN(4), Bottom: t.IntN(4), Left: t.IntN(4)}
	in := t.IntN(9)
	t.Logf("%v, %v, padding %+v, indent %d", r, o, p, in)
	cells := cellsOf(r)

	for y := -6; y < 18; y++ {
		for x := -6; x < 18; x++ {
			q := bento.NewPosition(x, y)
			if r.Contains(q) != cells[q] {
				t.Failf("%v.Contains(%v) is %v", r, q, r.Contains(q))
			}
		}
	}
	other := cellsOf(o)
	t.sameCells("the intersection", r.Intersection(o), cells.filter(func(p bento.Position) bool { return other[p] }))
	t.sameCells("the intersection, the other way round,", o.Intersection(r), cells.filter(func(p bento.Position) bool { return other[p] }))
	t.sameCells("the intersection with itself", r.Intersection(r), cells)
	t.sameCells("the inner area", r.Inner(p), cells.filter(func(q bento.Position) bool {
		return q.X >= r.X+p.Left && q.X < r.X+r.Width-p.Right && q.Y >= r.Y+p.Top && q.Y < r.Y+r.Height-p.Bottom
	}))
	t.sameCells("the indented area", r.IndentX(in), cells.filter(func(q bento.Position) bool { return q.X >= r.X+in }))

	if r.Area() != len(cells) || r.IsEmpty() != (len(cells) == 0) {
		t.Failf("%v has an area of %d, empty: %v", r, r.Area(), r.IsEmpty())
	}
	if r.Left() != r.X || r.Top() != r.Y || r.Right() != r.X+r.Width || r.Bottom() != r.Y+r.Height {
		t.Failf("the edges of %v are %d %d %d %d", r, r.Left(), r.Top(), r.Right(), r.Bottom())
	}
	t.rowsAndColumns(r)
	if t.Chance(2) {
		// The same of large ones, an edge at a time.
		l := bento.NewRect(t.IntN(3000), t.IntN(3000)).Positioned(t.IntN(3000), t.IntN(3000))
		k := bento.NewRect(t.IntN(3000), t.IntN(3000)).Positioned(t.IntN(3000), t.IntN(3000))
		t.Logf("%v, %v", l, k)
		t.rowsAndColumns(l)
		q := bento.Padding{Top: t.IntN(900), Right: t.IntN(900), Bottom: t.IntN(900), Left: t.IntN(900)}
		t.sameRect("the intersection", l.Intersection(k), max(l.X, k.X), max(l.Y, k.Y), min(l.X+l.Width, k.X+k.Width), min(l.Y+l.Height, k.Y+k.Height))
		t.sameRect("the inner area", l.Inner(q), l.X+q.Left, l.Y+q.Top, l.X+l.Width-q.Right, l.Y+l.Height-q.Bottom)
		n := t.IntN(4000)
		t.sameRect("the indented area", l.IndentX(n), l.X+n, l.Y, l.X+l.Width, l.Y+l.Height)
	}
	w, h := t.IntN(9), t.IntN(9)
	if r.WithWidth(w) != bento.NewRect(w, r.Height).Positioned(r.X, r.Y) || r.WithHeight(h) != bento.NewRect(r.Width, h).Positioned(r.X, r.Y) {
		t.Failf("WithWidth or WithHeight changed something else")
	}
	a, b, c, d := t.IntN(5), t.IntN(5), t.IntN(5), t.IntN(5)
	for _, x := range []struct{ got, want bento.Padding }{
		{bento.NewPadding(), bento.Padding{}},
		{bento.NewPadding(a), bento.Padding{Top: a, Right: a, Bottom: a, Left: a}},
		{bento.NewPadding(a, b), bento.Padding{Top: a, Right: b, Bottom: a, Left: b}},
		{bento.NewPadding(a, b, c, d), bento.Padding{Top: a, Right: b, Bottom: c, Left: d}},
		{p.WithTop(a), bento.Padding{Top: a, Right: p.Right, Bottom: p.Bottom, Left: p.Left}},
		{p.WithRight(a), bento.Padding{Top: p.Top, Right: a, Bottom: p.Bottom, Left: p.Left}},
		{p.WithBottom(a), bento.Padding{Top: p.Top, Right: p.Right, Bottom: a, Left: p.Left}},
		{p.WithLeft(a), bento.Padding{Top: p.Top, Right: p.Right, Bottom: p.Bottom, Left: a}},
	} {
		if x.got != x.want {
			t.Failf("a padding is %+v, want %+v", x.got, x.want)
		}
	}
	t.Key(r, o, p, in)
	t.Sample("%v and %v, padding %+v, indented by %d", r, o, p, in)
	if len(cells) == 0 {
		t.Trivial()
	}
}

// bigRectCase checks the same laws by coordinates for rectangles too big to enumerate.
func bigRectCase(t *T) {
	rnd := func(neg bool) int {
		n := int(t.Uint64() >> (34 + t.IntN(30)))
		if neg && t.Chance(50) {
			n = -n
		}
		return n
	}
	rect := func() bento.Rect { return bento.NewRect(rnd(false), rnd(false)).Positioned(rnd(true), rnd(true)) }
	r, o := rect(), rect()
	if t.Chance(40) {
		o = o.Positioned(r.X+rnd(true)%(r.Width+1), r.Y+rnd(true)%(r.Height+1))
	}
	p := bento.Padding{Top: rnd(false), Right: rnd(false), Bottom: rnd(false), Left: rnd(false)}
	t.Logf("%v, %v, padding %+v", r, o, p)
	in := func(r bento.Rect, x, y int) bool { return x >= r.X && x < r.X+r.Width && y >= r.Y && y < r.Y+r.Height }
	i, n := r.Intersection(o), r.Inner(p)
	var xs, ys []int
	for _, b := range []bento.Rect{r, o, i, n} {
		xs = append(xs, b.X, b.X-1, b.X+b.Width, b.X+b.Width-1, b.X+b.Width/2)
		ys = append(ys, b.Y, b.Y-1, b.Y+b.Height, b.Y+b.Height-1, b.Y+b.Height/2)
	}
	xs = append(xs, r.X+p.Left, r.X+p.Left-1, r.X+r.Width-p.Right, r.X+r.Width-p.Right-1)
	ys = append(ys, r.Y+p.Top, r.Y+p.Top-1, r.Y+r.Height-p.Bottom, r.Y+r.Height-p.Bottom-1)
	inside := 0
	for _, x := range xs {
		for _, y := range ys {
			q := bento.NewPosition(x, y)
			if r.Contains(q) != in(r, x, y) {
				t.Failf("%v.Contains(%v) is %v", r, q, r.Contains(q))
			}
			both := in(r, x, y) && in(o, x, y)
			if both {
				inside++
			}
			if in(i, x, y) != both {
				t.Failf("%v is in the intersection %v: %v, want %v", q, i, in(i, x, y), both)
			}
			want := in(r, x, y) && x >= r.X+p.Left && x < r.X+r.Width-p.Right && y >= r.Y+p.Top && y < r.Y+r.Height-p.Bottom
			if in(n, x, y) != want {
				t.Failf("%v is in the inner area %v: %v, want %v", q, n, in(n, x, y), want)
			}
			t.Count("positions_compared", 1)
		}
	}
	t.Key(r, o, p)
	t.Sample("%v and %v, padding %+v", r, o, p)
	if inside == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- B04

func (t *T) bufferArea(maxW, maxH int) bento.Rect {
	a := bento.NewRect(t.Range(1, maxW), t.Range(1, maxH))
	switch t.IntN(3) {
	case 0:
		a = a.Positioned(t.IntN(20), t.IntN(20))
	case 1:
		a = a.Positioned(t.IntN(20)-10, t.IntN(20)-10)
	}
	return a
}

// roomyArea is like bufferArea, and rarely as large as a large terminal.
func (t *T) roomyArea(maxW, maxH int) bento.Rect {
	if t.IntN(100) > 0 {
		return t.bufferArea(maxW, maxH)
	}
	if t.Chance(50) {
		return t.bufferArea(10*maxW, maxH)
	}
	return t.bufferArea(maxW, 10*maxH)
}

func setStringCase(t *T) {
	area := t.bufferArea(20, 4)
	buf := t.canvas(area)
	want := cloneBuffer(&buf)
	calls := t.Range(1, 3)
	written := 0
	key := []any{area}
	for ; calls > 0; calls-- {
		text := t.wild(t.IntN(16), true)
		if t.Chance(40) {
			text = t.tame(t.IntN(24), 25)
		}
		style := t.style()
		x, y := area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height)
		limit := t.IntN(area.Width + 4)
		unlimited := t.Chance(30)
		if t.Chance(5) {
			limit = -t.IntN(3)
		}
		if unlimited {
			limit = math.MaxInt
		}
		t.Logf("SetStringN(%d, %d, %q, %d) in %v", x, y, text, limit, area)

		rest := min(limit, area.X+area.Width-x)
		ex := x
		for _, g := range graphemes(text) {
			w := width(g)
			if rest <= 0 {
				break
			}
			if w == 0 {
				continue
			}
			if w > rest {
				break
			}
			c := want.CellAt(bento.Position{X: ex, Y: y})
			c.Symbol = g
			c.SetStyle(style)
			for k := 1; k < w; k++ {
				*want.CellAt(bento.Position{X: ex + k, Y: y}) = bento.NewEmptyCell()
			}
			ex += w
			rest -= w
			written++
		}
		if unlimited && t.Chance(50) {
			buf.SetString(x, y, text, style)
		} else {
			gx, gy := buf.SetStringN(x, y, text, limit, style)
			if gx != ex || gy != y {
				t.Failf("SetStringN returned %d,%d, want %d,%d", gx, gy, ex, y)
			}
		}
		key = append(key, text, x, y, limit)
		for yy := area.Y; yy < area.Bottom(); yy++ {
			for xx := area.X; xx < area.Right(); xx++ {
				if g, w := cellAt(&buf, xx, yy), cellAt(&want, xx, yy); g != w {
					t.logBuffer("got", &buf)
					t.logBuffer("want", &want)
					t.Failf("cell %d,%d is %s, want %s", xx, yy, cellString(g), cellString(w))
				}
			}
		}
		t.Count("cells_compared", area.Width*area.Height)
	}
	t.Count("graphemes_written", written)
	t.Key(key...)
	t.Sample("%v", key)
	if written == 0 {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- B05

func bufferCase(t *T) {
	area := t.bufferArea(12, 6)
	if t.Chance(5) {
		area.Width = 0
	}
	model := map[bento.Position]bento.Cell{}
	each := func(f func(p bento.Position)) {
		for y := area.Y; y < area.Y+area.Height; y++ {
			for x := area.X; x < area.X+area.Width; x++ {
				f(bento.NewPosition(x, y))
			}
		}
	}
	fill := func(c bento.Cell) {
		clear(model)
		each(func(p bento.Position) { model[p] = c })
	}
	var buf bento.Buffer
	if t.Chance(50) {
		buf = bento.NewBufferEmpty(area)
		fill(bento.NewEmptyCell())
	} else {
		c := t.anyCell()
		buf = bento.NewBufferFilled(area, c)
		fill(c)
	}
	check := func(what string) {
		if buf.Area() != area {
			t.Failf("%s: the area is %v, want %v", what, buf.Area(), area)
		}
		i := 0
		each(func(p bento.Position) {
			if got := *buf.CellAt(p); got != model[p] {
				t.Failf("%s: cell %v is %s, want %s", what, p, cellString(got), cellString(model[p]))
			}
			if q := buf.PosOf(i); q != p {
				t.Failf("%s: the position of cell number %d is %v, want %v", what, i, q, p)
			}
			i++
		})
		t.Count("cells_compared", len(model))
	}
	check("new buffer")
	kinds := ""
	for n := t.Range(2, 12); n > 0; n-- {
		op := t.IntN(7)
		kinds += fmt.Sprint(op)
		switch {
		case op == 0: // one cell
			if len(model) == 0 {
				continue
			}
			p := bento.NewPosition(area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height))
			c := t.anyCell()
			t.Logf("cell %v = %s", p, cellString(c))
			*buf.CellAt(p) = c
			model[p] = c
			check("after setting a cell")
		case op == 1: // every cell its own
			i := 0
			each(func(p bento.Position) {
				c := bento.NewCell(fmt.Sprint(i))
				i++
				*buf.CellAt(p) = c
				model[p] = c
			})
			t.Logf("all cells set")
			check("after setting all cells")
		case op == 2:
			r := bento.NewRect(t.IntN(9), t.IntN(7)).Positioned(area.X+t.IntN(16)-4, area.Y+t.IntN(10)-3)
			if t.Chance(10) {
				r = bento.NewRect(1000, 1000).Positioned(-500, -500)
			}
			s, ref := t.refStyle()
			t.Logf("style of %v", r)
			buf.SetStyle(r, s)
			for p, c := range model {
				if p.X >= r.X && p.X < r.X+r.Width && p.Y >= r.Y && p.Y < r.Y+r.Height {
					model[p] = ref.apply(c)
				}
			}
			check("after setting a style")
		case op == 3:
			t.Logf("reset")
			buf.Reset()
			fill(bento.NewEmptyCell())
			check("after a reset")
		case op == 4:
			area = t.bufferArea(12, 6)
			if t.Chance(8) {
				area.Height = 0
			}
			t.Logf("resized to %v", area)
			blank := true
			for _, c := range model {
				blank = blank && c == bento.NewEmptyCell()
			}
			buf.Resize(area)
			if blank {
				// A blank buffer stays blank.
				fill(bento.NewEmptyCell())
				check("after resizing a blank buffer")
			}
			if buf.Area() != area {
				t.Failf("the area is %v after resizing to %v", buf.Area(), area)
			}
			// What the cells hold is left open.
			clear(model)
			each(func(p bento.Position) { model[p] = *buf.CellAt(p) })
			if t.Chance(50) {
				buf.Reset()
				fill(bento.NewEmptyCell())
			}
			check("after resizing")
		case op == 5: // chained setters of a cell
			if len(model) == 0 {
				continue
			}
			p := bento.NewPosition(area.X+t.IntN(area.Width), area.Y+t.IntN(area.Height))
			c := model[p]
			s, ref := t.refStyle()
			fg, bg, sym := t.color(), t.color(), pick(t, narrowSymbols)
			buf.CellAt(p).SetSymbol(sym).SetFg(fg).SetBg(bg).SetStyle(s).AppendSymbol("\u0301")
			c.Symbol, c.Fg, c.Bg = sym+"\u0301", fg, bg
			model[p] = ref.apply(c)
			check("after setting the parts of a cell")
			if t.Chance(30) {
				buf.CellAt(p).Reset()
				model[p] = bento.NewEmptyCell()
				check("after resetting a cell")
			}
		default: // positions that are not in the area
			out := bento.NewPosition(area.X+t.IntN(3*area.Width+6)-area.Width-3, area.Y+t.IntN(3*area.Height+6)-area.Height-3)
			if _, in := model[out]; in {
				continue
			}
			if !panics(func() { buf.CellAt(out) }) {
				t.Failf("there is a cell at %v, outside of %v", out, area)
			}
			t.Count("positions_outside_tried", 1)
			check("after asking for a cell outside")
		}
	}
	t.Key(kinds, area)
	t.Sample("operations %s ending with the area %v", kinds, area)
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func init() {
	register(&Check{
		ID:   "B01",
		Rule: "A case builds three styles with random calls of the methods of styles, applies them and their patches in both groupings to six random cells and compares every result with a model of what a style does. Non-trivial: not all styles are empty; distinct by what the styles do.",
		Parts: []Part{
			{Name: "styles", Quick: 60000, Thorough: 2000000, Fn: styleCase},
		},
	})
	register(&Check{
		ID:          "B02",
		Rule:        "A case takes one of all the types with builder methods, derives values from values with randomly chosen builder methods (found by reflection) and arguments, and after every call renders all values derived so far and compares with what they rendered at first. Non-trivial: a call changed something; distinct by the methods called and the last rendering.",
		Assumptions: []string{"the caller does not change slices it has passed to a method"},
		Parts: []Part{
			{Name: "derivations", Quick: 5000, Thorough: 300000, Fn: builderCase},
		},
	})
	register(&Check{
		ID:          "B03",
		Rule:        "A case compares the operations on two random rectangles and a padding with the sets of cells they cover, or, for big ones, by coordinates at all edges. Non-trivial: the rectangle is not empty, or the intersection for big ones; distinct by the rectangles and padding.",
		Assumptions: []string{"sizes, paddings and indentations are not negative"},
		Parts: []Part{
			{Name: "small", Quick: 60000, Thorough: 2000000, Fn: rectCase},
			{Name: "big", Quick: 40000, Thorough: 1500000, Fn: bigRectCase},
		},
	})
	register(&Check{
		ID:          "B04",
		Rule:        "A case writes up to three strings of any characters at random positions of a patterned buffer with random width limits and compares all cells and the returned position with a model. Non-trivial: something was written; distinct by area, texts, positions and limits.",
		Assumptions: []string{"the start lies in the buffer", "graphemes and widths are as uniseg says"},
		Parts: []Part{
			{Name: "strings", Quick: 80000, Thorough: 2500000, Fn: setStringCase},
		},
	})
	register(&Check{
		ID:   "B05",
		Rule: "A case applies a random history of operations to a buffer and to a map from positions to cells, comparing both completely after each operation. Distinct by the operations and the last area.",
		Parts: []Part{
			{Name: "histories", Quick: 40000, Thorough: 1200000, Fn: bufferCase},
		},
	})
}
