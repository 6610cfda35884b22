package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
)

// ---------------------------------------------------------------- B06

// setting is what a builder method does: which setting of the value it
// changes, whether it adds to it or replaces it, and what it is short for.
// A method that is not listed replaces the setting of its own name.
type setting struct {
	slot string
	adds bool
	long func(v any, a []reflect.Value) any
}

func short[V any](slot string, f func(v V) V) setting {
	return setting{slot: slot, long: func(v any, _ []reflect.Value) any { return f(v.(V)) }}
}

func shortArg[V, A any](slot string, f func(v V, a A) V) setting {
	return setting{slot: slot, long: func(v any, a []reflect.Value) any { return f(v.(V), a[0].Interface().(A)) }}
}

func (s setting) adding() setting {
	s.adds = true
	return s
}

type (
	aligned[V any] interface {
		WithAlignment(bento.Alignment) V
	}
)

func alignments[V aligned[V]](m map[string]setting, name string) {
	m[name+".Left"] = short("WithAlignment", func(v V) V { return v.WithAlignment(bento.AlignmentLeft) })
	m[name+".Center"] = short("WithAlignment", func(v V) V { return v.WithAlignment(bento.AlignmentCenter) })
	m[name+".Right"] = short("WithAlignment", func(v V) V { return v.WithAlignment(bento.AlignmentRight) })
}

var settings = func() map[string]setting {
	m := map[string]setting{}
	for _, c := range namedColors {
		color := c.color
		m["style."+c.name] = short("WithForeground", func(s bento.Style) bento.Style { return s.WithForeground(color) })
		m["style.On"+c.name] = short("WithBackground", func(s bento.Style) bento.Style { return s.WithBackground(color) })
	}
	m["style.RGB"] = setting{slot: "WithForeground"}
	m["style.OnRGB"] = setting{slot: "WithBackground"}
	for _, c := range namedModifiers {
		mod := c.mod
		m["style."+c.name] = short("modifiers", func(s bento.Style) bento.Style { return s.WithModifier(mod) }).adding()
	}
	m["style.WithModifier"] = setting{slot: "modifiers", adds: true}
	m["style.WithoutModifier"] = setting{slot: "modifiers", adds: true}
	m["style.Patched"] = setting{} // B01

	m["layout.Horizontal"] = short("WithDirection", func(l bento.Layout) bento.Layout { return l.WithDirection(bento.DirectionHorizontal) })
	m["layout.Vertical"] = short("WithDirection", func(l bento.Layout) bento.Layout { return l.WithDirection(bento.DirectionVertical) })
	m["layout.WithConstraints"] = setting{slot: "WithConstraints", adds: true}

	m["span.WithStylePatch"] = setting{slot: "WithStyle", adds: true}
	m["line.WithSpans"] = setting{slot: "spans", adds: true}
	m["line.WithSpansStr"] = shortArg("spans", func(l textwidget.Line, a []string) textwidget.Line {
		for _, s := range a {
			l = l.WithSpans(textwidget.NewSpan(s))
		}
		return l
	}).adding()
	m["text.WithLines"] = setting{slot: "lines", adds: true}
	m["text.WithLinesStr"] = shortArg("lines", func(l textwidget.Text, a []string) textwidget.Text {
		for _, s := range a {
			l = l.WithLines(textwidget.NewLineStr(s))
		}
		return l
	}).adding()
	alignments[textwidget.Line](m, "line")
	alignments[textwidget.Text](m, "text")
	alignments[blockwidget.Title](m, "title")
	alignments[inputwidget.Input](m, "input")

	m["title.Top"] = short("WithPosition", func(v blockwidget.Title) blockwidget.Title { return v.WithPosition(blockwidget.TitlePositionTop) })
	m["title.Bottom"] = short("WithPosition", func(v blockwidget.Title) blockwidget.Title {
		return v.WithPosition(blockwidget.TitlePositionBottom)
	})

	for name, typ := range map[string]blockwidget.BorderType{
		"Rounded": blockwidget.BorderTypeRounded, "Sharp": blockwidget.BorderTypeSharp,
		"Thick": blockwidget.BorderTypeThick, "Double": blockwidget.BorderTypeDouble,
	} {
		typ := typ
		m["block."+name] = short("WithBorderType", func(b blockwidget.Block) blockwidget.Block { return b.WithBorderType(typ) })
	}
	m["block.Bordered"] = short("WithBorderSides", func(b blockwidget.Block) blockwidget.Block {
		return b.WithBorderSides(blockwidget.SideLeft, blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom)
	})
	m["block.WithTitle"] = setting{slot: "titles", adds: true}
	m["block.WithTitleStr"] = shortArg("titles", func(b blockwidget.Block, s string) blockwidget.Block {
		return b.WithTitle(blockwidget.NewTitleStr(s))
	}).adding()

	m["paragraph.Left"] = setting{slot: "alignment"}
	m["paragraph.Center"] = setting{slot: "alignment"}
	m["paragraph.Right"] = setting{slot: "alignment"}
	m["paragraph.Wrapped"] = short("WithWrap", func(p paragraphwidget.Paragraph) paragraphwidget.Paragraph {
		return p.WithWrap(paragraphwidget.NewWrap().WithTrim(false))
	})

	m["tabs.WithDividerStr"] = shortArg("WithDivider", func(v tabswidget.Tabs, s string) tabswidget.Tabs { return v.WithDivider(textwidget.NewSpan(s)) })
	m["tabs.WithPaddingLeftStr"] = shortArg("WithPaddingLeft", func(v tabswidget.Tabs, s string) tabswidget.Tabs { return v.WithPaddingLeft(textwidget.NewLineStr(s)) })
	m["tabs.WithPaddingRightStr"] = shortArg("WithPaddingRight", func(v tabswidget.Tabs, s string) tabswidget.Tabs { return v.WithPaddingRight(textwidget.NewLineStr(s)) })
	m["tabs.Unselect"] = setting{slot: "Select"}

	m["gauge.WithPercent"] = shortArg("WithRatio", func(v gaugewidget.Gauge, p int) gaugewidget.Gauge { return v.WithRatio(float64(p) / 100) })
	m["gauge.WithLabelStr"] = shortArg("WithLabel", func(v gaugewidget.Gauge, s string) gaugewidget.Gauge { return v.WithLabel(textwidget.NewSpan(s)) })

	for name, flex := range map[string]bento.Flex{"Top": bento.FlexStart, "Middle": bento.FlexCenter, "Bottom": bento.FlexEnd} {
		flex := flex
		m["input."+name] = short("WithVertical", func(i inputwidget.Input) inputwidget.Input { return i.WithVertical(flex) })
		m["popup."+name] = setting{slot: "vertical"}
	}
	for _, name := range []string{"Left", "Center", "Right"} {
		m["popup."+name] = setting{slot: "horizontal"}
	}
	for _, name := range []string{"Positioned", "WithWidth", "WithHeight", "Inner", "Intersection", "IndentX"} {
		m["rect."+name] = setting{} // B03
	}
	return m
}()

func (bt *builderType) setting(method string) setting {
	if s, ok := settings[bt.name+"."+method]; ok {
		return s
	}
	return setting{slot: method}
}

type settingCall struct {
	m    reflect.Method
	args []reflect.Value
	setting
}

func (c settingCall) on(v any) any {
	args := append([]reflect.Value{reflect.ValueOf(v)}, c.args...)
	if c.m.Type.IsVariadic() {
		return c.m.Func.CallSlice(args)[0].Interface()
	}
	return c.m.Func.Call(args)[0].Interface()
}

// settingArg makes an argument of a builder method.
func (t *T) settingArg(bt *builderType, m reflect.Method, typ reflect.Type) (reflect.Value, bool) {
	n := 0
	switch typ {
	case reflect.TypeOf(bento.Flex(0)):
		n = 6
	case reflect.TypeOf(blockwidget.BorderType(0)):
		n = 4
	case reflect.TypeOf(blockwidget.TitlePosition(0)), reflect.TypeOf(bento.Direction(0)):
		n = 2
	}
	switch {
	case bt.name+"."+m.Name == "gauge.WithPercent":
		n = 101
	case bt.name+"."+m.Name == "tabs.Select", bt.name+"."+m.Name == "paragraph.WithScroll":
		n = 4
	case bt.name == "padding":
		n = 9
	}
	if n > 0 {
		return reflect.ValueOf(t.IntN(n)).Convert(typ), true
	}
	return t.arg(typ)
}

func settingsCase(t *T) {
	bt := &builderTypes[t.Index%len(builderTypes)]
	first := bt.make(t)
	methods := builders(reflect.TypeOf(first))
	var usable []reflect.Method
	for _, m := range methods {
		if bt.setting(m.Name).slot != "" {
			usable = append(usable, m)
		}
	}
	if len(usable) == 0 {
		t.Trivial()
		return
	}

	var calls []settingCall
	bySlot := map[string][]settingCall{}
	var slots []string
	how := ""
	v := first
	for n := t.Range(2, 8); n > 0; n-- {
		m := pick(t, usable)
		c := settingCall{m: m, setting: bt.setting(m.Name)}
		ok := true
		for k := 1; k < m.Type.NumIn(); k++ {
			var a reflect.Value
			if a, ok = t.settingArg(bt, m, m.Type.In(k)); !ok {
				break
			}
			c.args = append(c.args, a)
		}
		if !ok {
			continue
		}
		calls = append(calls, c)
		v = c.on(v)
		how += "." + m.Name
		t.Logf(".%s(%v)", m.Name, c.args)
		if bySlot[c.slot] == nil {
			slots = append(slots, c.slot)
		}
		if !c.adds {
			t.Count("settings_replaced", len(bySlot[c.slot]))
			bySlot[c.slot] = nil
		}
		bySlot[c.slot] = append(bySlot[c.slot], c)
	}
	got := bt.show(v)

	// The same settings in other orders, with what was replaced left out and
	// shorthands written out.
	for i := 0; i < 2; i++ {
		var left []string
		for _, s := range slots {
			for range bySlot[s] {
				left = append(left, s)
			}
		}
		rng := rand.New(rand.NewPCG(t.Uint64(), 0))
		rng.Shuffle(len(left), func(a, b int) { left[a], left[b] = left[b], left[a] })
		next := map[string]int{}
		w := first
		as := ""
		for _, s := range left {
			c := bySlot[s][next[s]]
			next[s]++
			if c.long != nil && t.Chance(80) {
				w = c.long(w, c.args)
				as += "." + c.slot + "[" + c.m.Name + "]"
				t.Count("shorthands_written_out", 1)
			} else {
				w = c.on(w)
				as += "." + c.m.Name
			}
		}
		if want := bt.show(w); got != want {
			t.Failf("%s%s renders differently than %s%s, which sets the same:\n %s\n %s", bt.name, how, bt.name, as, got, want)
		}
		t.Count("orders_compared", 1)
		t.Key(bt.name, how, as)
	}
	for _, c := range calls {
		t.Count("called_"+bt.name+"."+c.m.Name, 1)
	}
	if got == bt.show(first) {
		t.Trivial()
	}
	t.Sample("%s%s with %s", bt.name, how, strings.Join(slots, ", "))
}

// paddingCase: the sides of a padding are given as in CSS.
func paddingCase(t *T) {
	a, b, c, d := t.IntN(100), t.IntN(100), t.IntN(100), t.IntN(100)
	for _, p := range []struct {
		how       string
		got, want bento.Padding
	}{
		{"NewPadding()", bento.NewPadding(), bento.Padding{}},
		{fmt.Sprintf("NewPadding(%d)", a), bento.NewPadding(a), bento.Padding{Top: a, Right: a, Bottom: a, Left: a}},
		{fmt.Sprintf("NewPadding(%d,%d)", a, b), bento.NewPadding(a, b), bento.Padding{Top: a, Bottom: a, Left: b, Right: b}},
		{fmt.Sprintf("NewPadding(%d,%d,%d,%d)", a, b, c, d), bento.NewPadding(a, b, c, d), bento.Padding{Top: a, Right: b, Bottom: c, Left: d}},
		{"the four With methods", bento.NewPadding(1).WithLeft(d).WithBottom(c).WithRight(b).WithTop(a), bento.Padding{Top: a, Right: b, Bottom: c, Left: d}},
	} {
		t.Count("paddings_compared", 1)
		if p.got != p.want {
			t.Failf("%s is %+v, want %+v", p.how, p.got, p.want)
		}
	}
	t.Key(a, b, c, d)
}

func init() {
	register(&Check{
		ID:          "B06",
		Rule:        "A case takes one of all the types with builder methods and calls up to eight of them (found by reflection) with random arguments, then makes the same value anew twice, with the calls that set different things in a random order, those whose setting was replaced later left out, and shorthands replaced with the long forms; all three must render the same. Non-trivial: the settings change the rendering; distinct by the calls of both.",
		Assumptions: []string{"titles, lines, spans, constraints, modifiers and style patches add up in the order of the calls, all other settings replace"},
		Parts: []Part{
			{Name: "orders", Quick: 30000, Thorough: 1000000, Fn: settingsCase},
			{Name: "paddings", Quick: 2000, Thorough: 50000, Fn: paddingCase},
		},
	})
}
