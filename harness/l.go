package main

import (
	"fmt"
	"math"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/metafates/bento"
)

// ---------------------------------------------------------------- workloads

type layoutCase struct {
	area    bento.Rect
	cons    []bento.Constraint
	flex    bento.Flex
	dir     bento.Direction
	pad     bento.Padding
	spacing int
}

var flexNames = []string{"legacy", "start", "end", "center", "space-between", "space-around"}

func (c layoutCase) String() string {
	var s []string
	for _, k := range c.cons {
		s = append(s, k.String())
	}
	dir := "vertical"
	if c.dir == bento.DirectionHorizontal {
		dir = "horizontal"
	}
	return fmt.Sprintf("%s %s layout of [%s] with spacing %d and padding %+v in %v", flexNames[c.flex], dir, strings.Join(s, " "), c.spacing, c.pad, c.area)
}

func (c layoutCase) layout() bento.Layout {
	l := bento.NewLayout(c.cons...).WithDirection(c.dir).WithFlex(c.flex).WithPadding(c.pad)
	if c.spacing < 0 {
		l = l.WithSpacing(bento.SpacingOverlap(-c.spacing))
	}
	if c.spacing > 0 {
		l = l.WithSpacing(bento.SpacingSpace(c.spacing))
	}
	return l
}

// overlapping makes segments overlap instead of being apart.
func (t *T) overlapping(c *layoutCase) {
	c.spacing = -t.Range(1, 4)
	if t.Chance(10) {
		c.spacing = -t.Range(1, 40)
	}
}

// span returns the position and length of a rectangle along the direction of
// the layout and across it.
func (c layoutCase) span(r bento.Rect) (pos, size, cross, crossSize int) {
	if c.dir == bento.DirectionHorizontal {
		return r.X, r.Width, r.Y, r.Height
	}
	return r.Y, r.Height, r.X, r.Width
}

func (t *T) layoutConstraint(size int) bento.Constraint {
	near := func() int { return t.IntN(size + 3) }
	switch t.IntN(12) {
	case 0, 1:
		return bento.ConstraintMin(near())
	case 2, 3:
		return bento.ConstraintMax(near())
	case 4, 5, 6:
		return bento.ConstraintLen(near())
	case 7, 8:
		if t.Chance(30) {
			return bento.ConstraintPercentage(t.IntN(130))
		}
		return bento.ConstraintPercentage(pick(t, []int{0, 10, 20, 25, 30, 33, 50, 66, 75, 100}))
	case 9:
		return bento.ConstraintRatio{Num: t.IntN(5), Den: t.IntN(8)}
	default:
		if t.Chance(10) {
			return bento.ConstraintFill(t.Range(1, pick(t, []int{20, 200, 10000})))
		}
		return bento.ConstraintFill(t.Range(1, 5))
	}
}

func (t *T) layoutCase(maxN int) layoutCase {
	var c layoutCase
	c.area = bento.NewRect(t.IntN(40), t.IntN(40))
	if t.Chance(20) {
		c.area = bento.NewRect(t.IntN(300), t.IntN(300))
		if t.Chance(15) {
			far := pick(t, []int{1100, 5000, 70000})
			c.area = bento.NewRect(t.IntN(far), t.IntN(far))
		}
	}
	if t.Chance(50) {
		c.area = c.area.Positioned(t.IntN(100)-50, t.IntN(100)-50)
		if t.Chance(10) {
			c.area = c.area.Positioned(t.IntN(200000)-100000, t.IntN(200000)-100000)
		}
	}
	c.dir = bento.Direction(t.IntN(2))
	c.flex = bento.Flex(t.IntN(6))
	_, size, _, _ := c.span(c.area)
	if t.Chance(30) {
		k := pick(t, []int{4, 4, 4, 30})
		c.pad = bento.NewPadding(t.IntN(k), t.IntN(k), t.IntN(k), t.IntN(k))
		_, size, _, _ = c.span(c.area.Inner(c.pad))
	}
	if t.Chance(40) {
		c.spacing = t.IntN(5)
		if t.Chance(10) {
			c.spacing = t.IntN(80)
			if t.Chance(20) {
				c.spacing = t.IntN(size + 3)
			}
		}
	}
	n := t.Range(1, maxN)
	// Values that may fit together as often as not.
	part := size
	if t.Chance(60) {
		part = size / n
	}
	only := -1
	if t.Chance(15) {
		only = t.IntN(12)
	}
	for len(c.cons) < n {
		k := t.layoutConstraint(part)
		if only >= 0 && kindOf(k) != only%6 {
			continue
		}
		c.cons = append(c.cons, k)
	}
	return c
}

// capWeights keeps weights small, for the precision of the solver.
func (c *layoutCase) capWeights() {
	for i, k := range c.cons {
		if f, ok := k.(bento.ConstraintFill); ok {
			c.cons[i] = min(f, 200)
		}
	}
}

func kindOf(c bento.Constraint) int {
	switch c.(type) {
	case bento.ConstraintMin:
		return 0
	case bento.ConstraintMax:
		return 1
	case bento.ConstraintLen:
		return 2
	case bento.ConstraintPercentage:
		return 3
	case bento.ConstraintRatio:
		return 4
	default:
		return 5
	}
}

func spanString(c layoutCase, rs []bento.Rect) string {
	var s []string
	for _, r := range rs {
		p, n, _, _ := c.span(r)
		s = append(s, fmt.Sprintf("%d+%d", p, n))
	}
	return strings.Join(s, " ")
}

// ---------------------------------------------------------------- L01

// tiling fails unless segments and spacers tile the padded area.
func (t *T) tiling(c layoutCase, segs, spacers []bento.Rect) {
	if len(segs) != len(c.cons) || len(spacers) != len(c.cons)+1 {
		t.Failf("%v has %d segments and %d spacers", c, len(segs), len(spacers))
	}
	inner := c.area.Inner(c.pad)
	start, size, cross, crossSize := c.span(inner)
	if c.spacing < 0 {
		for i, r := range append(slices.Clone(segs), spacers...) {
			p, n, cp, cn := c.span(r)
			if n < 0 || p < start || p+n > start+size {
				t.Failf("%v: segment or spacer %d is %v, not in %v", c, i, r, inner)
			}
			if cp != cross || cn != crossSize {
				t.Failf("%v: segment or spacer %d is %v, which does not fill the other dimension", c, i, r)
			}
		}
		end := start
		for i, r := range spacers {
			p, n, _, _ := c.span(r)
			next := start + size
			if i < len(segs) {
				next, _, _, _ = c.span(segs[i])
			}
			if p != end || n != max(0, next-end) {
				t.Failf("%v: spacer %d is %v, between %d and %d (segments %s)", c, i, r, end, next, spanString(c, segs))
			}
			if i < len(segs) {
				p, n, _, _ = c.span(segs[i])
				end = p + n
			}
		}
		return
	}
	at := start
	for i := 0; i < 2*len(segs)+1; i++ {
		r, what := spacers[i/2], "spacer"
		if i%2 == 1 {
			r, what = segs[i/2], "segment"
		}
		p, n, cp, cn := c.span(r)
		if n < 0 || cn < 0 {
			t.Failf("%v: %s %d is %v", c, what, i/2, r)
		}
		if p != at {
			t.Failf("%v: %s %d starts at %d, want %d (segments %s, spacers %s)", c, what, i/2, p, at, spanString(c, segs), spanString(c, spacers))
		}
		if cp != cross || cn != crossSize {
			t.Failf("%v: %s %d is %v, which does not fill the other dimension", c, what, i/2, r)
		}
		at += n
	}
	if at != start+size {
		t.Failf("%v ends at %d, want %d (segments %s, spacers %s)", c, at, start+size, spanString(c, segs), spanString(c, spacers))
	}
}

func tilingCase(t *T) {
	maxN := 7
	if t.Chance(10) {
		maxN = 14
	}
	c := t.layoutCase(maxN)
	if t.Chance(3) {
		c.cons = nil
	}
	if t.Chance(10) {
		t.overlapping(&c)
	}
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	t.tiling(c, segs, spacers)
	only := c.layout().Split(c.area)
	if !slices.Equal(only, segs) {
		t.Failf("%v: Split returns %v, SplitWithSpacers %v", c, only, segs)
	}
	t.Count("segments", len(segs))
	t.Key(c.String())
	t.Sample("%v: segments %s, spacers %s", c, spanString(c, segs), spanString(c, spacers))
	if c.area.Inner(c.pad).IsEmpty() {
		t.Trivial()
	}
	if len(segs) > 0 && only.Unwrap() != segs[0] {
		t.Failf("Unwrap returned %v of %v", only.Unwrap(), segs)
	}
	dst := make([]bento.Rect, len(segs))
	ptrs := make([]*bento.Rect, len(segs))
	for i := range ptrs {
		if t.Chance(80) {
			ptrs[i] = &dst[i]
		}
	}
	only.Assign(ptrs...)
	for i, p := range ptrs {
		if p != nil && *p != segs[i] {
			t.Failf("Assign stored %v as segment %d of %v", *p, i, segs)
		}
	}
	if len(segs) >= 4 {
		a, b := only.Unwrap2()
		d, e, f := only.Unwrap3()
		g, h, i, j := only.Unwrap4()
		if !slices.Equal([]bento.Rect{a, b, d, e, f, g, h, i, j}, []bento.Rect{segs[0], segs[1], segs[0], segs[1], segs[2], segs[0], segs[1], segs[2], segs[3]}) {
			t.Failf("Unwrap2 to Unwrap4 do not return the first segments")
		}
	}
}

// ---------------------------------------------------------------- L02

func (t *T) anyInt() int {
	return pick(t, []int{0, 1, -1, 2, 7, 50, 100, 101, -100, 1000, 65535, 65536, 1 << 20, 1 << 31, 1 << 40, math.MaxInt, math.MinInt, math.MaxInt32, t.IntN(200), -t.IntN(200)})
}

// extremeCase splits with any values.
func extremeCase(t *T) {
	c := t.layoutCase(6)
	if t.Chance(10) {
		c.area = bento.NewRect(pick(t, []int{0, 1, 65535, 1 << 20, 1 << 24}), pick(t, []int{0, 1, 65535, 1 << 20, 1 << 24}))
	}
	tame := max(c.area.Width, c.area.Height) <= 70000
	anyInt := func() int {
		v := t.anyInt()
		if v > 70000 || v < -70000 {
			tame = false
		}
		return v
	}
	for i := range c.cons {
		if t.Chance(40) {
			continue
		}
		switch t.IntN(6) {
		case 0:
			c.cons[i] = bento.ConstraintMin(anyInt())
		case 1:
			c.cons[i] = bento.ConstraintMax(anyInt())
		case 2:
			c.cons[i] = bento.ConstraintLen(anyInt())
		case 3:
			c.cons[i] = bento.ConstraintPercentage(anyInt())
		case 4:
			c.cons[i] = bento.ConstraintRatio{Num: anyInt(), Den: anyInt()}
		default:
			c.cons[i] = bento.ConstraintFill(anyInt())
		}
	}
	if t.Chance(15) {
		c.spacing = pick(t, []int{0, 50, 1000, 65535, -1, -7, -1000, -65535})
	}
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	if tame {
		t.tiling(c, segs, spacers) // beyond, the solver is not always precise
	}
	// What callers do to a result is not seen by others.
	mine, mine2 := c.layout().SplitWithSpacers(c.area)
	for i := range mine {
		mine[i] = bento.NewRect(7, 7)
	}
	for i := range mine2 {
		mine2[i] = bento.NewRect(7, 7)
	}
	only := c.layout().Split(c.area)
	for i := range only {
		if only[i] != segs[i] {
			t.Failf("%v: %s once, %s again", c, spanString(c, segs), spanString(c, only))
		}
		only[i] = bento.NewRect(7, 7)
	}
	if only = c.layout().Split(c.area); !slices.Equal(only, segs) {
		t.Failf("%v: %s once, %s once that was changed", c, spanString(c, segs), spanString(c, only))
	}
	again, spacers2 := c.layout().SplitWithSpacers(c.area)
	if !slices.Equal(again, segs) || !slices.Equal(spacers, spacers2) {
		t.Failf("%v: %s once, %s again", c, spanString(c, segs), spanString(c, again))
	}
	t.Key(c.String())
	t.Sample("%v: segments %s", c, spanString(c, segs))
}

// manyCase splits among many constraints.
func manyCase(t *T) {
	c := t.layoutCase(1)
	n := t.Range(10, 24)
	for len(c.cons) < n {
		c.cons = append(c.cons, t.layoutConstraint(20))
	}
	c.capWeights()
	c.area = bento.NewRect(t.Range(0, 300), t.Range(0, 300))
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	t.tiling(c, segs, spacers)
	again := c.layout().Split(c.area)
	if !slices.Equal(again, segs) {
		t.Failf("%v: %s once, %s again", c, spanString(c, segs), spanString(c, again))
	}
	t.Count("constraints", n)
	t.Key(c.String())
	t.Sample("%d constraints in %v", n, c.area)
}

// concurrentCase splits the same layouts in many goroutines.
func concurrentCase(t *T) {
	const k = 12
	var cases [k]layoutCase
	var want [k][2]bento.Splitted
	var layouts [k]bento.Layout
	for i := range cases {
		cases[i] = t.layoutCase(5)
		layouts[i] = cases[i].layout()
		want[i][0], want[i][1] = layouts[i].SplitWithSpacers(cases[i].area)
		t.Logf("%v: %s", cases[i], spanString(cases[i], want[i][0]))
	}
	n := max(4, runtime.GOMAXPROCS(0))
	orders := make([][]int, n)
	for g := range orders {
		orders[g] = append(t.Perm(k), t.Perm(k)...)
	}
	var wg sync.WaitGroup
	errs := make([]string, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[g] = fmt.Sprint("panic: ", r)
				}
			}()
			<-start
			for _, i := range orders[g] {
				a, b := layouts[i].SplitWithSpacers(cases[i].area)
				if only := layouts[i].Split(cases[i].area); !slices.Equal(only, a) {
					a = only
				}
				if !slices.Equal(a, want[i][0]) || !slices.Equal(b, want[i][1]) {
					errs[g] = fmt.Sprintf("%v: %s alone, %s concurrently", cases[i], spanString(cases[i], want[i][0]), spanString(cases[i], a))
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			t.Failf("%s", e)
		}
	}
	t.Count("concurrent_splits", n*2*k)
	t.Key(cases[0].String())
}

// ---------------------------------------------------------------- L03

// Strengths of the wishes, from strongest to weakest.
const (
	priceEmpty      = 1_001_001_000 - 1 // an outer spacer not being empty
	priceSpacer     = 100_100_100       // a spacer not having the spacing, or spacers being unequal
	priceBound      = 100_000_000       // a minimum or maximum being violated
	priceLen        = 10_000_000
	pricePercentage = 1_000_000
	priceRatio      = 100_000
	priceBoundEq    = 10_000 // a segment not being at its minimum (legacy) or maximum
	priceFill       = 1000   // a fill segment not being the whole area
	priceGrow       = 100    // fill segments out of proportion, an outer spacer not being the whole area
	priceSpace      = 10     // a spacer not being the whole area in the space modes
	priceEven       = 1      // segments next to each other being unequal
)

// wishes returns the terms of the layout over the sizes of spacer 0, segment 0, spacer 1 ...
func wishes(c layoutCase) []term {
	n := len(c.cons)
	_, size, _, _ := c.span(c.area.Inner(c.pad))
	area := float64(size)
	var terms []term
	eq := func(v int, value dd, price float64) {
		terms = append(terms, term{map[int]dd{v: num(1)}, value, price, price})
	}
	same := func(a, b int, price float64) {
		terms = append(terms, term{map[int]dd{a: num(1), b: num(-1)}, num(0), price, price})
	}
	sp := func(i int) int { return 2 * i }
	sg := func(i int) int { return 2*i + 1 }
	pairs := func(from, to int) {
		for i := from; i < to; i++ {
			for j := i + 1; j < to; j++ {
				same(sp(i), sp(j), priceSpacer)
			}
		}
	}
	spread := func(from, to int) {
		for i := from; i < to; i++ {
			terms = append(terms, term{map[int]dd{sp(i): num(1)}, num(float64(c.spacing)), 0, priceSpacer})
			eq(sp(i), num(area), priceSpace)
		}
	}
	inner := func() {
		for i := 1; i < n; i++ {
			eq(sp(i), num(float64(c.spacing)), priceSpacer)
		}
	}
	switch c.flex {
	case bento.FlexLegacy:
		inner()
		eq(sp(0), num(0), priceEmpty)
		eq(sp(n), num(0), priceEmpty)
	case bento.FlexStart:
		inner()
		eq(sp(0), num(0), priceEmpty)
		eq(sp(n), num(area), priceGrow)
	case bento.FlexEnd:
		inner()
		eq(sp(0), num(area), priceGrow)
		eq(sp(n), num(0), priceEmpty)
	case bento.FlexCenter:
		inner()
		eq(sp(0), num(area), priceGrow)
		eq(sp(n), num(area), priceGrow)
		same(sp(0), sp(n), priceSpacer)
	case bento.FlexSpaceBetween:
		pairs(1, n)
		spread(1, n)
		eq(sp(0), num(0), priceEmpty)
		eq(sp(n), num(0), priceEmpty)
	case bento.FlexSpaceAround:
		pairs(0, n+1)
		spread(0, n+1)
	}
	var grow []int
	scale := func(k bento.Constraint) float64 {
		if f, ok := k.(bento.ConstraintFill); ok {
			return math.Max(1e-3, math.Min(float64(f), 1e4))
		}
		return 1
	}
	for i, k := range c.cons {
		switch k := k.(type) {
		case bento.ConstraintMax:
			terms = append(terms, term{map[int]dd{sg(i): num(1)}, num(float64(k)), priceBound, 0})
			eq(sg(i), num(float64(k)), priceBoundEq)
		case bento.ConstraintMin:
			terms = append(terms, term{map[int]dd{sg(i): num(1)}, num(float64(k)), 0, priceBound})
			if c.flex == bento.FlexLegacy {
				eq(sg(i), num(float64(k)), priceBoundEq)
			} else {
				eq(sg(i), num(area), priceFill)
				grow = append(grow, i)
			}
		case bento.ConstraintLen:
			eq(sg(i), num(float64(k)), priceLen)
		case bento.ConstraintPercentage:
			eq(sg(i), num(area).mul(num(float64(k))).div(num(100)), pricePercentage)
		case bento.ConstraintRatio:
			eq(sg(i), num(area).mul(num(float64(k.Num))).div(num(float64(max(1, k.Den)))), priceRatio)
		case bento.ConstraintFill:
			eq(sg(i), num(area), priceFill)
			grow = append(grow, i)
		}
	}
	for a := range grow {
		for b := a + 1; b < len(grow); b++ {
			i, j := grow[a], grow[b]
			terms = append(terms, term{map[int]dd{sg(i): num(scale(c.cons[j])), sg(j): num(-scale(c.cons[i]))}, num(0), priceGrow, priceGrow})
		}
	}
	if c.flex != bento.FlexLegacy {
		for i := 0; i+1 < n; i++ {
			same(sg(i), sg(i+1), priceEven)
		}
	}
	return terms
}

// optimal fails unless the sizes are those of an optimum rounded to cells.
func (t *T) optimal(c layoutCase, segs, spacers []bento.Rect) {
	inner := c.area.Inner(c.pad)
	start, size, _, _ := c.span(inner)
	n := 2*len(c.cons) + 1
	terms := wishes(c)
	total := float64(size)
	// Spacers may be as small as that.
	var least []dd
	for i := 0; i < n; i++ {
		least = append(least, num(0))
		if c.spacing < 0 && i%2 == 0 && i > 0 && i < n-1 {
			least[i] = num(-float64(size))
			total += float64(size)
		}
	}
	shift := func() {
		for i, k := range terms {
			for v, d := range k.coef {
				k.value = k.value.add(d.mul(least[v]).neg())
			}
			terms[i] = k
		}
	}
	if c.spacing < 0 {
		// Everything is in the area.
		coef := map[int]dd{}
		for v := 0; v < n-1; v++ {
			coef[v] = num(1)
			k := map[int]dd{}
			for v, d := range coef {
				k[v] = d
			}
			terms = append(terms, term{k, num(float64(size)), 1e13, 0}, term{k, num(0), 0, 1e13})
		}
	}
	shift()
	wished := slices.Clip(terms)
	best, x, ok := cheapest(n, total, terms)
	if !ok {
		t.Inconclusivef("the optimum was not found")
	}
	// The positions may be off by half a cell, and a little for how the sizes are computed.
	const off = 0.51
	sum := map[int]dd{}
	for i := 0; i < len(segs); i++ {
		p, s, _, _ := c.span(segs[i])
		for k, at := range []int{p - start, p - start + s} {
			sum[2*i+k] = num(1)
			coef := map[int]dd{}
			for v, d := range sum {
				coef[v] = d
			}
			terms = append(terms,
				term{coef, num(float64(at) + off), 1e13, 0},
				term{coef, num(float64(at) - off), 0, 1e13})
		}
	}
	terms = terms[len(wished):]
	shift()
	terms = append(wished, terms...)
	near, y, ok := cheapest(n, total, terms)
	if !ok {
		t.Inconclusivef("the optimum near the result was not found")
	}
	if near-best > 1e-3+best*1e-12 {
		t.Failf("%v: segments %s, spacers %s are not optimal: the best near them costs %.6f more than the optimum %.6g; optimal sizes are %.2f, near the result %.2f", c, spanString(c, segs), spanString(c, spacers), near-best, best, x, y)
	}
}

func optimalCase(t *T) { t.optimalSplit(t.layoutCase(5)) }

func optimalManyCase(t *T) {
	c := t.layoutCase(10)
	for len(c.cons) < 6 {
		c = t.layoutCase(10)
	}
	c.capWeights()
	t.optimalSplit(c)
}

func optimalOverlapCase(t *T) {
	c := t.layoutCase(5)
	t.overlapping(&c)
	t.optimalSplit(c)
}

func (t *T) optimalSplit(c layoutCase) {
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	t.tiling(c, segs, spacers)
	t.optimal(c, segs, spacers)
	t.Count("segments", len(segs))
	t.Key(c.String())
	t.Sample("%v: segments %s, spacers %s", c, spanString(c, segs), spanString(c, spacers))
	if c.area.Inner(c.pad).IsEmpty() {
		t.Trivial()
	}
}

// ---------------------------------------------------------------- L04

// satisfiable is a layout whose constraints are likely to fit into its area.
func (t *T) satisfiable(c *layoutCase) {
	n := t.Range(1, 7)
	if t.Chance(10) {
		n = t.Range(8, 9)
	}
	_, size, _, _ := c.span(c.area.Inner(c.pad))
	c.cons = nil
	left := float64(size - c.spacing*(n+1))
	kinds := t.Perm(6)[:t.Range(1, 6)]
	least := 1
	if n <= 4 && t.Chance(20) {
		least = 0
	}
	for len(c.cons) < n {
		kind := pick(t, kinds)
		give := max(0, left*float64(t.IntN(100))/100)
		var k bento.Constraint
		switch kind {
		case 0:
			k = bento.ConstraintMin(int(give))
		case 1:
			k = bento.ConstraintMax(int(give))
			if t.Chance(20) {
				k = bento.ConstraintMax(t.IntN(size + 10))
				give = 0
			}
		case 2:
			k = bento.ConstraintLen(int(give))
		case 3:
			p := 0
			if size > 0 {
				p = int(give * 100 / float64(size))
			}
			k = bento.ConstraintPercentage(p)
		case 4:
			den := t.Range(1, 12)
			num := 0
			if size > 0 {
				num = int(give * float64(den) / float64(size))
				if left >= float64(size) && t.Chance(10) {
					// All of the area.
					den = pick(t, []int{1, 1, den})
					num, give = den, float64(size)
				}
			}
			k = bento.ConstraintRatio{Num: num, Den: den}
		default:
			// The tiny weight of Fill(0) goes to the limits of the solver's precision.
			k = bento.ConstraintFill(max(t.IntN(5), least))
			if least > 0 && t.Chance(10) {
				k = bento.ConstraintFill(t.Range(1, pick(t, []int{20, 200, 10000})))
			}
			give = 0
		}
		if t.Chance(3) {
			give = 0
		}
		left -= give
		c.cons = append(c.cons, k)
	}
}

// fairCase checks that constraints are honoured when all of them can be.
func fairCase(t *T) {
	c := t.layoutCase(1)
	t.satisfiable(&c)
	t.fair(c)
}

// fairManyCase is fairCase for many segments that fill.
func fairManyCase(t *T) {
	c := t.layoutCase(1)
	c.spacing = t.IntN(4)
	c.cons = nil
	n := t.Range(10, 12)
	k := pick(t, []int{1, 1, 2, 5})
	for len(c.cons) < n {
		c.cons = append(c.cons, bento.ConstraintFill(t.Range(1, k)))
	}
	t.fair(c)
}

func (t *T) fair(c layoutCase) {
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	n := len(c.cons)
	_, size, _, _ := c.span(c.area.Inner(c.pad))

	var wish [32]float64
	var must, maxima, weights float64
	var have [6]int
	for i, k := range c.cons {
		have[kindOf(k)]++
		switch k := k.(type) {
		case bento.ConstraintMin:
			wish[i] = float64(k)
		case bento.ConstraintMax:
			wish[i] = float64(k)
			maxima += wish[i]
			continue
		case bento.ConstraintLen:
			wish[i] = float64(k)
		case bento.ConstraintPercentage:
			wish[i] = float64(size) * float64(k) / 100
		case bento.ConstraintRatio:
			wish[i] = float64(size) * float64(k.Num) / float64(k.Den)
		case bento.ConstraintFill:
			weights += math.Max(1e-3, float64(k))
		}
		must += wish[i]
	}
	switch {
	case c.flex == bento.FlexSpaceAround:
		must += float64(c.spacing * (n + 1))
	default:
		must += float64(c.spacing * (n - 1))
	}
	if must > float64(size) || c.flex == bento.FlexSpaceBetween && n == 1 {
		// A single segment has no other place for the excess between segments.
		t.Trivial()
		return
	}
	all := must+maxima <= float64(size)
	rest := float64(size) - must - maxima // left for whatever can grow
	if !all {
		rest = 0
	}
	// The kind of constraint that takes up the excess in legacy mode.
	taker := -1
	if c.flex == bento.FlexLegacy {
		for _, k := range []int{5, 0, 4, 3, 2, 1} {
			if have[k] > 0 {
				taker = k
				break
			}
		}
	}
	deviating := 0
	for i, k := range c.cons {
		kind := kindOf(k)
		_, got, _, _ := c.span(segs[i])
		g := float64(got)
		bad := func(want string) {
			t.Failf("%v: segment %d (%v) has size %d, want %s; sizes %s, spacers %s", c, i, k, got, want, spanString(c, segs), spanString(c, spacers))
		}
		const cell = 1.011 // rounding to hundredths first
		if kind == taker && kind != 5 {
			switch {
			case !all:
				if kind == 1 {
					if g > wish[i] {
						bad("at most the maximum")
					}
				} else if math.Abs(g-wish[i]) > cell {
					deviating++ // what the maxima leave
					if g < wish[i] {
						bad("at least that much")
					}
				}
			default:
				if g < wish[i]-cell {
					bad("at least that much")
				}
				if g > wish[i]+cell {
					deviating++
				}
			}
			continue
		}
		switch kind {
		case 0:
			if g < wish[i] {
				bad("at least the minimum")
			}
			if c.flex == bento.FlexLegacy && g > wish[i] {
				bad("the minimum, as others take up the excess")
			}
		case 1:
			if g > wish[i] {
				bad("at most the maximum")
			}
			if all && g != wish[i] {
				bad("the maximum, which fits")
			}
		case 2:
			if g != wish[i] {
				bad("its length")
			}
		case 3, 4:
			if math.Abs(g-wish[i]) > cell {
				bad(fmt.Sprintf("its share of %.2f", wish[i]))
			}
		case 5:
			if c.flex != bento.FlexLegacy && have[0] > 0 {
				break // grows together with the minima
			}
			if weights < 0.1 {
				break // fills without weight share as they like
			}
			want := rest * math.Max(1e-3, float64(k.(bento.ConstraintFill))) / weights
			if math.Abs(g-want) > cell {
				bad(fmt.Sprintf("%.2f, its share of the %.2f that are left", want, rest))
			}
			t.Count("fills", 1)
		}
	}
	if deviating > 1 {
		t.Failf("%v: the excess went to %d segments; sizes %s", c, deviating, spanString(c, segs))
	}
	if c.flex != bento.FlexLegacy && have[0] == 0 && have[5] == 0 && c.flex != bento.FlexSpaceBetween {
		// Nothing grows: the excess goes to the spacers.
		sum := 0
		for i := range spacers {
			_, s, _, _ := c.span(spacers[i])
			sum += s
			if i > 0 && i < n && s < c.spacing-1 {
				t.Failf("%v: spacer %d is smaller than the spacing: %s", c, i, spanString(c, spacers))
			}
		}
	}
	t.Count("segments", n)
	t.Key(c.String())
	t.Sample("%v: segments %s, spacers %s", c, spanString(c, segs), spanString(c, spacers))
}

// ---------------------------------------------------------------- L05

// excessCase checks where the space left by fixed lengths goes.
func excessCase(t *T) {
	c := t.layoutCase(1)
	_, size, _, _ := c.span(c.area.Inner(c.pad))
	n := t.Range(1, 8)
	if t.Chance(10) {
		n = t.Range(9, 14)
	}
	c.cons = nil
	left := size - c.spacing*(n+1)
	if left < 0 {
		c.spacing = 0
		left = size
	}
	used := 0
	least := 0
	if t.Chance(15) {
		t.overlapping(&c)
		least = -c.spacing
		left = size
		if n = min(n, size/least); n == 0 {
			c.spacing, least, n = 0, 0, 1
		}
	}
	for len(c.cons) < n {
		if least > 0 {
			k := least + t.IntN(max(1, (left-used)/(n-len(c.cons))-least+1))
			used += k
			c.cons = append(c.cons, bento.ConstraintLen(k))
			continue
		}
		k := t.IntN(max(1, (left-used)*2/(n-len(c.cons))+1))
		k = min(k, left-used)
		if t.Chance(30) {
			k /= 2
		}
		used += k
		c.cons = append(c.cons, bento.ConstraintLen(k))
	}
	t.Logf("%v", c)
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	t.tiling(c, segs, spacers)
	t.Key(c.String())
	t.Sample("%v: segments %s, spacers %s", c, spanString(c, segs), spanString(c, spacers))
	if size == 0 {
		t.Trivial()
	}
	start, _, _, _ := c.span(c.area.Inner(c.pad))
	gap := func(i int) int {
		from, to := start, start+size
		if i > 0 {
			p, s, _, _ := c.span(segs[i-1])
			from = p + s
		}
		if i < n {
			to, _, _, _ = c.span(segs[i])
		}
		return to - from
	}
	fail := func(what string) {
		t.Failf("%v: %s; segments %s, spacers %s", c, what, spanString(c, segs), spanString(c, spacers))
	}
	excess := size - used - c.spacing*(n-1)
	t.Count("cells_left", excess)
	if c.flex == bento.FlexLegacy || c.flex == bento.FlexSpaceBetween && n == 1 {
		// All of the excess goes to one of the segments.
		longer := 0
		for i, k := range c.cons {
			_, s, _, _ := c.span(segs[i])
			switch want := int(k.(bento.ConstraintLen)); {
			case s == want:
			case s == want+excess:
				longer++
			default:
				fail(fmt.Sprintf("segment %d has neither its length nor the excess too", i))
			}
		}
		if excess > 0 && longer != 1 {
			fail("not one of the segments took the excess")
		}
		for i := 0; i <= n; i++ {
			want := c.spacing
			if i == 0 || i == n {
				want = 0
			}
			if gap(i) != want {
				fail(fmt.Sprintf("spacer %d is not %d", i, want))
			}
		}
		return
	}
	for i, k := range c.cons {
		if _, s, _, _ := c.span(segs[i]); s != int(k.(bento.ConstraintLen)) {
			fail(fmt.Sprintf("segment %d has not its length", i))
		}
	}
	equal := func(from, to, total int) {
		share := float64(total) / float64(to-from)
		for i := from; i < to; i++ {
			if math.Abs(float64(gap(i))-share) > 1.011 {
				fail(fmt.Sprintf("spacer %d is not near %.2f", i, share))
			}
		}
	}
	exact := func(i, want int) {
		if gap(i) != want {
			fail(fmt.Sprintf("spacer %d is not %d", i, want))
		}
	}
	free := size - used
	switch c.flex {
	case bento.FlexStart:
		exact(0, 0)
		exact(n, excess)
	case bento.FlexEnd:
		exact(0, excess)
		exact(n, 0)
	case bento.FlexCenter:
		if d := gap(0) - gap(n); d < -1 || d > 1 || gap(0)+gap(n) != excess {
			fail("the segments are not in the centre")
		}
	case bento.FlexSpaceBetween:
		exact(0, 0)
		exact(n, 0)
		equal(1, n, free)
	case bento.FlexSpaceAround:
		equal(0, n+1, free)
	}
	if c.flex != bento.FlexSpaceBetween && c.flex != bento.FlexSpaceAround {
		for i := 1; i < n; i++ {
			exact(i, c.spacing)
		}
	} else {
		for i := 1; i < n; i++ {
			if gap(i) < c.spacing {
				fail(fmt.Sprintf("spacer %d is smaller than the spacing", i))
			}
		}
	}
}

// ---------------------------------------------------------------- L06

func transposed(r bento.Rect) bento.Rect {
	return bento.NewRect(r.Height, r.Width).Positioned(r.Y, r.X)
}

// symmetryCase compares related splits.
func symmetryCase(t *T) {
	c := t.layoutCase(7)
	if t.Chance(15) {
		t.overlapping(&c)
	}
	t.Logf("%v", c)
	if c.area.Inner(c.pad).IsEmpty() {
		t.Trivial() // there is no place left
	}
	segs, spacers := c.layout().SplitWithSpacers(c.area)
	check := func(what string, d layoutCase, f func(bento.Rect) bento.Rect) {
		s2, p2 := d.layout().SplitWithSpacers(d.area)
		if len(s2) != len(segs) || len(p2) != len(spacers) {
			t.Failf("%v: %s has other numbers of segments or spacers", c, what)
		}
		for i := range segs {
			if f(segs[i]) != s2[i] {
				t.Failf("%v: segment %d is %v, but %v when %s", c, i, segs[i], s2[i], what)
			}
		}
		for i := range spacers {
			if f(spacers[i]) != p2[i] {
				t.Failf("%v: spacer %d is %v, but %v when %s", c, i, spacers[i], p2[i], what)
			}
		}
		t.Count("comparisons", len(segs)+len(spacers))
	}
	d := c
	d.area = c.area.Inner(c.pad)
	d.pad = bento.Padding{}
	check("the padded area is split", d, func(r bento.Rect) bento.Rect { return r })
	if d.area.IsEmpty() {
		return
	}

	d = c
	d.area = transposed(c.area)
	d.pad = bento.Padding{Top: c.pad.Left, Left: c.pad.Top, Bottom: c.pad.Right, Right: c.pad.Bottom}
	d.dir = bento.DirectionHorizontal
	if c.dir == bento.DirectionHorizontal {
		d.dir = bento.DirectionVertical
	}
	check("transposed", d, transposed)

	dx, dy := t.IntN(2000)-1000, t.IntN(2000)-1000
	d = c
	d.area.X += dx
	d.area.Y += dy
	check(fmt.Sprintf("moved by %d, %d", dx, dy), d, func(r bento.Rect) bento.Rect {
		r.X += dx
		r.Y += dy
		return r
	})

	// The extent across the layout does not matter.
	d = c
	grow := t.IntN(50)
	switch inner := c.area.Inner(c.pad); {
	case t.Chance(10):
		grow = t.IntN(5000)
	case t.Chance(20) && c.dir == bento.DirectionHorizontal:
		grow = -inner.Height // nothing is left
	case t.Chance(20) && c.dir == bento.DirectionVertical:
		grow = -inner.Width
	}
	horizontal := c.dir == bento.DirectionHorizontal
	if horizontal {
		d.area.Height += grow
	} else {
		d.area.Width += grow
	}
	check(fmt.Sprintf("the area is bigger by %d in the other dimension", grow), d, func(r bento.Rect) bento.Rect {
		if horizontal {
			r.Height += grow
		} else {
			r.Width += grow
		}
		return r
	})
	// Horizontal and Vertical are the directions.
	l := c.layout().Vertical()
	if horizontal {
		l = c.layout().Horizontal()
	}
	if !slices.Equal(l.Split(c.area), segs) {
		t.Failf("%v: not the same with the direction set by its own method", c)
	}
	t.Key(c.String(), dx, dy)
	t.Sample("%v: segments %s", c, spanString(c, segs))
}

func init() {
	rule := "One layout of 1 to 14 random constraints of all kinds whose values are scaled to the area or to equal parts of it, in a random flex mode, direction, area (at any offset), padding and spacing. Trivial if the padded area is empty. Distinct: different layouts."
	register(&Check{ID: "L01",
		Rule:        rule,
		Assumptions: []string{"padding is not negative"},
		Parts:       []Part{{Name: "splits", Quick: 30000, Thorough: 600000, Fn: tilingCase}}})
	register(&Check{ID: "L02",
		Rule:        rule + " In part extreme, values are replaced by any integers, in part many there are up to 24 constraints, in part concurrent 12 layouts are split by all of 8 goroutines at a time, also under the race detector.",
		Assumptions: []string{"at most 24 constraints", "a split that uses more than 60 s of CPU time does not end"},
		Parts: []Part{
			{Name: "extreme", Quick: 30000, Thorough: 600000, Fn: extremeCase},
			{Name: "many", Quick: 300, Thorough: 6000, Fn: manyCase},
			{Name: "concurrent", Quick: 100, Thorough: 3000, Fn: concurrentCase, Serial: true},
			{Name: "race", Quick: 15, Thorough: 400, Fn: concurrentCase, Serial: true, Race: true},
		}})
	register(&Check{ID: "L03",
		Rule: rule + " The result is compared with an optimum computed by a simplex in double-double arithmetic.",
		Assumptions: []string{"at most 10 constraints", "the strengths of the wishes, which are part of the property, are those the harness lists",
			"positions may be half a cell off the optimum"},
		Parts: []Part{
			{Name: "splits", Quick: 60000, Thorough: 3000000, Fn: optimalCase},
			{Name: "many", Quick: 2000, Thorough: 60000, Fn: optimalManyCase},
			{Name: "overlap", Quick: 6000, Thorough: 300000, Fn: optimalOverlapCase},
		}})
	register(&Check{ID: "L04",
		Rule:        "One layout of 1 to 9 constraints of a random set of kinds, chosen such that most fit into the area together, or of 10 to 12 that fill. Trivial if they do not. Distinct: different layouts.",
		Assumptions: []string{"at most 9 constraints of different kinds, so that many weaker wishes do not outweigh a stronger one"},
		Parts: []Part{
			{Name: "splits", Quick: 60000, Thorough: 2000000, Fn: fairCase},
			{Name: "fills", Quick: 1000, Thorough: 30000, Fn: fairManyCase},
		}})
	register(&Check{ID: "L05",
		Rule:        "One layout of 1 to 14 lengths that fit into the area with the spacing. Trivial if the area is empty. Distinct: different layouts.",
		Assumptions: []string{"a single segment between spaces takes up the excess"},
		Parts:       []Part{{Name: "splits", Quick: 40000, Thorough: 1500000, Fn: excessCase}}})
	register(&Check{ID: "L06",
		Rule:  rule + " It is split again transposed, moved, padded beforehand, and bigger in the other dimension.",
		Parts: []Part{{Name: "splits", Quick: 10000, Thorough: 400000, Fn: symmetryCase}}})
}
