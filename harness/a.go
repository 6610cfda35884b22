package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- commands

type nodeKind int

const (
	nLeaf nodeKind = iota
	nBatch
	nRawBatch // a command that returns a batch message holding nils as well
	nSeq
	nNil
)

// node is a tree of commands.
type node struct {
	kind nodeKind
	kids []*node
	leaf *leaf
	// The commands were put together once before, and what came of it is not used.
	again bool
}

type leafKind int

const (
	lPlain   leafKind = iota
	lNil              // returns nil
	lBlocked          // runs until it is released
	lQuit             // asks the program to quit
	lPanic
	lLatePanic // runs until the program is over, then panics
	lChain     // its message makes the model return it again, for ever
)

type leaf struct {
	id      int
	kind    leafKind
	at      int      // a possible moment for it to run
	barrier *barrier // commands that have to run at the same time
	after   *leaf    // waits for this one to end
	pause   int
	spawn   *node // what the model returns for the message

	late      bool // ends only after the blocked ones have been released
	afterQuit bool // comes after a quit in its sequence
	uncertain bool // may be cut off by the end of the program
	done      chan struct{}
	doneOnce  sync.Once
	starts    atomic.Int32
	ends      atomic.Int32
	updates   atomic.Int32
}

func (l *leaf) String() string {
	s := fmt.Sprintf("%d", l.id)
	switch l.kind {
	case lNil:
		s += "nil"
	case lBlocked:
		s += "blocked"
	case lQuit:
		s += "quit"
	case lPanic:
		s += "panic"
	case lLatePanic:
		s += "panics late"
	case lChain:
		s += "chain"
	}
	if l.after != nil {
		s += fmt.Sprintf(" after %d", l.after.id)
	}
	if l.spawn != nil && l.kind != lChain {
		s += " spawns " + l.spawn.String()
	}
	return s
}

func (n *node) String() string {
	switch n.kind {
	case nNil:
		return "nil"
	case nLeaf:
		return n.leaf.String()
	}
	var p []string
	for _, k := range n.kids {
		p = append(p, k.String())
	}
	return []string{"", "Batch", "BatchMsg", "Sequence"}[n.kind] + "(" + strings.Join(p, ", ") + ")"
}

type barrier struct {
	n    atomic.Int32
	open chan struct{}
}

// leafMsg is the message a command produces.
type leafMsg struct{ id int }

// program is a random application together with what happens to it.
type program struct {
	t *T
	s *session
	m *monitor
	o programOpts

	leaves  []*leaf
	reach   map[int]bool
	root    *node
	release chan struct{} // of blocked commands
	ended   chan struct{} // Run has returned
	over    chan struct{} // closed at the very end
	relOnce sync.Once
	endOnce sync.Once

	mu        sync.Mutex
	typed     []rune
	spawnKey  map[rune]*node
	exitKey   rune
	exitTree  *node
	panicAt   string // the method that panics
	panicNow  atomic.Bool
	cause     string
	causeTime int // index of the event
	cancel    context.CancelFunc
	ctx       context.Context
	keySeen   atomic.Int64
	sizes     int
	lastMsgs  atomic.Int64
	chain     atomic.Int64
	calls     atomic.Int64
	slowAt    map[int64]time.Duration
}

type programOpts struct {
	exits  []string
	quiet  bool // wait until everything has been handled before the end
	late   bool // blocked commands
	chains bool
	size   int // number of commands
	resize bool
	stall  bool // the methods of the model take their time
	slow   bool // at times a very long time
	crowd  bool // very many commands at once, long sequences, deep nesting
	// which waits are verdicts of this check
	ownDelivery, ownReturn, ownBlocking bool
}

// tree makes commands that may run from the moment lo on, and returns when they can be finished.
func (p *program) tree(depth, lo int, budget *int) (*node, int) {
	t := p.t
	if depth <= 0 || *budget <= 1 || t.Chance(25) {
		if t.Chance(8) {
			return &node{kind: nNil}, lo
		}
		return p.newLeaf(lo, depth, budget)
	}
	n := &node{kind: pick(t, []nodeKind{nBatch, nBatch, nRawBatch, nSeq, nSeq}), again: t.Chance(30)}
	k := t.Range(0, 5)
	if t.Chance(5) {
		k = t.Range(6, 40)
	}
	hi := lo
	var flat []*leaf
	for i := 0; i < k && *budget > 0; i++ {
		d := depth - 1
		if k > 6 {
			d = 0
		}
		kid, end := p.tree(d, lo, budget)
		n.kids = append(n.kids, kid)
		hi = max(hi, end)
		if n.kind == nSeq {
			lo = end
		}
		if kid.kind == nLeaf && kid.leaf.kind == lPlain && kid.leaf.after == nil {
			flat = append(flat, kid.leaf)
		}
	}
	// The commands directly in a batch run at the same time.
	if n.kind != nSeq && len(flat) > 1 && t.Chance(50) {
		b := &barrier{open: make(chan struct{})}
		b.n.Store(int32(len(flat)))
		at := 0
		for _, l := range flat {
			at = max(at, l.at)
		}
		for _, l := range flat {
			l.barrier = b
			l.at = at
		}
		hi = max(hi, at+1)
	}
	return n, hi
}

// crowd makes commands in unusual numbers and depths.
func (p *program) crowd() *node {
	n := p.crowdOf()
	if p.t.Chance(40) {
		var kids []*node
		if p.t.Chance(50) {
			kids = append(kids, &node{kind: nNil})
		}
		kids = append(kids, n)
		for i := p.t.Range(0, 3); i > 0; i-- {
			l := &leaf{id: len(p.leaves), at: 2000 + len(kids), done: make(chan struct{})}
			p.leaves = append(p.leaves, l)
			kids = append(kids, &node{kind: nLeaf, leaf: l})
		}
		n = &node{kind: nSeq, kids: kids}
	}
	return n
}

func (p *program) crowdOf() *node {
	t := p.t
	plain := func(at int) *node {
		l := &leaf{id: len(p.leaves), at: at, done: make(chan struct{})}
		if t.Chance(5) {
			l.kind = lNil
		}
		p.leaves = append(p.leaves, l)
		return &node{kind: nLeaf, leaf: l}
	}
	switch t.IntN(4) {
	case 0: // all of them have to run at the same time
		n := &node{kind: pick(t, []nodeKind{nBatch, nRawBatch})}
		b := &barrier{open: make(chan struct{})}
		k := pick(t, []int{40, 100, 150, 300, 600, 1100, 1500})
		b.n.Store(int32(k))
		for i := 0; i < k; i++ {
			l := plain(0)
			l.leaf.barrier = b
			n.kids = append(n.kids, l)
		}
		p.t.Count("commands that run at the same time", k)
		return n
	case 1: // in batches of batches, and of sequences
		n := &node{kind: nRawBatch}
		b := &barrier{open: make(chan struct{})}
		k := pick(t, []int{40, 100, 300, 700})
		b.n.Store(int32(k))
		for i := 0; i < k; {
			sub := &node{kind: nRawBatch}
			for j := t.Range(1, 60); j > 0 && i < k; j-- {
				l := plain(0)
				l.leaf.barrier = b
				if t.Chance(30) {
					sub.kids = append(sub.kids, &node{kind: nSeq, kids: []*node{l, plain(1)}})
				} else {
					sub.kids = append(sub.kids, l)
				}
				i++
			}
			n.kids = append(n.kids, sub)
		}
		p.t.Count("commands that run at the same time", k)
		return n
	case 2: // a long sequence
		n := &node{kind: nSeq}
		for i := t.Range(30, 600); i > 0; i-- {
			n.kids = append(n.kids, plain(len(n.kids)))
		}
		p.t.Count("commands in long sequences", len(n.kids))
		return n
	}
	// a deep tower
	n := plain(0)
	for i := t.Range(6, 120); i > 0; i-- {
		kids := []*node{n}
		k := pick(t, []nodeKind{nBatch, nRawBatch, nSeq, nSeq})
		if t.Chance(40) {
			kids = append(kids, plain(1000))
		}
		if t.Chance(40) {
			kids = append([]*node{plain(0)}, kids...)
		}
		if t.Chance(10) {
			kids = append(kids, &node{kind: nNil})
		}
		n = &node{kind: k, kids: kids, again: t.Chance(30)}
		p.t.Count("levels of nested commands", 1)
	}
	return n
}

func (p *program) newLeaf(lo, depth int, budget *int) (*node, int) {
	t := p.t
	*budget--
	l := &leaf{id: len(p.leaves), at: lo + t.IntN(20), done: make(chan struct{}), pause: t.IntN(12)}
	p.leaves = append(p.leaves, l)
	switch {
	case t.Chance(8):
		l.kind = lNil
	case p.o.late && t.Chance(10):
		l.kind = lBlocked
		if !p.o.quiet && t.Chance(40) {
			l.kind = lLatePanic
		}
	}
	end := l.at + 1
	if l.kind == lPlain && depth > 0 && *budget > 0 && t.Chance(15) {
		l.spawn, _ = p.tree(depth-1, end, budget)
	}
	return &node{kind: nLeaf, leaf: l}, end
}

// link makes commands wait for others that can end before.
func (p *program) link() {
	t := p.t
	for _, l := range p.leaves {
		if l.kind != lPlain || l.barrier != nil || !t.Chance(15) {
			continue
		}
		o := pick(t, p.leaves)
		if o.at < l.at && o.kind == lPlain {
			l.after = o
		}
	}
}

// markLate finds the commands that end only after the blocked ones have been released.
func (p *program) markLate(n *node, late bool) bool {
	if n == nil {
		return false
	}
	switch n.kind {
	case nLeaf:
		l := n.leaf
		l.late = l.late || late || l.kind == lBlocked || l.kind == lLatePanic
		if l.spawn != nil && l.kind != lChain {
			p.markLate(l.spawn, l.late)
		}
		return l.late
	case nSeq:
		for _, k := range n.kids {
			if p.markLate(k, late) {
				late = true
			}
		}
		return late
	case nBatch, nRawBatch:
		any := late
		for _, k := range n.kids {
			if p.markLate(k, late) {
				any = true
			}
		}
		return any
	}
	return false
}

// settleLate spreads lateness along barriers and waits until nothing changes.
func (p *program) settleLate(roots []*node) {
	for {
		before := p.countLate()
		for _, r := range roots {
			p.markLate(r, false)
		}
		late := map[*barrier]bool{}
		for _, l := range p.leaves {
			if l.after != nil && l.after.late {
				l.late = true
			}
			if l.late && l.barrier != nil {
				late[l.barrier] = true
			}
		}
		for _, l := range p.leaves {
			if l.barrier != nil && late[l.barrier] {
				l.late = true
			}
			if l.late && l.spawn != nil && l.kind != lChain {
				p.markLate(l.spawn, true)
			}
		}
		if p.countLate() == before {
			return
		}
	}
}

func (p *program) countLate() (n int) {
	for _, l := range p.leaves {
		if l.late {
			n++
		}
	}
	return n
}

func dawdle(n int) {
	switch {
	case n < 5:
	case n < 9:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(n-8) * 150 * time.Microsecond)
	}
}

// cmd makes the command.
func (p *program) cmd(n *node) bento.Cmd {
	if n == nil {
		return nil
	}
	switch n.kind {
	case nLeaf:
		return func() bento.Msg { return p.runLeaf(n.leaf) }
	case nNil:
		return nil
	}
	var cmds []bento.Cmd
	for _, k := range n.kids {
		cmds = append(cmds, p.cmd(k))
	}
	if n.again {
		bento.Batch(cmds...)
		bento.Sequence(cmds...)
	}
	switch n.kind {
	case nBatch:
		return bento.Batch(cmds...)
	case nRawBatch:
		return func() bento.Msg { return bento.BatchMsg(cmds) }
	}
	return bento.Sequence(cmds...)
}

func (p *program) runLeaf(l *leaf) bento.Msg {
	l.starts.Add(1)
	p.m.log(event{kind: evStart, id: l.id})
	dawdle(l.pause)
	if l.barrier != nil {
		if l.barrier.n.Add(-1) == 0 {
			close(l.barrier.open)
		}
		select {
		case <-l.barrier.open:
		case <-p.over:
		}
	}
	if l.after != nil {
		select {
		case <-l.after.done:
		case <-p.over:
		}
	}
	switch l.kind {
	case lBlocked:
		<-p.release
	case lLatePanic:
		<-p.ended
	}
	if l.kind == lQuit || l.kind == lPanic {
		p.mark()
	}
	p.m.log(event{kind: evEnd, id: l.id})
	l.ends.Add(1)
	l.doneOnce.Do(func() { close(l.done) })
	switch l.kind {
	case lNil:
		return nil
	case lQuit:
		return bento.Quit()
	case lPanic, lLatePanic:
		p.boom("a command")
	}
	return leafMsg{l.id}
}

// errBoom is what the model panics with, at times.
var errBoom = errors.New("boom")

func (p *program) boom(where string) {
	switch p.t.Index % 4 {
	case 0:
		panic("boom in " + where)
	case 1:
		panic(errBoom)
	case 2:
		var m *appModel
		_ = m.ver
	}
	var l []int
	_ = l[p.t.Index]
}

// ---------------------------------------------------------------- life

// The ways a program ends.
var allExits = []string{"quit", "quit in batch", "quit in sequence", "quit from Init", "context", "context before", "deadline", "parent context", "panic in command", "panic in batch", "panic in sequence",
	"panic in Update", "panic in Render", "panic in Init", "panic in first Render", "input", "output", "size"}

// Two causes at a time; either may be reported.
var doubleExits = []string{"context and panic in Update", "context and panic in Render", "context and panic in command", "context and quit", "panic or quit"}

// newProgram makes a program and the terminal it will run on.
func (t *T) newProgram(o programOpts) *program {
	runtime.GOMAXPROCS(pick(t, []int{1, 2, 3, 8}))
	p := &program{t: t, o: o, m: &monitor{}, release: make(chan struct{}), ended: make(chan struct{}), over: make(chan struct{}), spawnKey: map[rune]*node{}, causeTime: -1}
	p.s = t.newSession(t.Range(1, 90), t.Range(1, 30))
	p.cause = pick(t, o.exits)

	if o.slow {
		p.slowAt = map[int64]time.Duration{}
		left := 11 * time.Second
		for i := t.Range(1, 3); i > 0; i-- {
			d := pick(t, []time.Duration{300 * time.Millisecond, 700 * time.Millisecond, 1200 * time.Millisecond, 2500 * time.Millisecond, 5500 * time.Millisecond, 11 * time.Second})
			d = min(d, left)
			left -= d
			k := int64(t.Range(3, 16))
			p.slowAt[k] = max(d, p.slowAt[k])
		}
		t.Logf("calls that take long: %v", p.slowAt)
	}
	budget := o.size
	var roots []*node
	if o.crowd {
		p.root = p.crowd()
	} else {
		p.root, _ = p.tree(t.Range(1, 5), 0, &budget)
	}
	roots = append(roots, p.root)
	for i := t.IntN(4); i > 0; i-- {
		budget := max(1, o.size/4)
		n, _ := p.tree(t.Range(0, 4), 1000*i, &budget)
		p.spawnKey[0x5000+rune(i)] = n
		roots = append(roots, n)
	}
	p.link()
	if o.chains && t.Chance(40) {
		// On their own, as they do not end.
		for i := t.Range(1, 3); i > 0; i-- {
			l := &leaf{id: len(p.leaves), kind: lChain, done: make(chan struct{}), late: true}
			p.leaves = append(p.leaves, l)
			n := &node{kind: nLeaf, leaf: l}
			l.spawn = n
			p.root = &node{kind: nRawBatch, kids: []*node{p.root, n}}
		}
		roots[0] = p.root.kids[0]
		for roots[0].kind == nRawBatch && len(roots[0].kids) == 2 && roots[0].kids[1].kind == nLeaf && roots[0].kids[1].leaf.kind == lChain {
			roots[0] = roots[0].kids[0]
		}
	}
	p.settleLate(roots)
	p.exitKey = 0xe100
	p.makeExit()

	p.ctx, p.cancel = context.WithCancel(context.Background())
	switch p.cause {
	case "deadline":
		c := &deadlineContext{context.Background(), make(chan struct{})}
		var once sync.Once
		p.ctx, p.cancel = c, func() { once.Do(func() { close(c.done) }) }
	case "parent context":
		parent, cancel := context.WithCancelCause(context.Background())
		ctx, cancelChild := context.WithTimeout(context.WithValue(parent, "k", 1), time.Hour)
		p.ctx, p.cancel = ctx, func() { cancel(errBoom); cancelChild() }
	}
	p.m.onInit = func() bento.Cmd {
		p.stall()
		if p.panicAt == "Init" {
			p.mark()
			p.boom("Init")
		}
		return p.cmd(p.root)
	}
	p.m.onUpdate = p.update
	p.m.onRender = func(a *appModel, area bento.Rect, buffer *bento.Buffer) {
		p.stall()
		p.paint(a, area, buffer)
		if p.panicAt == "first Render" || p.panicAt == "Render" && p.panicNow.Load() {
			p.mark()
			p.boom("Render")
		}
	}
	return p
}

// paint draws something that depends on the model.
func (p *program) paint(a *appModel, area bento.Rect, buffer *bento.Buffer) {
	if area.IsEmpty() {
		return
	}
	style := bento.NewStyle().Red().Bold()
	if a.ver&1 == 0 {
		style = bento.NewStyle().Underlined()
	}
	buffer.SetStringN(area.X, area.Y, fmt.Sprintf("model %d", a.ver), area.Width, style)
	buffer.SetStyle(bento.Rect{Position: bento.Position{X: area.X, Y: area.Bottom() - 1}, Width: area.Width, Height: 1}, style)
}

func (p *program) stall() {
	if d := p.slowAt[p.calls.Add(1)]; d > 0 {
		time.Sleep(d)
	}
	if p.o.stall && p.t.Index&1 == 0 {
		n := p.lastMsgs.Add(1)
		dawdle(int(n*7) % 13)
	}
}

// mark records that the cause of the end has been given.
func (p *program) mark() {
	n := p.m.log(event{kind: evExit, text: p.cause})
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.causeTime < 0 {
		p.causeTime = n
	}
}

// makeExit prepares the way the program ends.
func (p *program) makeExit() {
	t := p.t
	leafOf := func(k leafKind) *node {
		l := &leaf{id: len(p.leaves), kind: k, done: make(chan struct{}), uncertain: true, pause: t.IntN(12)}
		p.leaves = append(p.leaves, l)
		return &node{kind: nLeaf, leaf: l}
	}
	some := func() *node { return leafOf(pick(t, []leafKind{lPlain, lPlain, lNil, lBlocked, lLatePanic})) }
	wrap := func(k leafKind) *node {
		switch {
		case strings.HasSuffix(p.cause, "batch"):
			n := &node{kind: pick(t, []nodeKind{nBatch, nRawBatch}), kids: []*node{some(), leafOf(k), some()}}
			if t.Chance(30) {
				n = &node{kind: nSeq, kids: []*node{n, some()}}
			}
			return n
		case strings.HasSuffix(p.cause, "sequence"):
			first := leafOf(pick(t, []leafKind{lPlain, lNil}))
			after := leafOf(lPlain)
			after.leaf.afterQuit = k == lQuit
			n := &node{kind: nSeq, kids: []*node{first, leafOf(k), after}}
			if t.Chance(30) {
				n = &node{kind: nRawBatch, kids: []*node{n, some()}}
			}
			return n
		}
		return leafOf(k)
	}
	switch {
	case p.cause == "quit from Init":
		p.root = &node{kind: nRawBatch, kids: []*node{p.root, leafOf(lQuit)}}
		for _, l := range p.leaves {
			l.uncertain = true
		}
	case p.cause == "panic or quit":
		p.exitTree = &node{kind: pick(t, []nodeKind{nBatch, nRawBatch}), kids: []*node{leafOf(lPanic), leafOf(lQuit), leafOf(lPanic), some()}}
	case p.cause == "context and quit":
		p.exitTree = wrap(lQuit)
	case p.cause == "context and panic in command":
		p.exitTree = wrap(lPanic)
	case strings.HasPrefix(p.cause, "context and panic in "):
		p.panicAt = strings.TrimPrefix(p.cause, "context and panic in ")
	case strings.HasPrefix(p.cause, "quit"):
		p.exitTree = wrap(lQuit)
	case p.cause == "panic in command", p.cause == "panic in batch", p.cause == "panic in sequence":
		p.exitTree = wrap(lPanic)
	case strings.HasPrefix(p.cause, "panic in "):
		p.panicAt = strings.TrimPrefix(p.cause, "panic in ")
	}
}

func (p *program) update(next *appModel, msg bento.Msg) bento.Cmd {
	p.stall()
	switch msg := msg.(type) {
	case leafMsg:
		l := p.leaves[msg.id]
		l.updates.Add(1)
		if l.kind == lChain {
			p.chain.Add(1)
			return p.cmd(l.spawn)
		}
		return p.cmd(l.spawn)
	case bento.KeyMsg:
		if msg.Type != bento.KeyRunes {
			return nil
		}
		var cmds []*node
		for _, r := range msg.Runes {
			p.keySeen.Add(1)
			if n := p.spawnKey[r]; n != nil {
				cmds = append(cmds, n)
			}
			if r == p.exitKey {
				p.mark()
				if strings.HasPrefix(p.cause, "context and") {
					p.cancel()
				}
				if p.panicAt == "Update" {
					p.boom("Update")
				}
				p.panicNow.Store(true)
				if p.exitTree != nil {
					cmds = append(cmds, p.exitTree)
				}
			}
		}
		switch len(cmds) {
		case 0:
		case 1:
			return p.cmd(cmds[0])
		default:
			return p.cmd(&node{kind: nRawBatch, kids: cmds})
		}
	}
	return nil
}

// early reports whether the program ends by itself right after the start.
func (p *program) early() bool {
	switch p.cause {
	case "quit from Init", "context before", "panic in Init", "panic in first Render":
		return true
	}
	return false
}

func (p *program) typeKey(r rune) {
	p.mu.Lock()
	p.typed = append(p.typed, r)
	p.mu.Unlock()
	p.m.log(event{kind: evTyped, text: string(r)})
	p.s.typ([]byte(string(r)))
}

func (p *program) typedCount() int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return int64(len(p.typed))
}

// await waits for something. Unless it is the business of the check, it makes
// the case inconclusive when it does not happen.
func (p *program) await(own bool, what string, cond func() bool) {
	p.s.soft = !own
	defer func() { p.s.soft = false }()
	p.s.await(what, func() bool {
		select {
		case <-p.s.done:
			if !own {
				p.t.Inconclusivef("the program ends too early: %v", p.s.err)
			}
			p.t.Failf("the program ends by itself: %v, while %s", p.s.err, what)
		default:
		}
		return cond()
	})
}

// handled reports whether the messages of all the commands that can end by now have been handled.
func (p *program) handled(late bool) (bool, *leaf) {
	for _, l := range p.leaves {
		if l.uncertain || l.kind == lChain || l.late && !late || !p.reachable(l) {
			continue
		}
		if l.ends.Load() == 0 || l.kind != lNil && l.updates.Load() == 0 {
			return false, l
		}
	}
	return true, nil
}

func (p *program) reachable(l *leaf) bool { return p.reach[l.id] }

// run runs the program to its end and returns the events.
func (p *program) run() []event {
	t := p.t
	defer p.cleanup()
	p.findReachable()
	t.Logf("the program ends by: %s; commands: %v", p.cause, p.root)
	for r, n := range p.spawnKey {
		t.Logf("the key %c makes: %v", r, n)
	}
	if p.exitTree != nil {
		t.Logf("the key %U makes: %v", p.exitKey, p.exitTree)
	}
	ctx := p.ctx
	if p.cause == "context before" {
		p.mark()
		p.cancel()
	} else if !p.ctxNeeded() && t.Chance(50) {
		ctx = nil
	}
	p.s.run(&appModel{p.m, 0}, ctx)
	if !p.early() {
		p.drive()
	}
	p.s.soft = !p.o.ownReturn
	p.s.awaitReturn("it was ended by " + p.cause)
	p.s.soft = false
	p.m.log(event{kind: evReturned})
	ev := p.m.snapshot()
	p.endLate()
	return ev
}

// ctxNeeded reports whether the program needs the context to end.
func (p *program) ctxNeeded() bool {
	return strings.HasPrefix(p.cause, "context") || p.cause == "deadline" || p.cause == "parent context"
}

// endLate lets the commands panic that do so after the end.
func (p *program) endLate() {
	p.endOnce.Do(func() { close(p.ended) })
	n := 0
	for _, l := range p.leaves {
		if l.kind == lLatePanic && l.starts.Load() > 0 {
			n++
		}
	}
	if n == 0 {
		return
	}
	// If one takes the process down it does so now.
	for d := time.Now(); time.Since(d) < 300*time.Millisecond; time.Sleep(200 * time.Microsecond) {
		left := false
		for _, g := range goroutines() {
			left = left || strings.Contains(g, "runLeaf") && !strings.Contains(g, "chan receive") && !strings.Contains(g, "select")
		}
		if !left {
			break
		}
	}
	p.t.Count("commands that panic after the end", n)
}

// deadlineContext is a context whose deadline passes when it is told to.
type deadlineContext struct {
	context.Context
	done chan struct{}
}

func (c *deadlineContext) Deadline() (time.Time, bool) { return time.Now(), true }
func (c *deadlineContext) Done() <-chan struct{}       { return c.done }
func (c *deadlineContext) Err() error {
	select {
	case <-c.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

// drive types keys and resizes the terminal until it is time for the program to end.
func (p *program) drive() {
	t := p.t
	p.await(false, "the program does not start", func() bool { return p.m.updates.Load() > 0 })

	keys := t.IntN(30)
	if !p.o.quiet {
		keys = t.IntN(12)
	}
	if p.o.slow {
		keys = t.Range(20, 300)
	}
	special := 0
	for i := 0; i < keys; i++ {
		switch {
		case special < len(p.spawnKey) && t.Chance(25):
			special++
			p.typeKey(0x5000 + rune(special))
		case p.o.resize && t.Chance(15):
			p.m.log(event{kind: evResized})
			p.s.resize(t.size())
		default:
			p.typeKey(0x4e00 + rune(i))
		}
		dawdle(t.IntN(12))
	}
	for special < len(p.spawnKey) && p.o.quiet {
		special++
		p.typeKey(0x5000 + rune(special))
	}
	if p.o.quiet {
		p.await(p.o.ownBlocking || p.o.ownDelivery, "keys are not handled while commands are running", func() bool { return p.keySeen.Load() >= p.typedCount() })
		var l *leaf
		p.awaitf(p.o.ownBlocking || p.o.ownDelivery && p.o.slow, func() string { return p.waitingFor(l, false) }, func() bool {
			var ok bool
			ok, l = p.handled(false)
			return ok
		})
		p.doRelease()
		p.awaitf(p.o.ownDelivery || p.o.ownBlocking, func() string { return p.waitingFor(l, true) }, func() bool {
			var ok bool
			ok, l = p.handled(true)
			return ok
		})
		p.t.Count("runs in which everything was handled", 1)
	} else if t.Chance(50) {
		n := p.m.updates.Load() + int64(t.IntN(6))
		d := time.Now()
		for p.m.updates.Load() < n && time.Since(d) < 2*time.Millisecond {
			sleepShort()
		}
	}
	p.end()
}

func (p *program) waitingFor(l *leaf, late bool) string {
	if l == nil {
		return "commands are not handled"
	}
	s := "has not been started"
	if l.starts.Load() > 0 {
		s = "does not end"
	}
	if l.ends.Load() > 0 {
		s = "has ended, but its message does not reach Update"
	}
	if !late {
		s += ", while others are running"
	}
	return fmt.Sprintf("command %d %s", l.id, s)
}

func (p *program) awaitf(own bool, what func() string, cond func() bool) {
	p.s.what = what
	defer func() { p.s.what = nil }()
	p.await(own, "commands are not handled", cond)
}

// end gives the cause for the program to end.
func (p *program) end() {
	t := p.t
	switch p.cause {
	case "context", "deadline", "parent context":
		p.mark()
		p.cancel()
	case "input":
		// The description that is waited on has to stay.
		keep, err := unix.FcntlInt(p.s.stdin.Fd(), unix.F_DUPFD_CLOEXEC, 3)
		if err != nil {
			t.Inconclusivef("%v", err)
		}
		p.s.cleanup = append(p.s.cleanup, func() { _ = unix.Close(keep) })
		f := openSlave(p.s.slave.Name(), unix.O_WRONLY)
		p.mark()
		p.s.replace(p.s.stdin, f)
		_ = f.Close()
		p.s.typ([]byte("x"))
	case "output":
		f := openSlave(p.s.slave.Name(), unix.O_RDONLY)
		p.mark()
		p.s.replace(p.s.stdout, f)
		_ = f.Close()
		p.s.typ([]byte("x"))
	case "size":
		p.mark()
		p.s.replace(p.s.stdout, devNull)
		_ = syscall.Kill(os.Getpid(), syscall.SIGWINCH)
	default:
		p.typeKey(p.exitKey)
	}
	// Things that happen at the very moment.
	switch t.IntN(4) {
	case 0:
		if p.cause != "size" {
			p.s.resize(t.size())
		} else {
			_ = syscall.Kill(os.Getpid(), syscall.SIGWINCH)
		}
	case 1:
		p.s.typ([]byte("yz"))
	}
}

func (p *program) doRelease() {
	p.relOnce.Do(func() { close(p.release) })
}

// cleanup lets what is left of the program end.
func (p *program) cleanup() {
	p.doRelease()
	select {
	case <-p.over:
	default:
		close(p.over)
	}
	p.cancel()
}

func (p *program) findReachable() {
	p.reach = map[int]bool{}
	var walk func(n *node)
	walk = func(n *node) {
		if n == nil {
			return
		}
		if n.kind == nLeaf {
			if p.reach[n.leaf.id] {
				return
			}
			p.reach[n.leaf.id] = true
			if n.leaf.kind != lNil {
				walk(n.leaf.spawn)
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	walk(p.root)
	for _, n := range p.spawnKey {
		walk(n)
	}
}

func (p *program) finish() {
	p.cleanup()
	p.s.close()
}

// ---------------------------------------------------------------- oracles

// checkError: the reason is reported.
func (p *program) checkError() {
	t, err := p.t, p.s.err
	is := func(e error) bool { return errors.Is(err, e) }
	switch {
	case p.cause == "panic or quit":
		if err != nil && !is(bento.ErrPanicked) {
			t.Failf("commands panicked or quit the program, but Run returns the error %v", err)
		}
	case strings.HasPrefix(p.cause, "context and panic in"):
		if !is(bento.ErrKilled) && !is(bento.ErrPanicked) {
			t.Failf("the context was cancelled and there was a panic, but Run returns the error %v", err)
		}
	case p.cause == "context and quit":
		if err != nil && !is(bento.ErrKilled) {
			t.Failf("the context was cancelled and the program quit, but Run returns the error %v", err)
		}
	case strings.HasPrefix(p.cause, "quit"):
		if err != nil {
			t.Failf("the program quit, but Run returns the error %v", err)
		}
	case p.ctxNeeded():
		if !is(bento.ErrKilled) {
			t.Failf("the context was cancelled, but Run returns the error %v", err)
		}
	case strings.HasPrefix(p.cause, "panic"):
		if !is(bento.ErrPanicked) {
			t.Failf("there was a %s, but Run returns the error %v", p.cause, err)
		}
	default:
		if err == nil {
			t.Failf("the %s failed, but Run returns no error", p.cause)
		}
	}
	t.Count("ended by: "+p.cause, 1)
}

// checkResult: a program that quit returns its last model.
func (p *program) checkResult(ev []event) {
	t := p.t
	if !strings.HasPrefix(p.cause, "quit") && p.s.err != nil {
		return
	}
	last := 0
	for _, e := range ev {
		if e.kind == evUpdateRet {
			last = e.ver
		}
	}
	m, ok := p.s.model.(*appModel)
	if !ok || m == nil {
		t.Failf("the program quit, but Run returns the model %v", p.s.model)
	}
	if m.ver != last {
		t.Failf("Run returns model %d, but the last one is %d", m.ver, last)
	}
}

// checkHistory: the methods of the model are called one at a time on the right model.
func (p *program) checkHistory(ev []event) {
	t := p.t
	p.m.mu.Lock()
	errs := append([]string(nil), p.m.errs...)
	p.m.mu.Unlock()
	if len(errs) > 0 {
		t.logEvents(p.m)
		t.Failf("%s", errs[0])
	}
	cur, inits, rendered := 0, 0, false
	lastCall := event{kind: -1}
	for _, e := range ev {
		switch e.kind {
		case evInit:
			inits++
			if inits > 1 || rendered {
				t.Failf("Init is called again or too late")
			}
		case evRender:
			if inits == 0 {
				t.Failf("Render is called before Init")
			}
			if e.ver != cur {
				t.Failf("Render is called on model %d, but the current one is %d", e.ver, cur)
			}
			rendered = true
			t.Count("renderings", 1)
		case evUpdate:
			if inits == 0 {
				t.Failf("Update is called before Init")
			}
			if e.ver != cur {
				t.Failf("Update is called on model %d, but the current one is %d", e.ver, cur)
			}
			if !rendered {
				t.Failf("Update is called although model %d has not been rendered", cur)
			}
			rendered = false
			t.Count("updates", 1)
		case evUpdateRet:
			cur = e.ver
		}
		switch e.kind {
		case evInit, evInitRet, evRender, evRenderRet, evUpdate, evUpdateRet:
			lastCall = e
		}
	}
	if p.s.err == nil {
		if lastCall.kind != evRenderRet || lastCall.ver != cur {
			t.Failf("the final model %d is not rendered: the last thing done is: %v", cur, lastCall)
		}
	}
}

// checkAfter: nothing happens after Run has returned.
func (p *program) checkAfter() {
	returned := false
	for _, e := range p.m.snapshot() {
		switch e.kind {
		case evReturned:
			returned = true
		case evUpdate, evRender, evInit:
			if returned {
				p.t.Failf("after Run has returned: %v", e)
			}
		}
	}
}

// checkMessages: every message arrives exactly once, keys in order.
func (p *program) checkMessages(ev []event) {
	t := p.t
	var keys []rune
	first := true
	for _, e := range ev {
		if e.kind != evUpdate {
			continue
		}
		switch msg := e.msg.(type) {
		case bento.KeyMsg:
			if msg.Type == bento.KeyRunes {
				keys = append(keys, msg.Runes...)
			}
			t.Count("keys", 1)
			continue
		case leafMsg:
			t.Count("messages of commands", 1)
			continue
		case bento.WindowSizeMsg:
			first = false
			continue
		case bento.QuitMsg, bento.BatchMsg, nil:
			t.Failf("Update gets %T", msg)
		}
		if first && !isSequence(e.msg) {
			t.Failf("Update gets %T %v before the size of the terminal", e.msg, e.msg)
		}
	}
	for _, l := range p.leaves {
		n := int(l.updates.Load())
		if l.kind == lChain {
			continue
		}
		if n > 1 {
			t.Failf("the message of command %d reaches Update %d times", l.id, n)
		}
		if n > int(l.ends.Load()) || n > 0 && (l.kind == lNil || l.kind == lQuit) {
			t.Failf("the message of command %d reaches Update, but it has not been sent", l.id)
		}
		if l.afterQuit && n > 0 {
			t.Failf("a message sent after the quit message reaches Update")
		}
	}
	p.mu.Lock()
	typed := append([]rune(nil), p.typed...)
	p.mu.Unlock()
	for i, r := range keys {
		if i >= len(typed) {
			// typed at the moment of the end
			break
		}
		if r != typed[i] {
			t.Failf("the keys arrive as %q, but were typed as %q", string(keys), string(typed))
		}
	}
	if p.o.quiet && !p.early() {
		n := len(typed)
		if p.cause == "context" || p.cause == "input" || p.cause == "output" || p.cause == "size" {
			if len(keys) < n {
				t.Failf("only the keys %q of %q typed arrive", string(keys), string(typed))
			}
		} else if len(keys) < n {
			t.Failf("only the keys %q of %q typed arrive", string(keys), string(typed))
		}
		if ok, l := p.handled(true); !ok {
			t.Failf("%s", p.waitingFor(l, true))
		}
	}
}

// isSequence reports whether the message is the one of a sequence, which the
// program gets as well.
func isSequence(msg bento.Msg) bool {
	s := fmt.Sprintf("%T", bento.Sequence()())
	return fmt.Sprintf("%T", msg) == s
}

// checkCommands: each command runs once.
func (p *program) checkCommands() {
	for _, l := range p.leaves {
		n := l.starts.Load()
		if l.kind == lChain {
			if n > l.updates.Load()+1 {
				p.t.Failf("a command returned %d times by the model is run %d times", l.updates.Load()+1, n)
			}
			continue
		}
		if n > 1 {
			p.t.Failf("command %d is run %d times", l.id, n)
		}
		p.t.Count("commands run", int(n))
		if p.o.quiet && !p.early() && !l.uncertain && p.reachable(l) && n == 0 {
			p.t.Failf("command %d is not run", l.id)
		}
	}
}

// checkSequences: the commands of a sequence run one after the other, and their messages are received in between.
func (p *program) checkSequences(ev []event) {
	t := p.t
	start, end := map[int]int{}, map[int]int{}
	updated := map[int]int{}
	for i, e := range ev {
		switch e.kind {
		case evStart:
			start[e.id] = i
		case evEnd:
			end[e.id] = i
		case evUpdate:
			if m, ok := e.msg.(leafMsg); ok {
				updated[m.id] = i
			}
		}
	}
	// Updates that were running all the time between two events.
	covered := func(from, to, id int) bool {
		for i, e := range ev[:from] {
			if e.kind != evUpdate {
				continue
			}
			if m, ok := e.msg.(leafMsg); ok && m.id == id {
				continue
			}
			ret := len(ev)
			for j := i + 1; j < len(ev); j++ {
				if ev[j].kind == evUpdateRet {
					ret = j
					break
				}
			}
			if ret > to {
				return true
			}
		}
		return false
	}
	var leavesOf func(n *node, out *[]*leaf)
	leavesOf = func(n *node, out *[]*leaf) {
		if n.kind == nLeaf {
			*out = append(*out, n.leaf)
		}
		for _, k := range n.kids {
			leavesOf(k, out)
		}
	}
	var walk func(n *node)
	seen := map[*node]bool{}
	walk = func(n *node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.kind == nLeaf {
			walk(n.leaf.spawn)
		}
		for _, k := range n.kids {
			walk(k)
		}
		if n.kind != nSeq {
			return
		}
		var groups [][]*leaf
		for _, k := range n.kids {
			var g []*leaf
			leavesOf(k, &g)
			if len(g) > 0 {
				groups = append(groups, g)
			}
		}
		for i := 0; i+1 < len(groups); i++ {
			for _, b := range groups[i+1] {
				s, ok := start[b.id]
				if !ok {
					continue
				}
				t.Count("steps of sequences", 1)
				for _, a := range groups[i] {
					if a.uncertain && p.causeTime >= 0 && s > p.causeTime {
						continue // the program is ending
					}
					e, ok := end[a.id]
					if !ok || e > s {
						t.Failf("command %d of a sequence starts before command %d, which comes before it, ends", b.id, a.id)
					}
					if p.causeTime >= 0 && s > p.causeTime {
						continue
					}
					if a.kind == lPlain && covered(e, s, a.id) {
						t.Failf("command %d of a sequence starts before the message of command %d could be received", b.id, a.id)
					}
					u, got := updated[a.id]
					if v, ok := updated[b.id]; ok && a.kind == lPlain && (!got || u > v) {
						t.Failf("the messages of commands %d and %d of a sequence arrive in the wrong order", a.id, b.id)
					}
					if i+2 < len(groups) {
						for _, c := range groups[i+2] {
							if sc, ok := start[c.id]; ok && a.kind == lPlain && b.kind != lQuit && (p.causeTime < 0 || sc < p.causeTime) && (!got || u > sc) {
								// Another message has been received in the meantime.
								if b.kind == lPlain || b.kind == lNil || b.kind == lBlocked {
									t.Failf("command %d of a sequence starts, but the message of command %d, two steps before, has not reached Update", c.id, a.id)
								}
							}
						}
					}
				}
			}
		}
	}
	walk(p.root)
	walk(p.exitTree)
	for _, n := range p.spawnKey {
		walk(n)
	}
}
