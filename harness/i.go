package main

import (
	"bytes"
	"context"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/metafates/bento"
)

// ---------------------------------------------------------------- reference

// extKeys are all the sequences of bytes that are keys, apart from NUL.
var (
	extKeys    = map[string]bento.Key{}
	extKeyList []string
)

func init() {
	for s, k := range keyTable {
		extKeys[s] = k
		if !k.Alt {
			k.Alt = true
			extKeys["\x1b"+s] = k
		}
	}
	for b := 1; b <= 127; b++ {
		if b >= 32 && b < 127 || b == 27 {
			continue
		}
		extKeys[string([]byte{byte(b)})] = bento.Key{Type: bento.KeyType(b)}
		extKeys[string([]byte{27, byte(b)})] = bento.Key{Type: bento.KeyType(b), Alt: true}
	}
	extKeys[" "] = bento.Key{Type: bento.KeySpace, Runes: []rune{' '}}
	extKeys["\x1b "] = bento.Key{Type: bento.KeySpace, Runes: []rune{' '}, Alt: true}
	extKeys["\x1b\x1b"] = bento.Key{Type: bento.KeyEscape, Alt: true}
	for s := range extKeys {
		if s == sentinel {
			continue
		}
		extKeyList = append(extKeyList, s)
	}
	sort.Strings(extKeyList)
}

// input is something that is typed, with the messages it should become.
type input struct {
	bytes  string
	tokens []string
	kind   string
	// unknown input may become any number of messages of unexported types
	unknown bool
	// an escape alone is only told from the beginning of something else at the end
	last bool
}

func keyToken(k bento.Key) string {
	if k.Type == bento.KeyRunes && k.Paste {
		return "paste " + string(k.Runes)
	}
	s := "key " + fmt.Sprint(int(k.Type))
	if k.Alt {
		s += " alt"
	}
	if len(k.Runes) > 0 {
		s += " " + string(k.Runes)
	}
	return s
}

func mouseToken(m bento.MouseEvent) string {
	return fmt.Sprintf("mouse %+v", struct {
		X, Y             int
		Shift, Alt, Ctrl bool
		Action, Button   int
	}{m.X, m.Y, m.Shift, m.Alt, m.Ctrl, int(m.Action), int(m.Button)})
}

// tokensOf describes a message. Characters typed without modifiers count one by one,
// as it is open how many of them are put into one message.
func tokensOf(msg bento.Msg) []string {
	switch msg := msg.(type) {
	case bento.KeyMsg:
		if msg.Type == bento.KeyRunes && !msg.Alt && !msg.Paste {
			var out []string
			for _, r := range msg.Runes {
				out = append(out, keyToken(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}}))
			}
			if len(out) == 0 {
				out = append(out, "no characters")
			}
			return out
		}
		return []string{keyToken(bento.Key(msg))}
	case bento.MouseMsg:
		return []string{mouseToken(bento.MouseEvent(msg))}
	case bento.FocusMsg:
		return []string{"focus"}
	case bento.BlurMsg:
		return []string{"blur"}
	}
	return nil
}

func keyInput(seq string) input {
	return input{bytes: seq, tokens: []string{keyToken(extKeys[seq])}, kind: "key"}
}

func (t *T) printable() rune {
	switch t.IntN(8) {
	case 0, 1, 2:
		return rune(t.Range(33, 126))
	case 3:
		return rune(t.Range(0xa1, 0x24f))
	case 4:
		return rune(t.Range(0x4e00, 0x9fff))
	case 5:
		return rune(t.Range(0x1f300, 0x1f6ff))
	case 6:
		return pick(t, []rune{0x301, 0x200d, 0xfe0f, 0xfffd, 0x3000, 0xa0, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x200b, 0x2028, 0x80, 0x85, 0x9b, 0x9f, 0xad})
	}
	for {
		r := rune(t.Range(0xa0, 0x10ffff))
		if utf8.ValidRune(r) {
			return r
		}
	}
}

func (t *T) runesInput(n int) input {
	in := input{kind: "runes"}
	for i := 0; i < n; i++ {
		r := t.printable()
		in.bytes += string(r)
		in.tokens = append(in.tokens, keyToken(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}}))
	}
	return in
}

func altRuneInput(r rune) input {
	return input{bytes: "\x1b" + string(r), tokens: []string{keyToken(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}, Alt: true})}, kind: "alt rune"}
}

func (t *T) altRune() input {
	for {
		if r := t.printable(); r != '[' && r != 'O' {
			return altRuneInput(r)
		}
	}
}

func nulInput(alt bool) input {
	s := "\x00"
	if alt {
		s = "\x1b\x00"
	}
	return input{bytes: s, tokens: []string{keyToken(bento.Key{Type: 0, Alt: alt})}, kind: "key"}
}

// mouseWant decodes a button code as the X11 mouse protocol says.
func mouseWant(code int, release bool, x, y int) bento.MouseEvent {
	m := bento.MouseEvent{X: x - 1, Y: y - 1, Shift: code&4 != 0, Alt: code&8 != 0, Ctrl: code&16 != 0}
	low := code & 3
	switch {
	case code&128 != 0:
		m.Button = []bento.MouseButton{bento.MouseButtonBackward, bento.MouseButtonForward, bento.MouseButton10, bento.MouseButton11}[low]
	case code&64 != 0:
		m.Button = []bento.MouseButton{bento.MouseButtonWheelUp, bento.MouseButtonWheelDown, bento.MouseButtonWheelLeft, bento.MouseButtonWheelRight}[low]
		m.Action = bento.MouseActionPress
		return m
	default:
		m.Button = []bento.MouseButton{bento.MouseButtonLeft, bento.MouseButtonMiddle, bento.MouseButtonRight, bento.MouseButtonNone}[low]
	}
	switch {
	case code&32 != 0:
		m.Action = bento.MouseActionMotion
	case release || m.Button == bento.MouseButtonNone:
		m.Action = bento.MouseActionRelease
	}
	return m
}

// mouseName is what a mouse message is to be called.
func mouseName(m bento.MouseEvent) string {
	s := ""
	for _, p := range []struct {
		on   bool
		name string
	}{{m.Ctrl, "ctrl+"}, {m.Alt, "alt+"}, {m.Shift, "shift+"}} {
		if p.on {
			s += p.name
		}
	}
	button := map[bento.MouseButton]string{
		bento.MouseButtonLeft: "left", bento.MouseButtonMiddle: "middle", bento.MouseButtonRight: "right",
		bento.MouseButtonWheelUp: "wheel up", bento.MouseButtonWheelDown: "wheel down", bento.MouseButtonWheelLeft: "wheel left", bento.MouseButtonWheelRight: "wheel right",
		bento.MouseButtonBackward: "backward", bento.MouseButtonForward: "forward", bento.MouseButton10: "button 10", bento.MouseButton11: "button 11",
	}[m.Button]
	action := map[bento.MouseAction]string{bento.MouseActionPress: "press", bento.MouseActionRelease: "release", bento.MouseActionMotion: "motion"}[m.Action]
	switch {
	case strings.HasPrefix(button, "wheel"):
		return s + button
	case button == "":
		return s + action
	}
	return s + button + " " + action
}

func sgrInput(code, x, y int, release bool) input {
	final := "M"
	if release {
		final = "m"
	}
	return input{bytes: fmt.Sprintf("\x1b[<%d;%d;%d%s", code, x, y, final), tokens: []string{mouseToken(mouseWant(code, release, x, y))}, kind: "mouse"}
}

func x10Input(code, x, y int) input {
	return input{bytes: string([]byte{27, '[', 'M', byte(code + 32), byte(x + 32), byte(y + 32)}), tokens: []string{mouseToken(mouseWant(code, false, x, y))}, kind: "x10 mouse"}
}

func (t *T) mouseCode(sgr bool) int {
	for {
		code := t.IntN(256)
		if code&192 == 192 || !sgr && code+32 > 255 || sgr && code&(128|64|32) == 0 && code&3 == 3 {
			continue
		}
		return code
	}
}

func (t *T) coord() int {
	switch t.IntN(4) {
	case 0:
		return t.Range(1, 9)
	case 1:
		return t.Range(1, 223)
	case 2:
		return t.Range(200, 300)
	}
	return pick(t, []int{1, 2, 95, 96, 223, 224, 255, 256, 999, 1000, 9999, 65535, 65536, 100000, 1234567, 1<<31 - 1})
}

func (t *T) mouse() input {
	if t.Chance(60) {
		return sgrInput(t.mouseCode(true), t.coord(), t.coord(), t.Chance(40))
	}
	return x10Input(t.mouseCode(false), t.Range(1, 223), t.Range(1, 223))
}

const pasteStart, pasteEnd = "\x1b[200~", "\x1b[201~"

func pasteInput(text string) input {
	var valid []rune
	for b := []byte(text); len(b) > 0; {
		r, w := utf8.DecodeRune(b)
		if r != utf8.RuneError || w > 1 {
			valid = append(valid, r)
		}
		b = b[w:]
	}
	return input{bytes: pasteStart + text + pasteEnd, tokens: []string{"paste " + string(valid)}, kind: "paste"}
}

// pasteText makes a text to paste.
func (t *T) pasteText(n int) string {
	var b strings.Builder
	for b.Len() < n {
		switch t.IntN(9) {
		case 0:
			b.WriteString(pick(t, extKeyList))
		case 1:
			b.WriteString(t.mouse().bytes)
		case 2:
			b.WriteString(pick(t, []string{"\x1b", "\x1b[", "\x1b[2", "\x1b[20", "\x1b[201", pasteStart, "\x1b[202~", "\x1b[200", "\x1b[I", "\x1b[O", "\x00", "\r", "\n", "\t"}))
		case 3:
			b.WriteByte(byte(t.IntN(256)))
		default:
			b.WriteString(t.runesInput(t.Range(1, 12)).bytes)
		}
	}
	s := b.String()
	for {
		i := strings.Index(s, pasteEnd)
		if i < 0 {
			break
		}
		s = s[:i] + s[i+1:]
	}
	// The text must not make the end marker begin earlier.
	if strings.Index(s+pasteEnd, pasteEnd) != len(s) {
		return s + "x"
	}
	return s
}

var sgrRe = regexp.MustCompile(`^\x1b\[<[0-9]+;[0-9]+;[0-9]+[Mm]$`)

func prefixOfKey(s string) bool {
	for _, k := range extKeyList {
		if len(k) > len(s) && strings.HasPrefix(k, s) {
			return true
		}
	}
	return false
}

// unknownCSI makes a control sequence that means nothing here.
func (t *T) unknownCSI() input {
	for {
		s := "\x1b["
		params, inters := t.IntN(6), t.IntN(8)/5
		if t.Chance(8) {
			params = pick(t, []int{8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 127, 128, 200})
		}
		if t.Chance(8) {
			inters = t.Range(2, 9)
		}
		mouseLike := t.Chance(10)
		if mouseLike {
			s += "<"
			params = t.IntN(12)
		}
		for i := params; i > 0; i-- {
			if mouseLike {
				s += string(pick(t, []rune("0123456789;;;;")))
				continue
			}
			s += string(rune(t.Range(0x30, 0x3f)))
		}
		for i := inters; i > 0; i-- {
			s += string(rune(t.Range(0x20, 0x2f)))
		}
		if mouseLike && t.Chance(60) {
			s += string(pick(t, []rune("Mm")))
		} else {
			s += string(rune(t.Range(0x40, 0x7e)))
		}
		ok := !strings.HasSuffix(s, "[") && s != pasteStart && !sgrRe.MatchString(s) &&
			!strings.HasPrefix(s, "\x1b[M") && !strings.HasPrefix(s, "\x1b[I") && !strings.HasPrefix(s, "\x1b[O")
		for i := 1; i <= len(s); i++ {
			if _, isKey := extKeys[s[:i]]; isKey {
				ok = false
			}
		}
		if ok && !prefixOfKey(s) {
			return input{bytes: s, kind: "unknown sequence", unknown: true}
		}
	}
}

func (t *T) invalidByte() input {
	if t.Chance(30) {
		// The beginning of a character.
		r := []byte(string(rune(t.Range(0x800, 0xd000))))
		return input{bytes: string(r[:t.Range(1, 2)]), kind: "cut character", unknown: true}
	}
	b := byte(t.Range(0x80, 0xff))
	if b >= 0xc2 && b <= 0xf4 {
		return input{bytes: string([]byte{b}), kind: "cut character", unknown: true}
	}
	return input{bytes: string([]byte{b}), kind: "invalid byte", unknown: true}
}

func focusInput() input { return input{bytes: "\x1b[I", tokens: []string{"focus"}, kind: "focus"} }
func blurInput() input  { return input{bytes: "\x1b[O", tokens: []string{"blur"}, kind: "blur"} }

// follows reports whether b can be told from a when typed right after it.
func follows(a, b input) bool {
	if a.bytes == "" || b.bytes == "" {
		return true
	}
	switch a.kind {
	case "blur":
		if strings.ContainsRune("ABCDabcd", rune(b.bytes[0])) {
			return false
		}
	case "cut character":
		if b.bytes[0] >= 0x80 {
			return false
		}
	}
	if a.last {
		return false
	}
	// Together they must not begin with a longer key.
	for i := 1; i <= len(b.bytes); i++ {
		if _, ok := extKeys[a.bytes+b.bytes[:i]]; ok {
			return false
		}
	}
	// Nor may what is only the end of a key begin one that goes on.
	return true
}

func sampleKeys(t *T) input { return keyInput(pick(t, extKeyList)) }

// event makes any input apart from unknown ones.
func (t *T) event() input {
	switch t.IntN(12) {
	case 0, 1, 2, 3:
		return sampleKeys(t)
	case 4, 5:
		return t.runesInput(t.Range(1, 6))
	case 6:
		return t.altRune()
	case 7, 8:
		return t.mouse()
	case 9:
		return pasteInput(t.pasteText(t.IntN(40)))
	case 10:
		return pick(t, []input{focusInput(), blurInput()})
	}
	return nulInput(t.Chance(40))
}

// ---------------------------------------------------------------- feeding

// The last key of what is typed at once tells that it has been decoded.
const sentinel = "\x07"

// maxChunk is how much can be typed so that it becomes readable at once.
const maxChunk = 1700

type feeder struct {
	t *T
	s *session
	m *monitor

	mu        sync.Mutex
	msgs      []bento.Msg
	kept      []keptMsg
	sentinels int
	sent      int
	cancel    context.CancelFunc
}

// keptMsg is a message with what it said when it was received.
type keptMsg struct {
	msg  bento.Msg
	said string
}

// keep remembers the messages, some of them at most.
func (f *feeder) keep(msg bento.Msg) {
	if len(f.kept) < 3000 {
		f.kept = append(f.kept, keptMsg{msg, fmt.Sprintf("%T %+v", msg, msg)})
	}
}

// unchanged fails when a message received earlier has changed since.
func (f *feeder) unchanged() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, k := range f.kept {
		if now := fmt.Sprintf("%T %+v", k.msg, k.msg); now != k.said {
			f.t.Failf("a message received as %.200q has later become %.200q", k.said, now)
		}
	}
	f.t.Count("messages kept to the end", len(f.kept))
}

func (t *T) newFeeder() *feeder {
	f := &feeder{t: t, s: t.newSession(t.Range(1, 100), t.Range(1, 40)), m: &monitor{}}
	f.m.onUpdate = func(_ *appModel, msg bento.Msg) bento.Cmd {
		f.mu.Lock()
		defer f.mu.Unlock()
		if k, ok := msg.(bento.KeyMsg); ok && k.Type == 7 && !k.Alt {
			f.sentinels++
			return nil
		}
		if _, ok := msg.(bento.WindowSizeMsg); ok {
			return nil
		}
		f.msgs = append(f.msgs, msg)
		f.keep(msg)
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	f.cancel = cancel
	f.s.run(&appModel{f.m, 0}, ctx)
	f.s.await("the program does not get the size of the terminal", func() bool {
		f.alive("at the start")
		return f.m.updates.Load() > 0
	})
	return f
}

func (f *feeder) close() {
	f.end()
	f.unchanged()
}

func (f *feeder) end() {
	f.cancel()
	select {
	case <-f.s.done:
	default:
		d := newDeadline()
		for {
			select {
			case <-f.s.done:
				f.s.close()
				return
			default:
			}
			if over, _ := d.expired(); over {
				f.t.Inconclusivef("the program does not end")
			}
			sleepShort()
		}
	}
	f.s.close()
}

// closeQuietly is close when the case ends by a panic.
func (f *feeder) closeQuietly() {
	defer func() { _ = recover() }()
	f.end()
}

// take returns the messages received since the last call.
func (f *feeder) take() []bento.Msg {
	f.mu.Lock()
	defer f.mu.Unlock()
	m := f.msgs
	f.msgs = nil
	return m
}

func (f *feeder) alive(what string) {
	select {
	case <-f.s.done:
		f.t.Failf("the program ends by itself %s: %v", what, f.s.err)
	default:
	}
}

// feed types the bytes at once, and the sentinel after them, and returns the messages.
func (f *feeder) feed(b string, what string) []bento.Msg {
	if len(b)+1 > maxChunk {
		panic("chunk too long")
	}
	if (len(b)+1)%256 == 0 {
		panic("chunk ends at a full read")
	}
	f.s.typ([]byte(b + sentinel))
	f.awaitSentinel(what)
	return f.take()
}

func (f *feeder) awaitSentinel(what string) {
	f.sent++
	f.s.await(fmt.Sprintf("the key typed last is not delivered after %s", what), func() bool {
		f.alive("while decoding " + what)
		f.mu.Lock()
		defer f.mu.Unlock()
		return f.sentinels >= f.sent
	})
	if f.sentinels > f.sent {
		f.t.Failf("%s is decoded to the key typed after it, too", what)
	}
}

// feedLast types bytes that end with something which is only recognised at the end.
func (f *feeder) feedLast(b string, n int, what string) []bento.Msg {
	f.s.typ([]byte(b))
	f.s.await(fmt.Sprintf("%s is not decoded to %d messages", what, n), func() bool {
		f.alive("while decoding " + what)
		f.mu.Lock()
		defer f.mu.Unlock()
		var l []string
		for _, m := range f.msgs {
			l = append(l, tokensOf(m)...)
		}
		return len(l) >= n
	})
	return f.take()
}

func known(msgs []bento.Msg) []string {
	var l []string
	for _, m := range msgs {
		l = append(l, tokensOf(m)...)
	}
	return l
}

func quoteBytes(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q ... %q (%d bytes)", s[:200], s[len(s)-160:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// same fails unless the messages are those wanted.
func (f *feeder) same(msgs []bento.Msg, want []string, typed string) {
	t := f.t
	got := known(msgs)
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g == w {
			continue
		}
		t.Logf("typed: %s", quoteBytes(typed))
		for j := max(0, i-3); j < len(got) && j < i+4; j++ {
			t.Logf("message %d: %s", j, got[j])
		}
		for j := max(0, i-3); j < len(want) && j < i+4; j++ {
			t.Logf("wanted %d: %s", j, want[j])
		}
		t.Failf("%s is decoded to %.80q at %d, want %.80q", quoteBytes(typed), g, i, w)
	}
	t.Count("messages compared", len(got))
}

// stream makes a sequence of inputs that can be told apart, of at most n bytes.
func (t *T) stream(n int, next func() input) (string, []string) {
	var b strings.Builder
	var want []string
	var prev input
	for tries := 0; tries < 40; {
		in := next()
		if in.last || !follows(prev, in) || b.Len()+len(in.bytes) > n {
			tries++
			continue
		}
		// Three in a row: what the first two leave open must not swallow the third.
		b.WriteString(in.bytes)
		want = append(want, in.tokens...)
		prev = in
		t.Count(in.kind, 1)
	}
	if (b.Len()+1)%256 == 0 {
		in := t.runesInputASCII(1)
		b.WriteString(in.bytes)
		want = append(want, in.tokens...)
	}
	return b.String(), want
}

func (t *T) runesInputASCII(n int) input {
	in := input{kind: "runes"}
	for i := 0; i < n; i++ {
		r := rune(t.Range('e', 'z'))
		in.bytes += string(r)
		in.tokens = append(in.tokens, keyToken(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}}))
	}
	return in
}

// ---------------------------------------------------------------- parts

// keyName is the name a key should have.
func keyName(k bento.Key) string {
	s := ""
	if k.Alt {
		s = "alt+"
	}
	if k.Type == bento.KeyRunes {
		if k.Paste {
			return s + "[" + string(k.Runes) + "]"
		}
		return s + string(k.Runes)
	}
	return s + keyNameTable[k.Type]
}

// singleKeys types every key on its own.
func singleKeys(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	const share = 12
	lo := t.Index * len(extKeyList) / share
	hi := (t.Index + 1) * len(extKeyList) / share
	var list []input
	if t.Index < share {
		for _, s := range extKeyList[lo:hi] {
			list = append(list, keyInput(s))
		}
	}
	for i := 0; i < 30; i++ {
		list = append(list, t.altRune(), t.runesInput(1), nulInput(i&1 == 0))
	}
	for r := rune(33); r < 127; r++ {
		if t.Index == share {
			list = append(list, input{bytes: string(r), tokens: []string{keyToken(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}})}})
			if r != '[' && r != 'O' {
				list = append(list, altRuneInput(r))
			}
		}
	}
	esc := input{bytes: "\x1b", tokens: []string{keyToken(bento.Key{Type: bento.KeyEscape})}, last: true}
	list = append(list, esc)
	t.Key(t.Index)
	for _, in := range list {
		what := fmt.Sprintf("%q", in.bytes)
		if in.bytes == sentinel || in.bytes == "\x1b"+sentinel {
			continue
		}
		msgs := f.feedLast(in.bytes, 1, what)
		f.same(msgs, in.tokens, in.bytes)
		// What follows is typed later, so it does not belong to it.
		rest := f.feed("", what)
		if len(msgs) != 1 || len(rest) > 0 {
			t.Failf("%q is decoded to more than one message: %q and %q", in.bytes, msgs, rest)
		}
		k := msgs[0].(bento.KeyMsg)
		if got, want := k.String(), keyName(bento.Key(k)); got != want {
			t.Failf("%q is named %q, want %q", in.bytes, got, want)
		}
		if got, want := fmt.Sprint(bento.Key(k)), keyName(bento.Key(k)); got != want {
			t.Failf("%q is named %q, want %q", in.bytes, got, want)
		}
		if k.Type != bento.KeyRunes && k.Type.String() != keyNameTable[k.Type] {
			t.Failf("the type of %q is named %q, want %q", in.bytes, k.Type, keyNameTable[k.Type])
		}
		t.Count("keys typed alone", 1)
	}
	f.close()
}

// streams types many inputs at once.
func streams(n int, next func(t *T) input) func(t *T) {
	return func(t *T) {
		f := t.newFeeder()
		defer f.closeQuietly()
		for i := 0; i < 12; i++ {
			limit := t.Range(1, 250)
			if t.Chance(n) {
				limit = t.Range(250, maxChunk-3)
			}
			b, want := t.stream(limit, func() input { return next(t) })
			t.Key(b)
			t.Count("bytes", len(b))
			f.same(f.feed(b, quoteBytes(b)), want, b)
			if i == 0 {
				t.Sample("%.120q", b)
			}
		}
		f.close()
	}
}

// ends types inputs of about as many bytes as are read at once. All of it is to be
// delivered before anything else is typed.
func ends(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	for i := 0; i < 8; i++ {
		size := 256*pick(t, []int{1, 1, 1, 2, 3, 6}) + pick(t, []int{-3, -2, -1, -1, -1, 0, 1, 1, 2, 3, 4, 17})
		var tail input
		switch t.IntN(6) {
		case 0, 1:
			tail = t.runesInput(t.Range(1, 5))
		case 2:
			tail = t.altRune()
		case 3:
			tail = input{bytes: "\x1b", tokens: []string{keyToken(bento.Key{Type: bento.KeyEscape})}, last: true, kind: "escape"}
		case 4:
			tail = sampleKeys(t)
		default:
			tail = t.mouse()
		}
		if strings.HasSuffix(tail.bytes, sentinel) {
			continue
		}
		if size%256 == 0 && openEnded(tail.bytes) {
			// What comes next decides what it is.
			size++
		}
		b, want := t.stream(size-len(tail.bytes)-2, t.event)
		fill := t.runesInputASCII(size - len(tail.bytes) - len(b))
		b += fill.bytes + tail.bytes
		want = append(append(want, fill.tokens...), tail.tokens...)
		if len(b)%256 == 0 {
			t.Count("inputs ending at the end of a full read", 1)
		}
		t.Key(b)
		t.Count("inputs ending near the end of a full read: "+tail.kind, 1)
		f.same(f.feedLast(b, len(want), quoteBytes(b)), want, b)
	}
	f.close()
}

// openEnded reports whether the input may be the beginning of a longer one.
func openEnded(s string) bool {
	for _, k := range extKeyList {
		if len(k) > len(s) && strings.HasPrefix(k, s) {
			return true
		}
	}
	return strings.HasPrefix(s, "\x1b[") && len(s) < 4 || strings.HasPrefix(s, "\x1b\x1b[") && len(s) < 5
}

// straddled lists inputs to be put across the boundary of a read.
func (t *T) straddled() []input {
	var l []input
	for _, s := range extKeyList {
		if len(s) > 1 && s != "\x1b"+sentinel {
			l = append(l, keyInput(s))
		}
	}
	for i := 0; i < 20; i++ {
		l = append(l, t.mouse(), t.runesInput(1), t.altRune(), pasteInput(t.pasteText(t.IntN(30))), t.unknownCSI())
	}
	l = append(l, focusInput(), blurInput(), nulInput(true), sgrInput(0, 1, 1, false), sgrInput(35, 1000, 1000, false), x10Input(0, 1, 1), x10Input(3, 223, 223),
		pasteInput(""), pasteInput("x"), pasteInput("\x1b"), pasteInput("äöü"))
	return l
}

// boundaries puts inputs across the boundaries of full reads.
func boundaries(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	list := t.straddled()
	for i := 0; i < 6; i++ {
		var b strings.Builder
		var want []string
		add := func(in input) {
			b.WriteString(in.bytes)
			want = append(want, in.tokens...)
		}
		var prev input
		for k := 1; k <= 6; k++ {
			var in input
			for {
				in = pick(t, list)
				if len(in.bytes) > 1 {
					break
				}
			}
			off := 1 + t.IntN(min(len(in.bytes)-1, 200))
			// Fill up so that the input begins off bytes before the boundary.
			room := 256*k - off - b.Len()
			for room > 30 && t.Chance(85) {
				e := t.event()
				if len(e.bytes) > room-2 || !follows(prev, e) {
					continue
				}
				add(e)
				prev = e
				room = 256*k - off - b.Len()
			}
			if room < 0 {
				// The input before was a long one.
				continue
			}
			fill := t.runesInputASCII(room)
			if room > 0 && !follows(prev, fill) {
				panic("cannot fill up")
			}
			add(fill)
			if room > 0 {
				prev = fill
			}
			if !follows(prev, in) {
				add(t.runesInputASCII(1))
			}
			add(in)
			prev = in
			t.Count("inputs across a boundary: "+in.kind, 1)
			t.Key(in.bytes, off)
		}
		tail := t.runesInputASCII(1)
		add(tail)
		if (b.Len()+1)%256 == 0 {
			add(t.runesInputASCII(1))
		}
		f.same(f.feed(b.String(), "a long input"), want, b.String())
		if i == 0 {
			t.Sample("%.120q", b.String())
		}
	}
	f.close()
}

// shifted types the same arbitrary bytes at different distances from the boundaries of reads.
func shifted(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	for i := 0; i < 4; i++ {
		body := t.arbitrary(t.Range(260, 1200))
		// No paste may stay open.
		body += pasteEnd + "x"
		var first []string
		for j := 0; j < 5; j++ {
			pad := 0
			if j > 0 {
				pad = t.IntN(300)
			}
			b := strings.Repeat("z", pad) + " " + body
			if (len(b)+1)%256 == 0 {
				b = "z" + b
				pad++
			}
			msgs := f.feed(b, quoteBytes(b))
			var got []string
			z := 0
			for _, m := range msgs {
				tok := tokensOf(m)
				if tok == nil {
					tok = []string{fmt.Sprintf("other %v", m)}
				}
				for _, x := range tok {
					if z < pad && x == "key -1 z" {
						z++
						continue
					}
					got = append(got, x)
				}
			}
			t.Count("messages compared", len(got))
			if j == 0 {
				first = got
				t.Key(body)
				continue
			}
			for k := 0; k < max(len(got), len(first)); k++ {
				a, c := "nothing", "nothing"
				if k < len(first) {
					a = first[k]
				}
				if k < len(got) {
					c = got[k]
				}
				if a != c {
					t.Logf("typed: %s", quoteBytes(b))
					t.Failf("%s is decoded differently %d bytes later: %.80q instead of %.80q at %d", quoteBytes(body), pad, c, a, k)
				}
			}
		}
	}
	f.close()
}

// arbitrary makes any bytes, with a liking for the beginnings of sequences.
func (t *T) arbitrary(n int) string {
	var b bytes.Buffer
	for b.Len() < n {
		switch t.IntN(10) {
		case 0:
			b.WriteByte(byte(t.IntN(256)))
		case 1:
			b.WriteString("\x1b")
		case 2:
			s := t.event().bytes
			b.WriteString(s[:t.IntN(len(s)+1)])
		case 3:
			b.WriteString(t.unknownCSI().bytes)
		case 4:
			b.WriteString(pick(t, []string{"\x1b[", "\x1b[<", "\x1b[M", "\x1bO", "\x1b[O", "\x1b[200~", "\x1b[201~", "\x1b[1;", "[", "O", "A", "M", "\x9b", "\x1b]", "\x1bP", "\x1b[[", "\xff", "\x1b\x1b", "\x1b[<1;1;M", "\x1b[<99999999999999999999;1;1M"}))
		case 5:
			b.WriteString(t.invalidByte().bytes)
		default:
			b.WriteString(t.event().bytes)
		}
	}
	return strings.ReplaceAll(b.String()[:n], sentinel, "")
}

// anything types arbitrary bytes and expects the program to survive.
func anything(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	for i := 0; i < 15; i++ {
		b := t.arbitrary(t.Range(1, maxChunk-50))
		t.Key(b)
		f.s.typ([]byte(b))
		// What is left open is closed by input typed later.
		f.s.typ([]byte(pasteEnd))
		mark := fmt.Sprintf("key -1 %c", 0xf0000+i)
		start := nowNano()
		f.s.await("keys typed after "+quoteBytes(b)+" are not delivered", func() bool {
			f.alive("while decoding " + quoteBytes(b))
			f.mu.Lock()
			defer f.mu.Unlock()
			for _, m := range f.msgs {
				if l := tokensOf(m); len(l) > 0 && l[len(l)-1] == mark {
					return true
				}
			}
			if nowNano()-start > 3e6 {
				start = nowNano()
				f.s.typ([]byte("x"))
				f.s.typ([]byte(string(rune(0xf0000 + i))))
			}
			return false
		})
		f.settle(mark)
		f.take()
		f.mu.Lock()
		f.sent = f.sentinels
		f.mu.Unlock()
		// Decoding works as before.
		s, want := t.stream(200, t.event)
		f.same(f.feed(s, "arbitrary bytes"), want, s)
		t.Count("bytes", len(b))
	}
	f.close()
}

// settle waits until everything typed so far has been decoded.
func (f *feeder) settle(mark string) {
	last := string(rune(0xf1000 + len(mark)))
	f.s.typ([]byte(last))
	f.s.await("a key typed is not delivered", func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		for _, m := range f.msgs {
			if l := tokensOf(m); len(l) > 0 && l[len(l)-1] == "key -1 "+last {
				return true
			}
		}
		return false
	})
}

// pastes types pastes of any length in pieces.
func pastes(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	for i := 0; i < 6; i++ {
		size := t.IntN(60)
		switch t.IntN(6) {
		case 0:
			size = t.IntN(600)
		case 1:
			size = t.IntN(5000)
		case 2:
			if t.Chance(30) {
				size = t.IntN(60000)
			}
			if t.Chance(8) {
				size = t.Range(60000, 200000)
			}
		}
		if t.Index%100 == 7 && i == 0 {
			size = 1<<20 + t.IntN(300000)
		}
		in := pasteInput(t.pasteText(size))
		before, wantBefore := "", []string(nil)
		after, wantAfter := "", []string(nil)
		if t.Chance(50) {
			before, wantBefore = t.stream(t.IntN(60), t.event)
		}
		if t.Chance(70) {
			after, wantAfter = t.stream(t.IntN(60), t.event)
		}
		var want []string
		want = append(append(append(want, wantBefore...), in.tokens...), wantAfter...)

		// The pieces are read one by one. The markers' beginnings are where the
		// text of the user begins, so the first one is complete.
		rest := before + in.bytes
		first := len(before) + len(pasteStart)
		pieces := 0
		for len(rest) > 0 {
			n := t.Range(1, pick(t, []int{1, 7, 100, 255, 255, 256, 257, 1024, 1600}))
			if pieces == 0 {
				n = max(n, first)
			}
			n = min(n, len(rest))
			// The piece that ends the paste holds what follows it as well.
			if n == len(rest) {
				if (n+len(after)+1)%256 == 0 {
					after += "e"
					want = append(want, "key -1 e")
				}
				if n+len(after)+1 > maxChunk {
					n -= 200
				} else {
					break
				}
			}
			f.s.typ([]byte(rest[:n]))
			rest = rest[n:]
			pieces++
			f.s.await("a paste is not read to its end", func() bool { f.alive("while reading a paste"); return f.s.pending() == 0 })
			sleepShort()
		}
		pieces++
		typed := before + in.bytes + after
		t.Key(size, pieces, typed)
		msgs := f.feed(rest+after, "a paste")
		f.same(msgs, want, typed)
		for _, msg := range msgs {
			if k, ok := msg.(bento.KeyMsg); ok && k.Paste {
				if got, want := k.String(), keyName(bento.Key(k)); got != want {
					t.Failf("the name of a paste is %.80q, not %.80q", got, want)
				}
			}
		}
		t.Count("pieces", pieces)
		t.Count("bytes pasted", len(in.bytes))
		if i == 0 {
			t.Sample("%.80q in %d pieces", in.bytes, pieces)
		}
	}
	f.close()
}

// mouseCodes goes through all the button codes.
func mouseCodes(t *T) {
	f := t.newFeeder()
	defer f.closeQuietly()
	t.Key(t.Index)
	for code := t.Index; code < 256; code += 8 {
		if code&192 == 192 {
			continue
		}
		var b strings.Builder
		var want []string
		for i := 0; i < 8; i++ {
			for _, release := range []bool{false, true} {
				if code&(128|64|32) == 0 && code&3 == 3 {
					continue
				}
				in := sgrInput(code, t.coord(), t.coord(), release)
				b.WriteString(in.bytes)
				want = append(want, in.tokens...)
			}
			if code+32 <= 255 {
				in := x10Input(code, t.Range(1, 223), t.Range(1, 223))
				b.WriteString(in.bytes)
				want = append(want, in.tokens...)
			}
		}
		if (b.Len()+1)%256 == 0 {
			b.WriteString("e")
			want = append(want, "key -1 e")
		}
		msgs := f.feed(b.String(), "mouse reports")
		f.same(msgs, want, b.String())
		for _, msg := range msgs {
			if m, ok := msg.(bento.MouseMsg); ok {
				if got, want := m.String(), mouseName(bento.MouseEvent(m)); got != want {
					t.Failf("the name of the mouse message %+v is %q, not %q", bento.MouseEvent(m), got, want)
				}
			}
		}
		t.Count("mouse reports", len(want))
	}
	f.close()
}

func init() {
	register(&Check{
		ID:   "I01",
		Rule: "every listed key typed alone (exactly one message, right name), and random concatenations of keys and characters typed at once; distinct by typed bytes",
		Assumptions: []string{"what is typed at once becomes readable at once (true of Linux pseudo terminals for up to 1700 bytes)",
			"concatenations that spell another, longer key are left out"},
		Parts: []Part{
			{Name: "single", Quick: 24, Thorough: 200, Child: true, Fn: singleKeys},
			{Name: "streams", Quick: 160, Thorough: 4000, Child: true, Fn: streams(40, func(t *T) input {
				switch t.IntN(6) {
				case 0, 1:
					return t.runesInput(t.Range(1, 8))
				case 2:
					return t.altRune()
				case 3:
					return nulInput(t.Chance(40))
				}
				return sampleKeys(t)
			})},
		},
	})
	register(&Check{
		ID:          "I02",
		Rule:        "long inputs with an event of each kind across every boundary of the 256-byte reads at every offset, and arbitrary bytes typed again and again at other distances from the boundaries; distinct by event and offset",
		Assumptions: []string{"what is typed at once becomes readable at once (true of Linux pseudo terminals for up to 1700 bytes)"},
		Parts: []Part{
			{Name: "boundaries", Quick: 250, Thorough: 6000, Child: true, Fn: boundaries},
			{Name: "ends", Quick: 60, Thorough: 2000, Child: true, Fn: ends},
			{Name: "shifted", Quick: 120, Thorough: 4000, Child: true, Fn: shifted},
		},
	})
	register(&Check{
		ID:          "I03",
		Rule:        "pastes of up to 200 kB of characters, keys, mouse reports and arbitrary bytes, typed in pieces of any size, with other input before and after them; distinct by bytes and pieces",
		Assumptions: []string{"the start marker is not cut by a short read"},
		Parts:       []Part{{Name: "pieces", Quick: 150, Thorough: 4000, Child: true, Fn: pastes}},
	})
	register(&Check{
		ID:          "I04",
		Rule:        "every button code in both encodings with random coordinates, and mouse and focus reports mixed with other input; distinct by typed bytes",
		Assumptions: []string{"codes of no known meaning (wheel and additional button at once, SGR code 3) are left out"},
		Parts: []Part{
			{Name: "codes", Quick: 8, Thorough: 64, Child: true, Fn: mouseCodes},
			{Name: "streams", Quick: 120, Thorough: 3000, Child: true, Fn: streams(40, func(t *T) input {
				if t.Chance(60) {
					return t.mouse()
				}
				if t.Chance(30) {
					return pick(t, []input{focusInput(), blurInput()})
				}
				return t.event()
			})},
		},
	})
	register(&Check{
		ID:          "I05",
		Rule:        "well-formed input mixed with unknown control sequences and invalid bytes; arbitrary bytes, after which decoding must work as before; distinct by typed bytes",
		Assumptions: []string{"an escape directly before an invalid byte, and unknown sequences that begin like a key, are left out of the mixtures"},
		Parts: []Part{
			{Name: "streams", Quick: 160, Thorough: 4000, Child: true, Fn: streams(40, func(t *T) input {
				switch t.IntN(5) {
				case 0:
					return t.unknownCSI()
				case 1:
					return t.invalidByte()
				}
				return t.event()
			})},
			{Name: "anything", Quick: 80, Thorough: 2500, Child: true, Fn: anything},
		},
	})
}
