package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- E01

// examples are the example programs, built from the tree.
var examples = []string{"input", "list", "lazygitlike", "throbber"}

// exampleKeys have a meaning to some example, or none at all.
var exampleKeys = []string{
	"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[5~", "\x1b[6~", "\t", "\x1b[Z", "\r", "\x7f", "\x1b[3~",
	"j", "k", "g", "G", " ", "+", "-", "a", "b", "\x01", "\x05", "\x17", "\x1bf", "\x1bb", "\x1b[1;2C", "\x1b[1;5D",
	"\x1b[<0;3;2M", "\x1b[<64;3;2M", "\x1b[I", "\x1b[O", "\x1b[?1;2c", "\x1b[200~pasted\ntext\x1b[201~", "é", "世", "🙂", "e\u0301", "\x1b[99;99~",
}

type exampleProgram struct {
	*session
	name   string
	cmd    *exec.Cmd
	stderr bytes.Buffer
	ended  chan error
	over   bool
	result error

	typed    int
	readFrom int // bytes the program had read before anything was typed
}

// bytesRead returns how many bytes the program has read from anywhere.
func (p *exampleProgram) bytesRead() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/io", p.cmd.Process.Pid))
	if err != nil {
		p.alive()
		p.t.Inconclusivef("%v", err)
	}
	n := -1
	if _, err := fmt.Sscanf(string(b), "rchar: %d", &n); err != nil {
		p.t.Inconclusivef("cannot read %q", b)
	}
	return n
}

func (p *exampleProgram) types(s string) {
	if p.typed == 0 {
		p.settle()
		p.readFrom = p.bytesRead()
	}
	p.typed += len(s)
	p.typ([]byte(s))
}

func (t *T) startExample(name string, w, h int) *exampleProgram {
	dir := os.Getenv("VERIFH_EXAMPLES")
	if t.Chance(20) {
		dir = os.Getenv("VERIFH_EXAMPLES_RACE")
		t.Count("runs_under_race_detection", 1)
	}
	bin := filepath.Join(dir, name)
	if _, err := os.Stat(bin); err != nil {
		t.Inconclusivef("the example is not built: %v", err)
	}
	p := &exampleProgram{session: t.newSession(w, h), name: name, ended: make(chan error, 1)}
	c := exec.Command(bin)
	c.Stdin, c.Stdout, c.Stderr = p.stdin, p.stdout, &p.stderr
	c.Env = []string{"PATH=/nonexistent", "HOME=/nonexistent", "TERM=" + profileEnv[p.profile][0], "COLORTERM=" + profileEnv[p.profile][1]}
	c.Dir = "/"
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := c.Start(); err != nil {
		p.close()
		t.Inconclusivef("cannot start %s: %v", bin, err)
	}
	p.cmd = c
	p.cleanup = append(p.cleanup, func() {
		if !p.over {
			_ = c.Process.Kill()
			<-p.ended
		}
	})
	go func() { p.ended <- c.Wait() }()
	return p
}

// alive fails if the program has ended.
func (p *exampleProgram) alive() {
	if p.over {
		return
	}
	select {
	case p.result = <-p.ended:
		p.over = true
		p.t.Failf("the program ended by itself: %v\n%s", p.result, firstLines(p.stderr.String(), 30))
	default:
	}
}

// activity describes what the threads of the program have done so far; empty
// if one of them is not waiting.
func (p *exampleProgram) activity() string {
	dir := fmt.Sprintf("/proc/%d/task", p.cmd.Process.Pid)
	tasks, err := os.ReadDir(dir)
	if err != nil {
		return ""
	}
	var s strings.Builder
	for _, task := range tasks {
		b, err := os.ReadFile(filepath.Join(dir, task.Name(), "status"))
		if err != nil {
			return ""
		}
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "State:"):
				if !strings.Contains(l, "S (") {
					return ""
				}
			case strings.HasPrefix(l, "voluntary_ctxt_switches:"), strings.HasPrefix(l, "SigPnd:"), strings.HasPrefix(l, "ShdPnd:"):
				s.WriteString(l)
			}
		}
	}
	return s.String()
}

// settle waits until the program has read all input and all its threads wait.
func (p *exampleProgram) settle() bool {
	last, same := "", 0
	for d := newDeadline(); ; {
		p.alive()
		// A program that waits for its output to be taken is not settled.
		p.take()
		// What is typed may still be on its way.
		arrived := p.pending() == 0 && (p.typed == 0 || p.bytesRead()-p.readFrom >= p.typed)
		a := p.activity()
		if a != "" {
			a += fmt.Sprint(p.em.nSeq, p.em.nText, len(p.em.run), len(p.em.raw))
		}
		if !arrived || a == "" || a != last {
			last, same = a, 0
		} else if same++; same == 4 {
			p.em.sync()
			return true
		}
		if time.Since(d.start) > patience/4 {
			p.t.Count("never_settled", 1)
			return false
		}
		time.Sleep(4 * time.Millisecond)
	}
}

// changeSize changes the size of the terminal; the kernel tells the program.
func (p *exampleProgram) changeSize(w, h int) {
	p.take()
	if w == p.em.w && h == p.em.h {
		return // of which it is not told
	}
	p.em.resize(w, h)
	if err := setSize(p.slave, w, h); err != nil {
		p.t.Inconclusivef("cannot resize: %v", err)
	}
}

// repaint makes the program draw everything again over garbage, and compares
// what it shows then with what was shown before.
func (p *exampleProgram) repaint() {
	t := p.t
	if !p.settle() {
		return
	}
	before := append([]emuCell(nil), p.em.cells...)
	shown := p.em.dump()
	p.em.resize(p.em.w, p.em.h)
	if err := p.cmd.Process.Signal(syscall.SIGWINCH); err != nil {
		p.alive()
		return
	}
	if !p.settle() {
		return
	}
	for i := range before {
		if before[i] != p.em.cells[i] {
			for _, l := range shown {
				t.Logf("  before %q", l)
			}
			for _, l := range p.em.dump() {
				t.Logf("  after  %q", l)
			}
			t.Failf("%s shows %+v at %d,%d, but %+v after it has drawn everything again", p.name, before[i], i%p.em.w, i/p.em.w, p.em.cells[i])
		}
	}
	t.Count("screens_compared", 1)
	t.Count("cells_compared", len(before))
}

func (p *exampleProgram) screen() string { return strings.Join(p.em.dump(), "\n") }

func exampleCase(t *T) {
	name := examples[t.Index%len(examples)]
	w, h := t.Range(1, 100), t.Range(1, 45)
	switch t.IntN(5) {
	case 0:
		w, h = t.Range(1, 8), t.Range(1, 5)
	case 1, 2:
		w, h = 80, 50
	}
	t.Logf("%s on %dx%d", name, w, h)
	p := t.startExample(name, w, h)
	defer p.close()
	await := func(what string, cond func() bool) {
		for d := newDeadline(); !cond(); {
			p.alive()
			if over, fair := d.expired(); over {
				if !fair {
					t.Inconclusivef("%s does not happen, but the machine is too busy", what)
				}
				for _, l := range p.em.dump() {
					t.Logf("  screen %q", l)
				}
				t.Failf("%s does not happen", what)
			}
			time.Sleep(2 * time.Millisecond)
			p.take()
		}
	}
	await("showing something on the alternate screen", func() bool { return p.em.alt && p.em.nText > 0 })
	animated := name == "throbber"
	typed := ""
	steps := t.Range(2, 10)
	for i := 0; i < steps; i++ {
		switch k := t.IntN(10); {
		case k < 5:
			var b strings.Builder
			for n := t.Range(1, 20); n > 0; n-- {
				b.WriteString(pick(t, exampleKeys))
			}
			t.Logf("typing %q", b.String())
			p.types(b.String())
			t.Count("keys", 1)
		case k < 8:
			w, h = t.Range(1, 110), t.Range(1, 60)
			if t.Chance(20) {
				w, h = t.Range(1, 6), t.Range(1, 4)
			}
			t.Logf("resizing to %dx%d", w, h)
			p.changeSize(w, h)
			t.Count("resizes", 1)
		default:
			time.Sleep(time.Duration(t.IntN(30)) * time.Millisecond)
		}
		if !animated && t.Chance(60) {
			p.repaint()
		}
		p.take()
		p.alive()
	}
	// Shows what it is for.
	switch {
	case name == "lazygitlike":
		w, h = t.Range(60, 110), t.Range(33, 60)
		p.changeSize(w, h)
		size := strconv.Itoa(w) + "x" + strconv.Itoa(h)
		await("showing the size "+size+" of the terminal", func() bool { return strings.Contains(p.screen(), size) })
	case name == "list":
		p.changeSize(60, 20)
		await("showing the number of items", func() bool { return strings.Contains(p.screen(), "100 items") })
	case name == "input":
		p.changeSize(100, 20)
		typed = "typed" + strconv.Itoa(t.IntN(1000))
		// Instead of everything before, with the cursor at the beginning.
		p.types("\x05" + strings.Repeat("\x17", 400) + typed + "\x01")
		await("showing what is typed, "+typed, func() bool { return strings.Contains(p.screen(), typed) })
	default:
		p.changeSize(90, 40)
		await("showing the name of the throbbers", func() bool { return strings.Contains(p.screen(), "FPS") })
		n := p.em.nText
		await("moving", func() bool { return p.em.nText > n+20 })
	}
	if !animated {
		p.repaint()
	}
	key := "\x03"
	if (name == "list" || name == "lazygitlike") && t.Chance(50) {
		key = "q"
	}
	t.Logf("typing %q to end it", key)
	p.settle()
	p.types(key)
	d := newDeadline()
	for !p.over {
		select {
		case p.result = <-p.ended:
			p.over = true
		case <-time.After(50 * time.Millisecond):
			if over, fair := d.expired(); over {
				if !fair {
					t.Inconclusivef("%s does not end, but the machine is too busy", name)
				}
				t.Failf("%s does not end after %q", name, key)
			}
		}
	}
	if p.result != nil {
		var ee *exec.ExitError
		errors.As(p.result, &ee)
		t.Failf("%s ended with %v after %q\n%s", name, p.result, key, firstLines(p.stderr.String(), 30))
	}
	if p.stderr.Len() > 0 {
		t.Failf("%s wrote to standard error: %q", name, firstLines(p.stderr.String(), 30))
	}
	// Ending is over when the process has ended: its modes too.
	p.restored(true)
	t.Count("runs_"+name, 1)
	t.Key(name, w, h, p.em.nSeq, p.em.nText)
	t.Sample("%s: %d steps, %d control sequences, %d graphemes", name, steps, p.em.nSeq, p.em.nText)
	if p.em.nText == 0 {
		t.Trivial()
	}
}

func init() {
	register(&Check{
		ID:   "E01",
		Rule: "A case runs one of the example programs as a process on a pseudo terminal of its own, types keys with and without meaning at it and resizes the terminal, compares the screen with the one after everything was drawn again (unless it is animated), looks for what the example shows, and ends it by its key. Distinct by program, size and output.",
		Assumptions: []string{
			"a program whose threads all wait, with no input left, has drawn what it is going to draw",
			"sizes of at least one cell",
		},
		Parts: []Part{{Name: "examples", Quick: 200, Thorough: 8000, Wide: 3, Fn: exampleCase}},
	})
}
