From 4d774624ea666e41cb7f9204ac84ab318532a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 01/47] fix: restore the terminal on every exit path and report
 panics as errors

---
 app.go | 77 +++++++++++++++++++++++++++++++++++++++++++++-------------
 tty.go | 11 ++++++---
 2 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/app.go b/app.go
index 93a426b..c9f6be3 100644
--- a/app.go
+++ b/app.go
@@ -17,6 +17,7 @@ import (
 var (
 	ErrInterrupted = errors.New("interrupted")
 	ErrKilled      = errors.New("killed")
+	ErrPanicked    = errors.New("panicked")
 )
 
 type Msg any
@@ -194,7 +195,22 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	// Restore the terminal no matter what makes the program exit.
+	defer func() {
+		if r := recover(); r != nil {
+			model, err = a.model, &panicError{value: r, stack: debug.Stack()}
+		}
+
+		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
+			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		}
+
+		var panicErr *panicError
+		if errors.As(err, &panicErr) {
+			fmt.Printf("Caught panic:\n\n%v\n\n", panicErr.value)
+			fmt.Fprintf(os.Stderr, "%s", panicErr.stack)
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -202,7 +218,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, fmt.Errorf("draw: %w", err)
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,10 +244,8 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
+	if err := a.draw(model); err != nil {
+		return model, fmt.Errorf("draw: %w", err)
 	}
 
 	return model, nil
@@ -316,6 +333,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 			case sequenceMsg:
 				go func() {
+					defer a.recoverFromPanic()
+
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
 						if cmd == nil {
@@ -328,6 +347,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 							for _, cmd := range batchMsg {
 								cmd := cmd
 								g.Go(func() error {
+									defer a.recoverFromPanic()
+
 									a.Send(cmd())
 									return nil
 								})
@@ -345,16 +366,36 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
 			a.cmds <- cmd
-			a.draw(model)
+
+			if err := a.draw(model); err != nil {
+				return model, fmt.Errorf("draw: %w", err)
+			}
 		}
 	}
 }
 
+// panicError is an error made of a recovered panic.
+type panicError struct {
+	value any
+	stack []byte
+}
+
+func (e *panicError) Error() string {
+	return fmt.Sprintf("%s: %v", ErrPanicked, e.value)
+}
+
+func (*panicError) Unwrap() error {
+	return ErrPanicked
+}
+
+// recoverFromPanic must be deferred by the goroutines that run commands.
+// It reports a panic to the event loop, which then exits and restores the terminal.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- &panicError{value: r, stack: debug.Stack()}:
+		}
 	}
 }
 
@@ -366,11 +407,10 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
+func (a *appRunner) draw(widget Widget) error {
 	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
-	}
+
+	return err
 }
 
 func (a *appRunner) init() error {
@@ -386,15 +426,18 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	// A failed step must not prevent the next ones.
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..274848b 100644
--- a/tty.go
+++ b/tty.go
@@ -24,12 +24,15 @@ func (a *appRunner) initTerminal() error {
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
 func (a *appRunner) restoreTerminal() error {
+	// A failed step must not prevent the next ones.
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +47,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From 0ee5a33e98a607e0b55fb12be3f5f4ba2f050438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 02/47] fix: do not hang when the context is cancelled during
 an update

---
 app.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index c9f6be3..8e23f48 100644
--- a/app.go
+++ b/app.go
@@ -365,7 +365,12 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+
+			select {
+			case a.cmds <- cmd:
+			case <-a.ctx.Done():
+				return model, nil
+			}
 
 			if err := a.draw(model); err != nil {
 				return model, fmt.Errorf("draw: %w", err)
-- 
2.43.0


From 7eee81bb3f752048f4a0c99b6d4afe379f543abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 03/47] fix: run batched commands and keep nested sequences in
 order

---
 app.go | 69 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index 8e23f48..74be78c 100644
--- a/app.go
+++ b/app.go
@@ -298,6 +298,43 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	}()
 }
 
+// runToCompletion sends the message to the program. If the message holds other
+// commands they are run first, so it returns only after all of them are finished.
+func (a *appRunner) runToCompletion(msg Msg) {
+	switch msg := msg.(type) {
+	case sequenceMsg:
+		// Execute commands one at a time, in order.
+		for _, cmd := range msg {
+			if cmd == nil {
+				continue
+			}
+
+			a.runToCompletion(cmd())
+		}
+	case BatchMsg:
+		var g errgroup.Group
+
+		for _, cmd := range msg {
+			cmd := cmd
+			if cmd == nil {
+				continue
+			}
+
+			g.Go(func() error {
+				defer a.recoverFromPanic()
+
+				a.runToCompletion(cmd())
+
+				return nil
+			})
+		}
+
+		_ = g.Wait() // wait for all commands from batch msg to finish
+	default:
+		a.Send(msg)
+	}
+}
+
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
@@ -331,35 +368,17 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					a.handleCmd(cmd)
+				}
+
+				continue
 			case sequenceMsg:
 				go func() {
 					defer a.recoverFromPanic()
 
-					// Execute commands one at a time, in order.
-					for _, cmd := range msg {
-						if cmd == nil {
-							continue
-						}
-
-						msg := cmd()
-						if batchMsg, ok := msg.(BatchMsg); ok {
-							g, _ := errgroup.WithContext(a.ctx)
-							for _, cmd := range batchMsg {
-								cmd := cmd
-								g.Go(func() error {
-									defer a.recoverFromPanic()
-
-									a.Send(cmd())
-									return nil
-								})
-							}
-
-							_ = g.Wait() // wait for all commands from batch msg to finish
-							continue
-						}
-
-						a.Send(msg)
-					}
+					a.runToCompletion(msg)
 				}()
 			}
 
-- 
2.43.0


From 20613b9b776f390b61ccf8c558ecc089e0ea6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 04/47] fix: stop reading the input when the program exits

---
 app.go | 9 +++++++++
 tty.go | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 74be78c..6c926d2 100644
--- a/app.go
+++ b/app.go
@@ -426,6 +426,15 @@ func (a *appRunner) recoverFromPanic() {
 func (a *appRunner) shutdown() error {
 	a.cancelCtx()
 
+	// Stop reading, so that the input is left to whoever reads it next.
+	if a.cancelReader != nil {
+		if a.cancelReader.Cancel() {
+			a.waitForReadLoop()
+		}
+
+		_ = a.cancelReader.Close()
+	}
+
 	a.handlers.shutdown()
 
 	return a.restore()
diff --git a/tty.go b/tty.go
index 274848b..46c634d 100644
--- a/tty.go
+++ b/tty.go
@@ -54,7 +54,7 @@ func (a *appRunner) restoreTerminal() error {
 }
 
 func (a *appRunner) initCancelReader() error {
-	r, err := newInputReader(a.terminal)
+	r, err := newInputReader(a.terminal.Input())
 	if err != nil {
 		return fmt.Errorf("new reader: %w", err)
 	}
-- 
2.43.0


From fd67c90e34bc248e70c35fe7059179a3d2b26830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 05/47] fix: report terminal size errors

---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index 46c634d..04f71aa 100644
--- a/tty.go
+++ b/tty.go
@@ -94,10 +94,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -107,5 +103,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From 78376daf5a49b330e11f58a25be4556c13a01c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 06/47] fix: draw the hidden modifier and keep the remaining
 blink modifier

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..0578b76 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -336,6 +336,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -372,6 +384,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From fcc94ee8d2d7edbf36c31f42fe072f4d397d79f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 07/47] fix: draw colors without a representation as the
 default color

---
 internal/ansi/command.go |  4 ++--
 terminal_backend.go      | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..ac34d2f 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -63,9 +63,9 @@ func (c SetColors) WriteANSI(w io.Writer) error {
 	switch {
 	case c.Foreground != nil && c.Background != nil:
 		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
 	case c.Foreground != nil && c.Background == nil:
+		return write(w, CSI+c.Foreground.Sequence(false)+"m")
+	case c.Foreground == nil && c.Background != nil:
 		return write(w, CSI+c.Background.Sequence(true)+"m")
 	default:
 		return nil
diff --git a/terminal_backend.go b/terminal_backend.go
index 0578b76..85fef4d 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -171,8 +171,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		if cell.Fg != fg || cell.Bg != bg {
 			if err := d.queue(ansi.SetColors(ansi.Colors{
-				Foreground: d.colorProfile.Convert(cell.Fg),
-				Background: d.colorProfile.Convert(cell.Bg),
+				Foreground: d.convertColor(cell.Fg),
+				Background: d.convertColor(cell.Bg),
 			})); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
@@ -279,6 +279,20 @@ func (d *DefaultBackend) execute(commands ...ansi.Command) error {
 	return nil
 }
 
+// convertColor transforms the color to the one supported by the color profile.
+//
+// Colors with no representation become the default color of the terminal. Their sequence is empty,
+// and an empty sequence parameter means a reset of all the attributes.
+func (d *DefaultBackend) convertColor(color Color) Color {
+	converted := d.colorProfile.Convert(color)
+
+	if _, isNoColor := converted.(termenv.NoColor); isNoColor || converted == nil {
+		return ResetColor{}
+	}
+
+	return converted
+}
+
 func (d *DefaultBackend) outputFd() (uintptr, bool) {
 	file, ok := d.output.(term.File)
 	if !ok {
-- 
2.43.0


From c019082d61a655b2f37c9a2eae6943427112de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 08/47] fix: skip zero-width graphemes and do not overflow the
 width in SetStringN

---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 4ac35debf874b4bb447b2b57527f79cfa18b0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/47] fix: do not overwrite graphemes wider than two cells
 when drawing

---
 buffer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 4078a63..ad85625 100644
--- a/buffer.go
+++ b/buffer.go
@@ -68,7 +68,11 @@ func (b *Buffer) Diff(other *Buffer) []PositionedCell {
 		previousWidth := uniseg.StringWidth(previous.Symbol)
 		currentWidth := uniseg.StringWidth(current.Symbol)
 
-		toSkip = max(0, currentWidth-1)
+		if toSkip > 0 {
+			toSkip--
+		} else {
+			toSkip = max(0, currentWidth-1)
+		}
 
 		affectedWidth := max(previousWidth, currentWidth)
 
-- 
2.43.0


From 06b9cd5364f54144b1d518498426d9dbbfe18247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 10/47] fix: set the left side in Padding.WithLeft

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From 2aca7dd6553baeff252303f8ce12614232a85e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 11/47] fix: do not lose long lines of text

---
 widget/textwidget/line.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..762591e 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, s := range splitLines(joined) {
+			lines = append(lines, NewLineStr(s))
 		}
 	}
 
@@ -107,13 +102,9 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
@@ -315,3 +306,19 @@ func setLine(x, y int, buffer *bento.Buffer, line *Line, maxWidth int) (int, int
 
 	return x, y
 }
+
+// splitLines splits the string into lines without their end-of-line markers.
+// It works the same as [bufio.ScanLines], but without a limit on the line length.
+func splitLines(s string) []string {
+	if s == "" {
+		return nil
+	}
+
+	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
+
+	for i, line := range lines {
+		lines[i] = strings.TrimSuffix(line, "\r")
+	}
+
+	return lines
+}
-- 
2.43.0


From dc6a026132c1be93841992809892a9afec966383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 12/47] fix: do not lose spans with zero-width graphemes when
 truncating a line

---
 widget/textwidget/line.go | 2 +-
 widget/textwidget/span.go | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 762591e..0a0cfc8 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -301,7 +301,7 @@ func setLine(x, y int, buffer *bento.Buffer, line *Line, maxWidth int) (int, int
 		w := max(0, newX-x)
 		x = newX
 
-		remainingWidth = max(0, remainingWidth, w)
+		remainingWidth = max(0, remainingWidth-w)
 	}
 
 	return x, y
diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..e022b76 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -179,13 +179,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 		return s, currentWidth
 	}
 
-	for {
+	for s != "" {
 		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
-			break
-		}
-
 		currentWidth -= width
 
 		if currentWidth <= maxWidth {
-- 
2.43.0


From 675ab0667c4da084ac644d1b76370bfce19bbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 13/47] fix: apply the line style to the cells of the aligned
 line

---
 widget/textwidget/line.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 0a0cfc8..e8e79b1 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -223,8 +223,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -248,6 +246,8 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
+
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -263,6 +263,8 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
+
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
-- 
2.43.0


From aa5989034d6d615acf0606f4c0339c6e13cafdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 14/47] fix: do not share appended elements between values
 derived from the same builder

---
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..09321f3 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..c87120f 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e8e79b1..2f77ba4 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -124,12 +124,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 1e8eccc11977c0177456a6a3c564c7221f7ebe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 15/47] fix: do not leave blank graphemes when wrapping words

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 82804156c8ef6ab20ee8b0c91244dadfd13c0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 16/47] fix: do not overflow the line with wide graphemes when
 wrapping words

---
 internal/reflow/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 2d771a6..8052e86 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
-- 
2.43.0


From 82fd3be53c524333e5ff6d06f97fbb5c2300dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 17/47] fix: truncate lines one by one

---
 internal/reflow/truncator.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..9287296 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,7 +35,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
@@ -43,9 +43,10 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 	horizontalOffset := lt.horizontalOffset
 	currentAlignment := bento.AlignmentLeft
 
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
+	if len(lt.inputLines) > 0 {
+		line := lt.inputLines[0]
+		lt.inputLines = lt.inputLines[1:]
+
 		currentLine := line.Graphemes
 		currentAlignment = line.Alignment
 		alignment := line.Alignment
@@ -83,8 +84,6 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		}
 	}
 
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
-
 	if linesExhausted {
 		return WrappedLine{}, false
 	}
-- 
2.43.0


From db1e0b0918700ab7460f95d48c7aa66003c557e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 18/47] fix: move the cursor explicitly after symbols that are
 not one cell wide

---
 terminal_backend.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 85fef4d..a01688c 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -9,6 +9,7 @@ import (
 	"github.com/metafates/bento/internal/ansi"
 	"github.com/metafates/bento/internal/bit"
 	"github.com/muesli/termenv"
+	"github.com/rivo/uniseg"
 )
 
 type TerminalBackend interface {
@@ -156,6 +157,11 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		lastPos = &Position{X: x, Y: y}
 
+		// Only a single-width symbol is known to move the cursor to the next cell.
+		if uniseg.StringWidth(cell.Symbol) != 1 {
+			lastPos = nil
+		}
+
 		if cell.Modifier != modifier {
 			diff := _StyleModifierDiff{
 				From: modifier,
-- 
2.43.0


From ce1cab0d17001e13b3290b73824e885fa86f3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 19/47] fix: clip the block to the buffer

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index c87120f..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From fd217274df1b8507f52551b1e1b29c8183d693ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 20/47] fix: reject gauge ratios out of range

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..abd937a 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From 8af41f0115e6511353b7e46768cb4152c6608fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 21/47] fix: draw the horizontal scrollbar at its side of the
 area

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..7fa7e12 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -265,7 +265,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -273,7 +273,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 848026d54958dd0a7a01bbb88eadaf089420ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 22/47] fix: do not reserve cells for the missing ends of the
 scrollbar

---
 widget/scrollwidget/scroll.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 7fa7e12..b1f3e6c 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -142,8 +142,12 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 		}
 	}
 
+	var symbols []*_Symbol
+
 	// <
-	symbols := []*_Symbol{begin}
+	if begin != nil && begin.Symbol != "" {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -155,7 +159,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil && end.Symbol != "" {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From 9ccfad5cd1fe3b3758b807a68a50abd1969059cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 23/47] fix: use vertical arrows in the vertical scrollbar set

---
 widget/scrollwidget/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/set.go b/widget/scrollwidget/set.go
index c837277..980abc2 100644
--- a/widget/scrollwidget/set.go
+++ b/widget/scrollwidget/set.go
@@ -48,8 +48,8 @@ var _doubleVertical = Set{
 var _vertical = Set{
 	Track: symbol.LineVertical,
 	Thumb: symbol.BlockFull,
-	Begin: symbol.ArrowLeft,
-	End:   symbol.ArrowRight,
+	Begin: symbol.ArrowUp,
+	End:   symbol.ArrowDown,
 }
 
 var _doubleHorizontal = Set{
-- 
2.43.0


From 1ec1c06d5cd3d3254a15f32e430da4f1c4be6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 24/47] fix: do not overflow the list selection

---
 widget/listwidget/state.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..d5fe5d7 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -138,3 +138,13 @@ func (s *State) Selected(max_ int) (index int, ok bool) {
 
 	return min(max_, max(0, *s.selected)), true
 }
+
+// saturatingAdd adds b to a non-negative a. The selection is unbounded until it is rendered,
+// so the sum must not overflow.
+func saturatingAdd(a, b int) int {
+	if b > math.MaxInt-a {
+		return math.MaxInt
+	}
+
+	return a + b
+}
-- 
2.43.0


From 8410d7c93e8255e3add4fcf0f5d464d657e6d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 25/47] fix: do not leave an empty grapheme when deleting the
 first word of the input

---
 widget/inputwidget/state.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..ab266d7 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -86,16 +86,21 @@ func (s *State) DeleteWordUnderCursor() {
 }
 
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
+	if s.underCursor().IsEmpty() {
+		return
+	}
+
 	before, under, after := s.splitAtCursor()
 
 	current := under
 
 	for cond(current) {
+		s.MoveCursorLeft()
+
 		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
+			s.graphemes = after
+			return
 		}
-		s.MoveCursorLeft()
 
 		current = before[len(before)-1]
 		before = before[:len(before)-1]
-- 
2.43.0


From 78291f0de29200a832a6c91bf7070b8eaa9db12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 26/47] fix: keep the cursor of the input visible

---
 widget/inputwidget/input.go |  6 ++--
 widget/inputwidget/state.go | 61 +++++++++----------------------------
 2 files changed, 17 insertions(+), 50 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..ee3c5e9 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -127,7 +127,7 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		offset:    state.offset,
 	}
 
-	before, cursor, after := i.split(tempState)
+	before, cursor, after := i.split(*state, tempState)
 
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
@@ -153,7 +153,7 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 	line.Render(area, buffer)
 }
 
-func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
+func (i Input) split(state, visible State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
 	if state.isEmpty() {
 		placeholder := i.placeholder
 		if len(placeholder) == 0 {
@@ -166,7 +166,7 @@ func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.
 		return textwidget.NewSpan(""), cursor, after
 	}
 
-	before, under, after := state.splitAtCursor()
+	before, under, after := visible.splitAtCursor()
 
 	before = append(before, under)
 
diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index ab266d7..d67f43c 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
-	"github.com/metafates/bento/internal/sliceutil"
 	"github.com/rivo/uniseg"
 )
 
@@ -221,62 +220,30 @@ func (s *State) splitAtCursor() (before grapheme.Graphemes, under grapheme.Graph
 	return before, under, after
 }
 
+// getBounds returns the range of graphemes to display so that the cursor is
+// visible: either the grapheme under it, or the end of the content.
 func (s *State) getBounds(maxWidth int) (int, int) {
-	if len(s.graphemes) == 0 {
-		return 0, 0
-	}
-
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
-
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
+	maxWidth = max(0, maxWidth)
 
-	var widthFromOffset int
+	firstVisibleIndex := min(s.offset, max(0, s.cursor-1))
+	lastVisibleIndex := min(s.cursor+1, len(s.graphemes))
 
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
-			break
-		}
+	width := s.graphemes[firstVisibleIndex:lastVisibleIndex].Width()
 
-		widthFromOffset += g.Width()
+	for width > maxWidth && firstVisibleIndex < s.cursor {
+		width -= s.graphemes[firstVisibleIndex].Width()
 
-		lastVisibleIndex++
+		firstVisibleIndex++
 	}
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
-
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
-
-		lastVisibleIndex++
-
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
-	}
-
-	for indexToDisplay < firstVisibleIndex {
-		firstVisibleIndex--
-
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
-
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
+	for _, g := range s.graphemes[lastVisibleIndex:] {
+		if width+g.Width() > maxWidth {
+			break
 		}
-	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
+		width += g.Width()
 
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		lastVisibleIndex++
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From 83534b111e54d7cf271534247e42cf2fde07d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 27/47] fix: do not swallow the input up to the next mouse
 event

An unknown sequence starting with CSI < was merged with the first thing
after it that looks like the end of a mouse event.
---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 4490cb3..5bbcdb6 100644
--- a/input.go
+++ b/input.go
@@ -610,7 +610,7 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
-- 
2.43.0


From 056c9e0288ddc83f69287ed44ddf004506d10325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 28/47] fix: accept the replacement character in the input

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 5bbcdb6..3ab1255 100644
--- a/input.go
+++ b/input.go
@@ -673,7 +673,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -763,7 +763,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From 6110f96b9be335f720c9bd61174f53f240bd2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 29/47] fix: report focus events followed by other input

---
 input.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 3ab1255..93a7585 100644
--- a/input.go
+++ b/input.go
@@ -720,9 +720,15 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		// This may be a DECCKM or urxvt arrow key.
+		if len(input) > 3 {
+			if _, ok := sequences[string(input[:4])]; ok {
+				return false, 0, nil
+			}
+		}
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
-- 
2.43.0


From 9eb13b7840e948c7a0f131521597df6e5c81bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 30/47] fix: do not break events across read boundaries

---
 input.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 93a7585..fb87cec 100644
--- a/input.go
+++ b/input.go
@@ -609,14 +609,42 @@ loop:
 }
 
 var (
-	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
+	unknownCSIRe    = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
+	incompleteCSIRe = regexp.MustCompile(`^\x1b\x1b?\[[\x30-\x3f]*[\x20-\x2f]*$`)
+	mouseSGRRegex   = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
+// mouseEventX10Len is the length of X10 mouse events
+const mouseEventX10Len = 6
+
+// isIncomplete reports whether the whole input may be just the beginning of a
+// longer event, the rest of which has not been read yet.
+func isIncomplete(b []byte) bool {
+	if bytes.HasPrefix(b, []byte("\x1b[M")) && len(b) < mouseEventX10Len {
+		return true
+	}
+
+	if incompleteCSIRe.Match(b) {
+		return true
+	}
+
+	if len(b) < seqLengths[0] {
+		for seq := range extSequences {
+			if len(seq) > len(b) && strings.HasPrefix(seq, string(b)) {
+				return true
+			}
+		}
+	}
+
+	return !utf8.FullRune(bytes.TrimPrefix(b, []byte("\x1b")))
+}
+
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	if canHaveMoreData && isIncomplete(b) {
+		return 0, nil
+	}
+
 	// Detect mouse events.
-	// X10 mouse events have a length of 6 bytes
-	const mouseEventX10Len = 6
 	if len(b) >= mouseEventX10Len && b[0] == '\x1b' && b[1] == '[' {
 		switch b[2] {
 		case 'M':
-- 
2.43.0


From db86b3c5fc3aceddda7f0648bb076a9f9a62c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 31/47] fix: do not reuse solver symbols in layouts with many
 constraints

---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..51614b4 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -24,7 +24,7 @@ type _EditInfo struct {
 type _VariableData struct {
 	constant float64
 	symbol   _Symbol
-	id       uint8
+	id       uint64
 }
 
 type Solver struct {
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 22b6b9f3450246d7942158e2567e65dcb9580bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 32/47] fix: put space around all segments with FlexSpaceAround

---
 layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout.go b/layout.go
index 09321f3..c4cbe9f 100644
--- a/layout.go
+++ b/layout.go
@@ -427,11 +427,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
+		if len(spacers) >= 2 {
+			for _, indices := range combinations(len(spacers), 2) {
 				i, j := indices[0], indices[1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
+				left, right := spacers[i], spacers[j]
 
 				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 					return fmt.Errorf("add has size constraint: %w", err)
@@ -439,7 +439,7 @@ func configureFlexConstraints(
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0


From 3b4f661785ad867ecf0a020fe34f5de06c0efd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 33/47] fix: make the layout solver deterministic

The choice of the pivots depended on the order of map iteration, so that the
same layout could be split differently from frame to frame.
---
 internal/casso/casso.go  | 24 ++++++++++++++++++
 internal/casso/solver.go | 53 ++++++++++++++++++++++++++--------------
 2 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index c04cd62..1d956a9 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -193,6 +193,30 @@ func newInvalidSymbol() _Symbol {
 	}
 }
 
+func (s _Symbol) isValid() bool {
+	return s.Type != SymbolTypeInvalid
+}
+
+// firstSymbol returns the oldest symbol of the row that satisfies the condition.
+//
+// The order in which symbols are chosen must not depend on the order of map
+// iteration: the solution would not be reproducible, and the solver could cycle.
+func (r *_Row) firstSymbol(cond func(s _Symbol, coefficient float64) bool) _Symbol {
+	first := newInvalidSymbol()
+
+	for s, v := range r.cells {
+		if first.isValid() && s.Value > first.Value {
+			continue
+		}
+
+		if cond(s, v) {
+			first = s
+		}
+	}
+
+	return first
+}
+
 type _Row struct {
 	cells    map[_Symbol]float64
 	constant float64
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 51614b4..f18edf2 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -234,8 +234,8 @@ func (s *Solver) addWithArtificialVariable(row _Row) (bool, error) {
 }
 
 func (s *Solver) optimize(objective *_Row) error {
-	for {
-		entering := getEnteringSymbol(*objective)
+	for pivots := 0; ; pivots++ {
+		entering := getEnteringSymbol(*objective, pivots > maxGreedyPivots)
 		if entering.Type == SymbolTypeInvalid {
 			return nil
 		}
@@ -303,7 +303,7 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				if tempRatio < ratio || (tempRatio == ratio && s.Value < found.Value) {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,10 +429,12 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
-		}
+	external := row.firstSymbol(func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeExternal
+	})
+
+	if external.isValid() {
+		return external
 	}
 
 	for _, s := range []_Symbol{tag.marker, tag.other} {
@@ -457,23 +459,36 @@ func allDummies(row _Row) bool {
 	return true
 }
 
-func getEnteringSymbol(objective _Row) _Symbol {
+// maxGreedyPivots is the number of pivots after which the symbol to enter the
+// basis is chosen in a way that prevents cycling, but usually needs more pivots.
+const maxGreedyPivots = 1000
+
+func getEnteringSymbol(objective _Row, preventCycles bool) _Symbol {
+	if preventCycles {
+		return objective.firstSymbol(func(s _Symbol, coefficient float64) bool {
+			return s.Type != SymbolTypeDummy && coefficient < 0
+		})
+	}
+
+	var lowest float64
+
 	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
+		if s.Type != SymbolTypeDummy {
+			lowest = min(lowest, v)
 		}
 	}
 
-	return newInvalidSymbol()
+	if lowest == 0 {
+		return newInvalidSymbol()
+	}
+
+	return objective.firstSymbol(func(s _Symbol, coefficient float64) bool {
+		return s.Type != SymbolTypeDummy && coefficient == lowest
+	})
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
-	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
-		}
-	}
-
-	return newInvalidSymbol()
+	return row.firstSymbol(func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeSlack || s.Type == SymbolTypeError
+	})
 }
-- 
2.43.0


From 8847f2ff8204a8f716ae78f09377afd669359769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 34/47] fix: do not miss or reorder resizes at the start

---
 app.go             | 5 +----
 signals_unix.go    | 3 +++
 signals_windows.go | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/app.go b/app.go
index 6c926d2..e0187ba 100644
--- a/app.go
+++ b/app.go
@@ -338,10 +338,7 @@ func (a *appRunner) runToCompletion(msg Msg) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Get the initial terminal size, send it to the program and listen for window resizes.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..6906126 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -21,6 +21,9 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 		close(done)
 	}()
 
+	// Sent from here, the initial size can neither overtake a resize nor miss it.
+	a.checkResize()
+
 	for {
 		select {
 		case <-a.ctx.Done():
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..6346815 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -6,5 +6,7 @@ package bento
 // listenForResize is not available on windows because windows does not
 // implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
-	close(done)
+	defer close(done)
+
+	a.checkResize()
 }
-- 
2.43.0


From dcbadaf1d6ce3a234bc3b96e07cdca16a57f6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 35/47] fix: draw invalid colors as the default color

---
 terminal_backend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index a01688c..50b575e 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -292,7 +292,7 @@ func (d *DefaultBackend) execute(commands ...ansi.Command) error {
 func (d *DefaultBackend) convertColor(color Color) Color {
 	converted := d.colorProfile.Convert(color)
 
-	if _, isNoColor := converted.(termenv.NoColor); isNoColor || converted == nil {
+	if converted == nil || converted.Sequence(false) == "" || converted.Sequence(true) == "" {
 		return ResetColor{}
 	}
 
-- 
2.43.0


From 504346e1a3e10086ffb4bcd8a027722ca252b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 36/47] fix: do not overflow the line with wide words after
 blanks

---
 internal/reflow/wrapper.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 8052e86..3de9234 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -116,6 +116,28 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 				ww.pendingWhitespace.PopFront()
 			}
 
+			// what is pending may still not fit into the new line together with the symbol
+			pendingWidth := wordWidth
+			if !ww.trim {
+				pendingWidth += whitespaceWidth
+			}
+
+			if pendingWidth > 0 && pendingWidth+symbolWidth > ww.maxLineWidth {
+				if !ww.trim {
+					pendingLine = append(pendingLine, ww.pendingWhitespace.Dump()...)
+				}
+
+				pendingLine = append(pendingLine, ww.pendingWord...)
+				ww.wrappedLines.PushBack(slices.Clone(pendingLine))
+				pendingLine = pendingLine[:0]
+
+				ww.pendingWord = ww.pendingWord[:0]
+				ww.pendingWhitespace.Clear()
+
+				wordWidth = 0
+				whitespaceWidth = 0
+			}
+
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
-- 
2.43.0


From 0c8207760db1557ab1c418cf31491dd8a9e577b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 37/47] fix: do not draw zero-width graphemes into cells of
 their own

---
 widget/textwidget/span.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index e022b76..adb63c7 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -52,7 +52,10 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 
 	x, y := area.X, area.Y
 
-	for i, gr := range s.StyledGraphemes(bento.NewStyle()) {
+	// zero-width graphemes at the beginning, which have no cell of their own
+	var leading string
+
+	for _, gr := range s.StyledGraphemes(bento.NewStyle()) {
 		symbolWidth := gr.Width()
 
 		nextX := x + symbolWidth
@@ -61,18 +64,16 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 		}
 
 		switch {
-		case i == 0:
-			// the first grapheme is always set on the cell
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
+		case x == area.X && symbolWidth == 0:
+			leading += gr.String()
 		case x == area.X:
-			// there is one or more zero-width graphemes in the first cell, so the first cell
-			// must be appended to.
-			buffer.CellAt(bento.Position{X: x, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
+			// the first cell also gets the zero-width graphemes before its symbol
+			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(leading + gr.String()).SetStyle(gr.Style)
 		case symbolWidth == 0:
 			// append zero-width graphemes to the previous cell
 			buffer.CellAt(bento.Position{X: x - 1, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
 		default:
-			// just a normal grapheme (not first, not zero-width, not overflowing the area)
+			// just a normal grapheme (not zero-width, not overflowing the area)
 			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
 		}
 
-- 
2.43.0


From 8dd1f97d54c7a8d064029b74b4cfabf316b49ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 38/47] fix: throbber accepted outdated initial ticks

The first tick had the tag of untagged messages, which are accepted at any time,
so starting a throbber twice advanced it twice.
---
 widget/throbberwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/throbberwidget/state.go b/widget/throbberwidget/state.go
index 6fb660d..0b39599 100644
--- a/widget/throbberwidget/state.go
+++ b/widget/throbberwidget/state.go
@@ -19,7 +19,7 @@ func NewState() State {
 	return State{
 		frame: 0,
 		id:    nextID(),
-		tag:   0,
+		tag:   1, // 0 is the tag of messages that are always accepted
 		FPS:   time.Second / 9,
 	}
 }
-- 
2.43.0


From 7fe65bc4a10bb2107082e8c38a223f9b9d0cde73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 39/47] fix: list left rows empty after scrolling past taller
 items

---
 widget/listwidget/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..6b32a25 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -289,6 +289,17 @@ func (l List) getItemsBounds(selected *int, offset, maxHeight int) (int, int) {
 		}
 	}
 
+	// Hiding tall items to show the selected one may have left space for items after it
+	for _, item := range sliceutil.Skip(l.items, lastVisibleIndex) {
+		if heightFromOffset+item.Height() > maxHeight {
+			break
+		}
+
+		heightFromOffset += item.Height()
+
+		lastVisibleIndex++
+	}
+
 	return firstVisibleIndex, lastVisibleIndex
 }
 
-- 
2.43.0


From 55c84e166e30c9672547ac186203744b0e8ed54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 40/47] fix: right-aligned block titles left areas at negative
 coordinates

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 7980179..fe98f15 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -322,7 +322,7 @@ func (b Block) renderRightTitles(position TitlePosition, area bento.Rect, buffer
 		titleWidth := t.Line.Width()
 		titleArea := bento.Rect{
 			Position: bento.Position{
-				X: max(0, max(titlesArea.Left(), titlesArea.Right()-titleWidth)),
+				X: max(titlesArea.Left(), titlesArea.Right()-titleWidth),
 				Y: titlesArea.Y,
 			},
 			Width:  min(titlesArea.Width, titleWidth),
-- 
2.43.0


From 339e9728224e5d8b6357f7024d1128ed34bea491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 41/47] fix: layouts were rounded differently at negative
 coordinates

A segment of a maximal size could be a cell longer than that.
---
 layout.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index c4cbe9f..fa31454 100644
--- a/layout.go
+++ b/layout.go
@@ -124,15 +124,14 @@ func (l Layout) split(area Rect) (segments []Rect, spacers []Rect, err error) {
 
 	innerArea := area.Inner(l.Padding)
 
+	// Relative to the area, so that rounding is the same wherever it is
 	var areaStart, areaEnd float64
 
 	switch l.Direction {
 	case DirectionHorizontal:
-		areaStart = float64(innerArea.X) * _floatPrecisionMultiplier
-		areaEnd = float64(innerArea.Right()) * _floatPrecisionMultiplier
+		areaEnd = float64(innerArea.Width) * _floatPrecisionMultiplier
 	case DirectionVertical:
-		areaStart = float64(innerArea.Y) * _floatPrecisionMultiplier
-		areaEnd = float64(innerArea.Bottom()) * _floatPrecisionMultiplier
+		areaEnd = float64(innerArea.Height) * _floatPrecisionMultiplier
 	}
 
 	variableCount := len(l.Constraints)*2 + 2
@@ -228,7 +227,7 @@ func changesToRects(
 		case DirectionHorizontal:
 			rect := Rect{
 				Position: Position{
-					X: startRounded,
+					X: area.X + startRounded,
 					Y: area.Y,
 				},
 				Width:  size,
@@ -240,7 +239,7 @@ func changesToRects(
 			rect := Rect{
 				Position: Position{
 					X: area.X,
-					Y: startRounded,
+					Y: area.Y + startRounded,
 				},
 				Width:  area.Width,
 				Height: size,
-- 
2.43.0


From 3d38b229c02f361ec3150001db9d5795a2f24d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 42/47] fix: huge fill weights made the layout panic

---
 layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index fa31454..da46052 100644
--- a/layout.go
+++ b/layout.go
@@ -299,7 +299,7 @@ func configureFillConstraints(
 				scale := float64(c)
 
 				scalingFactor = 1e-6
-				scalingFactor = max(scalingFactor, scale)
+				scalingFactor = max(scalingFactor, min(scale, math.MaxUint16))
 
 			case ConstraintMin:
 				scalingFactor = 1
-- 
2.43.0


From a77086b8f89f5812e03e7229b37ddf99f9a7e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 43/47] fix: fill weights of very different sizes broke layouts

---
 layout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout.go b/layout.go
index da46052..a615ff0 100644
--- a/layout.go
+++ b/layout.go
@@ -298,8 +298,8 @@ func configureFillConstraints(
 			case ConstraintFill:
 				scale := float64(c)
 
-				scalingFactor = 1e-6
-				scalingFactor = max(scalingFactor, min(scale, math.MaxUint16))
+				scalingFactor = 1e-3
+				scalingFactor = max(scalingFactor, min(scale, 10_000))
 
 			case ConstraintMin:
 				scalingFactor = 1
-- 
2.43.0


From 832ae10b3d95d177bd46aceea0d849b74202061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 44/47] fix: keep the bytes of an unknown control sequence
 apart from the read buffer

---
 input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input.go b/input.go
index fb87cec..c0a77c4 100644
--- a/input.go
+++ b/input.go
@@ -868,7 +868,8 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		// The input is overwritten by the next read.
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From 1caf0fee9a49e63b69d8c9154b9ac503126ccff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 45/47] fix: close the input when the terminal cannot be set up

---
 app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app.go b/app.go
index e0187ba..e201953 100644
--- a/app.go
+++ b/app.go
@@ -127,6 +127,10 @@ func (a App) Run() (Model, error) {
 	backend := NewDefaultBackend(input, a.output)
 	terminal, err := NewTerminal(&backend, ViewportFullscreen{})
 	if err != nil {
+		if closeInput != nil {
+			_ = closeInput()
+		}
+
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
-- 
2.43.0


From 8c850427c9257c9fd149af9493485a867f8bb3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 46/47] fix: deliver typed characters that end exactly at a
 full read

A read that fills the buffer may be followed by more of the same message,
so the characters at its end were held back until something else was typed.
They are delivered after a moment if nothing more comes.
---
 input.go | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index c0a77c4..50ee09a 100644
--- a/input.go
+++ b/input.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"time"
 	"unicode/utf8"
 )
 
@@ -555,16 +556,57 @@ func (u unknownCSISequenceMsg) String() string {
 
 var spaceRunes = []rune{' '}
 
+// inputGrace is for how long characters at the end of the input are held back
+// when there may be more data which belongs to the same message.
+const inputGrace = 100 * time.Millisecond
+
+// inputRead is the result of reading input.
+type inputRead struct {
+	numBytes int
+	err      error
+}
+
 // readAnsiInputs reads keypress and mouse inputs from a TTY and produces messages
 // containing information about the key or mouse events accordingly.
 func readAnsiInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error {
 	var buf [256]byte
 
 	var leftOverFromPrevIteration []byte
+	var canHaveMoreData bool
+
+	// The read that is under way.
+	var pending chan inputRead
+	defer func() {
+		if pending != nil {
+			<-pending
+		}
+	}()
 loop:
 	for {
-		// Read and block.
-		numBytes, err := input.Read(buf[:])
+		if pending == nil {
+			result := make(chan inputRead, 1)
+			pending = result
+
+			go func() {
+				numBytes, err := input.Read(buf[:])
+				result <- inputRead{numBytes, err}
+			}()
+		}
+
+		// Whole characters can not be held back until something else is typed.
+		var grace <-chan time.Time
+		if canHaveMoreData && len(leftOverFromPrevIteration) > 0 && !isIncomplete(leftOverFromPrevIteration) {
+			grace = time.After(inputGrace)
+		}
+
+		var read inputRead
+		select {
+		case read = <-pending:
+			pending = nil
+		case <-grace:
+		}
+
+		numBytes, err := read.numBytes, read.err
 		if err != nil {
 			return fmt.Errorf("error reading input: %w", err)
 		}
@@ -580,7 +622,7 @@ loop:
 		// be more data in the OS buffer ready to be read in, to complete
 		// the last message in the input. In that case, we will retry with
 		// the left over data in the next iteration.
-		canHaveMoreData := numBytes == len(buf)
+		canHaveMoreData = numBytes == len(buf)
 
 		var i, w int
 		for i, w = 0, 0; i < len(b); i += w {
-- 
2.43.0


From 63d3d910addd3ac2403a1c5ad91327143274bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 47/47] fix: keep the size of segments that end between two
 hundredths of a cell

---
 layout.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/layout.go b/layout.go
index a615ff0..671affc 100644
--- a/layout.go
+++ b/layout.go
@@ -218,8 +218,8 @@ func changesToRects(
 		start := changes[e.Start]
 		end := changes[e.End]
 
-		startRounded := int(math.Round(math.Round(start) / _floatPrecisionMultiplier))
-		endRounded := int(math.Round(math.Round(end) / _floatPrecisionMultiplier))
+		startRounded := roundToCell(start)
+		endRounded := roundToCell(end)
 
 		size := max(0, endRounded-startRounded)
 
@@ -252,6 +252,17 @@ func changesToRects(
 	return rects
 }
 
+// roundToCell returns the number of cells for a value computed by the solver.
+func roundToCell(value float64) int {
+	// Without the tiny errors of the solver, values that differ by
+	// a whole number of cells are rounded in the same direction.
+	const precision = 1e4
+
+	value = math.Round(value*precision) / precision
+
+	return int(math.Round(math.Round(value) / _floatPrecisionMultiplier))
+}
+
 func configureFillConstraints(
 	solver *casso.Solver,
 	segments []_Element,
-- 
2.43.0

