#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/gen_properties.py > properties.jsonl`."""
import json

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    print(json.dumps({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None,
        },
    }, ensure_ascii=False))

NOAPP = "No test runs the program loop at all: the suite never starts an App. "
NODRAW = "No test looks at what is written to a terminal. "

# ---------------------------------------------------------------- A: program runtime
p("A01", "The terminal is restored on every way out of Run",
  "Whatever ends a program (quit, cancelled context, a panic in the model, in its rendering or in a command, or a failing input or output), when Run returns the terminal modes of the input are those found at the start, and as far as the output can still be written, the cursor is visible, the alternate screen has been left, bracketed paste is off and no text style is active.",
  ["histories", "fault_sequences", "schedules"],
  "for every exit cause, injected at every point of the run (first drawing, later drawing, update, command, batch, sequence), with any messages and commands in flight",
  NOAPP + "The exit paths multiply with the point at which they are taken, and a missed one leaves the user's shell unusable.",
  ["app.go", "tty.go", "terminal.go", "terminal_backend.go", "terminal_backend_unix.go"],
  [("deferred shutdown and restore", "app.go:appRunner.Run"), ("restoreTerminal", "tty.go"), ("DisableRawMode", "terminal_backend.go")],
  [("prevInputState", "terminal modes before the start", "terminal_backend.go:DefaultBackend")],
  ["termios of the input pty", "bytes written to the output pty, interpreted by a terminal emulator"])
p("A02", "Run reports why the program ended",
  "Run returns the model last returned by Update and no error when the program quits, an error matching ErrKilled when its context is cancelled, an error matching ErrPanicked when the model or one of its commands panics, and some non-nil error when the input or output fails. A panic never escapes Run and never takes the process down.",
  ["histories", "fault_sequences", "schedules"],
  "for every exit cause injected at every point of the run, alone and while commands are in flight",
  NOAPP + "Error propagation crosses four goroutines and depends on which of them fails and when.",
  ["app.go", "tty.go"],
  [("eventLoop", "app.go"), ("recoverFromPanic", "app.go"), ("readLoop", "tty.go")],
  [], ["result of Run"])
p("A03", "Run always returns once asked to stop",
  "Once the program quits, its context is cancelled, it panics or its input or output fails, Run returns: commands that are still running or never return, messages nobody has received yet, and a resize or key arriving at that moment cannot keep it alive.",
  ["schedules", "histories", "fault_sequences"],
  "for every set of in-flight commands (blocked for ever, flooding, nested batches and sequences), every exit cause and every interleaving of it with input and resizes",
  NOAPP + "Deadlocks on shutdown need particular interleavings of the loop, the command runner, the reader and the resize watcher.",
  ["app.go", "tty.go", "signals_unix.go"],
  [("ctx.Done branch of every channel operation", "app.go, tty.go, signals_unix.go"), ("handlers.shutdown", "app.go")],
  [], ["return of Run", "goroutine states at a watchdog"])
p("A04", "Every message reaches Update exactly once, in order",
  "Every key typed while the program runs, and every message produced by a command, reaches Update exactly once, except the messages that the runtime itself consumes (nil, quit and batch messages); keys reach it in the order typed. The first message that is not a key typed or a command's result is the initial window size, and no message reaches Update after a quit message has been accepted.",
  ["schedules", "histories"],
  "for every mix of typed keys, commands producing unique messages at arbitrary times, batches, sequences and nil messages",
  NOAPP + "Loss or duplication depends on scheduling between the reader, the command goroutines and the loop.",
  ["app.go", "input.go", "tty.go"],
  [("unbuffered message channel", "app.go:appRunner.msgs"), ("handleCmd", "app.go"), ("readLoop", "tty.go")],
  [("msgs", "messages on their way to Update", "app.go:appRunner")], ["calls of Model.Update"])
p("A05", "Init, Update and Render never overlap and follow one model history",
  "The runtime calls Init, Update and Render one at a time, without data races among them: Init and a first Render come before any Update; every Update is called on the model returned by the one before it (the initial model at first) and is followed by a Render of the model it returned before the next Update; a normal quit ends with a Render of the final model.",
  ["schedules", "histories"],
  "for every schedule of input, resizes, batches and sequences hitting a model whose state is unsynchronized",
  NOAPP + "Overlap and races only show under concurrent sources of messages, with a race detector and call/return monitors watching.",
  ["app.go"],
  [("single event loop goroutine", "app.go:eventLoop")],
  [("model", "the current model", "app.go:eventLoop")], ["call and return events of the model's methods", "race detector reports"])
p("A06", "Commands all run, exactly once and without blocking each other",
  "Every non-nil command returned by Init or Update, or held by a batch at any depth of nesting, is executed exactly once; nil commands are ignored. The commands of a batch run concurrently, and no command, however long it takes, delays Update, rendering, input, or the other commands outside its own sequence.",
  ["schedules", "histories", "inputs"],
  "for every tree of batches, sequences, plain and nil commands, with commands that finish in any order or wait for each other",
  NOAPP + "Exactly-once execution over nested trees and the absence of hidden waiting are schedule properties.",
  ["app.go", "cmd.go"],
  [("handleCommands / handleCmd", "app.go"), ("Batch", "cmd.go"), ("runToCompletion", "app.go")],
  [], ["execution of instrumented commands", "calls of Model.Update"])
p("A07", "Sequences run their commands one at a time, in order",
  "The commands of a sequence are started one after the other in the order given: each starts only after the previous one returned and its message was received by the program. This holds at any nesting: a sequence or batch inside a sequence counts as finished when everything in it is, and the messages of a sequence reach Update in order.",
  ["schedules", "histories", "inputs"],
  "for every nesting of sequences and batches, several running concurrently with input",
  NOAPP + "Order violations appear only for particular nestings and timings.",
  ["app.go", "cmd.go"],
  [("runToCompletion", "app.go"), ("Sequence", "cmd.go")],
  [], ["start and end events of instrumented commands", "calls of Model.Update"])
p("A08", "Input typed after the program ended is left for the next reader",
  "After Run has returned, nothing of the program reads from the terminal any more: every byte typed from then on is available, complete and in order, to whoever reads the terminal next, including a program run again in the same process.",
  ["schedules", "histories"],
  "for every exit cause, with and without input typed before the exit",
  NOAPP + "A left-over reader only shows when the terminal is used again afterwards.",
  ["app.go", "tty.go"],
  [("cancelReader.Cancel and waitForReadLoop in shutdown", "app.go, tty.go")],
  [], ["bytes read from the pty after Run returned"])
p("A09", "Resizes are announced and the screen follows the new size",
  "When the terminal is resized, the program receives the new size (the last one it receives is the actual size once resizing stops) and from then on it renders into exactly that area; after every drawing the whole screen shows precisely the frame rendered last, with nothing left over from before the resize.",
  ["schedules", "histories"],
  "for every sequence of sizes, growing and shrinking, interleaved with input",
  NOAPP + "Stale cells after a resize depend on the old and the new content and sizes together.",
  ["app.go", "terminal.go", "signals_unix.go", "tty.go", "buffer.go"],
  [("checkResize / listenForResize", "tty.go, signals_unix.go"), ("Terminal.Resize and Clear", "terminal.go")],
  [("viewportArea", "area that is drawn", "terminal.go:Terminal")], ["window size messages", "area passed to Render", "screen of the terminal emulator"])
p("A10", "Tick delivers one message after the given time",
  "The command returned by Tick produces exactly one message: the one made by the given function from a time that is not before the given duration has elapsed since Tick was called. Many pending ticks do not disturb each other, the input or the end of the program.",
  ["schedules", "inputs"],
  "for every number of concurrent ticks and their durations, including zero and negative",
  NOAPP,
  ["cmd.go", "app.go"],
  [("Tick", "cmd.go")], [], ["messages produced by tick commands, monotonic clock as lower bound only"])

p("A11", "A finished program leaves nothing behind",
  "Once Run has returned, however the program ended, and the commands that were still running have ended, no goroutine of the program is left and no file, pipe or poller it opened is still open: running any number of programs one after the other in a process needs no more than running one.",
  ["schedules", "histories", "fault_sequences"],
  "for every exit cause at every point of the run, with commands, messages, keys and resizes in flight",
  NOAPP + "What is left over depends on which goroutine was waiting for which when the program ended.",
  ["app.go", "tty.go", "signals_unix.go", "input.go"],
  [("ctx.Done branch of every channel operation", "app.go, tty.go, signals_unix.go, input.go"), ("cancelReader.Close and closeInput", "app.go")],
  [("handlers", "goroutines to wait for", "app.go:appRunner")], ["goroutine stacks", "open file descriptors"])
p("A12", "Keys come from the terminal when standard input is redirected",
  "If standard input is not a terminal (a pipe, a file, the null device), the program reads keys from the controlling terminal instead and leaves standard input alone: every key typed there arrives, in order, what was piped in is still there to be read, the end of the pipe does not end the program, and the terminal is put into raw mode while the program runs and restored afterwards.",
  ["inputs", "configurations", "histories"],
  "for every kind of standard input with any content, open, closed before or closed while the program runs, and every exit cause",
  NOAPP + "It takes a process with a controlling terminal other than its standard input.",
  ["app.go", "tty_unix.go", "terminal_backend_unix.go"],
  [("getInput", "app.go:_InputDefault"), ("openTTY", "tty_unix.go"), ("EnableRawMode", "terminal_backend_unix.go")],
  [("closeInput", "closes the terminal opened for input", "app.go:appRunner")], ["key messages in Model.Update", "bytes left in standard input", "modes of the controlling terminal"])
p("A13", "A running program needs no more the longer it runs",
  "What a running program has dealt with leaves nothing behind: doing the same things again and again (keys, mouse events and pastes, commands, batches, sequences and ticks that have ended, with or without a message, resizes, and drawing the same frames) needs no more goroutines, open files or memory than doing them a few times, however long the program runs.",
  ["histories", "schedules"],
  "for every repeated activity of a running program, and any number of repetitions",
  NOAPP + "A leak of one object in each round shows only after hundreds of rounds.",
  ["app.go", "input.go", "signals_unix.go", "terminal.go", "cmd.go", "layout.go"],
  [("handleCmd, runToCompletion, eventLoop", "app.go"), ("listenForResize", "signals_unix.go"), ("SwapBuffers, Resize", "terminal.go"), ("Tick", "cmd.go")],
  [("handlers", "goroutines to wait for", "app.go:appRunner")], ["live heap objects and bytes, goroutines and open files after each fifth of a run"])


# ---------------------------------------------------------------- D: drawing
p("D01", "After every draw the screen shows exactly the frame",
  "After each drawing, the terminal shows in every cell of the drawn area exactly the symbol, colours and text attributes rendered for this frame, whatever was shown before, and whether the terminal was cleared in between or not; cells of earlier frames do not linger and nothing outside the area is touched. Wide, combined and emoji graphemes keep their neighbours intact, and cells marked to be skipped are left as they are.",
  ["histories", "inputs", "configurations"],
  "for every sequence of frames with any styles and graphemes, any area (at an offset as well) and repeated, partially changed, or unchanged frames",
  NODRAW + "Correctness of incremental drawing is a property of pairs of frames and of the style state carried between cells.",
  ["buffer.go", "terminal.go", "terminal_backend.go", "internal/ansi/command.go", "internal/ansi/attr.go"],
  [("Diff", "buffer.go"), ("Draw", "terminal_backend.go"), ("double buffering", "terminal.go:SwapBuffers")],
  [("buffers", "previous and current frame", "terminal.go:Terminal")], ["output bytes interpreted by a terminal emulator"])
p("D02", "The difference of two buffers is sufficient, minimal and ordered",
  "Applying the cells reported as different between two well-formed buffers of the same area to the first one yields what the second one displays; equal buffers differ in nothing; each cell is reported at most once, in reading order, with its content in the second buffer and its absolute position, and a cell covered by a wide grapheme of the second buffer is never reported.",
  ["inputs"],
  "for every pair of well-formed buffers, with wide graphemes appearing, vanishing and moving, at any area offset",
  "No test calls it. Sufficiency depends on how wide graphemes of both buffers overlap.",
  ["buffer.go"], [("Diff", "buffer.go")], [], ["result of Buffer.Diff"])
p("D03", "Colours are sent as the terminal supports them and never bleed",
  "Every cell is drawn in its own foreground and background: the closest the terminal's colour profile can represent, or the terminal's default colour when there is none (no colour, unset or unrepresentable colour, or a terminal without colours). One cell's colours never affect another cell or the text attributes, and none is active after a drawing.",
  ["inputs", "configurations"],
  "for every assignment of ANSI, 256-colour, RGB, absent and invalid colours to neighbouring cells, on every colour profile",
  NODRAW,
  ["terminal_backend.go", "color.go", "internal/ansi/command.go", "cell.go"],
  [("convertColor", "terminal_backend.go"), ("SetColors", "internal/ansi/command.go")], [], ["output bytes interpreted by a terminal emulator"])
p("D04", "Text attributes change exactly as the cells require",
  "Bold, dim, italic, underlined, slow and rapid blink, reversed, hidden and crossed-out are active on the terminal for a drawn cell exactly when the cell has them, for any transition from any combination of attributes to any other, and none is active after a drawing.",
  ["inputs"],
  "for every ordered pair of attribute combinations of consecutively drawn cells",
  NODRAW + "There are 2^18 transitions, several of which share escape codes.",
  ["terminal_backend.go", "internal/ansi/attr.go", "style.go"],
  [("modifier difference", "terminal_backend.go:_StyleModifierDiff"), ("SGR table", "internal/ansi/attr.go")], [], ["output bytes interpreted by a terminal emulator"])
p("D05", "Untrusted text cannot inject control sequences",
  "Whatever characters the text given to text, paragraph, list, tabs, block title, gauge label or input widgets contains, no control character of it reaches a cell or the terminal: the output consists of printable text and of the library's own well-formed control sequences only, and the text cannot move the cursor or otherwise control the terminal.",
  ["inputs"],
  "for every text, including escape sequences, C0 and C1 controls, tabs, newlines, carriage returns, invalid UTF-8 and zero-width characters",
  NODRAW + "Only hostile texts show it.",
  ["widget/textwidget/span.go", "widget/textwidget/line.go", "buffer.go", "widget/paragraphwidget/paragraph.go", "widget/inputwidget/input.go", "widget/tabswidget/tabs.go"],
  [("control characters are dropped", "widget/textwidget/span.go:StyledGraphemes, buffer.go:SetStringN")], [], ["cells of the buffer", "output bytes"])

# ---------------------------------------------------------------- I: input decoding
p("I01", "Keys are decoded to the documented key messages",
  "Every key sequence the library lists, alone or with an Alt prefix where the terminal sends one, every control character, space and printable character of Unicode typed at the terminal arrives as one key message with the right type, characters and Alt flag, and its name describes it.",
  ["inputs", "histories"],
  "for every key and every concatenation of keys",
  NOAPP + "Longest-match decoding goes wrong for particular neighbours.",
  ["input.go"], [("detectOneMsg, detectSequence", "input.go")], [], ["key messages in Model.Update"])
p("I02", "Decoding does not depend on where reads are split",
  "A stream of input longer than the read buffer is decoded to the same messages wherever the boundaries of full reads fall: a key, mouse report, focus report, paste or multi-byte character across a boundary arrives as if it had been read at once.",
  ["inputs", "schedules"],
  "for every event straddling a boundary of a full read, at every offset",
  NOAPP + "Needs more than a buffer of input available at once with an event at the boundary.",
  ["input.go"], [("carry-over of an incomplete event", "input.go:readAnsiInputs, detectOneMsg")], [("leftOverFromPrevIteration", "incomplete tail of the previous read", "input.go:readAnsiInputs")], ["messages in Model.Update"])
p("I03", "A paste is delivered whole and uninterpreted",
  "Text pasted in bracketed paste mode arrives as one key message flagged as a paste, holding exactly the valid characters of the text in order, whatever its length, the way it is chopped into reads, and even if it contains control characters, key sequences or mouse reports; what follows the paste is decoded normally.",
  ["inputs", "schedules"],
  "for every pasted text and every chopping of it",
  NOAPP,
  ["input.go"], [("detectBracketedPaste", "input.go")], [], ["key messages in Model.Update"])
p("I04", "Mouse and focus reports are decoded to what they say",
  "Every mouse report in SGR or X10 encoding arrives as one mouse message with zero-based coordinates and the button, action (press, release, motion) and modifiers encoded in it, wheel events being presses always, and its name tells modifiers, button and action; every focus report arrives as one focus or blur message; neighbouring input is unaffected.",
  ["inputs", "histories"],
  "for every button code, coordinate and encoding, mixed with other input",
  NOAPP,
  ["mouse.go", "input.go"], [("parseSGRMouseEvent, parseX10MouseEvent, parseMouseButton", "mouse.go")], [], ["mouse messages in Model.Update"])
p("I05", "Unknown or invalid input does not corrupt what surrounds it",
  "Unknown control sequences and invalid bytes are consumed on their own: no key, mouse, focus or paste event before or after them is lost, changed or invented, and no input makes the program fail or stop reading.",
  ["inputs", "histories"],
  "for every interleaving of well-formed events with unknown CSI sequences and invalid UTF-8 bytes, and arbitrary bytes for the absence of failures",
  NOAPP,
  ["input.go"], [("unknown CSI and invalid byte messages", "input.go")], [], ["messages in Model.Update"])

# ---------------------------------------------------------------- L: layout
LT = "The 100-odd layout tests are examples with at most five constraints compared to stored results. "
p("L01", "Segments and spacers tile the area in order",
  "Splitting an area yields one segment per constraint and one spacer before, between and after them; in order they are non-overlapping, adjacent, start at the area's padded beginning, end at its padded end and fill its other dimension. No size is negative and nothing lies outside the area. With an overlap instead of a spacing, segments may share cells with the next one; each spacer is what lies between its segments, and is empty if nothing does.",
  ["inputs", "configurations"],
  "for every list of constraints, area (at any offset), direction, padding, flex mode, and spacing or overlap",
  LT, ["layout.go", "internal/casso/solver.go"],
  [("required ordering and containment constraints", "layout.go:configureVariableInAreaConstraints, configureVariableConstraints")], [], ["result of SplitWithSpacers"])
p("L02", "Layout is total and reproducible",
  "Splitting never panics or runs for ever, for up to two dozen constraints with any values in them, and gives the same result each time it is asked the same, also concurrently.",
  ["inputs", "configurations", "schedules"],
  "for every list of up to 24 constraints (huge and negative values too), area, flex mode, spacing and padding",
  LT + "Non-reproducible results came from map iteration order and need repetition to see.",
  ["layout.go", "internal/casso/solver.go", "internal/casso/casso.go"],
  [("pivot rules", "internal/casso/solver.go")], [], ["results of repeated Split calls"])
p("L03", "Layout sizes obey the constraint priorities optimally",
  "The result of a split is, up to rounding to whole cells, an optimum of the documented system of prioritised constraints: no other division of the area violates the higher-priority wishes (spacing, minimum and maximum, length, percentage, ratio, fill, growth) less.",
  ["inputs", "configurations"],
  "for every list of constraints, flex mode, spacing or overlap, padding and direction",
  LT, ["layout.go", "internal/casso/solver.go"],
  [("weighted constraints", "layout.go"), ("simplex", "internal/casso/solver.go:optimize")], [], ["result of Split compared with an exact rational optimum"])
p("L04", "Constraints are honoured whenever they can be",
  "If all lengths, percentages, ratios and minima fit into the area together, every segment with a length has exactly it, every percentage or ratio segment has its share to within a cell, no segment with a minimum or maximum violates it, and fill segments share what is left in proportion to their weights (to within a cell, unless minima grow along with them, which they do outside the legacy mode). Where nothing else can take up the excess, as in the legacy mode without fill segments, it goes to a single segment of the weakest kind there is (minimum, then ratio, percentage, length, maximum).",
  ["inputs", "configurations"],
  "for every satisfiable list of up to 9 constraints (or up to 12 that fill), every flex mode, spacing and area (but a single segment between spaces takes the whole area)",
  LT, ["layout.go"], [("configureConstraints, configureFillConstraints", "layout.go")], [], ["sizes of segments"])
p("L05", "Excess space goes where the flex mode says",
  "When fixed lengths leave space over, it is put after the segments (start), before them (end), equally on both sides (centre), equally between them (space between) or equally around all of them (space around), to within a cell, and segments are at least, or outside the space modes exactly, the given spacing apart, or overlap by exactly the given overlap. In the legacy mode one of the segments takes the excess.",
  ["inputs", "configurations"],
  "for every list of lengths that fits with its spacing, and every flex mode (a single segment between spaces takes the whole area)",
  LT + "No test covers space around.", ["layout.go", "flex.go"], [("configureFlexConstraints", "layout.go")], [], ["positions of segments and spacers"])
p("L06", "Layout is the same in both directions and at every place",
  "Splitting vertically gives the transpose of splitting the transposed area horizontally, moving the area moves every segment and spacer by the same amount, padding gives the same as splitting the padded area, and the extent across the layout does not matter.",
  ["inputs", "configurations"],
  "for every list of constraints, area, flex mode, spacing or overlap, and padding",
  LT, ["layout.go", "rect.go", "padding.go"], [("changesToRects", "layout.go"), ("Inner", "rect.go")], [], ["results of related Split calls"])

# ---------------------------------------------------------------- B: buffers, styles, geometry, values
p("B01", "Styles compose: patching then applying equals applying in turn",
  "Applying a style patched with another to a cell gives the same colours and modifiers as applying the two one after the other, patching is associative, and the empty style changes nothing. A colour stays as it is unless set, adding a modifier after removing it (or the reverse) is decided by the last, and applying a style changes nothing but colours and modifiers.",
  ["inputs"],
  "for every pair and triple of styles and every cell",
  "No test checks style composition.",
  ["style.go", "cell.go", "internal/bit/bit.go"], [("Patched", "style.go"), ("SetStyle", "cell.go")], [], ["cells after SetStyle"])
p("B02", "Builder methods never change the value they are called on",
  "The With-style methods of styles, layouts, text, blocks and all other widgets return a changed copy: neither the value they were called on nor any other value derived from it renders differently afterwards, however many values are derived from the same one.",
  ["histories", "programs"],
  "for every sequence of derivations from shared values",
  "Aliasing shows only when two values are derived from one that has spare capacity.",
  ["layout.go", "widget/textwidget/line.go", "widget/textwidget/text.go", "widget/blockwidget/block.go", "style.go", "padding.go"], [("value receivers and clipped appends", "With methods")], [], ["renderings of every value before and after further derivations"])
p("B03", "Rectangle operations obey their geometry",
  "Containment of a cell, intersection, inner area by padding, indentation, and division into rows and columns agree with the set of cells a rectangle covers: a cell is in the intersection exactly if it is in both, rows and columns partition the cells in order, and an inner area is what is left after removing the padding from each side, or empty.",
  ["inputs"],
  "for every rectangle, also empty or at an offset, and every non-negative padding",
  "No test covers rectangles.",
  ["rect.go", "padding.go", "position.go"], [("Rect methods", "rect.go")], [], ["results of Rect methods"])
p("B04", "Strings are written to a buffer within their limits",
  "Writing a string to a buffer places its graphemes from left to right, never past the given width or the end of the row, never half of a wide one, and stops there; zero-width and control characters are skipped, cells covered by a wide grapheme are blanked, all other cells are untouched, and the returned position is the first one after the text.",
  ["inputs"],
  "for every string, position in the buffer, width limit and buffer area",
  "Tests write short strings that fit.",
  ["buffer.go"], [("SetStringN", "buffer.go")], [], ["cells and result of SetString and SetStringN"])
p("B05", "Buffers keep one cell for every position of their area",
  "A buffer of any area gives every position in the area its own cell and no other position any; setting the style of a region changes exactly the cells in the common part; resetting blanks all cells; resizing yields a usable buffer of exactly the new area, which is blank if the buffer was.",
  ["inputs", "histories"],
  "for every area, also at an offset, and every sequence of operations",
  "Tests use small buffers at the origin.",
  ["buffer.go", "cell.go"], [("indexOf, PosOf, Resize, SetStyle", "buffer.go")], [], ["cells read back"])

p("B06", "Settings of a value are independent of each other and of their order",
  "A value built with the With-style methods and their shorthands depends only on what was set: methods that set different things may be called in any order with the same result, the last call for a setting replaces all earlier ones for it, additions (titles, lines, spans, constraints, modifiers) count in the order they were made, a shorthand (Rounded, Center, Red, WithTitleStr, WithPercent) is the same as the setting it is named for written out, and the sides of a padding are taken in the order top, right, bottom, left.",
  ["programs", "histories"],
  "for every type with such methods, every chain of them and every arguments",
  "A chain of settings depends on its order only for some combinations; tests set one or two, always in the same order.",
  ["widget/blockwidget/block.go", "style.go", "layout.go", "padding.go", "widget/inputwidget/input.go", "widget/popupwidget/popup.go", "widget/tabswidget/tabs.go", "widget/listwidget/list.go", "widget/gaugewidget/gauge.go"], [("builder methods of every type", "With methods and shorthands")], [], ["renderings of values built by different orders of the same settings"])

# ---------------------------------------------------------------- T: text
p("T01", "A text line is placed and cut by its alignment",
  "A line that fits is shown completely at the left, in the centre or at the right of its area; one that does not fit shows the part the alignment selects (its beginning, middle or end) with only whole graphemes, each in the style of its span over that of its line. A line without alignment follows its text; nothing outside the row's area changes.",
  ["inputs", "configurations"],
  "for every list of spans with any graphemes (wide, combined, zero-width, control) and styles, every alignment and width",
  "Tests cover plain ASCII of one span.",
  ["widget/textwidget/line.go", "widget/textwidget/span.go", "widget/textwidget/text.go"], [("renderWithAlignment, spansAfterWidth", "widget/textwidget")], [], ["cells after Render"])
p("T02", "Text keeps all its lines and characters",
  "Making text from a string splits it at its line ends and nowhere else, with no line lost, merged, shortened or added, however long; its string, height and width are those of its lines. Each line is rendered in its own row from the top, as many as fit.",
  ["inputs"],
  "for every string, also with very long and empty lines and both kinds of line ends",
  "Tests use one or two short lines.",
  ["widget/textwidget/line.go", "widget/textwidget/text.go"], [("splitLines", "widget/textwidget/line.go")], [], ["Lines, String, Height, Width, cells after Render"])
p("T03", "Wrapping a paragraph loses, repeats and reorders nothing",
  "A wrapped paragraph shows every visible non-blank character of the text exactly once and in order when the area is high enough, with no row wider than the area; every line of the text begins a new row; among words separated by single blanks, one that fits in a row is not broken, and a row is ended only when the next word does not fit. With trimming, no row begins with blanks.",
  ["inputs", "configurations"],
  "for every text (words of any length, wide graphemes, runs of blanks, empty lines), width, alignment and trim setting",
  "No test renders a paragraph.",
  ["internal/reflow/wrapper.go", "widget/paragraphwidget/paragraph.go"], [("processInput", "internal/reflow/wrapper.go")], [("pendingWord, pendingWhitespace", "graphemes not yet placed", "internal/reflow/wrapper.go")], ["cells after Render"])
p("T04", "An unwrapped paragraph shows each line in its row, cut and scrolled",
  "Without wrapping, row i of a paragraph shows line i plus the vertical scroll offset, aligned, and cut at the area's width; a left-aligned line is shifted by the horizontal scroll offset. Scrolling a wrapped paragraph vertically shows the same rows as the unscrolled one, shifted.",
  ["inputs", "configurations"],
  "for every text, scroll offset, area and alignment",
  "No test renders a paragraph.",
  ["internal/reflow/truncator.go", "widget/paragraphwidget/paragraph.go"], [("NextLine", "internal/reflow/truncator.go"), ("renderText", "widget/paragraphwidget/paragraph.go")], [], ["cells after Render"])

# ---------------------------------------------------------------- W: widgets
p("W01", "Widgets draw only inside their area and never panic",
  "Rendering any widget with any content and any settings its constructors accept (negative offsets and paddings aside) into any area inside the buffer, including empty and tiny ones, never panics and leaves every cell outside the area untouched. Spans, lines, texts and blocks also accept areas that reach beyond the buffer, of which they draw only on the common part.",
  ["inputs", "configurations", "histories"],
  "for every widget, its options and state history, and every area inside the buffer",
  "Tests render into buffers exactly as large as the area.",
  ["widget/textwidget", "widget/blockwidget", "widget/paragraphwidget", "widget/listwidget", "widget/inputwidget", "widget/scrollwidget", "widget/gaugewidget", "widget/tabswidget", "widget/popupwidget", "widget/clearwidget", "widget/fillwidget", "widget/throbberwidget"],
  [("clamping to the area", "every Render method")], [], ["canary cells around the area"])
p("W02", "A block draws its borders and titles around its inner area",
  "A block draws each chosen border side along its edge with the symbols of its border type and corners where two chosen sides meet, puts each title on the edge its position and alignment say, in order and one cell apart, cut at the borders, and reports as inner area exactly what borders, titles and padding leave. The inner area is not drawn on, apart from the block's style.",
  ["inputs", "configurations"],
  "for every combination of sides, border type, titles, padding and area",
  "No test renders a block.",
  ["widget/blockwidget/block.go", "widget/blockwidget/border.go", "widget/blockwidget/title.go"], [("renderBorders, renderTitles, Inner", "widget/blockwidget/block.go")], [], ["cells after Render", "result of Inner"])
p("W03", "The selected list item is always in view",
  "After rendering a list with items that fit into its area, the selected item is completely visible, whatever selections, scrolling, changes of items or of size came before; the selection stays within the items, and visible items are consecutive and move no further than needed, honouring the scroll padding where the area allows it.",
  ["histories", "inputs", "configurations"],
  "for every history of key presses, selections, offset changes, item changes and renderings in areas of any size, items of any height",
  "One test renders one scrolled list.",
  ["widget/listwidget/list.go", "widget/listwidget/state.go"], [("getItemsBounds, applyScrollPaddingToSelectedIndex", "widget/listwidget/list.go")], [("offset, selected", "first visible and selected item", "widget/listwidget/state.go:State")], ["cells after RenderStateful", "State.Selected"])
p("W04", "A list shows its visible items in order with the selection marked",
  "A list shows consecutive items, each complete and in full height, from the top down or from the bottom up, with the highlight symbol before the selected item only (on its first or every row, as configured), the highlight spacing as configured, and the highlight style on exactly the rows of the selected item.",
  ["inputs", "configurations", "histories"],
  "for every list of items, direction, highlight setting, styles and area",
  "One test renders one list.",
  ["widget/listwidget/list.go"], [("RenderStateful", "widget/listwidget/list.go")], [], ["cells after RenderStateful"])
p("W05", "The input field edits text like a line editor",
  "After any sequence of typed characters, pastes, cursor movements and deletions, the content of the input field is what a line editor would hold: characters are inserted at the cursor, deleting removes the one before it, deleting a word removes the word before the cursor and the blanks after it, and the cursor moves by whole graphemes within the content. Keys it does not handle leave it unchanged and are reported as not consumed.",
  ["histories", "inputs"],
  "for every sequence of editing keys and texts of any graphemes",
  "No test covers the input field.",
  ["widget/inputwidget/state.go", "internal/grapheme/grapheme.go"], [("update, deleteWhile, splitAtCursor", "widget/inputwidget/state.go")], [("graphemes, cursor", "content and cursor", "widget/inputwidget/state.go:State")], ["State.String", "cursor cell after RenderStateful"])
p("W06", "The input field keeps the cursor in view over a window of its text",
  "An input field at least a few cells wide shows its prompt and then a contiguous part of its content with exactly one cursor cell in view: the grapheme under the cursor, or a blank after the end; text that fits completely is shown completely once the cursor has been at its beginning. An empty field shows its placeholder.",
  ["histories", "inputs", "configurations"],
  "for every content, editing history, width, prompt and alignment",
  "No test covers the input field.",
  ["widget/inputwidget/input.go", "widget/inputwidget/state.go"], [("getBounds", "widget/inputwidget/state.go"), ("RenderStateful", "widget/inputwidget/input.go")], [("offset", "first visible grapheme", "widget/inputwidget/state.go:State")], ["cells after RenderStateful"])
p("W07", "The scrollbar's thumb shows position and proportion",
  "A scrollbar occupies only the side of its area its orientation names, with its begin and end symbols at the ends, and a track with one thumb of at least one cell in between. The thumb starts at the beginning for the first position, ends at the end for the last, never moves backwards as the position grows, and its length is, to within rounding, the share of the viewport in the scrollable range.",
  ["inputs", "configurations"],
  "for every orientation, content and viewport length, position (out of range too), and area",
  "No test renders a scrollbar.",
  ["widget/scrollwidget/scroll.go", "widget/scrollwidget/state.go", "widget/scrollwidget/set.go"], [("partLens, barSymbols, scrollbarArea", "widget/scrollwidget/scroll.go")], [], ["cells after RenderStateful"])
p("W08", "The scroll state stays within the content",
  "Moving the scroll state to the next, previous, first or last position keeps it between zero and the last position of the content, changes it by one where it can, and the area left beside a scrollbar is exactly the area without the scrollbar's row or column.",
  ["histories", "inputs"],
  "for every content length and history of moves",
  "No test covers the scroll state.",
  ["widget/scrollwidget/state.go", "widget/scrollwidget/scroll.go"], [("Next, Prev, First, Last, Scroll", "widget/scrollwidget/state.go"), ("Inner", "widget/scrollwidget/scroll.go")], [("position", "scroll position", "widget/scrollwidget/state.go:State")], ["State.Position, Scroll.Inner"])
p("W09", "A gauge is filled in proportion to its ratio",
  "A gauge fills the part of its width given by its ratio, to the nearest cell or, with Unicode blocks, to the nearest eighth of a cell, in every row; nothing is filled at zero and everything at one, the filled part never shrinks as the ratio grows, and the label (the rounded percentage by default) is centred. Ratios and percentages out of range are refused.",
  ["inputs", "configurations"],
  "for every ratio, width, height, label and mode",
  "No test renders a gauge.",
  ["widget/gaugewidget/gauge.go"], [("render", "widget/gaugewidget/gauge.go")], [], ["cells after Render"])
p("W10", "Tabs show their titles in order with the selected one highlighted",
  "Tabs show their titles from left to right, each with its paddings and with dividers only between them, cut at the end of the area; exactly the title selected, if any, bears the highlight style.",
  ["inputs", "configurations"],
  "for every list of titles, paddings, divider, selection and area",
  "No test renders tabs.",
  ["widget/tabswidget/tabs.go"], [("render", "widget/tabswidget/tabs.go")], [], ["cells after Render"])
p("W11", "A popup clears and frames exactly the area it is given",
  "A popup covers the part of its area given by its width, height and placement, wipes whatever was drawn there, draws its style and block there, and leaves everything else as it was; its inner area lies within. Clear blanks and fill fills every cell of their area and no other.",
  ["inputs", "configurations"],
  "for every background, area, size constraint, placement and block",
  "No test renders a popup.",
  ["widget/popupwidget/popup.go", "widget/clearwidget/clear.go", "widget/fillwidget/fill.go"], [("Render, Inner", "widget/popupwidget/popup.go")], [], ["cells after Render", "result of Inner"])
p("W12", "Throbbers advance only on their own current tick",
  "A throbber advances by one frame for each tick message that is its own and current, and ignores those of other throbbers and outdated ones, so that it never runs faster because of extra ticks; its frames repeat cyclically in order and are shown where its layout says. Every throbber has an identity of its own, also if created concurrently.",
  ["histories", "schedules"],
  "for every interleaving and duplication of tick messages of several throbbers",
  "No test covers throbbers.",
  ["widget/throbberwidget/state.go", "widget/throbberwidget/msg.go", "widget/throbberwidget/throbber.go", "widget/throbberwidget/set.go"], [("TryUpdate", "widget/throbberwidget/state.go"), ("nextID", "widget/throbberwidget/msg.go")], [("tag", "generation of the expected tick", "widget/throbberwidget/state.go:State")], ["results of TryUpdate", "cells after RenderStateful"])
p("W13", "Widgets draw the same everywhere, every time and in every goroutine",
  "What a widget draws depends only on its settings, its state, the size of the area and what was there before: rendered into an area of the same size at another place it draws the same cells there; rendered again it draws the same again, whatever it or other widgets have drawn elsewhere in between; and the same widget value may be rendered by several goroutines into a buffer each without influence on each other or data races.",
  ["inputs", "histories", "schedules"],
  "for every widget of any kind with any texts and settings, any area at any position, any renderings in between and concurrently",
  "The tests render single layouts at the origin, once, in one goroutine.",
  ["widget", "buffer.go", "layout.go"], [("Render, RenderStateful", "widget/*"), ("shared slices of texts and lines", "widget/textwidget")], [], ["cells after Render"])
p("W14", "A widget in a block is the block with the widget inside",
  "A list, tabs, paragraph or input with a block draws exactly what the block draws in the area and the widget without it draws in the block's inner area, and leaves its state as it does there; a popup's block frames the popup's area and its inner area is that of the block.",
  ["inputs", "configurations", "histories"],
  "for every widget that takes a block, any block and any area, empty inner areas too",
  "No test renders a widget with a block.",
  ["widget/listwidget/list.go", "widget/tabswidget/tabs.go", "widget/paragraphwidget/paragraph.go", "widget/inputwidget/input.go", "widget/popupwidget/popup.go", "widget/blockwidget/block.go"], [("WithBlock, Render", "widget/*"), ("Inner", "widget/blockwidget/block.go")], [], ["cells after Render"])
p("D06", "Terminal commands do exactly what they are called",
  "Moving, hiding and showing the cursor, clearing the screen, the line, or what is before or after the cursor, entering and leaving the alternate screen, and switching bracketed paste each have exactly the effect of their name on the terminal, at once and completely, on their own and between drawings; a frame drawn after clearing shows completely whatever was on the screen before, and drawing hides the cursor. Raw mode delivers typed bytes as they are and, switched off, restores the exact modes from before. The size reported is that of the terminal. An output that cannot be written is reported as an error by the command that meets it.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of commands and drawings, any terminal modes and sizes, and an output that fails or writes short at any byte",
  "No test looks at what is written to a terminal.",
  ["terminal_backend.go", "terminal.go", "internal/ansi/command.go", "terminal_backend_unix.go", "internal/ansi/get.go"], [("execute, queue", "terminal_backend.go"), ("Clear, Resize", "terminal.go"), ("WriteANSI", "internal/ansi/command.go")], [("prevInputState", "terminal modes before raw mode", "terminal_backend.go:DefaultBackend")], ["output bytes of the backend", "terminal modes", "results of commands"])
p("E01", "The example programs keep running, repaint truly, and end cleanly",
  "Each example program starts on a terminal of any size, keeps running and free of data races whatever is typed, pasted, clicked or resized, shows after any history exactly what it shows when everything is drawn again, and on its quit key ends with success, with nothing on standard error and the terminal as it was before.",
  ["histories", "inputs", "schedules"],
  "for every example, any terminal size and modes, and any sequence of keys, mouse events, pastes and resizes",
  "No test runs the examples.",
  ["examples", "app.go", "terminal.go", "widget"], [("Run, eventLoop, shutdown", "app.go"), ("Draw, Resize", "terminal.go")], [], ["screen of the pseudo terminal, exit status, terminal modes"])
