draws = "runtime monitoring: a terminal emulator interprets the bytes written to a pseudo terminal and compares its screen with the rendered frame"
model = "runtime monitoring: reference-model monitor over randomized executions"
claims.update({
 "D01": (draws + " after every drawing of random frame histories", "Random and hostile histories of frames and resizes; assumes the terminal measures graphemes as uniseg does, and well-formed frames."),
 "D02": ("runtime monitoring: a display model applies the reported difference of random and enumerated buffer pairs", "All pairs of short rows over four symbols, random pairs beyond; assumes well-formed buffers."),
 "D03": (draws + ", for every colour profile", "Random colours of all kinds on neighbouring cells; trusts termenv's colour conversion."),
 "D04": (draws + ", for all attribute transitions", "All 2^18 ordered pairs of attribute combinations, and random histories."),
 "D05": ("runtime monitoring: cell inspection and strict parsing of the output for hostile texts", "Random hostile texts through all text widgets."),
 "B01": (model + " of styles", "Random styles built with every method, on random cells."),
 "B02": ("runtime monitoring: every builder method (found by reflection) is called while all values derived so far are watched for changes of their rendering", "Random derivation trees; observes values through rendering only."),
 "B03": (model + " (sets of cells)", "Small rectangles as sets of cells, big ones by coordinates."),
 "B04": (model + " of writing strings", "Random texts of any characters at random positions."),
 "B05": (model + " (map from positions to cells) compared after every operation", "Random operation histories on random areas."),
 "B06": ("runtime monitoring: values built by differently ordered, reduced and written-out chains of the same settings are rendered and compared (metamorphic monitor; builder methods found by reflection)", "Random chains of up to 8 calls; observes values through rendering only."),
 "T01": (model + " of placing, cutting and styling lines", "Random spans, alignments and areas; zero-width graphemes may be attached to a neighbour."),
 "T02": (model + " of splitting text into lines", "Random texts with both kinds of line ends and very long lines."),
 "T03": ("runtime monitoring: every grapheme of a wrapped paragraph carries a mark and is followed to the screen (exactly-once, order), and rows are compared with a greedy reference division", "Random texts, widths, alignments; blanks are only checked where they separate words."),
 "T04": (model + " of rows cut and scrolled", "Random texts, offsets and areas; offsets inside a wide grapheme are left open."),
 "W01": ("runtime monitoring: every cell outside a widget's area is compared before and after rendering; panics are caught", "All widgets with hostile texts and random settings; areas inside the buffer."),
 "W02": (model + " of borders, titles and the inner area, comparing every cell", "Random blocks and areas; overlapping titles are left open."),
 "W03": (model + " of the list position over histories of selections, keys, resizes and item changes", "Items no taller than the area."),
 "W04": (model + " of the look of a list, comparing every cell", "Items no taller than the area."),
 "W05": (model + " (line editor) over histories of edits", "Random histories of keys, pastes and calls with texts of all kinds."),
 "W06": (model + ": every rendering of histories of edits is decoded and compared", "At least two cells beside prompt and cursor."),
 "W07": ("runtime monitoring: scrollbars drawn at all positions are decoded and checked for ends, monotony and proportion", "Random lengths and areas."),
 "W08": (model + " of the scroll state", "Random histories; positions set from outside lie in the content."),
 "W09": ("runtime monitoring: gauges drawn at increasing ratios, each cell compared with its share", "Random ratios and those around the steps; the cells under the label are left open."),
 "W10": (model + " of tabs, comparing every cell", "Cells after a wide grapheme that does not fit are left open."),
 "W11": (model + " of popups, clear and fill, comparing every cell", "Popups without padding of their own."),
 "W12": (model + " of ticks over histories, and the race detector", "Random deliveries of current, outdated and foreign ticks; concurrent creation."),
})
claims.update({
 "L01": ("runtime monitoring: a tiling monitor checks every split", "Random layouts of up to 14 constraints; padding not negative."),
 "L02": ("runtime monitoring: panic, CPU time and reproducibility monitors, and the race detector", "Random layouts of up to 24 constraints with any values; larger ones may exceed the precision of the solver."),
 "L03": ("runtime monitoring: every split is compared with the optimum found by an independent simplex in double-double arithmetic", "Random layouts of up to 10 constraints; the strengths of the wishes are taken as given."),
 "L04": (model + " of the sizes promised to satisfiable constraints", "Random satisfiable layouts of up to 9 constraints, or of up to 12 that fill."),
 "L05": (model + " of the excess space", "Random lists of up to 14 lengths."),
 "L06": ("runtime monitoring: metamorphic monitor comparing splits of transposed, moved, padded and widened areas", "Random layouts of up to 7 constraints."),
})

typed = "runtime monitoring: a monitor in the model of a running application compares the messages it receives with those wanted for the bytes typed at its pseudo terminal"
claims.update({
 "I01": (typed, "Every listed key alone and random concatenations; concatenations that spell another key are left out."),
 "I02": (typed + ", with events across every boundary of full reads; metamorphic monitor for arbitrary bytes", "Relies on what is typed at once becoming readable at once."),
 "I03": (typed + " in pieces", "Random pastes of up to 60 kB; the start marker is not cut."),
 "I04": (typed, "Every button code in both encodings; codes of no known meaning are left out."),
 "I05": (typed + ", unknown and invalid bytes in between", "Random mixtures; arbitrary bytes for survival only."),
})
life = "runtime monitoring: random programs run on a pseudo terminal with random schedules and ends; a monitor records all calls, commands and messages and an offline checker "
claims.update({
 "A01": (life + "compares the terminal modes and the state of an emulated terminal with those before", "16 ways to end at random points; with a broken output only the modes of the input are compared."),
 "A02": (life + "compares the result of Run with the cause of the end", "16 ways to end at random points."),
 "A03": (life + "waits for Run to return; goroutine stacks are reported if it does not", "Patience of 25 seconds in which the process was able to run stands for never."),
 "A04": (life + "checks that messages arrive exactly once and keys in order", "Random programs of up to 90 commands."),
 "A05": (life + "replays the history of the model; and the race detector watches an unsynchronised model", "Random programs; races only in executed schedules."),
 "A06": (life + "counts executions; commands wait for each other or never end", "Random trees of up to 120 commands."),
 "A07": (life + "checks the order of the steps of every sequence", "Random trees of up to 90 commands."),
 "A08": (life + "reads back what is typed after the end, or runs another program that has to receive it", "16 ways to end."),
 "A09": ("runtime monitoring: a model resizes its own terminal while updating and compares the whole emulated screen with the frame it rendered last; storms of resizes at random moments", "Sizes of at least one cell; the screen is compared where the program knows the actual size."),
 "A10": ("runtime monitoring: many ticks at once are counted, and their times compared with the monotonic clock", "Lower bounds only."),
 "A11": (life + "compares goroutine stacks and open files with those before", "Goroutines of the program are recognised by their stacks."),
 "A12": ("runtime monitoring: programs with redirected standard input in a session with a controlling pseudo terminal; keys, what is left of the input, and terminal modes are compared", "Linux only."),
 "A13": ("runtime monitoring: live heap objects and bytes, goroutines and open files of a program that repeats random activities on a pseudo terminal are compared after each fifth of the run", "Random activities, the same in each of 400 rounds (quick); growth of less than an object or 140 bytes a round is not seen."),
})
claims.update({
 "W13": ("runtime monitoring: metamorphic monitor comparing all cells of renderings moved, repeated and in parallel; and the race detector", "Random widgets; stateful widgets drawn in parallel have a state each."),
 "W14": ("runtime monitoring: metamorphic monitor comparing all cells of a widget with a block with the block and the widget inside", "Random widgets and blocks; either the block or the widget has a style of its own."),
 "D06": (model + " of a terminal, compared with an emulated one after each command; raw mode on real pseudo terminals", "Random histories; failing outputs at random bytes."),
 "E01": ("runtime monitoring: the example programs run on pseudo terminals under random input, with and without the race detector; a monitor compares screens, exit and terminal modes", "Random histories; the animated example is not compared with its repaint."),
})
unclaimed = {}
