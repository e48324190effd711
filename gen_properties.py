#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

FB = ("frame buffer", "1-bit pixels shared by every painter: 536 lines of 11 words, 336 visible pixels per line", "src/framebuffer.rs")
CUR = ("cursor", "where the next glyph of a text stream goes, and the tallest glyph on its line so far; kept by the caller between calls", "src/cursor.rs")

p("C01", "Every history of clear and paint calls shows what a per-pixel model shows",
  "After every call of any history of clears and paints, by any number of painters with their own clip rects, styles and cursors, the frame buffer and the caller's cursor equal those of a simple per-pixel model. "
  "In the model, text is consumed left to right by longest match of the grapheme clusters of the fonts (emoji first, then the Latin font of the style, then hanzi, else one replacement character per unsupported code point); each glyph is the sprite of its font, XORed at 1 px right of the cursor, moves the cursor by its width + 3 px, and wraps to a new line before it would come within 2 px of the right edge of the clip rect; newlines and wraps move to the left edge of the clip rect and down by the tallest font used on the line (at least 24) + 1 px. "
  "A clear sets exactly the pixels of its region.",
  ["histories", "inputs", "schedules"],
  "For every history of calls from several painters, with messages delivered in any order, duplicated, lost or with corrupted style and corner registers: all clip rects on screen, any cursor, any text.",
  "The tests compare frame-buffer hashes for about ten fixed screens of fixed text that start at a corner of the screen; no test reaches other cursors, narrow or clipped rects, most glyphs, or a history that depends on earlier state.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/m3hash.rs", "src/glyphstyle.rs", "src/cursor.rs", "src/cliprect.rs"],
  [("paint_str: cluster loop and glyph set order", "src/blit.rs"), ("xor_char: wrap, clip and word alignment", "src/blit.rs"), ("newline", "src/blit.rs"), ("clear_region masks", "src/blit.rs"), ("hash lookup of clusters, longest first", "src/fonts/*.rs, src/m3hash.rs")],
  [FB, CUR], ["paint_str", "clear_region", "Cursor", "ClipRect", "GlyphStyle::from", "glyph_to_height_hint"])

p("C02", "Text streamed in pieces paints the same as text painted at once",
  "Text painted in any number of pieces, cut at any glyph boundary, with the cursor carried from piece to piece, leaves the same frame buffer and the same cursor as painting the whole text in one call. "
  "This holds no matter what other painters do with their own cursors in between, and when the cursor is saved and rebuilt from its three numbers (as after a crash and restart of the painter).",
  ["histories", "schedules", "crash_points", "inputs"],
  "For every text, every way to cut it at glyph boundaries, every style change between pieces, every interleaving with other painters, and a crash of the painter between any two pieces, for all clip rects on screen, including text that runs off the bottom, wraps in a narrow rect, or ends in unsupported characters.",
  "One test paints one ASCII sentence char by char on the full screen; it never wraps inside a multi-code-point cluster, clips at the bottom, ends in an unsupported character or shares the screen.",
  ["src/blit.rs", "src/cursor.rs", "src/m3hash.rs"],
  [("all layout state lives in the cursor", "src/cursor.rs"), ("paint_str consumes the whole string", "src/blit.rs"), ("newline resets line height", "src/blit.rs")],
  [FB, CUR], ["paint_str", "Cursor"])

p("C03", "Painters that share a screen do not depend on the order they run in",
  "When several painters, each with its own cursor, XOR text onto the same frame buffer, the final frame buffer and every painter's final cursor are the same for every interleaving of their calls, also where their text overlaps. "
  "With clears in the mix the same holds whenever every clear stays within a region that no other painter touches.",
  ["schedules", "histories"],
  "For every set of painters and every interleaving of their calls that keeps each painter's own order; message delays, stalls and unfair schedules included.",
  "Every test has one painter, so there is no interleaving to vary.",
  ["src/blit.rs", "src/framebuffer.rs", "src/cursor.rs"],
  [("painting is pure XOR", "src/blit.rs"), ("no state outside the frame buffer and the cursor", "src/blit.rs"), ("clear only touches its region", "src/blit.rs")],
  [FB, CUR], ["paint_str", "clear_region"])

p("C04", "Painting and clearing never change a pixel outside their clip rect",
  "Whatever the frame buffer holds and whatever clip rect, cursor, style and text a call is given, it changes no frame-buffer bit outside the clip rect: not the windows of other painters, not the other end of a line, not the 16 padding bits after the 336 visible pixels of each line. "
  "A call whose clip rect reaches outside the screen or has no width or height changes no bit of the frame buffer.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "For every frame-buffer content, every sequence of calls by several painters with windows of any size, including 1 px wide ones and ones at the edges of the screen, and with registers corrupted in transit.",
  "The tests only use the full and the padded screen and never check which pixels changed; no test uses a clip rect narrower than a glyph, a word-aligned one, or one off screen.",
  ["src/blit.rs", "src/cliprect.rs", "src/framebuffer.rs"],
  [("early return on bad clip rects", "src/blit.rs"), ("wrap before the right edge", "src/blit.rs"), ("top, bottom and right clipping", "src/blit.rs"), ("word masks in clear_region", "src/blit.rs")],
  [FB], ["paint_str", "clear_region"])

p("C05", "No message can crash or hang the painter, and it stays usable",
  "For every frame buffer, clip rect, cursor, style number and text, including values corrupted in transit up to the largest integers, clearing and painting return without panic, out-of-bounds access or endless loop, with and without integer overflow checks. "
  "The stack a paint takes does not grow with its text: an optimised build paints a text of any length within 64 kB of stack. "
  "After any such sequence of hostile calls, clearing and painting with good arguments gives the same screen as on a fresh frame buffer.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "For every sequence of well-formed and corrupted messages from several clients (bit flips in registers, swapped corners, truncated, spliced or extended Unicode text), in a build with and in a build without overflow checks.",
  "The README says panics happen easily when the blitting code changes; the tests call it with in-range arguments only and only in the debug profile.",
  ["src/blit.rs", "src/fonts.rs", "src/m3hash.rs", "src/cliprect.rs", "src/cursor.rs", "src/glyphstyle.rs"],
  [("bounds checks on the clip rect", "src/blit.rs"), ("saturating cursor arithmetic", "src/blit.rs"), ("byte-bounded cluster loop", "src/blit.rs"), ("default for bad style numbers", "src/glyphstyle.rs")],
  [FB, CUR], ["paint_str", "clear_region", "ClipRect::new", "Cursor::new", "GlyphStyle::from"])

p("C06", "Painting the same text again at the same place takes it back exactly",
  "Painting the same text with the same clip rect, style and starting cursor a second time restores every bit of the frame buffer, whatever was on screen and whatever other text was painted in between, and moves the cursor to the same place. "
  "A paint message delivered n times, in any order among other paint messages, therefore has the effect of one delivery when n is odd and of none when n is even.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "For every background, text, clip rect, cursor and style, and every history of paint messages that are duplicated, lost, retransmitted and reordered.",
  "No test paints the same thing twice without clearing in between.",
  ["src/blit.rs"],
  [("glyph pixels are XORed onto the frame buffer, never stored", "src/blit.rs"), ("layout does not read the frame buffer", "src/blit.rs")],
  [FB, CUR], ["paint_str"])

p("C07", "Clear and repaint recovers a screen from any content",
  "After a crash that leaves arbitrary bits in the frame buffer, clearing a region and replaying the calls that drew it gives the same pixels in that region as if the crash had not happened, wherever the crash fell, and leaves the rest of the screen as it was. "
  "The same holds for the built-in demo screens: each leaves the same visible pixels whatever the frame buffer held before, and clearing twice is the same as clearing once.",
  ["crash_points", "histories", "fault_sequences"],
  "For every history of clears and paints in a window, every point at which a crash hits it, every frame-buffer content the crash leaves (random, inverted, bit-flipped, torn between old and new lines), repeated crashes during recovery included.",
  "Tests clear only the whole screen, always from the same striped initial pattern.",
  ["src/blit.rs", "src/demo.rs", "src/framebuffer.rs"],
  [("clear_region sets every bit of its region", "src/blit.rs"), ("demos clear the full screen first", "src/demo.rs")],
  [FB], ["clear_region", "paint_str", "demo::sample_text", "demo::short_greeting", "demo::goose_poem"])

p("C08", "A text stream never paints over itself and only moves forward",
  "Along one stream of text, painted with one cursor in one clip rect, no pixel is inverted twice, however styles, scripts, newlines and wraps are mixed. "
  "The cursor only moves forward: right along a line, or down to the left edge of the clip rect, past the full height of every glyph of the finished line (24 px for Small, 30 px for Regular and Bold as told by the height hint, 32 px for emoji and hanzi).",
  ["histories", "inputs", "schedules"],
  "For every stream that starts on a fresh line at any place, cut into any pieces with any style per piece, in every clip rect on screen, interleaved with other streams and resumed from a saved cursor.",
  "The hash tests would see an overlap only in their ten fixed screens.",
  ["src/blit.rs", "src/cursor.rs", "src/glyphstyle.rs", "src/fonts.rs"],
  [("line height is the tallest font on the line", "src/blit.rs"), ("glyph height + offset is at most the font height", "src/fonts/*.rs"), ("cursor advance is glyph width + padding", "src/blit.rs")],
  [CUR], ["paint_str", "glyph_to_height_hint"])

p("C09", "Every build of the library draws the same history the same way",
  "The same history of clears and paints, hostile arguments included, gives bit-for-bit the same frame buffers and the same cursors in a build with overflow checks, in an optimised build without them, in the 32-bit WebAssembly build, and on a machine with big-endian byte order. "
  "Repeating a history in one build gives the same result every time.",
  ["configurations", "histories", "inputs"],
  "For every history whose numbers stay well within 32 bits throughout, across the three build configurations and both byte orders.",
  "The tests run in the 64-bit little-endian debug profile only; the shipped demo is 32-bit, optimised and without overflow checks.",
  ["src/blit.rs", "src/fonts.rs", "src/m3hash.rs", "src/framebuffer.rs", "wasm_demo/.cargo/config.toml"],
  [("wrapping arithmetic is explicit in the hash", "src/m3hash.rs"), ("saturating arithmetic on caller values", "src/blit.rs"), ("shift amounts stay below 32", "src/blit.rs")],
  [FB, CUR], ["paint_str", "clear_region"])

p("C10", "The demo page shows the whole screen once loading is done, or nothing",
  "Whatever the order, delay or failure of the steps of loading the WebAssembly module, with and without streaming support in the browser, the page draws nothing before the module is ready, and then draws exactly once the exact 336 by 536 pixels of the module's frame buffer after the demo has painted it: clear pixels transparent, set pixels opaque dark. "
  "When loading fails at any step, the page draws nothing and the failure surfaces as an unhandled error instead of being swallowed; asking for the frame buffer before the module is ready throws. Once the page has drawn, every script that asks gets the module's live frame buffer: what one writes there the next one reads, and init paints the demo again.",
  ["schedules", "fault_sequences", "configurations"],
  "For every schedule of the fetch, body, compile and callback steps, every failure of a step (network error, HTTP error page, truncated or corrupted module, wrong content type), both loading paths, and any other script that asks for the frame buffer at any time.",
  "The page has no tests at all.",
  ["wasm_demo/main.js", "wasm_demo/wasm.js", "wasm_demo/src/lib.rs"],
  [("callback runs after the bindings are set", "wasm_demo/wasm.js"), ("ready flag", "wasm_demo/wasm.js"), ("init before repaint", "wasm_demo/main.js"), ("word to pixel loop", "wasm_demo/main.js")],
  [("wasmInstanceReady", "whether the frame buffer may be read", "wasm_demo/wasm.js"), ("canvas", "what the user sees", "wasm_demo/main.js")],
  ["canvas putImageData", "frameBuf()", "unhandledrejection"])

p("C11", "The demo module repaints its one shared frame buffer from any state",
  "However often the demo module is initialised, and whatever its host has written into the shared frame buffer in between, after each initialisation the buffer shows the demo's final screen, bit for bit the one the library draws natively. "
  "The address of the buffer never changes, the buffer lies within the module's memory, and initialising leaves memory that the host has added to the module untouched.",
  ["histories", "fault_sequences", "configurations"],
  "For every sequence of initialisations, reads of the buffer address, host writes of any content into the buffer, and growth of the module's memory in between.",
  "The module has no tests; the library's tests never run in WebAssembly.",
  ["wasm_demo/src/lib.rs", "src/demo.rs", "src/blit.rs"],
  [("one static frame buffer, full repaint in init", "wasm_demo/src/lib.rs"), ("demo clears the full screen first", "src/demo.rs")],
  [("FB", "static frame buffer shared with the host", "wasm_demo/src/lib.rs")], ["init", "frame_buf_ptr", "memory"])

p("C12", "Font generation never reports success for incomplete output",
  "When the font generator exits with status 0 after being asked to write, every font file of its configuration is completely written and identical to what it writes on a fault-free machine. "
  "When an input cannot be opened or read or an output cannot be opened, written or closed, at any point, or the disk is full, it exits with a non-zero status; an input that is damaged or missing, or contradicts the configuration (malformed JSON, PNG or hexadecimal numbers, a cell outside its sheet, an alias of an unknown cluster), never gives status 0 with other output. Short and interrupted system calls alone never make it fail. "
  "It never changes its inputs or any file that is not one of its outputs, leaves no other file behind when it succeeds, and without the confirmation switch it writes nothing.",
  ["fault_sequences", "crash_points", "configurations"],
  "For every configuration of fonts and every sequence of I/O faults: failing opens, reads, writes, closes, a full disk, missing, truncated and corrupted inputs, short reads and writes, interrupted calls, and a crash at any system call.",
  "The generator has no tests; a full disk needs fault injection.",
  ["codegen/main.go", "codegen/lib/config.go", "codegen/lib/charspec.go"],
  [("every read and write error ends in a panic", "codegen/main.go, codegen/lib/config.go, codegen/lib/charspec.go"), ("confirmation switch", "codegen/main.go")],
  [("font files", "generated rust source files named by the configuration", "codegen/config.json")], ["exit status", "files after the run"])

p("C13", "Font generation is reproducible on every machine and after every crash",
  "Two complete runs of the font generator on the same inputs write byte-for-byte the same files, whatever the hash-map iteration order, clock, process id, environment, working-directory name, memory pressure, system-call chunking (short reads and writes, interrupted calls), the order in which concurrent parts of it run, and whatever files, complete, partial or foreign, stand in the outputs' places because earlier runs finished, were killed or lost power at any point; such files never make it fail.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "For every configuration of fonts, every hash-map seed, every chunking of its I/O and every crash point of an earlier run.",
  "The generator has no tests, and one run cannot show that another run would write the same.",
  ["codegen/main.go", "codegen/lib/glyphset.go", "codegen/lib/blockindex.go", "codegen/lib/templates.go"],
  [("block keys are sorted before rendering", "codegen/lib/glyphset.go"), ("cluster lengths and hashes are sorted", "codegen/lib/blockindex.go"), ("whole files are rewritten", "codegen/main.go")],
  [("glyph set index", "map from Unicode block to clusters; Go randomises its iteration order", "codegen/lib/glyphset.go")], ["files after the run"])

p("C14", "Generated fonts draw the sprites of their source sheets, under I/O faults too",
  "A font file from any successful run of the generator, compiled into the library, finds for every grapheme cluster of the font's index and alias files exactly the sprite at its place in the sprite sheet (black is ink, any lighter shade of gray is paper), trimmed as configured and at its original height on the line, and finds nothing for other clusters of the sheet's blocks (for a hash seed without collisions, which the generated tests check). "
  "For the repository's own configuration these are the glyphs that the committed font files draw.",
  ["fault_sequences", "configurations", "schedules"],
  "For every configuration (sheet geometry, glyph size, borders and gutters, trim mode, index format, aliases, hash seed), run under short reads and writes, interrupted calls, every map order and after crashed runs.",
  "The generator has no tests; the library's tests only check that the hash tables of the committed fonts are sorted.",
  ["codegen/lib/blitpattern.go", "codegen/lib/matrix.go", "codegen/lib/charspec.go", "codegen/lib/fontspec.go", "codegen/lib/blockindex.go", "codegen/lib/murmur3.go", "codegen/lib/templates.go", "codegen/config.json", "src/fonts.rs", "src/m3hash.rs"],
  [("grid arithmetic and trimming", "codegen/lib/blitpattern.go, codegen/lib/matrix.go"), ("pattern packing", "codegen/lib/matrix.go"), ("same hash on both sides", "codegen/lib/murmur3.go, src/m3hash.rs"), ("alias resolution", "codegen/lib/glyphset.go")],
  [], ["generated get_blit_pattern_offset and DATA", "paint_str with the committed fonts"])

p("C15", "A painter restarted from its saved registers draws as if it never crashed",
  "A painter keeps its session as plain numbers (two opposite corners of its clip rect in any order, the cursor's three numbers, a style number); when it crashes at any point and rebuilds the session from these numbers, everything it draws from there on, and every cursor, is what a painter that never crashed draws. "
  "Corners in any order give the rect with its minimum at the top left, a style survives the trip to its number and back, any number that is not a style means Regular, and the height hint of a style is the height of its font.",
  ["crash_points", "histories", "schedules", "inputs"],
  "For every session history, every set of crash points of every painter, every corner order and style number, interleaved with other painters over a network that loses, delays, duplicates and reorders messages.",
  "The tests convert one rect and one bad style number, and never resume a session.",
  ["src/cliprect.rs", "src/glyphstyle.rs", "src/cursor.rs", "src/pt.rs", "src/blit.rs"],
  [("min/max fixup", "src/cliprect.rs"), ("match with default", "src/glyphstyle.rs"), ("all layout state lives in the cursor", "src/cursor.rs")],
  [CUR], ["ClipRect::new", "Cursor::new", "GlyphStyle::from", "glyph_to_height_hint", "paint_str"])

p("C19", "Painters on threads and in interrupt handlers never disturb each other",
  "When any number of threads and interrupt handlers call the library, each with a frame buffer and cursors of its own, every call returns and leaves exactly the frame buffer and cursor it leaves when the others make no calls: for every interleaving of the steps inside the calls, for a handler that comes in at any point of a call and paints before the interrupted call goes on, for stores of one thread that reach the others late and out of order, and when a thread is stopped for ever in the middle of a call.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "For every number of painters, every script of calls of each, every interleaving of their steps, every nesting of interrupts, every delay of stores and every set of threads that stop.",
  "The tests make one call after the other from unrelated threads of the test runner; what is shared between calls is never contended, and no call is ever interrupted by another one.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/emoji.rs", "src/m3hash.rs", "src/cursor.rs", "src/cliprect.rs", "src/glyphstyle.rs"],
  [("all state is in the arguments: frame buffer, clip rect, cursor, style, text", "src/blit.rs"), ("font tables are constants, lookups keep nothing", "src/fonts/*.rs, src/m3hash.rs")],
  [CUR], ["paint_str", "clear_region", "ClipRect::new", "Cursor::from_top_left_of", "GlyphStyle::from"])

p("C16", "A cluster lookup never returns the glyph of a different cluster",
  "For every string, a font lookup returns a glyph only when the string starts with a grapheme cluster of that font's index, and then the glyph of the longest such cluster and its exact byte length.",
  ["inputs"],
  "For every string of Unicode scalar values.",
  "The tests look up a few dozen clusters; strings that are not in the index but share a 32-bit hash with one that is are out of reach of examples.",
  ["src/fonts.rs", "src/m3hash.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs"],
  [("Murmur3 of the first n code points, binary search, longest first", "src/fonts/*.rs, src/m3hash.rs")],
  [], ["paint_str"])

p("C17", "The library contains no unsafe code and needs no standard library",
  "Every module of the library forbids unsafe code and the crate builds without the standard library and without an allocator.",
  ["programs"],
  "For every module and every target.",
  "It is a property of the source and the build, not of an execution.",
  ["src/lib.rs"], [("forbid(unsafe_code), no_std", "src/lib.rs")])

p("C18", "The development web server serves only the demo directory with right types",
  "The development web server serves the files of its working directory, .wasm files as application/wasm, and nothing outside that directory.",
  ["inputs", "schedules"],
  "For every request path and every order of concurrent requests.",
  "The server has no tests.",
  ["wasm_demo/webserver.rb"], [("WEBrick FileHandler and mime table", "wasm_demo/webserver.rb")])

p("C20", "At every instant of a call each pixel is as before or as after the call",
  "The frame buffer may be the memory a display reads from: after every single store made inside a call of paint_str or clear_region, each pixel of the screen has the value from before the call or the value it has after the call. So a display that reads at any moment never shows anything else (a flash beside a cleared region, a part of a glyph outside the clip rect), and a crash at any point in a call leaves nothing else behind.",
  ["crash_points", "schedules", "histories", "inputs"],
  "For every history of calls, every clip rect, cursor, style and text, and every moment inside each call.",
  "The tests look at the frame buffer after calls only; what it shows between two stores is never observed.",
  ["src/blit.rs", "src/framebuffer.rs"],
  [("clear_region only sets pixels of the region", "src/blit.rs"), ("a glyph row is masked before it is drawn, and glyphs of a call do not overlap", "src/blit.rs")],
  [("frame buffer", "caller-owned array of words, possibly a hardware buffer (README)", "src/framebuffer.rs")], ["paint_str", "clear_region"])

p("C21", "The same cluster in another spelling paints the same",
  "Fonts know several spellings of one grapheme cluster (an accented letter as one code point or as letter and combining mark, an emoji with or without variation selector or joiner details, aliases of a sign). When a gateway between painter and display rewrites a text by exchanging clusters for other spellings of the same cluster that the fonts index, every pixel and every cursor is the same as for the original text, at any cursor, in any clip rect, wherever the text wraps or is clipped.",
  ["histories", "inputs", "schedules"],
  "For every history of calls and every choice of spelling for every cluster in it.",
  "One test compares the lookup of two spellings of one letter; nothing paints them, and nothing wraps or clips them.",
  ["src/blit.rs", "src/fonts/emoji.rs", "src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts/hanzi.rs", "codegen/lib/glyphset.go"],
  [("alias entries point at the glyph of their canonical cluster", "src/fonts/*.rs"), ("layout depends on the glyph, not on the bytes of the cluster", "src/blit.rs")],
  [FB, CUR], ["paint_str"])

p("C22", "Windows moved together show the same at their new place",
  "When the clip rects and cursors of all painters are moved by one and the same distance, such that all stay on the screen, then after every call of any history the moved windows show exactly what they showed at the old place, every cursor is moved by exactly that distance, and nothing else changes. So what a window shows depends neither on how its edges lie to the 32-bit words of the frame buffer nor on how far it is from the edges of the screen.",
  ["histories", "configurations", "schedules", "inputs"],
  "For every history of clears and paints in any number of windows that lie on the screen, every distance in both directions, and cursors below 2^31 that are at most as far left or above the windows as the screen has room.",
  "The tests paint at two fixed places, both with even coordinates.",
  ["src/blit.rs", "src/cliprect.rs", "src/cursor.rs"],
  [("word alignment of glyph rows and clears", "src/blit.rs"), ("wrap and newline relative to the clip rect", "src/blit.rs")],
  [FB, CUR], ["paint_str", "clear_region", "ClipRect", "Cursor"])

p("C23", "A window painted in horizontal strips shows the same as painted at once",
  "A display with little memory may repeat a call for horizontal strips of its clip rect that together cover it, each time from the same cursor: together the strips leave the same pixels as the one call, and each strip leaves the cursor where the one call leaves it, so layout does not depend on what is visible. The strips of several paints may come in any order; the strips of a clear come between what was painted before and after it.",
  ["schedules", "histories", "inputs"],
  "For every history of calls, every way to cut each clip rect into strips (of one row or more), and every order of the strips of successive paints.",
  "No test clips text at the top, and none at the bottom within a line.",
  ["src/blit.rs", "src/cliprect.rs"],
  [("top and bottom clipping of glyphs", "src/blit.rs"), ("cursor and line height advance for glyphs that are not visible", "src/blit.rs")],
  [FB, CUR], ["paint_str", "clear_region", "ClipRect"])

p("C24", "Each font file depends only on its own glyph set",
  "The generator writes the same bytes for a glyph set whatever other glyph sets the configuration has, in whatever order they stand there, and whether they are generated in one run or in several, also if they share sprite sheets, index, alias or legal files; keys of config.json may come in any order, and a missing key means the same as an empty text or zero. A run writes only the files of the sets it was asked for.",
  ["configurations", "schedules", "crash_points"],
  "For every valid configuration, every order and grouping of its sets into runs, and every crash of a run that is then repeated.",
  "The generator has no tests; the committed configuration is always run whole and in one order.",
  ["codegen/main.go", "codegen/lib/config.go", "codegen/lib/glyphset.go", "codegen/lib/fontspec.go", "codegen/lib/blitpattern.go"],
  [("each set is processed on its own", "codegen/main.go"), ("fonts made from configuration entries", "codegen/lib/config.go")],
  [("font files", "generated sources in src/fonts", "codegen/main.go")], ["codegen --write"])

p("C27", "A font that mixes up clusters never passes its own tests",
  "When two clusters of a font's index and alias files that begin in one Unicode block fall on one 32-bit hash, or one cluster stands there twice, with different sprites, then the generator refuses with a non-zero status or a test of the generated font file fails: no cluster is dropped or drawn with the sprite of another unnoticed. When hashes tell all clusters of each block apart, the generator succeeds and the tests of every generated file pass.",
  ["configurations", "crash_points", "fault_sequences"],
  "For every valid configuration and hash seed, and every pair of index or alias entries that collide, however they came about (two entries of the index, an alias and an entry, two aliases), on any machine and after crashed runs.",
  "The generator has no tests; the generated tests only ever run on the committed fonts, which have no collision between their own clusters.",
  ["codegen/lib/templates.go", "codegen/lib/blockindex.go", "codegen/lib/glyphset.go", "codegen/lib/murmur3.go"],
  [("index entries kept in hash order", "codegen/lib/blockindex.go"), ("generated test of the hash tables", "codegen/lib/templates.go"), ("aliases found by the hash of their cluster", "codegen/lib/glyphset.go")],
  [("font files", "generated sources in src/fonts", "codegen/main.go")], ["codegen --write", "cargo test"])

p("C28", "Generator runs that overlap in time leave complete fonts",
  "When several runs of the font generator work in one directory at the same time, however their system calls interleave and however long any of them is held up, every run that is not killed ends with status 0, no other file is changed or left behind, and when the last has ended every font file is the complete one that a single run writes. The same holds when some of the runs are killed at any point, provided another starts after that.",
  ["schedules", "crash_points", "configurations", "fault_sequences"],
  "For every valid configuration, any number of runs, every interleaving of their system calls, every kill that is followed by another run, and every file that earlier runs left.",
  "The generator has no tests and is only run once at a time by hand; the order in which two processes reach the disk cannot be controlled by a test.",
  ["codegen/main.go"],
  [("font files written in place", "codegen/main.go")],
  [("font files", "generated sources in src/fonts", "codegen/main.go")], ["codegen --write"])

p("C25", "The configuration editor writes the committed configuration",
  "Running config_editor.rb writes config.json, the latin and icon indexes and the latin aliases exactly as they are committed, and every alias is another Unicode normalization form of its cluster.",
  ["programs"],
  "For every edit of the tables in the script.",
  "The editor has no tests.",
  ["codegen/config_editor.rb"], [("tables and output files", "codegen/config_editor.rb")])

p("C26", "The time of a call grows only with its text and its region",
  "Counted in executed steps, painting a text takes no more than a constant factor longer than painting the same text in short pieces one after the other with the carried cursor: the time grows with the length of the text, never with its square, whatever characters it is made of (unsupported ones, broken clusters, newlines, one character again and again). Clearing a region takes no more than a constant factor longer than clearing it strip by strip. And no value of a cursor, clip rect or style makes any call take longer than a fixed bound for the screen plus a fixed bound for each character.",
  ["inputs", "histories"],
  "For every text of any length, every cursor, clip rect and style, and every state of the frame buffer.",
  "The longest text of the tests has a few dozen characters, and nothing measures how long a call takes.",
  ["src/blit.rs", "src/m3hash.rs", "src/fonts/emoji.rs", "src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts/hanzi.rs"],
  [("each iteration of the painting loop looks at the start of the rest only", "src/blit.rs"), ("the cluster hash stops after a bounded number of characters", "src/m3hash.rs")],
  [FB, CUR], ["paint_str", "clear_region"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
