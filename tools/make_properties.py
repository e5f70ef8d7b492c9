import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/style.rs"; V="src/value.rs"; M="src/mode.rs"; L="src/lib.rs"
p("C01","An applied style renders as exactly what it asks for",
 "For every style (any foreground, background and underline color, any set of effects), a terminal that interprets the style's opening sequence ends up with exactly the requested foreground and background color and exactly the requested effects newly switched on, and every attribute the style does not mention stays as it was. The underline color is set exactly when the style has one together with an underline or double-underline effect; an ANSI underline color selects its corresponding 256-color entry.",
 ["inputs"],"all 8192 effect sets x all combinations of color layers and color kinds, from any prior terminal state",
 "The tests compare a handful of styles with literal strings; there are millions of combinations served by several separate fast and slow paths.",
 [S,L],[("fmt_apply fast/slow paths",S),("Effect! code table",S),("WriteColor for Color",L)],obs=["Style::apply()"])
p("C02","Clearing a style undoes exactly what applying it did",
 "For every style and every prior terminal state, the closing sequence switches off every effect of the style and returns every color the style set to the terminal's default. It leaves alone every attribute the style does not set, except that effects sharing one SGR off code (bold/faint, underline/double underline, slow/fast blink, super/subscript) go off together. Applying and then clearing any style on a default terminal therefore leaves it in the default state.",
 ["inputs","histories"],"all styles, from any prior terminal state and in any sequence of applied and cleared styles",
 "Only two closing sequences are tested; the closing side has its own fast paths that must mirror the opening side for every style.",
 [S],[("fmt_clear fast/slow paths",S),("Effect! code table",S)],obs=["Style::clear()"])
p("C03","Styles write only well-formed escapes, and plain styles write nothing",
 "The opening and closing sequences of every style consist only of complete `ESC [ ... m` sequences with explicit decimal parameters: no other characters, no empty parameter, no full reset. A style reports itself plain exactly when its opening sequence is empty, and then its closing sequence is empty too. The clear-all sequence resets every attribute of the terminal.",
 ["inputs"],"all styles, all color representations",
 "Separator and empty-sequence mistakes appear only for particular combinations of layers and effect counts.",
 [S],[("semicolon handling in the slow paths",S),("is_plain",S),("clear_all",S)],obs=["Style::apply()","Style::clear()","Style::is_plain()","Style::clear_all()"])
p("C04","The representation of a color or style does not change its output",
 "The same color gives the same opening and closing sequences in every position and with every set of effects however it is represented: compile-time color type, runtime palette value, general color value, or present optional color. An absent optional color behaves like no color. Erasing a style's types, at run time or at compile time, changes neither its output, its plainness nor its coloring decision.",
 ["inputs","programs"],"all combinations of color representations per layer x all effect sets",
 "Code paths are selected by the static color types; the tests exercise a few of the type combinations.",
 [S,L,"src/ansi.rs","src/xterm.rs","src/css.rs","src/rgb.rs"],[("Kind dispatch",S),("into_runtime_style / const_into_runtime_style",S),("ComptimeColor, From impls",L)],obs=["Style::apply()","Style::clear()","into_runtime_style","const_into_runtime_style"])
p("C05","Every RGB color is encoded exactly",
 "For each of the 16,777,216 RGB colors and each layer, the escape sequence and the argument string are `38;2;r;g;b` (foreground), `48;2;r;g;b` (background) or `58;2;r;g;b` (underline) with r, g and b in plain decimal without padding. This holds for the runtime color, for the general color value holding it, and for the compile-time color type with all of its constants.",
 ["inputs"],"all 2^24 colors x 3 layers x escape/arguments",
 "The tests look at four colors; digit handling branches on every channel value and position.",
 ["src/rgb.rs",L],[("RgbBuffer::write_u8/write_args",  "src/rgb.rs"),("const_rgb_buffer","src/rgb.rs")],obs=["WriteColor::fmt_*","Rgb::* constants"])
p("C06","Every named color has its right code, and all accessors and conversions agree",
 "Each ANSI color emits its standard code, each 256-color value emits the palette index of its documented name, and each CSS color emits the RGB value the CSS standard gives that name. Every accessor, constant, macro and conversion (argument strings, escapes, compile-time to runtime and general colors, code to 256-color value, ANSI to its 256-color entry, CSS to RGB) agrees with that, for all colors and all 256 codes.",
 ["inputs"],"all 17 ANSI, 256 xterm and 147 CSS colors x every accessor and conversion",
 "No test checks the tables; a wrong row or a swapped accessor compiles and passes.",
 ["src/ansi.rs","src/xterm.rs","src/css.rs"],[("MkAnsiColor!","src/ansi.rs"),("XTerm!","src/xterm.rs"),("Css!","src/css.rs")],obs=["*_ARGS/*_ESCAPE constants","*Color methods","From impls"])
p("C07","Color strings parse exactly as documented",
 "Parsing a color accepts exactly these forms: `#rrggbb` (hex digits of either case) as that RGB color, one to three decimal digits up to 255 as that 256-color code, `#x` or `#xx` as that 256-color code, and the sixteen lower-case ANSI names (`red`, `bright red`, ...; also `purple` for magenta) as that ANSI color. Every other string is rejected without panicking: three digits above 255 as an overflow, a `#` form of one of those three lengths with a non-hex digit as an invalid digit, anything else as an unknown color.",
 ["inputs"],"all strings",
 "The only test is a doc example with four strings; two-digit decimal codes were in fact wrong.",
 ["src/from_str.rs"],[("FromStr for Color","src/from_str.rs")],obs=["str::parse::<Color>()"])
p("C08","Mode and stream names parse exactly, ignoring ASCII case",
 "Parsing a mode succeeds exactly for `detect`, `always` and `never`, and parsing a stream exactly for `stdout`, `stderr`, `always` and `never`, in any mixture of upper and lower case, with the value of that name. Every other byte string, of any length and content, is rejected; the string and byte-string parsers agree.",
 ["inputs"],"all byte strings",
 "The tests try every case mixture of the valid names but not one invalid input; `never` followed by a space or NUL was in fact accepted.",
 [M],[("from_ascii_bytes SIMD comparison",M)],obs=["Mode/Stream::from_ascii_bytes","FromStr"])
p("C09","The coloring decision follows the documented precedence",
 "After any history of settings, whether styled text is colored is decided by the first of these that applies: the global mode last set (always: yes, never: no); the value's own stream (always-color: yes, never-color: no, stdout/stderr: detection for it); the default stream last set, in the same way. Reading the mode or the default stream returns the value last set (initially detect and always-color), and setting one, or asking for a decision, never changes the other.",
 ["histories","configurations","inputs"],"all sequences of settings and queries, all streams and color kinds, every feature set",
 "No test calls the decision function with more than one combination; it is a product of global state, per-value state and build features.",
 [M,S],[("should_color",M),("set_/get_coloring_mode, set_/get_default_stream",M)],
 [("COLORING_MODE","global mode",M),("DEFAULT_STREAM","default stream",M)],["mode::should_color","Style::should_color","formatting a StyledValue"])
p("C10","Stream detection uses the right stream and color support, once",
 "When the decision falls to stdout or stderr: without a detection feature the text is colored; with terminal detection it is colored exactly if that stream is a terminal; with color-level detection exactly if that stream's detected level supports the kind (ANSI, 256-color, RGB; CSS colors count as RGB) of every color set on the style, so a style without colors is rendered. Each stream is detected separately, at its first use, and its answer then stays the same for the life of the process.",
 ["histories","configurations"],"all sequences of queries x terminal/level states of both streams x color kinds of all three layers x feature sets",
 "Tests never run with a terminal, never vary its level, and share one process-wide cache.",
 [M,S,L],[("should_color_slow / detect",M),("ColorSupport encode/decode",M),("color_kind",L)],
 [("STDOUT_SUPPORT, STDERR_SUPPORT","detection caches",M)],["mode::should_color","Style::should_color"])
p("C11","The environment selects the coloring mode as documented",
 "Reading the mode from the environment gives never if NO_COLOR is set to anything but `0`; otherwise always if any of ALWAYS_COLOR, CLICOLOR_FORCE or FORCE_COLOR is set to anything but `0`; otherwise nothing. Setting the mode from the environment sets exactly that mode, leaves the current mode unchanged when there is nothing, and touches no other setting.",
 ["configurations","histories"],"all combinations of the four variables being unset, `0`, empty or any other value (including non-UTF-8), in any history",
 "No test touches the environment.",
 [M],[("Mode::from_env, set_coloring_mode_from_env",M)],obs=["Mode::from_env","set_coloring_mode_from_env"])
p("C12","Building with color stripping disables all coloring of styled values",
 "When the crate is built with color stripping, no history of mode, stream, environment or per-value settings makes any styled value colored: it formats exactly as the plain value, every coloring decision is no, and the global mode reads as never. The default stream still reads back as last set, and a style's explicit opening, closing and clear-all sequences are the same as without stripping.",
 ["configurations","histories","inputs"],"all histories and styles in the stripped build",
 "The stripped build is only compiled and run on tests that never ask for a styled value's output.",
 [M,V],[("cfg!(feature = strip-colors) checks",M)],obs=["formatting a StyledValue","get_coloring_mode","should_color"])
p("C13","Styling a value changes nothing but the surrounding escapes",
 "For every value, each of the nine formatting traits and every combination of format options (fill, alignment, width, precision, sign, `#`, `0`, debug-hex), a colored styled value prints the style's opening sequence, then exactly what the bare value prints with the same trait and options, then the style's closing sequence. When it is not colored it prints exactly what the bare value prints.",
 ["inputs"],"9 traits x all format options x styles x colored or not; also custom formatting functions",
 "No test formats a styled value and looks at the output with any option; nine trait impls are generated separately.",
 [V],[("fmt_with, fmt_impl!",V)],obs=["fmt::* for StyledValue","StyledValue::fmt_with"])
p("C14","Opening and closing always pair up, each layer deciding once",
 "Each styled layer decides once, when its formatting starts, whether it is colored, and writes its closing sequence exactly if it wrote its opening sequence, in properly nested order. This holds for any nesting of styled values with their own styles and streams, and even if the value being formatted changes the global mode or the default stream meanwhile; each layer's decision is the one the settings give at the moment its own formatting starts.",
 ["histories","schedules"],"all nestings of styled values x settings changes at any point during formatting",
 "No test nests styled values or changes settings during formatting.",
 [V,M],[("fmt_with decides before writing",V)],obs=["formatting nested StyledValues"])
p("C15","Formatting failures are reported and stop the output",
 "If the destination rejects any one write, or the value's own formatting fails, formatting the styled value reports an error, and what was written is a prefix of the fault-free output with nothing written after the failure. A failed or panicking formatting leaves mode, default stream and detection unchanged, and later formatting behaves as if it had not happened.",
 ["fault_sequences","crash_points"],"a failure at every individual write, of every style, layer nesting and value",
 "No test uses a failing writer.",
 [V,S,L,"src/rgb.rs"],[("? on every write",V)],obs=["fmt::Result and bytes written"])
p("C16","Style building: last write wins per attribute, no effect on the others",
 "After any sequence of style-building operations, each of foreground, background and underline color is the one last given, and the effects are those the operations since the last wholesale replacement added, removed and toggled, with a wholesale replacement (from an array, iterator or flag set, or clearing) keeping nothing older and ignoring duplicates. No operation changes any attribute other than the one it names, and queries of an effect report exactly that.",
 ["histories","inputs"],"all sequences of builder operations",
 "The tests chain at most two builder calls.",
 [S],[("Style builder methods, Effect! setters",S)],obs=["Style fields, Style::is"])
p("C17","Every convenience method does what its name says, and keeps the rest",
 "Each color, `on_` color, effect and `into_` convenience method on values, on styled values and on styles sets exactly the color, layer or effect it is named after. On a styled value it keeps the wrapped value, the stream and all other attributes; on a plain value (including wrapping an existing styled value as a new layer) it starts from an empty style without a stream; setting a stream changes only the stream.",
 ["inputs","histories"],"all convenience methods, in any chain",
 "Doc examples only check that the methods compile and print.",
 [V,S],[("AnsiColorMethods!",V),("Effect!",S)],obs=["StyledValue fields and output"])
p("C18","Effect collections behave as finite sets",
 "A collection of effects behaves as a set of the thirteen effects under adding, removing, toggling (by value or in place), membership, intersection, emptiness, equality, hashing, conversion from arrays and iterators, and the empty and full collections. Iterating yields every member exactly once, in declaration order, and then ends for good.",
 ["inputs","histories"],"all 8192 sets x all effects and pairs of sets, all operation sequences",
 "No test exercises the collection type directly.",
 [S],[("EffectFlags, EffectFlagsIter",S)],obs=["EffectFlags methods, iteration"])
p("C19","Global settings can be shared between threads without loss or mix-up",
 "With any number of threads setting and reading the global mode and default stream in any interleaving, a read returns only the initial value or one that was set, a thread never sees a setting go back to an older value than it has already seen or set, and setting one never disturbs the other. A thread that sees a setting also sees every setting its writer had made or seen before it.",
 ["schedules","histories"],"all interleavings (and all values release/acquire memory allows) of concurrent setters and getters",
 "All tests are single threaded with respect to the settings.",
 [M],[("atomics with release stores and acquire loads",M)],
 [("COLORING_MODE, DEFAULT_STREAM","two independent atomics",M)],["get_coloring_mode, get_default_stream, should_color"],"cfg(colorz_verif): the atomics of the mode module are replaced by a forwarding type")
p("C20","Concurrent decisions and detections are right in every thread",
 "With any number of threads asking for decisions or formatting styled values in any interleaving, including simultaneous first detection of a stream, every decision is one that follows from a mode and a default stream each of which was current at some point during the call, and while a stream's support does not change every decision that depends on it is the correct one, first or later, in every thread. A styled value formatted concurrently with changes of settings is either completely colored or completely plain.",
 ["schedules"],"all interleavings of concurrent decisions, detections, formatting and settings changes",
 "Tests never detect, and never race; the caches are filled by unsynchronised check-then-act.",
 [M,V],[("detect: load, detect, store",M),("fmt_with",V)],
 [("STDOUT_SUPPORT, STDERR_SUPPORT","detection caches",M)],["mode::should_color, formatting"],"cfg(colorz_verif) as in C19; terminal detection is controlled by interposing isatty")
p("C21","Styling never allocates",
 "Building styles and styled values, converting colors, parsing colors and names, collecting and iterating effects, deciding on coloring and writing opening and closing sequences perform no heap allocation, for every style, color representation and format option, colored or not. Only the first detection of a stream may allocate.",
 ["inputs"],"all styles x color representations x formatting traits",
 "No test counts allocations; with the std feature an allocation would compile unnoticed.",
 [S,V,L,"src/rgb.rs"],[("fixed stack buffer, write_str of constants","src/rgb.rs")],obs=["global allocator calls"])
p("C22","Styles and styled values can be built in constant expressions",
 "The operations offered for compile time (style builders other than those taking iterators, by-value effect-collection operations, creating a styled value and setting its stream, palette lookups and their strings, parsing mode and stream names from bytes, erasing the types of a style with compile-time colors) can be evaluated in constant expressions. Evaluated there they give exactly the value they give at run time.",
 ["programs"],"all constant expressions over the builder API",
 "Tests contain no constant styles.",
 [S,V],[("const fn builders",S)])
p("C23","Colors, styles and effects compare, hash and copy by value",
 "Two values of the same type (color, optional color, style, effect collection, effect, stream, mode) compare equal exactly when they are the same: two general colors when they are of the same kind (ANSI, 256-color, CSS, RGB) and the same color of that kind, two styles when all three colors and the set of effects are the same, however they were built. Equal values have equal hashes, `!=` is the negation of `==`, and a copy or clone is the same value, so a hash set or map keyed by them behaves as one keyed by the colors and effects they stand for.",
 ["inputs","histories"],"all pairs of values, and all histories of keyed collections",
 "The tests compare colors only with the expected result of parsing; no test hashes or compares a style, and values that differ in a single attribute are never compared.",
 [L,S,"src/ansi.rs","src/xterm.rs","src/css.rs","src/rgb.rs",M],[("PartialEq, Eq, Hash, Clone of the value types",L),("PartialEq, Eq, Hash of Style and EffectFlags",S)],obs=["==, !=, Hash::hash, Clone::clone"])
p("C24","Escapes and descriptions print the same in every format and destination",
 "Printing a style's opening or closing sequence, the clear-all sequence, or a color's escape or argument string gives the same bytes whatever the format options are (Display or Debug, fill, alignment, width, precision, sign, `#`, `0`, debug-hex). If the destination rejects any one write, printing reports an error, what was accepted is a prefix of the full output, and nothing is written after the rejection. Debug-printing an effect collection or its iterator gives the names of exactly its (remaining) members, each once, in declaration order, in the standard set notation (plain or `#`), and the message of a failed mode or stream parse names every accepted name.",
 ["inputs","fault_sequences"],"all styles, colors and effect collections x all format options x a failure at every write",
 "The tests print escapes only with `{}` into a String, which never fails.",
 [S,L,"src/rgb.rs",M],[("Prefix, Suffix, ClearAll",S),("WriteColor::fmt_*",L),("Debug of EffectFlags, EffectFlagsIter",S),("Display of ModeFromStrError, StreamFromStrError",M)],obs=["Style::apply(), clear(), clear_all()","WriteColor::fmt_*","fmt::Debug of EffectFlags"])
p("C25","Escape pieces keep their meaning when put together by hand",
 "The library hands out pieces of escapes: the codes and whole escapes of one effect (on, off) and of one color in one layer, next to the sequences of whole styles and the full reset. In any history of such pieces sent to a terminal, in any order and whether as whole escapes or as codes joined with `;` into one escape, the terminal ends up exactly as the pieces say: an effect's apply piece switches on that effect only, its clear piece switches it (its SGR group) off, a color piece sets exactly its layer, and no piece disturbs what another one set. Every escape is complete and well formed.",
 ["inputs","histories"],"all histories of pieces of effects, colors and styles, alone or joined",
 "The tests never use the effect accessors, and never join codes or send two sequences to one terminal.",
 [S,"src/ansi.rs","src/xterm.rs","src/css.rs","src/rgb.rs",L],[("Effect::apply_args, clear_args, apply_escape, clear_escape",S),("ColorSpec, WriteColor",L)],obs=["Effect::*_args, *_escape","*_args, *_escape of colors","Style::apply(), clear(), clear_all()"])
p("C26","What the terminal shows is what the program styled, and nothing leaks",
 "For every program - building styled values with any chain of the documented methods, with colors and settings given in code or parsed from text, nesting styled values in each other (directly or by values that format other styled values), changing the mode, the default stream or the environment between prints and while a value is being printed, printing from within a value to the other terminal or into a string that is shown later, and sending the escapes of single styles itself - the terminal shows exactly the characters the values write, in order, each with the attributes of the layers around it that were to be colored when they began (an inner layer overrides an outer one; a closed layer leaves its own colors and effect groups at the default). Layers that are not to be colored change nothing, whatever changes afterwards; after each print onto a plain terminal in which no value failed or panicked the terminal is plain again, and the other terminal is never affected.",
 ["inputs","histories"],"all programs: builder chains x nestings x settings histories x prints and spans",
 "The tests format single, mostly unnested values with a fixed mode and compare a few strings; none prints two values to one terminal or changes a setting in between.",
 [V,M,S,L,"src/from_str.rs"],[("Colorize, StyledValue",V),("Style::should_color, settings",M),("apply, clear",S),("FromStr of Color, Mode, Stream","src/from_str.rs")],obs=["Display and the other eight traits of StyledValue, fmt_with","Style::apply(), clear(), clear_all()","set_coloring_mode, set_default_stream, set_coloring_mode_from_env"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
