T_MODE = "TLA+ model checking (TLC) of ColorMode.tla; every edge of the state graph replayed on the library; recorded histories validated by TLC (TraceMode.tla)"
T_REND = "TLA+ terminal/style specification (Session.tla) model checked by TLC; its tables drive an exhaustive sweep of the real rendering; recorded sessions validated by TLC (TraceSession.tla)"
T_COL = "TLA+ color specification (Colors.tla) evaluated by TLC on records of every accessor and conversion of the real library; RGB space swept exhaustively with tables exported by TLC"
T_PARSE = "TLA+ parser machines (Parse.tla) model checked against the property by TLC, exported and run next to the real parsers on exhaustive families of texts; recorded calls validated by TLC (TraceParse.tla)"
T_FMT = "TLA+ machine of nested formatting (Fmt.tla) explored exhaustively by TLC; every complete behaviour replayed on the library; recorded formattings validated write by write by TLC (TraceFmt.tla, FmtRecs.tla)"
T_BUILD = "TLA+ specification of every builder method (Build.tla) model checked by TLC against the property on histories; every short sequence of operations replayed on the library; recorded operations validated by TLC (TraceBuild.tla)"
T_THR = "TLA+ specification of the shared coloring state on a release/acquire memory (SharedMode.tla) model checked by TLC over all interleavings; the same programs run on the real library under every schedule and read choice (crate hook) and on Miri; every distinct recorded history validated by TLC (TraceShared.tla)"
T_CONST = "TLA+ specification of the builders (Build.tla, MCConst.tla): behaviours generated by TLC become constant expressions, compiled against the library and compared with the values TLC computed and with run time; palette and parser constants validated by TLC (Colors.tla, TraceParse.tla)"
T_VAL = "TLA+ specification of values as keys and of escape writers (Values.tla); TLC judges records of the real library: all-pairs comparisons and hashes, histories of keyed sets, printing under format options and rejected writes (TraceValues.tla)"
T_PIECE = "TLA+ specification of escapes put together from pieces on a terminal (Pieces.tla) model checked by TLC; recorded histories of the real pieces validated by TLC (TracePieces.tla)"
T_SYS = "TLA+ specification of whole programs (System.tla: builders, parsers, settings, nested printing, two terminals) model checked by TLC against a reference encoder; recorded programs using the real library validated event by event and byte by byte by TLC (TraceSystem.tla)"
CLAIMS = {
    "C01": (T_REND, "All 8192 effect sets x 820 (thorough: 4096) combinations of color representations with sampled color values, all 420 compile-time colors; random nested sessions judged byte by byte by the TLA+ terminal."),
    "C02": (T_REND, "As C01, for closing sequences."),
    "C03": (T_REND, "As C01, for well-formedness, plainness and clear-all."),
    "C04": (T_REND, "As C01: every representation against the fully dynamic style and the specification; type erasure over 458 combinations."),
    "C05": (T_COL, "All 2^24 RGB colors x 3 layers x arguments/escapes x RgbColor/Color, and within a style; 1048 (thorough: 7000) compile-time types."),
    "C06": (T_COL, "Every accessor, constant, macro and conversion of all 17+256+147 named colors."),
    "C21": (T_REND, "A counting global allocator observes every rendering of the sweep and of the recorded sessions, every recorded builder operation, every recorded parse, every decision and settings operation of recorded histories and the formattings of recorded nestings; TLC judges the counts (Frugal)."),
    "C07": (T_PARSE, "All texts up to 3 bytes, all 2^24 #rrggbb forms, products over relevant alphabets, all one-byte and many two-byte changes of accepted texts, random texts."),
    "C08": (T_PARSE, "All byte strings up to 3 bytes, all two-byte changes, disguises and paddings of every valid name, random byte strings."),
    "C09": (T_MODE, "Exhaustive over the finite state graph of the settings machine (every transition executed on the real code through several entry points), plus random histories. Trusts the isatty interposition."),
    "C10": (T_MODE, "Exhaustive over modes x streams x caches x support levels x kind sets; detection is steered by interposed isatty and TERM, color levels come from the real supports-color."),
    "C11": (T_MODE, "Exhaustive over the four variables x {unset, 0, set, empty} x mode; concrete values sampled from a list including non-UTF-8 ones."),
    "C12": (T_MODE, "Exhaustive over the settings machine of the stripped build; explicit sequences compared across builds."),
    "C13": (T_FMT, "A probing value under every combination of format options (3889, thorough 21601) x 9 traits x 9 styles x colored or not; 22 real values; nested recorded formattings with random options."),
    "C14": (T_FMT, "All 296460 programs of up to 6 steps and depth 3 over settings changes, texts and layers (thorough: 7 steps, depth 4), plus recorded random nestings up to depth 4 in three feature sets."),
    "C15": (T_FMT, "All programs of up to 5 steps with up to 2 failing points (rejected opening, text, closing; failing or panicking value; thorough 7 steps), plus recorded random formattings with rejected writes, failures and caught panics."),
    "C16": (T_BUILD, "All sequences of 3 (thorough 4) of 31 operations; every operation from 64 kinds of typed styles; random chains of 60 operations."),
    "C17": (T_BUILD, "Every convenience method on plain values (sized, unsized, trait objects), on 27 kinds of styled values with one and two layers, and on styles; all sequences of 3 (thorough 4) of 24 operations."),
    "C18": (T_BUILD, "All 8192 sets x 13 effects x every operation and query, all 67108864 pairs of sets, all iterations, random histories of collections and iterators."),
    "C19": (T_THR, "Litmus programs (2-3 threads, up to 3 operations each) plus random ones: all schedules and all reads the C11 release/acquire memory allows, up to a cap; then random schedules. Weak memory is simulated by views (no load buffering); Miri is a second, sampled engine."),
    "C20": (T_THR, "As C19, with decisions and formattings, simultaneous first detections, for terminal and color-level detection."),
    "C22": (T_CONST, "Sampled constant programs over every const operation (several hundred chains of up to 12 operations), all palette constants, mode and stream names; a loss of const is a compile error attributed to the operation."),
    "C23": (T_VAL, "All pairs of the ANSI, 256-color, CSS colors, effects, streams, modes; sampled groups of RGB and general colors, effect collections and styles (dynamic and typed) rich in near-equal values and in equal values built differently; random histories of hash sets and maps."),
    "C24": (T_VAL, "Every color of the palettes and sampled RGB colors x 6 writers, all 8192 effect sets x several color representations x 2 sequences under random format specifications out of 500 (all 500 on a sample), every single rejected write, debug output of all 8192 collections."),
    "C25": (T_PIECE, "Every effect on and off, alone and joined, from a plain and a full terminal; random histories (quick 1500 of 30 escapes per feature set) of pieces through every accessor, up to six joined in one escape, judged byte by byte by the TLA+ terminal."),
    "C26": (T_SYS, "Random programs (quick 500 of up to 25 steps per feature set; thorough 12000 of up to 61) over all builder methods of styled values, colors and settings given as text, nested documents, settings changed between and during prints, prints to the other terminal and into strings in the midst of a print, strings pasted later, failing and panicking values (caught anywhere), spans and resets; every named color in every layer; the wrapping sweep over all effect sets."),
}
NOT_YET = {}

HOOKS = {
    "guard": "colorz_verif (a rustc cfg, off by default)",
    "enable": "RUSTFLAGS='--cfg colorz_verif': src/mode.rs then sees wrapped atomics (src/verif_sync.rs) that forward every access to an installed memory model; only the C19 and C20 checks use it",
    "source_commits": ["c6730cb"],
}
