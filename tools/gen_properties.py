#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MODE="src/mode.rs"; STYLE="src/style.rs"; VALUE="src/value.rs"; LIB="src/lib.rs"; RGB="src/rgb.rs"; ANSI="src/ansi.rs"; XT="src/xterm.rs"; CSS="src/css.rs"; FS="src/from_str.rs"

p("C01","Colouring decision follows the documented precedence",
 "Whether a styled value (or an explicit should-color query) is coloured is decided, in this order, by: the strip-colors feature (never), the global mode Always/Never, the per-value stream, then the default stream. AlwaysColor/NeverColor streams decide directly; Stdout/Stderr decide by detection on that stream: always colour without std and supports-color, only-if-terminal with std alone, and with supports-color only if every colour kind in use is supported (a kind of 'no colour' asks for nothing). Querying changes no setting.",
 ["inputs","configurations","histories"],"every global mode x per-value stream x default stream x detection outcome x multiset of colour kinds, in every feature configuration",
 "The tests never call should_color with anything but the initial settings and never under a detecting stream; the decision table spans four feature configurations and terminal states a test process cannot all have.",
 [MODE,STYLE],[("should_color / should_color_slow (three cfg variants)",MODE),("Style::should_color",STYLE)],["mode::should_color","Style::should_color"],
 [("global mode","Always/Never/Detect","src/mode.rs COLORING_MODE"),("default stream","stream used when a value names none","src/mode.rs DEFAULT_STREAM")])
p("C02","Global colour settings read back exactly what was last set",
 "Reading the coloring mode returns the last mode set (Detect before any set), and reading the default stream returns the last stream set (AlwaysColor before any set); the two settings do not disturb each other. With strip-colors the mode always reads Never whatever is set. Only the setters change them.",
 ["histories","schedules","configurations"],"every sequence of set/get calls over all modes and streams, interleaved with any other library call, in every feature configuration",
 "No test sets and reads back a mode or a stream; the round trip goes through an integer encoding with a separate decoder.",
 [MODE],[("Mode::encode/decode, Stream::encode/decode",MODE),("set_coloring_mode/get_coloring_mode, set_default_stream/get_default_stream",MODE)],["mode::get_coloring_mode","mode::get_default_stream"],
 [("COLORING_MODE","encoded global mode",MODE),("DEFAULT_STREAM","encoded default stream",MODE)])
p("C03","Environment variables select the coloring mode as documented",
 "The mode read from the environment is Never if NO_COLOR is set to anything but '0'; otherwise Always if any of ALWAYS_COLOR, CLICOLOR_FORCE, FORCE_COLOR is set to anything but '0'; otherwise none. Applying the environment sets the global mode to exactly that mode, and leaves it unchanged when there is none.",
 ["inputs","configurations"],"every assignment of the four variables (unset, '0', any other value), in every configuration with std",
 "The test scripts unset all of these variables; no test reads them.",
 [MODE],[("Mode::from_env",MODE),("set_coloring_mode_from_env",MODE)],["mode::Mode::from_env","mode::get_coloring_mode"])
p("C04","Stream detection is per stream, cached faithfully and race-tolerant",
 "Detection for Stdout uses only stdout's state and for Stderr only stderr's; once a stream has been probed, every later decision for it equals the decision the probe result implies, and the other stream is unaffected. Whatever other threads do concurrently, a decision is always one implied by some probe result of that same stream.",
 ["schedules","histories","configurations"],"every interleaving of concurrent decisions on both streams and every probe outcome, in each configuration with detection",
 "Tests run with redirected output in one process state and never reach detection; races on the cache are not exercised.",
 [MODE],[("detect() and the STDOUT_SUPPORT/STDERR_SUPPORT caches",MODE),("ColorSupport::encode/decode/DETECT",MODE)],["mode::should_color"],
 [("STDOUT_SUPPORT/STDERR_SUPPORT","cached probe result or not-yet-probed marker",MODE)])
p("C05","A styled value prints as prefix, value, suffix - or the bare value",
 "Formatting a styled value writes, when it is to be coloured, exactly the style's apply output, then the value, then the style's clear output; otherwise exactly the value. The colouring decision is taken once per formatting call, from the value's own style and stream, so prefix and suffix always both appear or both do not, even if the global mode changes concurrently. Custom formatters passed to fmt_with are called exactly once, on the value, in the same place.",
 ["inputs","schedules","configurations","programs"],"every value type, style, stream, global setting and concurrent change of settings, for each of the nine formatting traits and fmt_with",
 "The tests only format Style::apply()/clear() pieces; StyledValue output is never compared, and concurrent mode changes are never exercised.",
 [VALUE,LIB],[("StyledValue::fmt_with",VALUE),("fmt_impl! for the nine traits",VALUE)],["fmt traits of StyledValue"])
p("C06","Writer errors stop output and are returned",
 "If the underlying writer or the inner value's formatter reports an error at any point while a style, colour, effect or styled value is being written, nothing further is written and that formatting call returns an error; if no error is reported the call returns success.",
 ["fault_sequences","inputs"],"every write position at which a writer error can occur, for every public formatting operation and every style",
 "All tests format into String, which never fails.",
 [STYLE,VALUE,LIB,RGB],[("? and tail-returned results in fmt_apply, fmt_clear, their slow paths, WriteColor impls, fmt_with",STYLE)],["fmt results"])
p("C07","Applying a style selects exactly its colours and effects",
 "The apply output of a style consists of terminal commands that select its foreground colour on the foreground layer, its background colour on the background layer, each of its effects exactly once, and its underline colour on the underline layer if and only if an underline or double-underline effect is present; it contains nothing else. A plain style writes nothing.",
 ["inputs","programs"],"every combination of foreground/background/underline colour (compile-time, runtime or absent, of any colour type) and each of the 8192 effect sets",
 "Seven tests look at seven fixed styles, none with both colours, an underline colour, or a runtime Rgb foreground with several effects; different static types take different code paths.",
 [STYLE,LIB],[("Style::fmt_apply, fmt_apply_slow",STYLE)],["Style::apply Display/Debug"])
p("C08","Clearing a style undoes exactly what applying it selected",
 "The clear output of a style contains, for every colour layer and effect that the apply output selects, the code that turns that layer or effect off, and no code for anything the apply output does not select (in particular no full reset), so nested styles of other layers survive. A plain style clears with no output, and the explicit clear-all operation writes exactly one full reset.",
 ["inputs","programs"],"every combination of colours of every static type and each of the 8192 effect sets",
 "One test checks one foreground and one background clear; effect clears and all mixed combinations are untested.",
 [STYLE],[("Style::fmt_clear, fmt_clear_slow, clear_all",STYLE)],["Style::clear Display/Debug","Style::clear_all"])
p("C09","All control output is complete, well-formed SGR sequences",
 "Everything that apply, clear, clear-all and the colour, effect and escape accessors write is a concatenation of complete sequences ESC [ params m whose parameters are non-empty decimal numbers separated by single semicolons, with no other text, each sequence made only of codes the library defines (extended colours with all of their arguments); argument accessors yield exactly the parameter part. Escape accessors equal the argument accessors of the same layer wrapped in ESC [ and m.",
 ["inputs","programs"],"every style, effect set, colour value and colour type, all three layers",
 "Well-formedness depends on which parts of the style are present; tests compare a handful of complete strings.",
 [STYLE,LIB,RGB,ANSI,XT,CSS],[("semi!() separator logic",STYLE),("WriteColor / ColorSpec escapes and args",LIB)],["Style::apply/clear","WriteColor::fmt_*","ColorSpec::*_args/_escape","Effect::*_args/_escape"])
p("C10","Runtime RGB colours print the exact decimal channels on each layer",
 "A runtime RGB colour writes, for the foreground, background and underline layers, parameters 38;2;r;g;b, 48;2;r;g;b and 58;2;r;g;b respectively, where r, g, b are its red, green and blue channels in plain decimal without leading zeros; the full-escape form wraps the same parameters.",
 ["inputs"],"all 2^24 channel combinations x three layers x args/escape forms",
 "Tests use three RGB values; digit-count boundaries per channel position and the underline layer are not covered.",
 [RGB],[("RgbBuffer::write_u8/write_args/write_sep and headers",RGB)],["WriteColor for RgbColor"])
p("C11","Compile-time RGB types print the same as runtime RGB",
 "For every red, green, blue the compile-time RGB type's argument and escape constants, on each layer, equal what the runtime RGB colour with the same channels writes, its layer-free arguments are 2;r;g;b, and its runtime counterpart has exactly those channels.",
 ["programs","inputs"],"all 2^24 instantiations of the compile-time RGB type x all constants and accessors",
 "Each instantiation is a separate program; the tests instantiate three.",
 [RGB],[("const_rgb_buffer, args_payload, raw_args_payload, const_to_str",RGB)],["Rgb::<R,G,B> constants","ColorSpec for Rgb"])
p("C12","Xterm colours correspond one-to-one to codes 0-255",
 "Every code 0..=255 converts to a distinct xterm colour whose numeric value and printed arguments are that code: 5;n layer-free, 38;5;n foreground, 48;5;n background, 58;5;n underline, for the runtime colour and for the compile-time type of the same name alike. The code-to-type macro maps each literal code to the compile-time type of that code.",
 ["inputs","programs"],"all 256 codes x runtime and compile-time forms x all accessors",
 "Only the discriminant is asserted at compile time; the printed tables for 256 colours x 7 accessors x 2 forms are untested.",
 [XT],[("XTerm! tables, from_code, args, *_args, *_escape",XT),("xterm_from_code!",XT)],["XtermColor accessors","xterm unit types"])
p("C13","CSS named colours carry the standard RGB values everywhere",
 "Every CSS colour name denotes the RGB triple that the CSS specification gives it, and all its representations - runtime enum, compile-time type, RGB conversion, and printed arguments and escapes on each layer - agree on that triple.",
 ["inputs","programs"],"all 147 named colours x runtime and compile-time forms x all accessors",
 "No test touches the css module.",
 [CSS],[("Css! table, rgb(), accessor tables",CSS)],["CssColor accessors","css unit types"])
p("C14","ANSI colours use the standard codes on every layer",
 "The sixteen ANSI colours print 30-37/90-97 on the foreground, 40-47/100-107 on the background and 58;5;n (n their index 0-15) on the underline, and convert to the xterm colour of the same index; the default colour selects the terminal default on each layer (39, 49, 59). Runtime and compile-time forms agree.",
 ["inputs","programs"],"all 17 colours x runtime and compile-time forms x all accessors",
 "Tests print blue and red on one layer each.",
 [ANSI],[("MkAnsiColor! table, to_xterm, underline_args/escape",ANSI)],["AnsiColor accessors","ansi unit types"])
p("C15","Type-erased colours write exactly what the wrapped colour writes",
 "For every type-erased colour, on every layer and in both the argument and escape forms, the output is exactly the output of the wrapped ANSI, xterm, CSS or RGB colour for that same layer and form.",
 ["inputs"],"every wrapped colour x three layers x two forms",
 "Tests format a type-erased ANSI and RGB colour only in escape form; the argument form is only used for multi-effect styles.",
 [LIB],[("impl WriteColor for Color",LIB)],["WriteColor for Color"])
p("C16","Reported colour kind matches the kind of colour",
 "The colour kind a colour reports - and so the terminal capability asked for - is Ansi for ANSI colours, Xterm for xterm colours, Rgb for CSS and RGB colours, in compile-time, runtime, type-erased and optional form alike; an absent colour reports no colour. A style asks for exactly the kinds of its three colours.",
 ["inputs","programs","configurations"],"every colour type and value, optional or not, and every style",
 "No test reads a colour kind; a wrong kind is only visible on terminals with limited support.",
 [LIB,ANSI,XT,CSS,RGB,STYLE],[("ColorSpec::KIND, WriteColor::color_kind, OptionalColor::color_kind",LIB),("Style::should_color",STYLE)],["WriteColor::color_kind","OptionalColor::color_kind","Style::should_color"])
p("C17","Optional colours report presence truthfully",
 "An optional colour yields a colour exactly when one is present, and it is the wrapped one: no-colour never yields one, every colour always yields itself, an Option (nested to any depth) yields its innermost colour exactly when every level is present. The compile-time presence class each type declares is consistent with this.",
 ["inputs","programs"],"every colour type, every nesting of Option, every value",
 "Style code branches on the declared class; tests never use nested options and compare few classes.",
 [LIB],[("impl OptionalColor for C / Option<C> / NoColor, KIND",LIB)],["OptionalColor::get"])
p("C18","Conversions between colour forms preserve the colour",
 "Converting any colour between its compile-time type, its runtime type, the type-erased colour and the optional type-erased colour - by any provided conversion or constant - yields the same colour (same family, same name or channels); CSS to RGB keeps its triple and ANSI to xterm keeps its index.",
 ["inputs","programs"],"every colour of every family x every provided conversion",
 "One test converts one RGB style; around 420 compile-time types with 5 conversions each are untested.",
 [LIB,ANSI,XT,CSS,RGB],[("From impls, DYNAMIC, into_dynamic, ComptimeColor::VALUE",ANSI)],["From/Into impls","ColorSpec::into_dynamic","ComptimeColor::VALUE"])
p("C19","Effect collections behave as sets",
 "An effect collection contains exactly the effects added and not since removed: with/set, without/unset and toggled/toggle change only the named effect; new, all, from an array or iterator, emptiness, membership, intersection and equality agree with that set. Iteration yields each member exactly once, in declaration order, and nothing else.",
 ["inputs","histories"],"all 8192 sets x all 13 effects x all operations (so by induction every operation history)",
 "Tests build two small sets and never remove, toggle or iterate.",
 [STYLE],[("EffectFlags and EffectFlagsIter bit operations, Effect::decode/mask",STYLE)],["EffectFlags API"])
p("C20","Each effect has its standard on and off codes",
 "Each effect's on code is its standard terminal code (bold 1, dim 2, italic 3, underline 4, blink 5, fast blink 6, reverse 7, hidden 8, strikethrough 9, double underline 21, overline 53, superscript 73, subscript 74) and its off code is the standard code that cancels it (22, 22, 23, 24, 25, 25, 27, 28, 29, 24, 55, 75, 75). Distinct effects have distinct on codes.",
 ["inputs"],"all 13 effects x on/off x argument/escape form",
 "Tests print four effects' on codes and no off code.",
 [STYLE],[("Effect! table",STYLE)],["Effect::apply_args/clear_args/apply_escape/clear_escape"])
p("C21","Style builder methods change exactly what they name",
 "Each style builder call returns a style that differs from its receiver only in the named component: fg, bg and underline_color replace that colour, the effect methods add, remove or toggle exactly the named effect, effect-set methods replace the whole effect set, and membership queries answer for the named effect. A new or default style has no colour and no effect.",
 ["inputs","programs","histories"],"every starting style of every colour type x every builder method and argument (so by induction every builder chain)",
 "Tests call four builder methods on empty styles.",
 [STYLE],[("Style setters and Effect!-generated methods",STYLE)],["Style fields after each builder call"])
p("C22","Styling methods on values set the named slot and keep the rest",
 "Every colour, background, underline and effect method on plain values and on styled values yields a styled value with the same inner value, the same stream and the same style except the one slot the method names, set to the named ANSI colour, given colour or effect; borrowing and consuming variants agree; stream setters change only the stream. Fresh styled values have a plain style and no stream.",
 ["inputs","programs","histories"],"every value type, starting style and stream x all (about 130) methods",
 "Doc-tests only check that a few of these compile and print; nothing compares which slot or colour was set.",
 [VALUE,LIB],[("AnsiColorMethods! generated Colorize and StyledValue methods",VALUE)],["StyledValue fields"])
p("C23","Colour parsing accepts exactly the documented forms",
 "Parsing a colour accepts exactly: '#' plus six hex digits (RGB channels in order), one to three decimal digits with value at most 255 (that xterm code), '#' plus one or two hex digits (that xterm code), and the sixteen lower-case ANSI names with 'bright ' prefixes plus 'purple' for magenta. Three decimal digits above 255 give the overflow error, '#' forms of those lengths with a non-hex digit give the invalid-digit error, everything else gives the unknown-colour error.",
 ["inputs"],"every string",
 "Four doc examples are checked; the input space is all strings and the failing region (for example two-digit decimals) need not be among any sample.",
 [FS],[("FromStr for Color",FS)],["str::parse::<Color>"])
p("C24","Mode and stream names parse case-insensitively and exactly",
 "Parsing a mode accepts exactly 'detect', 'always', 'never', and parsing a stream exactly 'stdout', 'stderr', 'always', 'never', in any ASCII letter case, each giving the mode or stream so named; every other byte string is an error. Parsing from a string and from bytes agree.",
 ["inputs"],"every byte string",
 "Tests cover the accepted spellings in every case but no rejected input.",
 [MODE],[("Mode::from_ascii_bytes, Stream::from_ascii_bytes",MODE)],["Mode::from_str","Stream::from_str"])
p("C25","A style is plain exactly when applying it writes nothing",
 "The plainness query is true exactly for the styles whose apply output is empty and whose clear output is empty.",
 ["inputs","programs"],"every style of every colour type and each of the 8192 effect sets",
 "Doc-tests ask for plainness of the empty style only.",
 [STYLE],[("Style::is_plain, EffectFlags::is_plain",STYLE)],["Style::is_plain","Style::apply","Style::clear"])
p("C26","No public operation panics or overflows",
 "No call of a public operation of the library with any argument values panics, overflows arithmetic, indexes out of bounds or hits an internal unreachable marker, in builds with all debug checks on, whatever other threads do with the global settings.",
 ["inputs","schedules","configurations"],"every public operation, every argument value, every reachable global setting",
 "Tests sample a few inputs; panic sites (slice indexing in the RGB buffer, unwraps, unreachable markers) are reachable only for particular values.",
 [RGB,STYLE,MODE,LIB,FS],[("slice indexing in RgbBuffer; unwrap in fmt_apply/fmt_clear; unreachable! in decode functions",RGB)],["every public function"])
p("C27","The library never allocates and needs no std by default",
 "No operation of the library reaches a heap allocation in any feature configuration, other than reading the environment and probing a stream, which are also the only operations that touch the operating system; without the std and supports-color features the library links no std, and without alloc as well it links only core.",
 ["programs","configurations"],"every function of the library in every feature configuration",
 "Tests run with std available and cannot observe an allocation or an unwanted dependency.",
 [LIB,"Cargo.toml",MODE,STYLE,RGB],[("#![no_std], feature-gated extern crates",LIB),("stack RgbBuffer",RGB)],["resolved call graph"])
p("C28","Colour traits cannot be implemented outside the library",
 "No program outside the library can implement the colour traits (colour writing, single-colour specification, optional colour, compile-time colour) for its own types, construct styles or styled values that bypass their constructors by literal, or name an xterm code outside 0..=255 through the code macro: each such program fails to compile, while the corresponding legal program compiles.",
 ["programs"],"every downstream program of each forbidden shape",
 "A test suite only contains programs that compile.",
 [LIB,XT,STYLE],[("mod seal, #[non_exhaustive], xterm_from_code! fallback arm",LIB)],["rustc diagnostics"])
p("C29","Styles and styled values can be built at compile time",
 "Constructing styles, effect sets, colours, styled values and runtime-style conversions offered for compile-time use is usable in constant contexts and yields there the same value as at run time.",
 ["programs"],"every constructor and builder documented for compile-time use, in const and static items",
 "One doc-test builds one constant style; losing constness of another function breaks no test.",
 [STYLE,VALUE,XT,ANSI,CSS,RGB,MODE],[("const fn builders, const_into_runtime_style, StyledValue::new/stream",STYLE)],["rustc const-checking"])
p("C30","Direct style and colour output ignores the colouring mode",
 "Writing a style's apply or clear output, or a colour's or effect's codes directly, gives the same output whatever the global mode, default stream, environment, terminal state or strip-colors feature; none of these operations reads or changes any global state.",
 ["configurations","schedules","programs"],"every direct-output operation, every setting, every feature configuration",
 "Tests run with the initial settings only and could not tell that a setting was consulted.",
 [STYLE,LIB,RGB,MODE],[("Style::apply/clear and WriteColor never call mode::*",STYLE)],["call graph from direct-output operations to statics and environment"])
p("C31","Feature flags are additive and every combination builds",
 "The library compiles with every subset of its features, and every public item available with fewer features is still available with the same shape when more are enabled.",
 ["configurations"],"all 16 feature subsets (std, alloc, supports-color, strip-colors)",
 "The test script builds four subsets and compares no public interface between them.",
 ["Cargo.toml",LIB,MODE],[("cfg(feature = ...) gates",MODE)],["public items per configuration"])
p("C32","Formatter options reach the value and never the escape codes",
 "For every formatting trait, a styled value forwards the caller's formatting options (width, fill, precision, sign, alternate flag) unchanged to the inner value under that same trait, and the escape sequences around it are written verbatim regardless of those options.",
 ["inputs","programs"],"every option combination x nine formatting traits x every style and value type",
 "No test formats a styled value with options.",
 [VALUE,STYLE,LIB,RGB],[("fmt_impl!, write_str-only emission",VALUE)],["fmt traits of StyledValue, apply, clear"])
p("C33","Debug output of effect sets lists exactly the members",
 "The Debug form of an effect collection and of its iterator is a set listing exactly the contained (respectively remaining) effects, each once; debug-printing an iterator does not advance it.",
 ["inputs","histories"],"all 8192 sets and every iterator position",
 "No test debug-prints an effect collection.",
 [STYLE],[("Debug for EffectFlags, EffectFlagsIter",STYLE)],["Debug of EffectFlags/EffectFlagsIter"])
p("C34","Type-erasing a style keeps its colours, effects and output",
 "Converting a style to its runtime form (at run time or at compile time) keeps every colour slot and the effect set; the runtime style selects and clears exactly the same colours and effects as the original, and both conversions agree.",
 ["inputs","programs"],"every style of every colour type and effect set",
 "One test converts a background-only RGB style.",
 [STYLE,LIB],[("Style::into_runtime_style, const_into_runtime_style",STYLE)],["Style fields and output before/after conversion"])
p("C35","Colours, effects, styles and settings are plain values",
 "Every public colour, effect, style and setting type is a plain shareable value: two values compare equal exactly when they are the same value (every slot, channel and member counts), inequality is the opposite of equality, a copy is the same value, and equal values hash equally.",
 ["inputs","programs"],"every pair of values of the finite types; every channel, slot and effect of the product types",
 "Tests compare only a handful of values and never hash any.",
 [LIB,STYLE,ANSI,CSS,XT,RGB,MODE],[("derived PartialEq, Eq, Hash, Clone, Copy of Color, RgbColor, AnsiColor, CssColor, XtermColor",LIB),("derives of Style, EffectFlags, Effect",STYLE),("derives of Mode, Stream, ColorKind",MODE)],["==, !=, clone, hash of the public types"])
p("C36","Error messages of mode and stream parsing name the words that parse",
 "The message of a failed mode or stream parse names a word exactly when that word is accepted by the parser it belongs to.",
 ["inputs"],"both error types against every word of both parsers","No test prints the errors.",
 [MODE],[("Display for ModeFromStrError, StreamFromStrError",MODE),("Mode/Stream::from_ascii_bytes",MODE)],["Display text of the error types"])
p("C37","The library contains no unsafe code",
 "In no feature configuration and no build profile does the library contain an unsafe block, function, trait or implementation, a foreign declaration it calls, or a linkage override, and its exported macros expand to none: no safe program can lose memory safety through it.",
 ["configurations","programs"],"every function body and item in every feature configuration, with debug checks on and off",
 "Undefined behaviour need not show in a run; the tests sample a few calls in a debug build.",
 [LIB,MODE,STYLE,XT,CSS,ANSI,RGB,VALUE,FS],[("forbid(unsafe_code)",LIB),("encode/decode of settings and effects done with matches instead of transmutes",MODE+", "+STYLE),("xterm_from_code!",XT)],["the compiler's unsafe-code lint over the crate"])
p("C38","Every documented way of using the library type-checks",
 "The interface works from programs without std, prelude or unsafe code, under another crate name, next to items of the same names and in every edition; the code macro yields the type itself (usable as value, constant, type and pattern); a styled value has exactly the formatting, copying, cloning and thread abilities of its inner value, unsized ones included; borrowing calls borrow and consuming calls consume.",
 ["programs","configurations"],"each documented kind of program, in every feature configuration",
 "The tests are a few std programs with nothing else in scope; abilities a type must not have cannot be tested by running anything.",
 [VALUE,XT,LIB,STYLE],[("Colorize blanket implementation",VALUE),("fmt_impl! bounds, derives of StyledValue",VALUE+", "+LIB),("xterm_from_code! ($crate paths)",XT),("const constructors",STYLE)],["type checking and borrow checking of client programs"])
p("N01","Detected capability matches the real terminal",
 "When detection says a stream supports a colour kind, the terminal attached to that stream really renders it.",
 ["configurations","inputs"],"every terminal and environment","Needs real terminals.",
 [MODE],[("std::io::IsTerminal, supports_color::on",MODE)])
p("N02","Xterm colour names denote the closest X11 colour",
 "Each xterm colour above 15 is named after the X11 colour closest to its palette RGB value, as the naming script intends.",
 ["inputs"],"all 240 named palette entries","The reference data is not in the repository.",
 [XT,"color_name_picker.py"],[("color_name_picker.py",XT)])
p("N03","Colour output costs a bounded number of writes",
 "Rendering a style costs a small bounded number of writer calls and no noticeable slowdown compared with printing the same bytes.",
 ["inputs"],"every style","Timing is not tested.",
 [STYLE,RGB],[("fast paths and RgbBuffer",STYLE)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
