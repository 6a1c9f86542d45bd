import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=('stdout','exit status'),state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["src/"+f if not f.startswith('boxes-config') and not f.startswith('doc') else f for f in files],
        "state":[{"name":a,"meaning":b,"where":"src/"+c} for a,b,c in state],
        "mechanism":[{"name":a,"where":"src/"+b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})

p("C01","Drawing a box never changes, drops, adds or reorders text",
 "When a box is drawn, the space inside it contains exactly the input lines, in order, each complete and exactly once; apart from trailing white space, common indentation and tabs (which have documented treatment) every character is preserved. Everything else inside the box is blank.",
 ["inputs","configurations"],"all input texts (any mix of ASCII, multi-byte, double-width and combining characters, blanks, tabs, blank lines; any number of lines and any line length below 16 KB) x all box designs x drawing options",
 "The example-based tests draw a few dozen fixed texts; growth of line tables, long lines, wide blanks and odd blank-line patterns lie between the samples.",
 ["input.c","generate.c","bxstring.c","tools.c"],
 [("reading, trimming and tab-expanding lines","input.c read_all_input"),("assembling output lines","generate.c output_box"),("string primitives","bxstring.c")],
 state=[("input","the text lines with derived widths and indentation","input.c")])
p("C02","Every drawn box is rectangular in display columns",
 "In every drawn box the right-hand border starts in the same display column on every line, no matter which characters the text or the design contain: double-width characters occupy two columns, combining characters and escape sequences none. Every output line of a box that is closed on the right has the same display width.",
 ["inputs","configurations"],"all texts over characters of width 0, 1, 2 and escape sequences x designs with single, double-width and coloured shapes x alignment, padding, size",
 "Tests pin the output for a few Unicode texts; width bookkeeping must agree for every combination of character classes, positions and line lengths.",
 ["bxstring.c","generate.c","unicode.c","input.c"],
 [("column accounting","bxstring.c bxs_from_unicode"),("escape sequence scanner","unicode.c advance_next32"),("fill computation","generate.c output_box")])
p("C03","The frame is assembled exactly as the box design says",
 "Each side of a drawn box is its first corner, its side shapes in order and its second corner, where elastic shapes are repeated as whole units and extended in turn, all other shapes appear exactly once, and sides that the design leaves empty are not drawn at all. Opposite sides have equal length, and the box is the smallest one which these rules allow for the text, the design and the requested size and padding.",
 ["configurations","inputs"],"all valid designs (any subset of sides, one to three shapes per side, every legal choice of elastic shapes, shape sizes, corner sizes) x text widths and heights",
 "Tests use the shipped designs with a few texts each; the size arithmetic depends on the residues of text size against all shape sizes at once.",
 ["generate.c","shape.c","parsecode.c"],
 [("side length calculation","generate.c horiz_precalc, vert_precalc"),("side assembly","generate.c vert_assemble, horiz_assemble"),("generation of undefined shapes","shape.c genshape; parsecode.c")],
 state=[("iltf","columns or lines given to each shape of a side","generate.c")])
p("C04","Requested box size and padding are honoured",
 "Padding given on the command line replaces the design's padding side by side, and at least that many blank columns or lines separate the text block from the box, unless a requested box size leaves no room for it, in which case padding gives way before anything else. With a requested size the box has exactly that width and height whenever the design's shapes and the text can be fitted into it, counting only sides which are actually drawn.",
 ["inputs","configurations"],"all size specifications (width, height, both) x all padding specifications (a, h, v, t, r, b, l in any combination and order) x design paddings x open sides x texts",
 "Tests sample single padding and size options; the interplay of size, padding, open sides and text size is combinatorial.",
 ["boxes.c","cmdline.c","generate.c"],
 [("size request","boxes.c apply_expected_size"),("padding against size","boxes.c adjust_size_and_padding"),("option parsing","cmdline.c size_and_padding")])
p("C05","Alignment and justification place text exactly as requested",
 "The text block is placed left, centred or right, and top, centre or bottom of the space inside the box, net of padding; independently each text line is justified left, centred or right within the block, and not shifted at all when no justification is requested. The shorthand forms l, c and r mean the documented combinations, later components override earlier ones, and alignment never changes the size of the box or loses characters.",
 ["inputs","configurations"],"all sequences of alignment components x texts with lines of different lengths and indentations x spare space 0..n in either direction x indentation modes",
 "Tests contain some combinations for single texts; rounding and interplay with indentation depend on parities of several sizes.",
 ["cmdline.c","generate.c"],
 [("alignment parsing","cmdline.c align"),("justification","generate.c justify_line"),("placement","generate.c output_box")])
p("C06","Indentation is applied to the box, to the text, or dropped",
 "The common leading white space of the text, ignoring blank lines, is the indentation: by default the whole box is shifted right by it, in text mode it is kept inside the box, and in none mode it is discarded; in each mode the remaining relative indentation of the lines is preserved. A mode given on the command line overrides the one of the box design.",
 ["inputs","configurations"],"all texts with any pattern of leading blanks, tabs and blank lines x three modes from command line and design x removal of the resulting box",
 "Tests cover a handful of uniform indentations; minimum computation over arbitrary patterns with blank lines, tabs and wide blanks is not covered.",
 ["input.c","generate.c","remove.c","cmdline.c"],
 [("indentation of a text","input.c get_indent"),("output of indentation","generate.c output_box"),("restoring indentation","remove.c remove_vertical_from_input")])
p("C07","Tabs are expanded to tab stops and restored as requested",
 "Every tab in the input advances to the next tab stop in display columns, so that the text occupies the same columns as in a terminal with that tab distance. In the indentation of the output, e yields only spaces, u yields as many tabs as possible, and k yields the tabs of the original line as far as they lie within the indentation; in all three cases the indentation expands to the same number of columns, and no tab is ever written inside the box.",
 ["inputs","configurations"],"all texts over tabs, spaces, narrow, wide and zero-width characters x tab distances 1..16 x modes e, k, u x drawing and removing boxes",
 "Tests use a few tab patterns with distances 4 and 8.",
 ["tools.c","generate.c","remove.c","cmdline.c"],
 [("tab expansion","tools.c expand_tabs_into"),("tab restoration","tools.c tabbify_indent"),("unexpansion","generate.c output_box; remove.c output_input")])
p("C08","Line ends and white space at line ends are under control",
 "Each output line ends with the selected line terminator (LF by default, else CR, LF or CRLF as requested), except that the last line has none if and only if the last input line had none. The form of the line ends in the input (LF or CRLF) has no influence on the output, trailing white space of the input never makes a box larger, no drawn line ends in white space unless it is entirely blank, and empty input yields empty output.",
 ["inputs","configurations"],"all texts x LF/CRLF line ends in any mixture x final newline present or not x line terminator options x drawing and removal",
 "Tests contain few CRLF inputs and one input without final newline.",
 ["input.c","generate.c","remove.c","cmdline.c"],
 [("final newline","input.c has_linebreak"),("trailing white space","tools.c btrim32; input.c trim_trailing_ws_carefully"),("line terminator","cmdline.c eol_override; generate.c output_box; remove.c output_input")])
p("C09","Replacement and reversion rules are applied in order to every line",
 "When a box is drawn, the replacement rules of its design are applied to every text line in the order of definition, each rule to the result of the previous one, replacing all matches or only the first one as defined, with back-references resolved; the box is sized for the resulting text. When a box is removed, the reversion rules are applied to the uncovered text in the same way and the replacement rules are not.",
 ["configurations","inputs"],"all lists of rules (literal, anchors, classes, groups and back-references, empty matches, growing and shrinking) x global/once x texts with multi-byte characters",
 "Only the few shipped designs with rules are tested, with one text each.",
 ["input.c","regulex.c","parsecode.c","lexer.l","parser.y"],
 [("rule application","input.c apply_substitutions"),("substitution","regulex.c u32_regex_replace"),("rule definition","parsecode.c action_replace/reverse")])
p("C10","Colour escape sequences are invisible and obey the colour options",
 "Escape sequences in text and designs never influence layout: removing them from the output yields the very same box as removing them from text and design first. With colours enabled the sequences of the text appear in the output in their order and between the same characters; with colours disabled, or on terminals without colours, no escape sequence is ever written, neither when drawing nor when removing a box.",
 ["inputs","configurations"],"all texts interleaved with escape sequences (CSI, two-character, character set designation) x plain and coloured designs x --color, --no-color, terminal types x draw and remove",
 "Tests cover some coloured examples; the position of a sequence relative to blanks, tabs, line ends and cut points is what matters.",
 ["unicode.c","bxstring.c","boxes.c","tools.c"],
 [("escape sequence scanner","unicode.c advance_next32"),("output filter","bxstring.c bxs_to_output"),("terminal check","boxes.c check_color_support")])
p("C11","The character encoding of the text does not change the box",
 "Drawing or removing a box in any supported encoding gives the same result as converting the text to UTF-8, processing it as UTF-8 and converting back, as long as all characters are representable; this holds whether the encoding is taken from the locale or requested explicitly. Bytes which are invalid in the encoding are replaced one by one and never abort processing or damage the rest of the line.",
 ["inputs","configurations"],"all texts over each encoding's repertoire (single-byte, multi-byte) x encodings x designs, drawing and removal; all byte strings up to a length as malformed input",
 "Tests exercise a few encodings with one text each.",
 ["unicode.c","boxes.c","bxstring.c"],
 [("conversion","unicode.c u32_strconv_from_arg, u32_strconv_to_arg"),("choice of encoding","unicode.c check_encoding")])
p("C12","Removing a box restores the text that was put into it",
 "For every box design whose left side, if it has one, is visible beside every line of the text, drawing a box around a text and removing it again with the design named gives back the text, up to trailing white space, tabs in places other than the indentation, and leading or trailing blank lines where they are documented to be removed. This holds for every text that the frame cannot be confused with, for every alignment that does not justify lines, for every size, padding and indentation as long as the same padding is given, and for any number of repetitions and nestings.",
 ["inputs","configurations","histories"],"all shipped designs and all generated designs x texts x drawing options; sequences of drawing and removing up to a depth",
 "Tests remove one fixed box per shipped design.",
 ["remove.c","detect.c","generate.c"],
 [("locating the sides","remove.c find_top_side, find_bottom_side, find_vertical_shapes"),("removal","remove.c apply_results_to_input")],
 state=[("remove context","which lines and columns belong to the old box","remove.c")])
p("C13","Box removal detects the design when designs are distinguishable",
 "If a configuration contains several designs whose frames have no characters in common, a box drawn with any of them is removed or mended without naming the design, with exactly the same result as with the design named. If no design matches at all, the program reports that and fails without writing anything to its output.",
 ["configurations","inputs"],"all sets and orders of designs with pairwise disjoint frame characters (open sides, corners only, coloured, wide) x texts",
 "Tests run detection for single examples against the shipped configuration only.",
 ["detect.c","remove.c"],
 [("scoring designs","detect.c match_design"),("choice of the best","detect.c autodetect_design")])
p("C14","Mending repairs a damaged box and leaves an intact one alone",
 "Mending an intact box with the options it was drawn with reproduces it exactly, however often it is repeated, provided that these options do not shift or justify the text within the box and leave room for the padding. A box whose text was edited, shortened, lengthened, or whose right border was shifted or removed in some lines, is mended into the box that would be drawn around the edited text, including its blank lines as far as they can be told from padding.",
 ["histories","inputs","configurations"],"all sequences of draw, edit and mend up to a depth x designs x texts x sizes and paddings",
 "Tests mend single fixed boxes.",
 ["boxes.c","remove.c","generate.c"],
 [("two-phase processing","boxes.c main"),("removal","remove.c"),("restoring the settings","boxes.c")])
p("C15","Removing a box never loses text; blank lines obey the kill option",
 "Removing a box from text that does not contain any part of its frame leaves the text lines unchanged, except for trailing white space. Leading and trailing blank lines inside the removed box are dropped or kept according to the kill-blank option, whose default is to keep them if and only if the design is open at top and bottom; blank lines in the middle are always kept.",
 ["inputs","configurations"],"all texts without frame characters, and all boxes with any pattern of blank lines x designs x kill-blank option forms",
 "Tests have a few blank line examples.",
 ["remove.c","boxes.c","cmdline.c"],
 [("blank line handling","remove.c killblank"),("default","boxes.c handle_remove_box"),("side matching","remove.c")])
p("C16","Only consistent box designs are accepted, and the others are isolated",
 "A box design is accepted if and only if its shapes satisfy the documented rules: rectangular shapes, equal heights along a horizontal side, equal widths along a vertical side, at least one and no two adjacent elastic shapes per side that is drawn, no elastic corners, known keys with valid values, no duplicate definitions. A faulty design is reported with its file and line, and neither prevents use of the other designs in the file nor changes the way they are drawn.",
 ["configurations"],"all designs in a grammar of bounded size, including every single violation of a rule, at every position among correct designs",
 "Tests contain one file per error message.",
 ["parser.y","lexer.l","parsecode.c","shape.c"],
 [("grammar with error recovery","parser.y"),("design checks","parsecode.c action_add_design, action_finalize_shapes"),("elasticity rules","parsecode.c check_elastic")],
 observe=("stdout","stderr","exit status"))
p("C17","Design names, aliases and parent configs resolve predictably",
 "A design is found by its name or any alias, regardless of case, and designs of a configuration take precedence over those of its parents, which are searched level by level, among the parents of a file the one mentioned last first; each file is used at most once, so that circular and repeated parent references are harmless. A design of a parent whose name is already taken is hidden, the first design of the given configuration is the default, and an unknown design or unreadable parent is an error.",
 ["configurations","histories"],"all parent graphs with up to n files, including self references, cycles and diamonds x placements of names and aliases over the files",
 "Tests contain a few fixed parent chains.",
 ["parsing.c","parsecode.c"],
 [("breadth-first collection of parents","parsing.c parse_config_files"),("parent references","parsecode.c action_parent_config"),("design lookup","parsecode.c")],
 observe=("stdout","exit status"))
p("C18","The configuration file is found in the documented order",
 "Without a configuration given on the command line, the BOXES variable, then the home directory, the XDG configuration directories, and the global locations are consulted in the documented order, and the first existing configuration file is used. A location that is given explicitly by option or variable must exist and be usable, otherwise the program fails instead of falling back to another location; directories are searched for the documented file names in order.",
 ["configurations"],"all subsets of existing configuration locations x kind of each (missing, file, directory with each file name, directory without, unreadable) x environment variables set, unset or empty",
 "Discovery depends on the whole file system and environment; the tests always pass the file explicitly.",
 ["discovery.c","cmdline.c"],
 [("search order","discovery.c discover_config_file"),("search in directories","discovery.c")])
p("C19","Strings, delimiters and samples in the configuration are read literally",
 "Shape lines, rule patterns and samples are taken from the configuration character by character: the current string delimiter and escape character can be changed to any permitted pair, escaped delimiters and escapes stand for themselves, the escape character disappears and makes the next character literal, and the change ends with the design. The text of a sample block reaches the listing unchanged except for leading blank lines and trailing white space, and neither comments nor white space between definitions has any effect.",
 ["configurations"],"all string bodies up to a length over delimiters, escapes, comment characters and letters x all delimiter settings x positions in the file",
 "Tests use the default delimiter nearly everywhere.",
 ["lexer.l","parsecode.c","parser.y"],
 [("lexical analysis","lexer.l"),("delimiter change","lexer.l change_string_delimiters"),("sample block","parsecode.c action_sample_block")])
p("C20","Listings and tag queries are complete, sorted and correct",
 "Listing designs shows every valid design exactly once, sorted by name without regard to case, with its aliases, and a tag query prints exactly the designs which satisfy it: all required tags present, no excluded tag present, and at least one of the plain tags if only plain tags are given. Tags which are malformed or repeated are rejected in queries and ignored with a message in designs, and the special query for all designs includes those without tags.",
 ["configurations","inputs"],"all queries up to a length over a set of tags with every prefix x all assignments of tags and aliases to designs in any file order",
 "Tests sample about ten queries on the shipped configuration.",
 ["query.c","list.c","parsecode.c","tools.c"],
 [("filter","query.c filter_by_tag"),("query parsing","cmdline.c query"),("listing","list.c list_designs")])
p("C21","Command line arguments are accepted or rejected as documented",
 "Each option accepts exactly the argument forms which the manual describes, abbreviated, long and short forms are equivalent, a later option overrides an earlier one for the same setting (components of alignment and padding accumulate), and options may be given in any order. Malformed arguments and excess file names end the program with a failure status and a message, without touching the output file.",
 ["inputs"],"all argument strings up to a length over the alphabet of each option, and all ordered pairs of options",
 "Tests contain one or two bad values per option.",
 ["cmdline.c","query.c","tools.c"],
 [("option processing","cmdline.c process_commandline and its helpers")],observe=("stdout","stderr","exit status","output file"))
p("C22","An ad-hoc design is equivalent to a design with a left side only",
 "Creating a box with a string given on the command line gives the same output as a configured design whose only shape is that string on the left side, for drawing, removal and mending and with all other options, and works without any configuration file. Strings which cannot be a visible one-line shape are rejected.",
 ["inputs","configurations"],"all strings up to a length over ASCII, blanks, multi-byte, wide and control characters x texts x other options, with and without a configuration file",
 "Tests use this option in two or three cases.",
 ["boxes.c","cmdline.c"],
 [("ad-hoc design","boxes.c build_design"),("bypassing the configuration","boxes.c handle_config_parsing")])
p("C23","Files and standard streams are interchangeable",
 "Reading from a named file, from standard input or from a dash gives identical results, as does writing to a named file, to standard output or to a dash; a named output file is created or replaced and standard output stays empty. A missing or unreadable input file or an unwritable output file is an error, the input file is never modified unless it is named as output too, and on failure no partial result is left on standard output.",
 ["inputs","configurations"],"all combinations of input source and output target (existing, new, unwritable, directory, missing) x operations x texts",
 "Tests run everything through standard streams or a file but not the combinations.",
 ["cmdline.c","boxes.c","input.c"],
 [("opening files","cmdline.c input_output_files"),("closing","boxes.c flush_output")],observe=("stdout","output file","exit status"))
p("C24","I/O timing has no effect, and I/O errors are never silent",
 "The result does not depend on how the input arrives: any division of the same bytes into separate reads gives the same output, and so does any division of the output into separate writes. If reading fails at any point of the input or writing fails at any point of the output, the program ends with a failure status and a message.",
 ["schedules","fault_sequences","inputs"],"all divisions of short inputs into reads x all output write sizes; a fault at every byte position of input and output, for drawing, removal, mending, listing and queries",
 "Tests run with whole files and without faults.",
 ["input.c","boxes.c"],
 [("reading","input.c read_all_input"),("error check on output","boxes.c flush_output")],observe=("stdout","stderr","exit status"))
p("C25","No input, configuration or command line corrupts memory or crashes",
 "For every text, every configuration file and every command line, the program ends by itself with exit status 0 or 1; it never accesses memory out of bounds or after release, never uses undefined arithmetic, never ends through a signal, and reports its problem on standard error whenever the status is 1.",
 ["inputs","configurations"],"all short texts over an alphabet of special characters x all shipped and generated designs x draw, remove, mend; all small mutations of configurations; all short option arguments; size ladders",
 "Tests run without instrumentation and on well-formed input.",
 ["bxstring.c","remove.c","detect.c","generate.c","lexer.l","tools.c","parsecode.c","cmdline.c"],
 [("bounds handling","bxstring.c; remove.c; tools.c")],observe=("sanitizer report","exit status","stderr"))
p("C26","Every operation ends in time proportional to its task",
 "Drawing, removing and mending terminate for every accepted design and every text, also for designs whose opposite sides can never become equally long, which are reported as an error. No text makes detection or removal run forever, and the work is proportional to the task: doubling the size of the text, or of the configuration, at most about doubles it (for both dimensions of a box, in proportion to its area).",
 ["configurations","inputs"],"all combinations of elastic and fixed shape sizes on opposite sides x text sizes; text size ladders for every operation",
 "Tests only contain designs and texts for which it ends.",
 ["generate.c","remove.c","detect.c","boxes.c"],
 [("bounded search for a common length","generate.c horiz_precalc, vert_precalc"),("main loop","boxes.c main")],observe=("exit status","termination"))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))
