#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

DM = "crates/dreammaker/src/"
LS = "crates/dm-langserver/src/"
TL = "crates/dmm-tools/src/"

p("C01", "Any source code is processed to completion without crashing",
  "For every source file contents - arbitrary bytes, damaged DM code, or nonsense built from DM tokens - lexing, preprocessing, parsing, object-tree building, constant evaluation and code checking finish and yield a result plus diagnostics. They never panic, abort, overflow the stack at ordinary nesting depths, or loop forever.",
  ["inputs", "programs"], "every byte string / token string / mutated program as a source file, with bounded nesting depth",
  "The tests feed a few dozen hand-written, mostly well-formed snippets; robustness is a claim about every possible file a user has half-typed in the editor.",
  [DM+"lexer.rs", DM+"preprocessor.rs", DM+"indents.rs", DM+"parser.rs", DM+"constants.rs", DM+"objtree.rs", "crates/dreamchecker/src/lib.rs"],
  [("error recovery in the parser (diagnose, skip, require!/leading!)", DM+"parser.rs"), ("macro recursion limit", DM+"preprocessor.rs"), ("recursive constant detection (being_evaluated)", DM+"constants.rs"), ("parent_type cycle handling", DM+"objtree.rs: finalize/assign_parent_types")],
  ["Context::errors()", "process exit"])

p("C02", "Lexing recovers exactly the written tokens, literal values and positions",
  "When any sequence of language tokens is written out with separating whitespace, comments and line continuations, lexing returns exactly those tokens in that order, with numbers, strings, raw strings, resources, identifiers and interpolated segments having the written value. Adjacent punctuation is split by longest match, and every token is located at the line and column where its first character was written.",
  ["inputs"], "every token sequence, layout (spaces, tabs, newlines, nested block comments, line comments, continuations), literal spelling and starting position",
  "The lexer has only a handful of fixed example strings; the combinations of adjacent punctuation, escapes, nested comments and interpolation are unbounded.",
  [DM+"lexer.rs", DM+"error.rs"],
  [("punctuation table and longest-match", DM+"lexer.rs: PUNCT_TABLE, read_punct"), ("number literals", DM+"lexer.rs: read_number"), ("strings and interpolation", DM+"lexer.rs: read_string, interp_stack"), ("location tracking", DM+"lexer.rs: LocationTracker")],
  ["Lexer iterator of LocatedToken"])

p("C03", "Printed numbers and tokens read back as the same value",
  "Printing any finite number the way the tools print it follows the language's number format (six significant digits, exponent form only for very large or very small magnitudes) and yields text that reads back as the number rounded to six significant digits. Printing any string quoted and any other token yields text that lexes back as the same token.",
  ["inputs"], "every finite 32-bit float, every string content, every token",
  "The tests format about ten floats; the rounding and exponent switch points, and quoting of every character, need all inputs.",
  [DM+"lexer.rs"],
  [("FormatFloat", DM+"lexer.rs"), ("Quote", DM+"lexer.rs"), ("Display for Token", DM+"lexer.rs")])

p("C04", "Indentation and explicit braces describe the same structure",
  "A program laid out with indentation (any consistent unit, blank lines, comment lines, code inside brackets spread over lines) produces the same block structure and object tree as the same program written with explicit braces and semicolons. The block open and close marks are always balanced at end of file.",
  ["programs", "inputs"], "every nesting shape of blocks and statements, every layout of it",
  "Only one small fixture compares layouts; the nesting shapes and mixtures of indentation, braces and blank lines are unbounded.",
  [DM+"indents.rs", DM+"lexer.rs", DM+"parser.rs"],
  [("indentation stack", DM+"indents.rs: IndentProcessor"),])

p("C05", "Conditional compilation keeps exactly the selected branches",
  "For every nesting of conditional directives over any set of defined names and integer-valued conditions, exactly the code in the first true branch of each reached group survives preprocessing, and directives in skipped code (definitions, undefinitions, includes, errors, nested groups) have no effect. Unbalanced groups are reported.",
  ["inputs", "configurations"], "every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif over every define environment",
  "The tests contain a couple of fixed #if examples; branch selection depends on every nesting and environment.",
  [DM+"preprocessor.rs"],
  [("ifdef stack and Ifdef struct", DM+"preprocessor.rs"), ("#if evaluation via defined()/constant folding", DM+"preprocessor.rs: evaluate_expr")])

p("C06", "Macro expansion substitutes definitions and arguments faithfully",
  "For every sequence of definitions, redefinitions and undefinitions and every use, the expanded token sequence equals textual replacement: object-like and function-like macros, variadics, token pasting, stringifying, nested and multi-line arguments, with a macro visible from its definition until undefined or redefined. Names that are not currently defined, and function-like names used without arguments, pass through unchanged.",
  ["inputs", "histories"], "every history of #define/#undef and uses",
  "The tests have a few fixed macros; scoping over histories, argument nesting and pasting combinations are unbounded.",
  [DM+"preprocessor.rs"],
  [("expansion in Preprocessor::next", DM+"preprocessor.rs"), ("DefineMap", DM+"preprocessor.rs")],
  ["token stream out of the preprocessor"])

p("C07", "Included files are spliced in place, found by the search rules, and only once",
  "Including files splices each file's tokens exactly at the include, looked up first beside the including file and then from the project root, once per file however often and by whatever path spelling it is included. Each token is located in the file it came from, missing files are reported, and map, skin and script files are collected rather than spliced.",
  ["inputs", "configurations"], "every acyclic or cyclic include graph and directory layout",
  "There is no test of multi-file inclusion; the include graph is arbitrary.",
  [DM+"preprocessor.rs", DM+"error.rs"],
  [("include handling and search path", DM+"preprocessor.rs: include_stack, #include"), ("FileList", DM+"error.rs")])

p("C08", "The recorded macro history matches what was in force at each location",
  "After preprocessing, asking which definition of a macro was in force at any location gives the definition that was actually in force when that location was read, and a snapshot taken at a file's or the project's end behaves like the live state at that point.",
  ["histories"], "every history of #define/#undef over one or more files, every query location",
  "Nothing tests the history; correctness quantifies over all locations and histories.",
  [DM+"preprocessor.rs", "crates/interval-tree/src/tree.rs"],
  [("DefineHistory", DM+"preprocessor.rs"), ("branch_at_file / branch_at_end", DM+"preprocessor.rs")])

p("C09", "Expressions group by the language's precedence and associativity",
  "Every expression parses into the tree given by the language's operator precedence and associativity table - unary, binary, ternary, assignment, 'in', field access, indexing, calls, new, list and the other built-in forms - so that adding the redundant parentheses implied by the table never changes the parse and every sub-expression is kept.",
  ["programs"], "every expression over all operators and forms",
  "The one expression test checks a couple of expressions; there are over 40 operators and the pairings are combinatorial.",
  [DM+"parser.rs", DM+"ast.rs"],
  [("operator table and read_expression/expression_part", DM+"parser.rs: BINARY_OPS, Strength"), ("follow/term parsing", DM+"parser.rs: group/term/follow")])

p("C10", "Procedure bodies parse into exactly the statements written",
  "For every procedure body built from the language's statement forms (if/else chains, all loops and for variants, switch, try/catch, spawn, labels, break/continue with labels, goto, del, return, throw, settings, variable declarations with types, flags and values), the parsed syntax tree has exactly those statements, nested and ordered as written, each at its own location.",
  ["programs"], "every statement tree, written with braces or indentation",
  "Tests parse a few bodies and mostly check that no diagnostics appear, not what was parsed.",
  [DM+"parser.rs", DM+"ast.rs"],
  [("statement parser", DM+"parser.rs: statement, block"), ("for-loop forms", DM+"parser.rs: for_list/for_loop/for_range")])

p("C11", "Constant expressions evaluate to the value the language defines",
  "Every constant expression - arithmetic in 32-bit floats, comparison, logic, 24-bit bitwise operators, ternary, strings, lists, paths, colour and math built-ins, and references to other constant variables including inherited and global ones - evaluates to the value the language defines, independent of declaration order. Circular definitions are reported instead of looping.",
  ["inputs", "programs"], "every constant expression and dependency graph of constants",
  "The tests evaluate a few expressions; values depend on every operator/operand combination and on the dependency graph.",
  [DM+"constants.rs"],
  [("ConstantFolder", DM+"constants.rs"), ("recursion guard", DM+"constants.rs: constant_ident_lookup")])

p("C12", "Constants print to source that evaluates back to them and compare lawfully",
  "Printing any constant value produces source text that evaluates back to an equal constant (up to the six-digit printing of numbers). Equality is an equivalence relation and equal constants, including typed paths whose variable overrides are listed in a different order, always hash equally.",
  ["inputs"], "every constant value tree",
  "Tests check a few fixed constants; hash/equality laws quantify over pairs and triples.",
  [DM+"constants.rs"],
  [("Display for Constant/Pop", DM+"constants.rs"), ("PartialEq/Hash", DM+"constants.rs"), ("evaluate_str", DM+"constants.rs")])

p("C13", "The object tree holds the declared types, variables and inherited values",
  "For every set of declarations, in any order and in any mixture of nested, absolute-path and reopened blocks, the object tree contains exactly the declared types under the parent given by their path or by an explicit parent override, and each variable lookup on a type yields the value and declaration of the nearest ancestor that sets it. Type paths resolve, and the subtype relation answers, according to that same hierarchy.",
  ["programs"], "every set of type and variable declarations and every way of writing it",
  "Tests build one or two small trees; the result must be the same for every order and style of declaration.",
  [DM+"objtree.rs", DM+"parser.rs"],
  [("ObjectTreeBuilder", DM+"objtree.rs"), ("parent_type assignment", DM+"objtree.rs: assign_parent_types"), ("TypeRef::get_value/get_var_declaration/is_subtype_of/navigate_path", DM+"objtree.rs")])

p("C14", "Procedure lookup follows overrides in order up the type hierarchy",
  "For every set of procedure declarations and overrides, calling a procedure on a type resolves to the last override of the nearest type defining it, the parent call of each definition resolves to the previous definition on the same type or else the nearest ancestor's, and each definition keeps its parameters, settings and body.",
  ["programs"], "every assignment of procedure definitions and overrides to types and every declaration order",
  "No test walks override chains beyond one level.",
  [DM+"objtree.rs", DM+"parser.rs"],
  [("TypeProc value vector", DM+"objtree.rs"), ("ProcRef::parent_proc", DM+"objtree.rs")])

p("C15", "Documentation comments attach to the item they document",
  "Every documentation comment, before or after the item, line or block, becomes part of the documentation of exactly the type, variable, procedure or macro it is written for, in written order and with its text intact. Ordinary comments never become documentation.",
  ["programs"], "every placement of documentation comments over every set of declarations",
  "The tests have two doc-comment snippets.",
  [DM+"docs.rs", DM+"lexer.rs", DM+"parser.rs", DM+"preprocessor.rs"],
  [("DocComment/DocCollection", DM+"docs.rs"), ("enclosing/following collection", DM+"parser.rs: doc_comment")])

p("C16", "Editor queries at a position return what is written at that position",
  "For every program, asking for the syntax annotations at a position inside a declaration, variable, procedure, use of a name, or macro use returns the annotation of that item and of every item that encloses it, and annotation ranges never exclude the text they describe.",
  ["programs"], "every program and every cursor position in it",
  "No test examines annotations.",
  [DM+"annotation.rs", DM+"parser.rs", DM+"preprocessor.rs", "crates/interval-tree/src/tree.rs"],
  [("AnnotationTree", DM+"annotation.rs"), ("annotate calls", DM+"parser.rs")])

p("C17", "Diagnostics are filtered and re-graded exactly as configured",
  "For every configuration and every diagnostic, the severity override for the diagnostic's kind is applied first, a kind set to disabled disappears, and then exactly the diagnostics at or above the configured display level are shown. Configuration files parse to the settings they spell.",
  ["configurations", "inputs"], "every configuration of overrides and levels, every diagnostic",
  "The tests load one configuration and check two diagnostics.",
  [DM+"error.rs", DM+"config.rs"],
  [("Context::register_error", DM+"error.rs"), ("Config::set_configured_severity / registerable_error", DM+"config.rs")])

p("C18", "The interval tree agrees with a plain list of intervals",
  "After any sequence of insertions and removals, lookups, containment, ordered iteration, smallest and largest key, and overlap queries return exactly what a plain sorted list of the same intervals would, and the tree stays balanced (height logarithmic in its size).",
  ["histories"], "every sequence of operations and every query range",
  "The tests only sample a few random trees and check sizes and order.",
  ["crates/interval-tree/src/tree.rs", "crates/interval-tree/src/node.rs", "crates/interval-tree/src/range.rs", "crates/interval-tree/src/iterators.rs"],
  [("AVL insertion/deletion and max update", "crates/interval-tree/src/node.rs"), ("range iterators", "crates/interval-tree/src/iterators.rs")])

p("D01", "Inherited procedure directives are enforced on every override",
  "For every type hierarchy, an override is reported exactly when it breaks a directive in force for that procedure: must call parent (inherited, may be switched off), must not call parent (of the definition directly overridden, unless the override opts out), must not be overridden or final, may not be redefined on the same type. Calls to private procedures are reported exactly when made from code of another type or on a receiver of another static type, protected ones exactly when called on a receiver from code outside the declaring type and its subtypes. Settings which have no effect (too late, on global procedures, away from the definition, twice, not to be disabled), unknown settings and values a setting cannot have are reported.",
  ["programs"], "every hierarchy, placement of directives, overrides and call sites",
  "Tests check one small hierarchy per directive.",
  ["crates/dreamchecker/src/lib.rs"],
  [("ProcDirective", "crates/dreamchecker/src/lib.rs"), ("AnalyzeObjectTree", "crates/dreamchecker/src/lib.rs")])

p("D02", "A procedure that must not sleep is reported exactly when it may sleep",
  "For every call graph, a procedure required not to sleep (directly or by inheritance) is reported if and only if a sleeping operation is reachable from it through calls, including overrides of what it calls and of procedures run on the same object. Detached work (spawn, waitfor disabled), procedures explicitly allowed to sleep and procedures themselves required not to sleep stop propagation. A sleeping procedure reached from several is reported once, under one which can reach it.",
  ["programs"], "every call graph over every type hierarchy",
  "Tests cover around ten fixed graphs; reachability is over all graphs and declaration orders.",
  ["crates/dreamchecker/src/lib.rs"],
  [("check_proc_call_tree", "crates/dreamchecker/src/lib.rs"), ("CallStack / sleeping_procs / waitfor_procs", "crates/dreamchecker/src/lib.rs")])

p("D03", "A pure procedure is reported exactly when it has a reachable side effect",
  "For every call graph, a procedure required to be pure is reported if and only if an impure operation (writing to a field, a parameter, a global or an element or field of one of these, or output) is reachable from it through calls, overrides of what is called included; a bare call to a pure procedure which discards its result is reported.",
  ["programs"], "every call graph over every type hierarchy",
  "Tests cover four fixed graphs.",
  ["crates/dreamchecker/src/lib.rs"],
  [("check_proc_call_tree purity pass", "crates/dreamchecker/src/lib.rs"), ("impure_procs", "crates/dreamchecker/src/lib.rs")])

p("D04", "Variable rules are enforced on every declaration and access",
  "For every hierarchy, redeclaring an inherited variable, overriding a final or private one, and overriding an undeclared one are reported exactly when they occur; reading or writing a private variable through a reference of another type, or a protected one from code outside the reference's type and subtypes, is reported exactly when it occurs; and an undefined name, global or field of a reference of known type is reported exactly when no declaration is in scope.",
  ["programs"], "every hierarchy of variable declarations and every access",
  "Tests cover one instance of each.",
  ["crates/dreamchecker/src/lib.rs"],
  [("check_var_defs", "crates/dreamchecker/src/lib.rs"), ("field access checks", "crates/dreamchecker/src/lib.rs: visit_follow")])

p("D05", "Unreachable code and constant conditions are reported exactly when present",
  "For every procedure body, code that some path can reach is never reported as unreachable, whatever the nesting of conditions, switches, loops, labels, jumps, spawns and try blocks; code directly after a statement through which every path visibly returns is reported; conditions and loop ranges are reported as constant, always true, always false or never reached exactly when they are literals or combinations of literals for which this holds.",
  ["programs"], "every nesting of control flow",
  "Tests cover a handful of bodies; control flow is compositional.",
  ["crates/dreamchecker/src/lib.rs"],
  [("ControlFlow alternate/merge", "crates/dreamchecker/src/lib.rs: ControlFlow")])

p("D06", "Range checks on switches over random rolls are exact",
  "For every switch over an integer random roll with known bounds, the cases that no roll can match are reported, and the first value left uncovered is reported if there is no default and all cases are known; nothing else is reported, and extreme bounds or cases are handled.",
  ["programs", "inputs"], "every bound pair and set of case values/ranges",
  "Tests use two fixed switches.",
  ["crates/dreamchecker/src/switch_rand_range.rs"],
  [("check_switch_rand_range", "crates/dreamchecker/src/switch_rand_range.rs")])

p("D07", "Calls are checked against the resolved procedure's parameters",
  "For every call on a receiver of known type (own object, field, variable, parent, global, new), the callee is the one the type hierarchy defines: calls to undefined procedures, keyword arguments naming no parameter of it, and positional arguments after keyword ones are reported exactly when they occur, and overrides below the receiver's type that lack a parameter used by keyword are reported.",
  ["programs"], "every hierarchy, parameter lists and call",
  "Tests cover a few calls.",
  ["crates/dreamchecker/src/lib.rs"],
  [("visit_call / kwargs", "crates/dreamchecker/src/lib.rs")])

p("D08", "Values have the type their declarations give them",
  "For every type hierarchy and every expression built from typed variables of every kind, list elements, calls of procedures with declared return types (fixed ones, `as` ones, a parameter's path, the static type of a parameter or of its elements, and conditionals of these), conditional expressions and built-ins with known results: unknown fields and procedures, use without a known type, iteration, indexing and increments are reported exactly when the declared type calls for it, wherever the expression stands.",
  ["programs"], "every hierarchy, declarations and chain of expressions over them",
  "Tests hold a handful of return-type programs; types pass through every form of expression.",
  ["crates/dreamchecker/src/lib.rs", "crates/dreamchecker/src/type_expr.rs"],
  [("visit_expression / visit_follow", "crates/dreamchecker/src/lib.rs"), ("TypeExpr", "crates/dreamchecker/src/type_expr.rs")])

p("M01", "Saving and reloading a map preserves it",
  "For every map, writing it and reading it back yields the same size and the same objects with the same variable values, in the same order, at every coordinate, and the same dictionary. Writing the reloaded map reproduces the file byte for byte.",
  ["inputs"], "every map: sizes, dictionaries, key lengths, variable values",
  "Tests only load sample maps from fixed fixtures.",
  [TL+"dmm.rs", TL+"dmm/read.rs", TL+"dmm/save_tgm.rs"],
  [("parse_map", TL+"dmm/read.rs"), ("save_tgm", TL+"dmm/save_tgm.rs")])

p("M02", "Map files place every object at the coordinate the text says",
  "For every well-formed map file, in either layout (whole-level blocks or one block per column) and any key length, each coordinate holds exactly the objects and variable values of the key written there, with the bottom-left tile of the first level at (1, 1, 1). Two objects are equal exactly when they have the same path and the same variable values, in whatever order.",
  ["inputs"], "every well-formed map text in both layouts",
  "Tests check no coordinate.",
  [TL+"dmm.rs", TL+"dmm/read.rs"],
  [("parse_map grid assembly", TL+"dmm/read.rs"), ("Coord2/Coord3 to_raw", TL+"dmm.rs")])

p("M03", "Malformed map and icon files are rejected, never crash",
  "For every sequence of bytes given as a map or as an icon, loading finishes with either a loaded object or a reported error; it never panics, hangs or exhausts memory out of proportion to the input, and a map file that ends early, or whose grid gives a tile nothing, more than one key, part of a key or a key which is not defined, is not taken for a map.",
  ["inputs"], "every byte string and every mutation of a valid map or icon",
  "No test loads a malformed map or icon.",
  [TL+"dmm/read.rs", DM+"dmi.rs", TL+"dmi.rs"],
  [("parse_map", TL+"dmm/read.rs"), ("Metadata::load / parse_metadata", DM+"dmi.rs")])

p("I01", "Icon metadata is read as written",
  "For every valid icon description, the parsed metadata has exactly the written size, states in order (including repeated names), directions, frame counts, per-frame delays, loop, rewind and movement settings (hotspots are accepted), and each state's images start where the preceding states' images end.",
  ["inputs"], "every valid icon description",
  "Tests parse two fixed descriptions.",
  [DM+"dmi.rs"],
  [("parse_metadata", DM+"dmi.rs")])

p("I02", "An icon state, direction and frame select the right picture",
  "For every icon sheet, asking for a state, direction and frame selects exactly the sheet cell at the state's start plus frame times directions plus the direction's position in the fixed order, with directions the state lacks falling back to its first (southern) one. Rendering a state to still or animated images shows exactly those cells in that order with the stated delays.",
  ["inputs"], "every icon sheet layout, state, direction and frame",
  "Tests render a few fixture icons without checking pixels.",
  [DM+"dmi.rs", TL+"dmi.rs", TL+"dmi/render.rs"],
  [("rect_of / index_of_dir / index_of_frame", DM+"dmi.rs"), ("IconRenderer", TL+"dmi/render.rs")])

p("I03", "Directions form the compass group",
  "Flipping, rotating by 45 or 90 degrees, offsetting and number conversion of the directions agree with compass geometry: each flip undoes itself, eight 45-degree turns are the identity, clockwise and counter-clockwise turns cancel, and offsets match the direction.",
  ["inputs"], "every direction and combination of operations (finite, enumerated)",
  "No test exercises the direction operations.",
  [DM+"dmi.rs"], [("Dir", DM+"dmi.rs")])

p("I04", "Image composition is exact alpha blending within bounds",
  "Compositing any part of an icon with any tint onto any image changes only the target rectangle, and there each pixel is the tinted source blended over the destination by the standard 'over' rule within rounding, with no channel ever wrapping around.",
  ["inputs"], "every source, destination pixel, tint and rectangle",
  "No test checks a blended pixel.",
  [TL+"dmi.rs"], [("Image::composite", TL+"dmi.rs")])

p("R01", "Rendered maps show every visible object once, in layer order, at its place",
  "For every map, object tree and icon set, the rendered picture equals painting each visible object's selected icon image, tinted and offset by its variables, bottom-up by plane then layer then map order, at its tile's position, clipped to the picture.",
  ["inputs", "programs"], "every map, variables, icons and render passes",
  "No test renders a map.",
  [TL+"minimap.rs", TL+"dmi.rs"],
  [("generate", TL+"minimap.rs"), ("Sprite::from_vars / Layer", TL+"minimap.rs"), ("GetVar", TL+"minimap.rs")])

p("R02", "Rendering part of a map gives the same pixels as cropping the whole",
  "For every map and every sub-rectangle of it, rendering just the rectangle yields the same pixels as rendering the full map and cropping, except for objects that reach in from outside the rectangle.",
  ["inputs"], "every map and sub-rectangle",
  "No test renders any region.",
  [TL+"minimap.rs"], [("bounds handling in generate", TL+"minimap.rs")])

p("R03", "Render passes are switched on and off by the documented precedence",
  "For every configuration and command line, the active render passes are decided by the most specific request: named include over named exclude over include-all over exclude-all over configuration over default; and active passes run in their documented order.",
  ["configurations"], "every combination of include and exclude lists and configuration",
  "No test calls the configuration.",
  [TL+"render_passes/mod.rs"], [("configure / configure_list", TL+"render_passes/mod.rs")])

p("R04", "Smoothed and wired icons match their neighbours",
  "For every arrangement of neighbouring objects, an object with icon smoothing or cabling shows exactly the edges and corners for which an adjacent tile holds an object it smooths with; hiding passes remove exactly the objects configured as hidden.",
  ["inputs", "configurations"], "every neighbourhood and smoothing configuration",
  "No test evaluates a render pass.",
  [TL+"render_passes/icon_smoothing.rs", TL+"render_passes/icon_smoothing_2020.rs", TL+"render_passes/smart_cables.rs", TL+"render_passes/mod.rs"],
  [("find neighbours and corner selection", TL+"render_passes/")])

p("R05", "Cosmetic and spawner passes make of each object what its variables call for",
  "For every object, the passes for overlays, cosmetics, transit tubes, gravity generators and spawners yield exactly the underlays, overlays and replacement objects its type and variables call for, and nothing for other objects; transit tube overlays turn with the tube; the random pass replaces a random object only by one its list or family offers, according to the weights and in the number asked for, and shows no bar sign that is hidden. No pass fails on a code base that lacks a type the pass knows.",
  ["inputs"], "every object, its variables and every code base",
  "No test evaluates a render pass.",
  [TL+"render_passes/mod.rs", TL+"render_passes/random.rs", TL+"render_passes/structures.rs", TL+"render_passes/transit_tube.rs"],
  [("expand, adjust_sprite, overlays of each pass", TL+"render_passes/")])

p("T01", "Comparing two maps reports exactly the tiles that differ",
  "For every pair of maps, the comparison reports exactly the coordinates, within the shared area, whose contents differ, reports size differences, and is silent for equal maps regardless of dictionary keys or file layout.",
  ["inputs"], "every pair of maps",
  "No test runs the comparison.",
  ["crates/dmm-tools-cli/src/main.rs", TL+"dmm.rs"], [("diff-maps command", "crates/dmm-tools-cli/src/main.rs")])

p("T02", "The map command-line tools render and describe exactly what they are asked for",
  "For every project, set of maps, and choice of coordinates, levels, passes and number of threads, the minimap and render-many commands write one picture per requested level or area, each under a name of its own which the reply gives, showing exactly that part of that map with those passes; map-info gives the size, key length and number of keys of each map; a map that cannot be loaded is reported in the exit status.",
  ["inputs"], "every project, list of maps, coordinate range, level, pass list and thread count",
  "No test runs the commands.",
  ["crates/dmm-tools-cli/src/main.rs", TL+"minimap.rs"], [("minimap, render-many and map-info commands", "crates/dmm-tools-cli/src/main.rs")])

p("L01", "The language server answers about the documents as they are now",
  "For every history of opening, editing (whole or by ranges), closing, changing on disk and reparsing documents, and of changes of the configuration, the language server's answers and published diagnostics are those of a server started afresh on the resulting documents, files and configuration.",
  ["histories"], "every history of client messages",
  "No test starts the language server.",
  [LS+"main.rs", LS+"document.rs"],
  [("DocumentStore and change", LS+"document.rs"), ("notification handlers, get_annotations, launch_job", LS+"main.rs")])

p("L02", "The language server knows what every name in a program means",
  "For every correct program, for every name in it: go to definition and type definition lead to the declaration the language gives the name (the innermost local or parameter, the member found up the type's ancestors, the global, the type, the macro); find references lists exactly the uses which mean the same symbol; hovering describes that symbol; completion offers exactly the members, locals, types and keywords that can stand there and begin with what is typed; and signature help shows the innermost call's procedure, its parameters and the one being written.",
  ["programs"], "every program",
  "No test starts the language server.",
  [LS+"main.rs", LS+"find_references.rs", LS+"completion.rs", "crates/dreammaker/src/annotation.rs", "crates/dreammaker/src/parser.rs"],
  [("HoverRequest, GotoDefinition, SignatureHelpRequest", LS+"main.rs"), ("ReferencesTable", LS+"find_references.rs"), ("completion", LS+"completion.rs")])

p("L03", "The language server lists what documents and the workspace consist of",
  "For every document: its symbols are exactly its blocks, variables, procedures, locals and macros, each under what it's in, with its name, kind, type and lines; the folding ranges are its pairs of region markers; the colours are exactly the well-formed #rgb, #rgba, #rrggbb, #rrggbbaa strings and rgb() calls, and replacing one keeps the way it was written; the links are its included and resource files. A workspace search finds exactly the macros, types, variables and procedures the query is for whose names begin with it (ignoring case and underscores), and the object tree is that of the code.",
  ["programs"], "every program",
  "No test starts the language server.",
  [LS+"main.rs", LS+"color.rs", LS+"symbol_search.rs", LS+"document.rs", LS+"extras.rs"],
  [("DocumentSymbolRequest, FoldingRangeRequest, WorkspaceSymbol, QueryObjectTree", LS+"main.rs"), ("ColorFormat", LS+"color.rs"), ("Query", LS+"symbol_search.rs")])

p("L04", "The language server keeps to its protocol, whatever is sent to it",
  "For every sequence of messages, well-formed or not: every request is answered exactly once, in order and with its own id (in a batch for a batch); requests before initialize, after shutdown, a second initialize, unknown methods, invalid messages and invalid JSON get the errors due to them; the server neither dies nor panics for any position, document or parameters; it ends with 0 after shutdown and exit (or when its input ends), with 1 for exit alone; and what else is sent in between never changes the answers to the questions about a document.",
  ["histories"], "every history of client messages",
  "No test starts the language server.",
  [LS+"main.rs", LS+"jrpc_io.rs"],
  [("read", LS+"jrpc_io.rs"), ("handle_input, handle_call, handle_method_call, handle_notification", LS+"main.rs")])

p("L05", "The language server publishes exactly what the parser and the checker find",
  "For every workspace and configuration, after loading it and after every change to a document, the diagnostics the server has published for each file are exactly those which the parser and (where switched on) the checker report for the saved project, with message, severity, code, source and place: notes come as related information or, for clients without it, as informational diagnostics of their own; files that no longer have any are cleared; after a fatal parse error only the parser's are published; for a document outside any workspace those of that document alone.",
  ["programs", "configurations"], "every workspace, configuration and client capability",
  "No test starts the language server.",
  [LS+"main.rs"],
  [("DiagnosticsTracker, parse_environment, get_annotations", LS+"main.rs")])

p("H01", "Every link in generated documentation resolves",
  "For every documented program, every link, image and anchor in every generated page points to something that exists, and every page can be reached from the index. A crosslink naming a documented type, variable, procedure, macro or file leads to its entry; any other crosslink is reported, and a dry run writes nothing and succeeds exactly if no crosslink is reported.",
  ["programs"], "every documented program with crosslinks of every form",
  "Tests only parse sample Markdown.",
  ["crates/dmdoc/src/main.rs", "crates/dmdoc/src/markdown.rs", "crates/dmdoc/src/template.rs"],
  [("broken_link_fixer", "crates/dmdoc/src/main.rs"), ("templates", "crates/dmdoc/src/template.rs")])

p("H02", "Generated documentation shows everything that is documented, as it was written",
  "For every documented program, the site has a page or entry for exactly the documented types, variables, procedures, macros, modules, Markdown and text files, in the documented order, with the right names, titles, declared types, parameters, return types, source lines and inherited entries, the documentation text rendered as the Markdown it is, and names and text from the code escaped exactly once. The index lists all of it, with matching counts.",
  ["programs"], "every documented program",
  "Tests check no generated page.",
  ["crates/dmdoc/src/main.rs", "crates/dmdoc/src/markdown.rs", "crates/dmdoc/src/template.rs"],
  [("collation of types and modules", "crates/dmdoc/src/main.rs"), ("DocBlock", "crates/dmdoc/src/markdown.rs"), ("templates", "crates/dmdoc/src/template.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
