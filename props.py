"""The properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""


def _m(name, where):
    return {"name": name, "where": where}


def _a(files, mech, observe):
    return {"files": files, "mechanism": [_m(*x) for x in mech],
            "observe_at": observe, "hook_needed": False}


PROPS = [
 {
  "id": "P01",
  "title": "Every diagnostic is renderable and carries a source position",
  "statement":
   "Whatever error the compiler detects in a program, it reports it as a finished, "
   "readable message of the form file:line:column: text. No message is missing from "
   "the default language, lacks or misnames one of its arguments, shows a raw "
   "localization key in place of text, or is reported without a position.",
  "quantifier": {"over": ["inputs", "programs", "configurations"],
   "text": "all programs that reach any of the error sites, in every shipped language"},
  "why_tests_cant":
   "The stable tests compile correct programs; about a hundred kinds of errors are "
   "raised from several hundred sites, each of which formats its message only when "
   "that one mistake is made.",
  "anchors": _a(
   ["acaciamc/error.py", "acaciamc/localization.py", "acaciamc/lang/en_US.lang",
    "acaciamc/tools/axe.py", "acaciamc/mccmdgen/generator.py"],
   [("Error.__str__ and ErrorType", "acaciamc/error.py"),
    ("localize / get_text", "acaciamc/localization.py"),
    ("position filling of visitor errors", "acaciamc/mccmdgen/generator.py")],
   ["standard error of the compiler"]),
  "technique": "constant propagation of message keys and arguments + dataflow on error sites",
  "note": "All raise sites, message texts and argument sets are resolved from the "
          "current source (abstract values of keys, ** dictionaries and helper "
          "parameters are propagated through callers).",
 },
 {
  "id": "P02",
  "title": "Internal operations exist and accept what they are handed",
  "statement":
   "No program makes the compiler stop with an internal TypeError, AttributeError, "
   "NameError or table KeyError because one of its parts uses a name, attribute, "
   "operation or table entry of another part that does not exist or passes it "
   "arguments it does not take.",
  "quantifier": {"over": ["inputs", "programs", "configurations"],
   "text": "all programs, all call paths inside the compiler"},
  "why_tests_cant":
   "Python binds calls and names only when they are executed; most of the several "
   "thousand internal calls are on paths no test program reaches (error paths, rare "
   "operator/type combinations, library modules).",
  "anchors": _a(
   ["acaciamc/mccmdgen", "acaciamc/objects", "acaciamc/modules", "acaciamc/tools"],
   [("visitor dispatch by computed method name", "acaciamc/ast.py, acaciamc/mccmdgen/generator.py"),
    ("operator dispatch by computed method name", "acaciamc/mccmdgen/generator.py"),
    ("class hierarchy of Acacia values", "acaciamc/mccmdgen/expr.py")],
   ["compiler process: traceback instead of a diagnostic"]),
  "technique": "whole-program name/call resolution and signature binding",
  "note": "Every call, name, attribute and constant-table lookup that resolves to "
          "repository code is an obligation; unresolved (Any) receivers are not judged.",
 },
 {
  "id": "P03",
  "title": "Unsupported operations are refused with a diagnostic, never leak",
  "statement":
   "Whenever a program applies an operation to a value that does not support it "
   "(operators, calls, attributes, subscripts, iteration, comparison, conversion), the "
   "compiler either falls back to another way of performing it or reports a normal "
   "diagnostic: the signals that parts of the compiler use to refuse an operation never "
   "reach the user as a crash, and no operation silently produces a missing value.",
  "quantifier": {"over": ["inputs", "programs"],
   "text": "all combinations of operation and operand type, in every context an operation "
           "can be used"},
  "why_tests_cant":
   "There are dozens of value types and dozens of operations, and each operation can be "
   "triggered from several contexts; tests exercise a few supported combinations.",
  "anchors": _a(
   ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/expr.py",
    "acaciamc/mccmdgen/ctexecuter.py", "acaciamc/objects", "acaciamc/modules"],
   [("default refusals of the value protocol", "acaciamc/mccmdgen/expr.py"),
    ("refusal handling in the visitors", "acaciamc/mccmdgen/generator.py"),
    ("conversion between constant and runtime values", "acaciamc/mccmdgen/ctexpr.py")],
   ["compiler process: traceback instead of a diagnostic"]),
  "technique": "interprocedural exception-escape analysis + all-paths return analysis",
  "note": "Which calls can raise the internal refusal signals is computed over the "
          "resolved call graph (class-hierarchy dispatch); a handler on every path from "
          "a visitor is required.",
 },
 {
  "id": "P04",
  "title": "Integer arithmetic compiles to commands that compute it",
  "statement":
   "For every integer expression built from variables, integer literals, unary + and -, "
   "and + - * / %, the commands generated for assigning it (plainly or by an augmented "
   "assignment, also to a variable it mentions) leave the target with the value of the "
   "expression and modify no other variable of the program. Arithmetic on literals yields what the game would compute.",
  "quantifier": {"over": ["inputs", "programs"],
   "text": "all expressions, operand kinds (variable, literal, constant alias, compound), "
           "literal values and run-time scores"},
  "why_tests_cant":
   "The stable tests only look at token trees, error-free compilation and file names; the "
   "meaning of emitted commands for combinations of operators, operand kinds and aliasing is "
   "never executed.",
  "anchors": _a(
   ["acaciamc/objects/integer.py", "acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/cmds.py",
    "acaciamc/parser.py"],
   [("integer value classes and their operators", "acaciamc/objects/integer.py"),
    ("assignment visitors", "acaciamc/mccmdgen/generator.py"),
    ("scoreboard command classes", "acaciamc/mccmdgen/cmds.py")],
   ["the generated .mcfunction files"]),
  "technique": "abstract interpretation of the compiler's source (linear-integer, "
               "polynomial and opaque-object domain) against the scoreboard semantics",
  "note": "Expression shapes are enumerated up to three operators; literals are an unknown "
          "linear integer and scores unknowns, so each shape holds for all values. Nothing of "
          "the compiler is executed; undecided cases are counted and never reported.",
 },
 {
  "id": "P05",
  "title": "Conditions hold, and branches run, exactly when the program says so",
  "statement":
   "For every boolean expression built from bool and int variables, literals, comparisons "
   "(also chained), not/and/or and ==/!= between bools, the commands generated for assigning "
   "it store its truth value, and those generated for if/elif/else run exactly the selected "
   "branch, once and completely, even if that branch changes what the condition was computed "
   "from. Evaluating a condition changes no variable of the program.",
  "quantifier": {"over": ["inputs", "programs"],
   "text": "all boolean expressions, contexts (assignment, also to a variable it mentions, "
           "if with or without else, elif) and run-time scores, including both ends of the "
           "32 bit range"},
  "why_tests_cant":
   "The stable tests never execute generated commands; range merging, negation and temporary "
   "elimination depend on combinations of operand kinds and on the order of the run-time "
   "scores.",
  "anchors": _a(
   ["acaciamc/objects/boolean.py", "acaciamc/objects/integer.py",
    "acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/parser.py"],
   [("boolean value classes, new_and_group, new_or_expression", "acaciamc/objects/boolean.py"),
    ("comparison and if visitors", "acaciamc/mccmdgen/generator.py"),
    ("execute subcommand classes", "acaciamc/mccmdgen/cmds.py")],
   ["the generated .mcfunction files"]),
  "technique": "abstract interpretation of the compiler's source + interpretation of the "
               "command texts over all orders of the scores",
  "note": "Condition shapes are enumerated (all pairs, and triples of representative "
          "operands); the literal is an unknown integer, scores take every order and "
          "distance the generated ranges can distinguish, and the ends of the range.",
 },
 {
  "id": "P06",
  "title": "Loops, calls, structs, references and interfaces run as written",
  "statement":
   "A `while` body runs exactly while its condition, evaluated anew before every round, holds; "
   "a `for` body runs once per element in order; a call (normal or inline) runs the function "
   "body once with the given or default arguments and yields its result; a by-value argument, a "
   "definition or a struct assignment makes an independent copy, while `&` aliases exactly the "
   "variable it names. Running a generated interface function has exactly the effect of the "
   "interface's body, and correct programs made of these constructs are accepted.",
  "quantifier": {"over": ["inputs", "programs"],
   "text": "all programs built from these statements, nested in any way, and all run-time "
           "values of their variables"},
  "why_tests_cant":
   "The stable tests do not execute the generated commands; statement, call and copy semantics "
   "interact (a condition containing a call, two results of one function in one expression, a "
   "reference into a struct) in far more ways than samples show.",
  "anchors": _a(
   ["acaciamc/mccmdgen/generator.py", "acaciamc/objects/functions.py",
    "acaciamc/objects/struct.py", "acaciamc/objects/struct_template.py",
    "acaciamc/compiler.py", "acaciamc/parser.py"],
   [("statement visitors, inline calls", "acaciamc/mccmdgen/generator.py"),
    ("AcaciaFunction.call, ConstructorFunction", "acaciamc/objects/functions.py"),
    ("struct variables", "acaciamc/objects/struct.py")],
   ["the generated .mcfunction files"]),
  "technique": "abstract interpretation of the compiler's source on program shapes, results "
               "compared with a reference semantics over symbolic integers",
  "note": "The complete compiler (parser, generator, builtins, output) is interpreted abstractly "
          "on about 500 program shapes with an unknown literal n; only file system and tokenizer "
          "are replaced. Variables start at offsets from n, so the orders are enumerated.",
 },
 {
  "id": "P07",
  "title": "The optimizer never changes what the generated functions do",
  "statement":
   "For every program, running the optimized output (from the main file, the init file, any "
   "interface file or the tick file) executes the same commands, in the same order and "
   "environment, and leaves the same scores, tags and entities as the unoptimized output. No "
   "remaining command refers to a function that was removed, and every main, init, tick and "
   "interface file that has commands stays in the output, whatever the inlining limit.",
  "quantifier": {"over": ["programs", "configurations", "histories"],
   "text": "all programs, all inlining limits and all run-time values"},
  "why_tests_cant":
   "The optimizer moves commands across conditions that those commands may change; whether that is "
   "visible depends on the shape of the call graph, on which scores a callee (or something it calls) "
   "assigns and on run-time values.",
  "anchors": _a(
   ["acaciamc/mccmdgen/optimizer.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/compiler.py"],
   [("Optimizer", "acaciamc/mccmdgen/optimizer.py"),
    ("scb_did_assign, func_ref", "acaciamc/mccmdgen/cmds.py"),
    ("OutputOptimized", "acaciamc/compiler.py")],
   "generated mcfunction files, with and without the optimizer"),
  "technique":
   "abstract interpretation of the whole compiler and of the optimizer on programs and on graphs of "
   "function files, comparing the abstract effect of the commands before and after",
  "note":
   "Programs with conditions on scores, booleans and entities whose bodies change the condition, and "
   "about a thousand function-file graphs (conditions x environments x bodies x call shapes) are "
   "optimized by the interpreted source; the command semantics executes both outputs from every entry "
   "over several initial states. Timing and the number of commands are out of scope.",
 },
 {
  "id": "P08",
  "title": "Entities, virtual methods, groups and filters mean what the program says",
  "statement":
   "A field belongs to the entity it is read from or written to, even through variables, `self` and "
   "inherited templates, and assigning an entity variable redirects it without touching any entity; "
   "a method runs exactly one implementation, for a virtual one that of the entity's own template, "
   "and creating an entity summons exactly one entity and runs its `new`. An entity group is a set: it "
   "is copied by value, and its operations and loops affect exactly its members; a filter selects "
   "exactly the entities that pass its conditions, applied in the written order. Correct programs "
   "made of these constructs are accepted.",
  "quantifier": {"over": ["programs", "inputs", "histories"],
   "text": "all programs using templates, entity variables, groups and filters, and all worlds of "
           "entities they run in"},
  "why_tests_cant":
   "The stable tests never execute the selectors, tags and scores the compiler emits; what they "
   "select depends on tags left behind by earlier commands and on the other entities in the world.",
  "anchors": _a(
   ["acaciamc/objects/entity.py", "acaciamc/objects/entity_template.py",
    "acaciamc/objects/entity_group.py", "acaciamc/objects/entity_filter.py",
    "acaciamc/objects/functions.py", "acaciamc/mccmdgen/mcselector.py"],
   [("entity references and fields", "acaciamc/objects/entity.py"),
    ("templates, C3 order, new", "acaciamc/objects/entity_template.py"),
    ("bound and virtual methods", "acaciamc/objects/functions.py"),
    ("groups", "acaciamc/objects/entity_group.py"),
    ("filters and selectors", "acaciamc/objects/entity_filter.py")],
   ["the generated .mcfunction files"]),
  "technique":
   "abstract interpretation of the compiler's source on entity programs, its selector commands "
   "evaluated in abstract worlds and compared with a reference semantics of templates and groups",
  "note":
   "About 260 programs over fields, dispatch along single and diamond inheritance, creation, groups "
   "and filters, in a world of players, cows and pigs with different tags, scores, items and "
   "positions. Random selection is modelled by one fixed choice function.",
 },
 {
  "id": "P09",
  "title": "Mistakes are refused with the diagnostic, place and names that fit them",
  "statement":
   "A program with a static mistake (lexical, syntactic, about names, types, arguments, templates, "
   "compile-time code, imports or limits of the target version) is refused: the diagnostic is the one "
   "for that mistake, it points at the line and file holding the mistake, and its message renders and "
   "names the constructs at fault. The compiler neither crashes on such a program nor accepts it. A "
   "correct program that differs from it only in the mistake is accepted.",
  "quantifier": {"over": ["programs", "configurations"],
   "text": "all programs containing one static mistake, in one or several files, and their correct "
           "neighbours, for all target versions"},
  "why_tests_cant":
   "Every language rule is checked by its own code, at places far apart and often in several copies "
   "(run-time, compile-time and inline functions); the stable tests exercise few of the refusals and "
   "a missing one shows up only as a wrong pack or a crash for some other program.",
  "anchors": _a(
   ["acaciamc/error.py", "acaciamc/tokenizer.py", "acaciamc/parser.py",
    "acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/ctexecuter.py", "acaciamc/tools/axe.py",
    "acaciamc/objects/functions.py", "acaciamc/objects/entity_template.py"],
   [("diagnostics", "acaciamc/error.py"), ("lexical checks", "acaciamc/tokenizer.py"),
    ("syntax checks", "acaciamc/parser.py"), ("names, types, placement", "acaciamc/mccmdgen/generator.py"),
    ("compile-time code", "acaciamc/mccmdgen/ctexecuter.py"),
    ("arguments of library functions", "acaciamc/tools/axe.py")],
   ["the error message of the compiler"]),
  "technique":
   "abstract interpretation of the entire compiler's source (tokenizer to output, over an abstract "
   "file system) on a catalogue of mistakes; the raised diagnostic is compared with the catalogue",
  "note":
   "About 390 programs, at least one for every diagnostic a program can provoke and for nearly every "
   "place that raises one. Messages that quote Python's own error text are not checked, and neither "
   "are diagnostics of the operating system (unreadable files) and of MIDI files.",
 },
 {
  "id": "P10",
  "title": "Source text is read as the lexical structure of the language says",
  "statement":
   "String literals, commands, numbers, names, operators, interface paths, comments, continued lines "
   "and indentation mean what the language says they mean: every character of a string or command "
   "reaches the pack unchanged, every escape (also font and unicode escapes) and every ${} stands for "
   "its value, and long commands and comments end where they are closed. Layout that carries no "
   "meaning (blank lines, comments, spaces, line continuation, width of indentation) does not change "
   "the result.",
  "quantifier": {"over": ["programs"],
   "text": "all source texts, in particular all characters, escapes, nestings of brackets, strings "
           "and ${}, and all layouts of blocks"},
  "why_tests_cant":
   "The lexer is a hand-written state machine over single characters; its states (nested formatted "
   "strings, brackets, continued lines, long commands) combine in unboundedly many ways and the "
   "stable tests run a handful of files through it.",
  "anchors": _a(
   ["acaciamc/tokenizer.py", "acaciamc/parser.py", "acaciamc/ast.py"],
   [("the lexer", "acaciamc/tokenizer.py"), ("formatted strings and commands", "acaciamc/parser.py")],
   ["the text of commands in the generated files", "names of the generated interface files"]),
  "technique":
   "abstract interpretation of tokenizer, parser and generator on systematically enumerated texts, "
   "compared with a reference lexer written from the documented lexical structure",
  "note":
   "About 9800 obligations: every escape, every printable ASCII character and samples of each "
   "unicode class in every context, all pairs of operators with and without spaces, all block "
   "layouts up to depth three, nested formatted strings up to depth three.",
 },
 {
  "id": "P11",
  "title": "Compile-time code computes the values its text says",
  "statement":
   "Constant expressions, const functions, lists and maps evaluate at compile time to the value the "
   "language defines (32-bit integers, truncating division, floats, bools, strings, None; copies of "
   "plain variables, aliases of references), in run-level code and inside const functions alike. "
   "Operations on a list or map change exactly the object they are applied to and never one that was "
   "copied from it or belongs to the caller; a map keeps one value per key with keys of different "
   "types being different.",
  "quantifier": {"over": ["programs"],
   "text": "all constant expressions, const functions and sequences of list and map operations"},
  "why_tests_cant":
   "Compile-time code is executed by a separate interpreter with its own objects; the stable tests "
   "call few of its operations and not in combination, and a wrong value only shows in the emitted "
   "commands.",
  "anchors": _a(
   ["acaciamc/mccmdgen/ctexecuter.py", "acaciamc/mccmdgen/ctexpr.py", "acaciamc/objects/list_.py",
    "acaciamc/objects/map_.py", "acaciamc/objects/integer.py", "acaciamc/objects/float_.py",
    "acaciamc/objects/functions.py"],
   [("the interpreter of const functions", "acaciamc/mccmdgen/ctexecuter.py"),
    ("lists", "acaciamc/objects/list_.py"), ("maps", "acaciamc/objects/map_.py"),
    ("integer constants", "acaciamc/objects/integer.py"),
    ("binding of arguments", "acaciamc/objects/functions.py")],
   ["the text of the commands that show the values"]),
  "technique":
   "abstract interpretation of the entire compiler's source on generated compile-time programs; the "
   "texts of the emitted commands are compared with a reference evaluation",
  "note":
   "Operators on boundary values, statements of const functions, all single operations and (thorough: "
   "all) pairs of list and map operations plus sampled triples. Whether `m := l` of a list copies or "
   "shares is not checked.",
 },
 {
  "id": "P12",
  "title": "Library functions do what they promise",
  "statement":
   "Formatted text shows, to exactly the given players, its pieces in order with the values, escapes and "
   "fonts asked for (an inner font wins); the functions of the math module yield what they are named "
   "after; a function that stands for a game command issues that command once, with the given or default "
   "arguments and for the given entities and positions. Positions, offsets and rotations denote the place "
   "and direction they are built for, deriving one from another leaves that one as it was, and nothing "
   "but the tested condition runs there. A task runs its function exactly once per request that was not "
   "replaced or cancelled, after the given ticks, and a loop runs it every given number of ticks.",
  "quantifier": {"over": ["programs", "histories"],
   "text": "all argument combinations of library functions, all chains of position, text and font "
           "operations, all histories of task requests and ticks"},
  "why_tests_cant":
   "The library is several hundred small command templates with optional arguments whose combinations "
   "multiply; the stable tests hardly call them, and errors show in the emitted text only.",
  "anchors": _a(
   ["acaciamc/modules/print.py", "acaciamc/modules/math.py", "acaciamc/modules/world.py",
    "acaciamc/modules/schedule.py", "acaciamc/objects/position.py",
    "acaciamc/objects/position_absolute.py", "acaciamc/objects/position_offset.py",
    "acaciamc/objects/rotation.py"],
   [("formatted strings and fonts", "acaciamc/modules/print.py"), ("math", "acaciamc/modules/math.py"),
    ("world", "acaciamc/modules/world.py"), ("tasks and loops", "acaciamc/modules/schedule.py"),
    ("positions", "acaciamc/objects/position.py"), ("rotations", "acaciamc/objects/rotation.py")],
   ["the emitted commands"]),
  "technique":
   "abstract interpretation of the entire compiler's source on generated library calls; the emitted "
   "commands are interpreted over symbolic environments and scores and compared with the documentation",
  "note":
   "All functions of print, math, world and schedule with their argument combinations sampled; chains of "
   "up to four position operations, nested text of three levels, task histories of five operations. The "
   "music module and the game's own behaviour are not covered.",
 },
 {
  "id": "P13",
  "title": "The command writes a complete pack, as configured, or nothing",
  "statement":
   "On a correct program and options the command exits with 0 and writes, below the output folder only, the "
   "main, interface, tick and helper files and the optional init file at their configured places, together "
   "defining every function they call and creating every scoreboard they use; it removes files only below "
   "the function folder, only when asked to, and only after the program compiled. Otherwise it exits with a "
   "non-zero status and a diagnostic that is no internal crash, and leaves every file as it was. What is "
   "written is a function of sources and options, not of hash order, directory order or earlier "
   "compilations: options that name things only rename them, and debug comments, a separate init file and "
   "the encoding leave the commands as they are.",
  "quantifier": {"over": ["programs", "configurations", "histories"],
   "text": "all programs, command lines, states of the output folder and orders of sets and directories"},
  "why_tests_cant":
   "The stable tests compile a few programs with default options in process and compare nothing of what the "
   "command writes, keeps, removes or answers; option combinations and iteration orders multiply.",
  "anchors": _a(
   ["acaciamc/cli.py", "acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py"],
   [("command line", "acaciamc/cli.py"), ("output", "acaciamc/compiler.py"),
    ("init commands", "acaciamc/mccmdgen/cmds.py")],
   ["exit status and messages", "the output folder"]),
  "technique":
   "abstract interpretation of the entire command's source, from argument parsing to writing, over an "
   "abstract file system that records every effect; set and directory orders are reversed in the domain",
  "note":
   "Six programs that use all kinds of files, nine that are refused, layouts and options sampled pairwise, "
   "old output present. Faults of the disk while writing are not covered.",
 },
 {
  "id": "P14",
  "title": "Modules run once and are shared; names follow their scopes",
  "statement":
   "Per run of the program the body of a module runs exactly once, when the first import of it is reached, "
   "at whatever place of whatever function, branch, loop, interface or module that import stands, and all "
   "importers use the same variables. An import binds exactly the names it says, a module exports its own "
   "names that do not start with an underscore, a module is found where its dots and packages say and is "
   "the same however it is reached, and imports of what is missing, not exported or still loading are "
   "refused. Every other name means what the innermost scope around its place in the text binds it to, not "
   "what its caller does; names out of scope and second definitions in a scope are refused.",
  "quantifier": {"over": ["programs", "inputs", "histories"],
   "text": "all import graphs, import forms and places, folder layouts, nestings of scopes and "
           "sequences of executed interfaces"},
  "why_tests_cant":
   "Whether a body runs once depends on which imports are reached at run time, in which order, across runs "
   "of main and of interfaces; the stable tests do not execute any output.",
  "anchors": _a(
   ["acaciamc/compiler.py", "acaciamc/objects/module.py", "acaciamc/mccmdgen/generator.py",
    "acaciamc/mccmdgen/symbol.py"],
   [("lookup and caching", "acaciamc/compiler.py"), ("exports", "acaciamc/objects/module.py"),
    ("imports and contexts", "acaciamc/mccmdgen/generator.py"), ("scopes", "acaciamc/mccmdgen/symbol.py")],
   ["the emitted commands"]),
  "technique":
   "abstract interpretation of the entire compiler's source on module graphs over an abstract file system; "
   "the emitted commands are interpreted for histories of runs and compared with a reference semantics",
  "note":
   "All graphs over three modules with sampled forms and orders, 26 places of an import, all pairs of 17 "
   "module paths, 62 programs on scopes. Imports in untaken branches followed by uses of the name are not "
   "judged: the language leaves them open.",
 },
 {
  "id": "P15",
  "title": "Programs are parsed by the grammar or refused at the first wrong token",
  "statement":
   "A program of the grammar becomes the tree the grammar gives it: operators bind by precedence and group "
   "from the left, comparisons chain, brackets and indentation decide what belongs to what, `elif` and "
   "`else` to their `if`, and every declaration, argument, default, type, qualifier, alias and keyword "
   "argument keeps its name, order and place; every expression and every statement is placed where it starts. "
   "Optional parts and trailing commas may be left out or added without other effect. Any other "
   "token sequence is refused, with the diagnostic for that mistake, at the first token with which no "
   "program can go on.",
  "quantifier": {"over": ["programs", "inputs"],
   "text": "all token sequences: sentences of the grammar and everything next to them"},
  "why_tests_cant":
   "The grammar derives infinitely many nestings and has far more near misses; the stable tests parse a few "
   "well-formed files and look at no tree.",
  "anchors": _a(
   ["acaciamc/parser.py", "acaciamc/ast.py"],
   [("expressions, statements, declarations, lists in brackets", "acaciamc/parser.py"),
    ("the nodes", "acaciamc/ast.py")],
   ["the tree", "the diagnostic and its position"]),
  "technique":
   "abstract interpretation of the parser's source on token sequences; the resulting tree, or the raised "
   "diagnostic, is compared with an independent grammar that has the viable-prefix property",
  "note":
   "All pairs and triples of operators with signs, negations and brackets; every statement form; their "
   "pairs; hundreds of random derivations; every sentence with each token deleted, doubled, swapped, "
   "replaced or preceded by another (about 8000 near misses). Tokens come from the reference lexer (the "
   "tokenizer is P10).",
 },
 {
  "id": "P16",
  "title": "A song made from a MIDI file is heard as the file says",
  "statement":
   "For every MIDI file of type 0 or 1 and every choice of options, playing the song lets each listener hear "
   "every sounding note of every track exactly once, at the game tick nearest to the note's time (tempo "
   "changes, resolution and `speed` taken into account, simultaneous messages at the same time), with the "
   "sound of the channel's program, a volume of velocity x channel volume x the factors, the pitch of the "
   "note with `note_offset`, and nothing else. `play(t)` starts t ticks into the song or, if negative, -t "
   "ticks later; `stop` ends it; a looping song starts again `loop_interval` ticks after its end, another "
   "stops there; LENGTH reaches its last message; songs do not influence each other. A song is divided into "
   "functions of whole ticks as `chunk_size` says. Faulty options, unreadable or invalid files, other MIDI "
   "types and a missing MIDI reader are refused, with a reason, at the call.",
  "quantifier": {"over": ["inputs", "histories", "configurations"],
   "text": "all MIDI message sequences and options, and all orders of play, stop and ticks"},
  "why_tests_cant":
   "No stable test touches the module: its reader is not even installed. Timing errors accumulate only with "
   "several tracks, chords and tempo changes, and songs have thousands of notes.",
  "anchors": _a(
   ["acaciamc/modules/music.py", "acaciamc/tools/axe.py"],
   [("conversion of messages to commands, timer commands", "acaciamc/modules/music.py")],
   ["the notes heard per game tick", "LENGTH", "the diagnostics"]),
  "technique":
   "abstract interpretation of the compiler's and the module's source on given message sequences (the MIDI "
   "reader is modelled); the emitted commands are run tick by tick on an abstract command machine and "
   "compared with exact rational arithmetic on the messages",
  "note":
   "15 written and 12 random songs (about 40 in the thorough tier) with fixed and random options, 17 to 20 "
   "histories each, two songs at a time; 24 faulty calls. Notes within a millionth of half a tick are left "
   "out; the reader `mido` itself is assumed.",
 },
 {
  "id": "P17",
  "title": "Binary modules get the arguments they declare, and are heard",
  "statement":
   "A function of a binary module (Python, parsed with `acaciamc.tools.axe`) is called exactly when the "
   "arguments fit its declared parameters: positional-only, keyword-only, `*args`, `**kwds` and defaults "
   "bind as in Python; every other call is refused with a diagnostic that names the parameter, and the "
   "expected and the actual type where a converter rejects it. Each converter accepts exactly the values it is "
   "documented for, at run level and in const functions, and hands over what they stand for; renamed and "
   "POSITIONAL parameters arrive under their names or in the order of declaration. Of overloads, the one that "
   "fits the arguments and the target version is called. Results and commands of functions and of module "
   "initialization are emitted, once and in order; `ArgumentError` is reported on its argument; version and "
   "edition gates open exactly where they say; methods see the object they are called on, and immutable "
   "changes and named tuples leave the original as it was. Declarations no call could satisfy are refused when "
   "the module is loaded.",
  "quantifier": {"over": ["programs", "inputs", "configurations"],
   "text": "all parameter lists, converters and calls, at run level and in const functions, for every target "
           "version and edition"},
  "why_tests_cant":
   "Every function of the standard library and of third-party modules relies on this binding, with a few "
   "fixed signatures; the combinations of kinds of parameters, forms of calls, converters and values are "
   "unbounded, and a wrong binding shows as a wrong command, not as a failure.",
  "anchors": _a(
   ["acaciamc/tools/axe.py", "acaciamc/tools/resultlib.py", "acaciamc/tools/versionlib.py",
    "acaciamc/tools/__init__.py", "acaciamc/tools/named_tuple.py", "acaciamc/objects/module.py",
    "acaciamc/objects/functions.py"],
   [("_Chopper, OverloadChopped, the converters", "acaciamc/tools/axe.py"),
    ("BinaryFunction, BinaryCTFunction, BinaryCTOnlyFunction", "acaciamc/objects/functions.py"),
    ("BinaryModule.execute", "acaciamc/objects/module.py"),
    ("version requirements", "acaciamc/tools/versionlib.py"),
    ("transform_immutable, method_of, cmethod_of", "acaciamc/tools/__init__.py")],
   ["what each user-written binary function receives", "the commands of the output", "the diagnostics"]),
  "technique":
   "abstract interpretation of the whole compiler together with user-written binary modules; what their "
   "functions were handed is read from the emitted commands and compared with Python's binding rules "
   "(inspect.Signature on the declaration) and a table of converters",
  "note":
   "22 parameter lists (64 in the thorough tier) x up to 40 calls, 62 converters x 37 to 45 values at run "
   "level and in const functions, 25 overload calls x 6 to 10 versions, gates, results, methods and named "
   "tuples: 6,900 calls (11,900 thorough). Containers over converters that exist at one level only are left "
   "out.",
 },
]
