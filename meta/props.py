"""Source of properties.jsonl and MANIFEST.json: run python3 meta/props.py after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
VSI = "trace-partitioned abstract interpretation over finite value sets of the type-checked syntax tree"


def prop(id, title, statement, over, quant, why, files, mech, tech=VSI, note="", level="other"):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, _tech=tech, _note=note, _level=level))


prop("P01", "URL and JSON encoders are lossless, minimal and byte-exact",
     "URL-encoding a text keeps exactly the letters, digits and - _ . ~ as they are and writes every other byte as % and two upper-case hexadecimal digits. "
     "JSON-encoding a text escapes exactly the double quote, the backslash and the control characters, in a way every JSON reader decodes back to the "
     "original, and leaves every other byte, non-ASCII ones included, unchanged.",
     ["inputs"], "every byte string of any length",
     "The tests encode three strings each; none has a byte above 0x7F, a control character or an empty neighbour of one.",
     ["src/utils.cpp", "include/libqasm/utils.hpp"], [("url_encode", "src/utils.cpp"), ("json_encode", "src/utils.cpp")],
     note="The functions treat bytes one at a time; the abstraction covers every byte at every kind of position, and lengths around every constant in the code.")

prop("P02", "Case folding touches ASCII letters only",
     "Lower-casing a text maps A-Z to a-z and changes nothing else, at any length. Two texts are equal ignoring case exactly when they have the same length "
     "and their bytes agree up to the case of ASCII letters.",
     ["inputs"], "every byte string, and every pair of byte strings, of any length",
     "The tests compare seven hand-picked ASCII strings; prefixes, punctuation that is 32 apart from a letter, and bytes above 0x7F never occur.",
     ["src/utils.cpp", "include/libqasm/utils.hpp"], [("to_lowercase", "src/utils.cpp"), ("equal_case_insensitive", "src/utils.cpp")],
     note="As for P01.")

prop("P03", "Source ranges are well ordered and only ever grow",
     "A source range never ends before it starts: constructing one from two positions keeps the first and ends at the later of the two, and expanding a "
     "location to include a position moves its ends outwards by exactly as much as needed. A location keeps the file name it is given, an empty name "
     "counting as none. Positions and ranges compare lexicographically by line and then column.",
     ["inputs"], "every pair of line/column positions, every location and every position to include, every file name",
     "The tests construct eight locations, and never expand or compare one.",
     ["src/annotations.cpp", "include/libqasm/annotations.hpp"],
     [("SourceLocation::Range::Range", "src/annotations.cpp"), ("SourceLocation::SourceLocation", "src/annotations.cpp"),
      ("SourceLocation::expand_to_include", "src/annotations.cpp"), ("operator<=>", "include/libqasm/annotations.hpp")],
     note="Complete over order types of the coordinates: the code only compares and copies them, and the domains are refined by its constants.")

prop("P04", "Source locations print unambiguously and completely",
     "A location prints as its file name (or a placeholder), then, as far as known (zero means unknown), ':line', ':column' and the end of the range: "
     "'..column' on the same line, '..line:column' on a later one, '..line' when columns are unknown; an end equal to the start is not repeated.",
     ["inputs"], "every combination of file name, first and last line and column",
     "The tests print eight locations, all of whose coordinates are small and most of which are equal.",
     ["src/annotations.cpp"], [("operator<<(ostream&, SourceLocation)", "src/annotations.cpp")],
     note="As for P03.")

prop("P05", "Errors keep their first location and report it faithfully",
     "An error takes its location from the node, location or range it is raised with; a context supplied later fills in a missing location and never replaces "
     "a known one. Its text is 'Error', ' at ' and the location if there is one, ': ' and the message (a fixed placeholder if empty). Its JSON form is one "
     "valid object holding that range, message, severity 1 and, exactly when the file is known, related information with its file URL.",
     ["inputs", "histories"], "every message and file name, every location, and every sequence of construction and context calls",
     "No test of the built suite constructs an error; quoting, absent locations and the order of contexts are only visible for unusual inputs.",
     ["src/error.cpp", "include/libqasm/error.hpp"],
     [("Error::Error", "src/error.cpp"), ("Error::context", "src/error.cpp"), ("Error::what", "src/error.cpp"), ("Error::to_json", "src/error.cpp"),
      ("operator<<(ostream&, Error)", "src/error.cpp")],
     note="Complete over order types of coordinates; messages and file names are opaque or have one or two free bytes.")

prop("P06", "Results report either the tree or every error, in order",
     "A parse or analysis result without errors renders as its serialized tree alone; one with errors renders as an empty first string followed by every "
     "error's text in order, whatever its tree holds. As JSON it is the tree's JSON, or an object whose 'errors' array holds every error's JSON in order. "
     "Unwrapping an analysis result returns the tree exactly when there is no error, and otherwise writes every error in order and throws.",
     ["inputs"], "every result: with and without a tree, with any number of errors, located or not",
     "The tests that exercise results need the parser and are not part of the built suite; none holds several errors with mixed locations.",
     ["include/libqasm/result.hpp", "src/v3x/parse_result.cpp", "src/v3x/analysis_result.cpp"],
     [("to_strings", "include/libqasm/result.hpp"), ("errors_to_json", "include/libqasm/result.hpp"), ("AnalysisResult::unwrap", "src/v3x/analysis_result.cpp")],
     note="Error counts 0-3, 9, 17 and those around every constant in the code; messages opaque.")

prop("P07", "Versions parse exactly, compare as a total order and print back",
     "Dot-separated decimal numbers parse to exactly those components, an empty text to none; a text with a component that has no number, a negative one or "
     "one too large for 31 bits is refused with an exception. Versions compare as zero-padded sequences, by which all six comparison operators agree, and "
     "print as their components joined by dots.",
     ["inputs"], "every version text and every pair of versions of any number of components",
     "The version tests are not in the built suite; they compare a dozen fixed pairs.",
     ["src/version.cpp", "include/libqasm/version.hpp"],
     [("Version::Version", "src/version.cpp"), ("Version::compare", "src/version.cpp"), ("operator<<(ostream&, Version)", "src/version.cpp")],
     note="Texts with free bytes at the positions that matter; components over order types, up to three on each side plus long ones.")

prop("P08", "String fragments, escapes and raw text are reproduced exactly",
     "Assembling a string appends every fragment unchanged and in order; the escapes for tab, newline, carriage return, single quote, double quote and "
     "backslash become that character, and any other sequence is kept as written. The content of a raw text block is exactly what stands between its triple "
     "quotes, quotes and line breaks included.",
     ["inputs"], "every fragment, escape sequence and raw text block",
     "No test of the built suite covers string assembly; raw text appears in a few samples without quotes or empty content.",
     ["src/string_builder.cpp", "src/utils.cpp"],
     [("StringBuilder::push_string", "src/string_builder.cpp"), ("StringBuilder::push_escape", "src/string_builder.cpp"), ("remove_triple_quotes", "src/utils.cpp")],
     note="As for P01.")

prop("P09", "Overload resolution picks the last applicable overload, promoting arguments",
     "Of the overloads registered for a name, resolution picks the last one added whose parameter count is the argument count and each of whose parameter types "
     "the corresponding argument has or promotes to, and returns the arguments in order, converted to those types and otherwise unchanged. Without such an "
     "overload, or for an unknown (case-sensitive) name, it reports an error. Inner scopes hide outer ones for variables, and their end restores the outer meaning. "
     "Overloads, tables and analyzers can be copied, moved and assigned: the result resolves as its source did, and a copy is independent.",
     ["inputs", "histories"], "every set of overloads in any order of registration, every name and every list of argument types; every sequence of scope openings, declarations and closings",
     "The resolution tests need generated code and are not in the built suite; they try a few overload pairs only.",
     ["include/libqasm/overload.hpp", "src/v3x/resolver.cpp", "include/libqasm/v3x/resolver.hpp", "include/libqasm/v3x/scope.hpp"],
     [("OverloadResolver::resolve", "include/libqasm/overload.hpp"), ("OverloadedNameResolver", "include/libqasm/overload.hpp"), ("VariableTable/FunctionTable/InstructionTable", "src/v3x/resolver.cpp")],
     note="Complete for all lists of at most three types and representative longer ones; names opaque or with free bytes.")

prop("P10", "Constant functions and operators compute exactly the specified values",
     "An operator or function applied to constants yields a constant of the specified type with the specified value: integer arithmetic wraps to 64 bits, "
     "integer division and modulo round as the language says, comparisons and logic are exact, and floating-point results are those of the double operation. "
     "Division or modulo by integer zero, shifts by an amount outside 0..63 and calls no overload accepts are reported as errors; no constant makes the analyzer trap.",
     ["inputs"], "every constant function and operator, and every combination of constant argument values and types",
     "Integration samples evaluate a few dozen constants; overflow, the smallest integer, negative divisors and shift amounts beyond the width are not among them.",
     ["src/v3x/register_consteval_core_functions.cpp", "src/v3x/core_function.cpp", "include/libqasm/v3x/register_consteval_core_functions.hpp"],
     [("consteval functions", "src/v3x/register_consteval_core_functions.cpp"), ("register_consteval_core_functions", "src/v3x/register_consteval_core_functions.cpp")],
     note="Each function is compared with an independent definition, value by value, on grids of boundary values that the constants of the code refine.")

prop("P11", "Compound constant expressions evaluate as written",
     "Each operator of the language applies its own operation to its operands in the order written, a function call passes its arguments in order to the "
     "function of that name, and the conditional operator yields its second or third operand as its condition is true or false. A literal denotes the value it "
     "was read as, a predefined constant its mathematical value, and a compound expression the value its independently evaluated parts combine to.",
     ["inputs"], "every expression over literals, predefined constants, operators and functions",
     "Samples hold a handful of expressions, mostly symmetric ones in which swapped operands or operators go unnoticed.",
     ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"],
     [("visit_*_expression, visit_unary/binary_operator", "src/v3x/semantic_analyzer.cpp"), ("register_default_constants", "src/v3x/analyzer.cpp")],
     note="Every operator node over boundary grids of operands, and nested combinations of them.")

prop("P12", "Types: specifiers, checks, sizes and promotions agree",
     "Every type letter stands for its own type; a type check holds exactly between types of one kind; a constant has its own type, a variable its declared "
     "one, an index of one element the element type and of several the array type with that many elements. Exactly bool to int, bool to float and int to float are "
     "promoted, preserving the value and its source location, and only constants pass where constants are required. Types print as their keywords.",
     ["inputs"], "every type, every pair of types, every kind of value, every index list",
     "The type and value tests are not in the built suite and sample a few pairs.",
     ["src/v3x/types.cpp", "src/v3x/values.cpp"],
     [("from_spec", "src/v3x/types.cpp"), ("type_check", "src/v3x/types.cpp"), ("promote", "src/v3x/values.cpp"), ("type_of", "src/v3x/values.cpp"), ("size_of", "src/v3x/types.cpp")],
     note="All pairs of the finitely many kinds of types; sizes over order types.")

prop("P13", "The instruction set is complete and consistent with itself",
     "Every gate and instruction of the language has its number of qubits and bits and its parameter types, in every overload: each operand may be a single "
     "qubit or bit or an array. The classification predicates agree with those tables: each gate has one arity, no name is two kinds of instruction, the lists "
     "and tables hold the same names, and unknown names, prefixes or other spellings are refused.",
     ["inputs"], "every instruction name of the language, every other name and every number of parameters",
     "The instruction set tests are not in the built suite and look at a few names; a wrong row of a table shows only for that one instruction.",
     ["src/v3x/instruction_set.cpp", "include/libqasm/v3x/instruction_set.hpp"],
     [("InstructionSet::InstructionSet", "src/v3x/instruction_set.cpp"), ("get_instruction_param_types", "src/v3x/instruction_set.cpp"), ("is_*", "src/v3x/instruction_set.cpp")],
     note="Complete over the names; the specification table is independent of the code's.")

prop("P14", "Instructions are accepted exactly as the instruction set allows",
     "A gate is accepted exactly with its number of qubit operands, all of one size, and its parameters, promoted to their declared types; measure exactly "
     "with as many bits as qubits; reset, init, barrier and wait exactly with their operands. The modifiers inv and pow apply to single-qubit gates, alone or "
     "combined; ctrl makes a two-qubit gate of one, which takes no further modifier. Everything else is an error.",
     ["inputs"], "every instruction and every list of parameters, operands and modifiers",
     "Integration samples show accepted and rejected instances of a few gates; every instruction times every shape of its operands is far beyond them.",
     ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/register_instructions.cpp", "src/v3x/instruction.cpp"],
     [("visit_gate_instruction/visit_non_gate_instruction", "src/v3x/semantic_analyzer.cpp"), ("resolve_instruction", "src/v3x/analyzer.cpp"),
      ("check_qubit_and_bit_indices_have_same_size", "src/v3x/semantic_analyzer.cpp")],
     note="All instructions times kinds of operands with sizes 1-3 and up to three modifiers.")

prop("P16", "Each invalid statement yields one located error and leaves the tree",
     "Every invalid statement yields exactly one error, located within it and in program order, and does not become part of the resulting tree; every valid "
     "statement is kept, whatever the statements around it. A program of another language version yields an error at its version besides those of its "
     "statements. A failed parse passes its errors on unchanged and in order, with no tree.",
     ["inputs", "histories"], "every sequence of valid and invalid statements, every version, every list of parse errors",
     "Samples hold one error each; several errors, errors in modifiers, annotations or after each other are not there.",
     ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"],
     [("SemanticAnalyzer::visit_program/visit_global_block", "src/v3x/semantic_analyzer.cpp"), ("Analyzer::analyze", "src/v3x/analyzer.cpp")],
     note="Every pair and selected triples of kinds of statements, valid and invalid.")

prop("P19", "Indices and ranges select exactly the elements written, or are refused",
     "An index selects exactly that element of its array, a range its elements in order with both ends included, and a list the elements of its parts in the "
     "order written. An index or a range end below zero, or at or beyond the array's size, an empty range, an index that is not a constant integer and an "
     "index on anything but an array are refused, however large the numbers are and without expanding what is refused.",
     ["inputs"], "every array size and every index, range and list of them over 64-bit integers",
     "Samples index arrays of a few elements by small constants.",
     ["src/v3x/semantic_analyzer.cpp"], [("visit_index", "src/v3x/semantic_analyzer.cpp"), ("visit_index_range", "src/v3x/semantic_analyzer.cpp")],
     note="Complete over order types of index and size around all boundaries and the code's constants.")

prop("P20", "Names resolve to the declaration in force, exactly as spelled",
     "A name stands for the variable or constant declared under exactly that spelling before its use; any other name is an error. Declaring a name twice, or "
     "as a predefined constant is named, is an error at the second declaration and the first one stands. A declaration makes a variable of the declared type "
     "and size, in declaration order; a size below one, or not a constant integer, and unknown types are refused.",
     ["inputs", "histories"], "every sequence of declarations and uses, every spelling, every size",
     "Samples redeclare one name and use a few undeclared ones.",
     ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/resolver.cpp"],
     [("visit_variable", "src/v3x/semantic_analyzer.cpp"), ("Analyzer::add_variable_to_current_scope", "src/v3x/analyzer.cpp"), ("VariableTable", "src/v3x/resolver.cpp")],
     note="Sequences of two to three declarations and uses over confusable spellings.")

prop("P25", "An analyzer can be reused: programs do not affect one another",
     "The result of analysing a program depends on that program and the analyzer's configuration only: not on the programs, valid or not, analysed before with "
     "the same analyzer; and no later use changes an earlier result. After an analysis the analyzer is exactly as it was before, and a copy of an analyzer is "
     "independent of its original.",
     ["histories"], "every sequence of programs analysed with one analyzer or with copies of it",
     "Tests analyse one program per analyzer.",
     ["src/v3x/analyzer.cpp", "include/libqasm/v3x/analyzer.hpp", "src/v3x/semantic_analyzer.cpp", "include/libqasm/v3x/scope.hpp"],
     [("Analyzer::analyze", "src/v3x/analyzer.cpp"), ("scope_stack_", "include/libqasm/v3x/analyzer.hpp"), ("SemanticAnalyzer", "src/v3x/semantic_analyzer.cpp")],
     note="Sequences of two and three programs out of a pool covering every kind of statement and error, with the complete abstract state compared.")

prop("P28", "Analysed trees are complete, located and faithful to the program",
     "Every statement, gate, value, index and variable of an analysed tree carries the source location of the construct it came from, and the program's block "
     "one that covers its statements. Annotations stay attached, in order, to what they annotate; names and raw code pass through unchanged. An operand refers "
     "to the declared variable itself, and nothing required is missing, owned twice or dangling.",
     ["inputs"], "every valid program: every kind of statement, operand, modifier and annotation",
     "Golden files cover samples; an annotation dropped from one node kind or a location taken from a neighbour shows in no sample.",
     ["src/v3x/semantic_analyzer.cpp", "include/libqasm/v3x/semantic_helper.hpp"],
     [("visit_*", "src/v3x/semantic_analyzer.cpp"), ("visit_annotated", "src/v3x/semantic_analyzer.cpp")],
     note="Every kind of node, with distinct locations on each, alone and next to others.")

GRAM = "abstract interpretation of the tree builder over trees of the grammar, with a grammar and automata analysis of the .g4 files"

prop("P18", "Operator precedence and associativity are those of the language",
     "An expression is grouped as the language defines, from tightest to loosest: unary - ~ !, ** (right-associative), * / %, + -, shifts, relational, "
     "equality, &, ^, |, &&, ^^, ||, and ?: (right-associative); all other binary operators associate to the left. Parentheses, calls, indexing and operand "
     "order are respected, and each operator's node is that of its symbol.",
     ["inputs"], "every expression: every pair and triple of operators, in both orders, with every kind of operand and parenthesis",
     "No test of the built suite parses anything, and samples combine a few operators; a swapped level shows only for one pair in one order.",
     ["src/v3x/CqasmParser.g4", "src/v3x/CqasmLexer.g4", "src/v3x/syntactic_analyzer.cpp"],
     [("expression", "src/v3x/CqasmParser.g4"), ("visit*Expr", "src/v3x/syntactic_analyzer.cpp")], tech=GRAM,
     note="All operator pairs in all positions and every triple over one representative per level and associativity; the grammar's precedence relation is pairwise, so pairs decide it.")

prop("P21", "Every parsed construct, and every syntax error, is located exactly",
     "Every type, variable, statement, gate and expression parsed from a text carries the position of its own name, keyword or operator, counted from one, "
     "through the end of it, wherever in the text it stands. A syntax error is located at the first token that cannot be continued, a number out of range at that number. All locations name the "
     "given file, and none if there is none.",
     ["inputs"], "every program, every layout of it, and every text that is not a program",
     "Golden trees record positions for samples near the top left of a file, all with a file name.",
     ["src/v3x/syntactic_analyzer.cpp", "include/libqasm/v3x/syntactic_analyzer.hpp", "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/parse_helper.cpp"],
     [("setNodeAnnotation", "include/libqasm/v3x/syntactic_analyzer.hpp"), ("syntaxError", "src/v3x/antlr_custom_error_listener.cpp")], tech=GRAM,
     note="Every kind of construct, with symbolic line, column and offset of its tokens over order types; one known finding (assembly blocks have no location).")

prop("P22", "Tokens denote exactly what they spell",
     "A text is split into the language's tokens by the longest match, keywords only as whole words, with comments and blanks dropped. A decimal integer denotes "
     "its value if it fits 64 signed bits and is an error otherwise, a decimal fraction the nearest double or an error when out of range. true, false, names, "
     "versions and raw texts denote what is written.",
     ["inputs"], "every text: every token next to every other, every number of digits, every value at a limit",
     "Samples spell numbers with one to three digits and separate all tokens with blanks; a lexer rule that swallows one character shows in no sample.",
     ["src/v3x/CqasmLexer.g4", "src/v3x/syntactic_analyzer.cpp", "include/libqasm/v3x/syntactic_analyzer.hpp"],
     [("lexer rules", "src/v3x/CqasmLexer.g4"), ("get_int_value", "src/v3x/syntactic_analyzer.cpp"), ("get_float_value", "src/v3x/syntactic_analyzer.cpp"),
      ("visitBoolLiteral", "src/v3x/syntactic_analyzer.cpp"), ("get_bool_value", "src/v3x/syntactic_analyzer.cpp")], tech=GRAM,
     note="The lexer is compared with a reference lexer state by state, as automata, so for texts of any length; values by abstract interpretation of the conversions.")

prop("P27", "The accepted programs and their trees are those of the language",
     "A text is accepted exactly if it is a program of the language: a version, then declarations and statements separated by line ends or semicolons. The tree "
     "has one node per construct, in order, with everything written in it (targets, operands, parameters, modifiers, sizes, indices) and nothing more. Line ends, "
     "comments and blanks make no difference; a text that is not a program gives errors and no tree.",
     ["inputs"], "every text, program or not",
     "Samples are some two hundred programs, most of one statement; a construct refused or accepted in one place only, or an operand lost, shows in none.",
     ["src/v3x/CqasmParser.g4", "src/v3x/CqasmLexer.g4", "src/v3x/syntactic_analyzer.cpp", "src/v3x/parse_helper.cpp"],
     [("parser rules", "src/v3x/CqasmParser.g4"), ("SyntacticAnalyzer", "src/v3x/syntactic_analyzer.cpp"), ("ParseHelper", "src/v3x/parse_helper.cpp")], tech=GRAM,
     note="All token strings up to a length bound, every sentence form of every rule, and every single-token edit of those, against an independent recursive-descent reference.")

prop("P23", "C++ and Python agree on how primitives are serialized",
     "Whatever C++ writes for a primitive of a tree (text, truth value, integer, real, version, instruction or function reference) it reads back as an equal "
     "value, without loss, and so does Python; and what Python writes has the same keys and values. An absent reference stays absent, components, operands and "
     "parameters keep their order and number, and every kind of primitive the trees use has a reader and a writer on both sides.",
     ["inputs"], "every value of every kind of primitive",
     "No test of the built suite serializes anything; a key renamed on one side or an integer narrowed on the way shows only for unusual values.",
     ["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "python/module/cqasm/v3x/primitives.py",
      "python/module/cqasm/v3x/instruction.py"],
     [("primitives::serialize/deserialize", "src/v3x/primitives.cpp"), ("serialize/deserialize", "python/module/cqasm/v3x/primitives.py")],
     tech="abstract interpretation of the C++ writers and readers into recorded maps, and of the Python modules over opaque typed values",
     note="Scalars over boundary values, texts opaque or with free bytes, lists of up to eight entries.")

prop("P29", "The Python interface returns the tree or every error, unchanged",
     "Each method of the Python analyzer makes exactly the library call of its own name with its own arguments. If that call succeeds, the serialized tree reaches "
     "the reader of its kind of tree byte for byte and the tree read is returned; if it fails, every error text is returned, in order. The JSON methods return "
     "the library's text unchanged.",
     ["inputs"], "every call of every method, and every result of the library: any tree, any number of errors",
     "The Python tests are not in the built suite and look at single errors; swapped siblings and lost errors or bytes show in none.",
     ["python/module/cqasm/v3x/__init__.py"], [("Analyzer", "python/module/cqasm/v3x/__init__.py")],
     tech="abstract interpretation of the Python module's syntax tree over opaque typed values",
     note="Results with a tree or with one to seven errors; the SWIG layer and the generated readers are assumed.")

prop("P30", "The Python objects keep and show what they were given",
     "A Python instruction holds its name and its operand types in order, however they are given (list, tuple or iterator), prints as name(type, ...), and refuses "
     "what is not a type node. A reference made of nothing or of None is unresolved, one made of an instruction is that very instruction, any other the instruction "
     "of the given name and types. A version holds its components in order, given as numbers or as a text such as 3.0. Importing the library keeps every entry of "
     "the loader path and appends its own directory before the native module is loaded; only Python 3 can import it.",
     ["inputs", "configurations"], "every way of making a reference, instruction or version; every loader path",
     "No test of the built suite runs Python; types lost from an iterator or a loader path overwritten show only in some uses.",
     ["python/module/cqasm/v3x/instruction.py", "python/module/cqasm/v3x/primitives.py", "python/module/libqasm/__init__.py"],
     [("Instruction, InstructionRef", "python/module/cqasm/v3x/instruction.py"), ("Version", "python/module/cqasm/v3x/primitives.py"),
      ("import", "python/module/libqasm/__init__.py")],
     tech="abstract interpretation of the Python modules' syntax trees over opaque typed values",
     note="Up to three operand types; names, types and paths opaque.")

prop("P31", "Instructions, functions and values compare and print as what they are",
     "Two instructions are equal exactly when they have the same name (case sensitive) and equal operand types in the same order, two functions when name, parameter "
     "types and return type agree; != is the negation. An instruction prints as name(type, ...), a function as name(type, ...) -> type, each type by its printed name, a "
     "reference as what it refers to or 'unresolved'. A list of types prints joined by ', ', a list of values likewise within brackets, an absent value as NULL, an "
     "absent type as a text that is no type's, and an axis as [x, y, z].",
     ["inputs"], "every instruction and function, by name and types; every list of values",
     "The tests of these printers are not in the built suite; the golden files hold what a few programs resolve to.",
     ["src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp", "src/v3x/primitives.cpp"],
     [("Instruction, InstructionRef", "src/v3x/instruction.cpp"), ("CoreFunction, CoreFunctionRef", "src/v3x/core_function.cpp"), ("Values", "src/v3x/values.cpp"),
      ("Axis", "src/v3x/primitives.cpp")],
     note="Specifiers of up to two types and pairs of a family of names and specifiers; dumps of single values are generated code and opaque.")

prop("P24", "The entry points of the library agree with one another",
     "Every way of parsing or analysing a program (from a text or a file, giving strings or JSON or a tree, natively, for Python or for web clients) yields what "
     "parsing that text and analysing the result with the default analyzer yields, errors and locations included. A file yields what its contents yield, one that "
     "cannot be read an error, and a file name given with a text is the one its errors carry. An analyzer made without defaults knows no instruction but those "
     "registered; one made for an unsupported version is refused.",
     ["inputs"], "every program, file, file name, version and entry point",
     "The built tests call none of the entry points; two siblings that differ only for one kind of outcome look alike on any sample.",
     ["src/v3x/cqasm_python.cpp", "src/v3x/cqasm.cpp", "src/v3x/analyzer.cpp", "src/v3x/parse_helper.cpp", "emscripten/emscripten_wrapper.cpp"],
     [("V3xAnalyzer", "src/v3x/cqasm_python.cpp"), ("Analyzer::analyze_*", "src/v3x/analyzer.cpp"), ("EmscriptenWrapper", "emscripten/emscripten_wrapper.cpp")],
     note="Programs of eleven outcome classes, file names absent, empty, plain and with special characters, seven versions.")

prop("P15", "Every problem becomes an error of the result, never an exception",
     "Whatever is parsed or analysed, no exception leaves an entry point that returns a result: each problem, of whatever kind, is one of the result's errors and none "
     "is silently dropped. The only exceptions that leave the library are the refusal of an unsupported or malformed version, the documented parse error for a "
     "path at which no regular file can be found, and the documented failure of the entry points that return a tree.",
     ["inputs", "programs"], "every program text, syntactic tree and file, and every path on which an exception can be raised",
     "The built tests call no entry point; an exception of an unexpected class shows only for the rare input that raises it.",
     ["src/v3x/parse_helper.cpp", "src/v3x/analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/syntactic_analyzer.cpp", "include/libqasm/v3x/semantic_analyzer.hpp",
      "include/libqasm/v3x/resolver.hpp"],
     [("ParseHelper::parse", "src/v3x/parse_helper.cpp"), ("Analyzer::analyze", "src/v3x/analyzer.cpp"), ("SemanticAnalyzer::visit_block", "include/libqasm/v3x/semantic_analyzer.hpp")],
     tech="interprocedural exception-escape (effect) analysis and error-discipline rule over the resolved call graph",
     note="Exceptions raised explicitly, by constructors run through library functions, and by number, text and file-name conversions and questions; eight internal-invariant sites are listed with the property that excludes each; out of memory is excluded.")

prop("P17", "No kind of node is ever taken for another",
     "Every dynamically typed result is unpacked as the very type that every function able to produce it packs, for every kind of node of the trees and every "
     "alternative of the grammar. A node is used as a more specific kind, and an optional part of a construct used at all, only where it is known to be there, so no "
     "program makes the library fail on an unexpected node.",
     ["inputs"], "every function, every kind of node that can reach it and every alternative of the grammar",
     "A mismatch shows only for the one construct that reaches it, and the built tests reach none.",
     ["src/v3x/syntactic_analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp", "src/v3x/CqasmParser.g4"],
     [("SyntacticAnalyzer", "src/v3x/syntactic_analyzer.cpp"), ("SemanticAnalyzer", "src/v3x/semantic_analyzer.cpp"), ("type_of", "src/v3x/values.cpp")],
     tech="whole-program type-flow analysis of dynamically typed values and structured nullness dataflow",
     note="Complete over the functions, node classes and grammar alternatives; operands of registered constant functions have the registered types (P09, P10).")

prop("P26", "Parses and analyses share nothing that can change",
     "Independent parses and analyses, one after another or at the same time in different threads, do not influence each other: nothing they share is ever modified. "
     "The outcome depends on the program and the configuration alone, not on the time, the environment, memory addresses, an unspecified container order or which call "
     "came first.",
     ["schedules", "histories"], "every interleaving and every order of any number of independent parses and analyses",
     "Tests run one analysis at a time in one order; shared state needs particular sequences or threads to show.",
     ["src/v3x/instruction_set.cpp", "src/v3x/analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "include/libqasm/v3x/resolver.hpp", "include/libqasm/overload.hpp"],
     [("InstructionSet::get_instance", "src/v3x/instruction_set.cpp"), ("Analyzer", "src/v3x/analyzer.cpp")],
     tech="effect analysis: writes to objects of static storage, first-use initialisers, unordered iteration and environment calls over every function",
     note="Complete over the library's functions and static variables; a positive example of every rule is recognised on each run. One analyzer object used by two threads at once is outside.")

#MORE#

NA = [
    ("N01", "Serialized trees read back equal",
     "Serializing a tree and reading it back yields an equal tree, for C++ and Python readers alike.",
     ["inputs"], "every tree", "Only samples are round-tripped.", ["src/v3x/syntactic.tree", "src/v3x/semantic.tree"],
     [("generated serialization", "src/v3x/semantic.tree")],
     "the serializer and deserializer are emitted by the external tool tree-gen, whose output and source are absent here: there is no code of this repository to analyse (the hand-written key tables on both sides are decided by P23)"),
]


def main():
    out = []
    for p in P:
        out.append({k: v for k, v in p.items() if not k.startswith("_")})
    for i, t, s, o, q, w, f, m, _ in NA:
        out.append(dict(id=i, title=t, statement=s, quantifier={"over": o, "text": q}, why_tests_cant=w,
                        anchors={"files": f, "mechanism": [{"name": n, "where": x} for n, x in m]}))
    for p in out:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in out:
            fh.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]} for p in P],
           "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
           "notes": "No hooks: the checks read /repo's sources and never run them."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
