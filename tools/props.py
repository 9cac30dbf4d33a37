NOTES = ("Every check compiles /repo/src as it is in the working tree (no hooks, no patched copies) together with a harness from /verif/harness and "
         "enumerates a bounded space completely; see DESIGN.md. known_findings.txt lists repaired defects.")
NOT_APPLICABLE = {}
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                      technique=technique, note=note))

BFS = "explicit-state model checking: all operation sequences up to a depth on a reference model, each trace replayed on the real code and every observation compared"
TN = "Bounded exhaustive: nothing is claimed beyond the stated sizes. Trusted: the reference model in the harness, the Lua 5.2 runtime, the compiler. "

P("S01", "Objects bound to a scope are found exactly in that scope, innermost first",
  "typedb:get_instance returns, for every name and every current step, the object last assigned with set_instance to the innermost scope that contains the step (start inclusive, end exclusive), and nil if there is none, for every order of assignments in scopes that are nested or disjoint. typedb:this_instance returns exactly the object assigned to the current scope itself, or nil. An assignment to one scope or name changes what is found only for that name and only where that scope is the innermost one.",
  ["histories", "inputs"], "all sequences of assignments (names, scopes, order) and all steps and scopes to look from",
  "The tests run a fixed set of scopes and one random generator with one insertion order; the inverted scope list is order dependent and wrong links show only for particular insertion orders and lookups.",
  ["src/scope.hpp", "src/typedb.cpp", "src/typedb.hpp", "src/lualib_mewa.cpp"],
  [("ScopedInstance set/get with inverted upvalue tree", "src/scope.hpp"), ("set/getObjectInstance", "src/typedb.cpp")],
  ["mewa.typedb Lua API: set_instance, get_instance, this_instance"], BFS,
  TN + "Scopes of a 4 to 6 step universe (including empty and infinite ones), up to 4 assignments exhaustively and all orders of all laminar families, size sweeps up to 110 (thorough 200) scopes in 6 shapes and 3 orders. All sequences of up to 2 (thorough 3) definitions also at 8 other places of the range of steps (around 2^8, 2^15, 2^16, 2^24, 2^30, 2^31 and spread over it). Every lookup is also asked before the first and after every one of up to 2 (thorough 3) definitions, so that an answer given once cannot stand for later ones.")
P("S02", "Types are visible exactly in their scope; overloads and duplicates are exact",
  "A type defined with def_type is found by its context type and name at exactly the steps covered by its scope, and typedb:get_types/this_types list exactly the overloads (different parameter lists) of the definitions the documentation calls visible or local. def_type returns a new handle or, if the same name with the same parameter types is already defined with the same context type in the same scope, -1 and changes nothing. Handles, names, constructors, scopes and parameters of all types defined stay as they were defined.",
  ["histories", "inputs"], "all sequences of type definitions (scope, context, name, parameters, constructor) and all lookups",
  "Tests use a handful of definitions in one order; duplicates, overload chains and their interaction with scopes defined in other orders are not covered.",
  ["src/typedb.cpp", "src/typedb.hpp", "src/scope.hpp", "src/lualib_mewa.cpp", "src/lua_parameter.cpp"],
  [("TypeDatabase::defineType, overload chain", "src/typedb.cpp"), ("ScopedMap::getOrSet", "src/scope.hpp")],
  ["mewa.typedb Lua API: def_type, this_type, this_types, get_types, type_* attributes"], BFS,
  TN + "Up to 3 (quick) or 4 (thorough) definitions over 4 scopes, 3 contexts, 2 names, 6 parameter lists; up to 110 (400) scopes, overloads and names. All sequences of up to 2 (thorough 3) definitions also at 8 other places of the range of steps (around 2^8, 2^15, 2^16, 2^24, 2^30, 2^31 and spread over it). Every lookup is also asked before the first and after every one of the definitions of small cases, so that an answer given once cannot stand for later ones.")
P("S03", "Introspection trees show exactly the definitions and the scope nesting",
  "typedb:instance_tree, type_tree and reduction_tree return trees where every scope with a definition occurs exactly once, its parent is the smallest enclosing scope that has a definition (or the root [0,inf]), and its list holds exactly the definitions of that scope. Iterating over the children of a node terminates and can be repeated with the same result.",
  ["histories"], "all sequences of definitions in nested or disjoint scopes",
  "The tests print one tree; child iteration with several children, overloads and scopes inserted in other orders are not reached.",
  ["src/scope.hpp", "src/tree.hpp", "src/typedb.cpp", "src/lualib_mewa.cpp", "src/lua_userdata.hpp"],
  [("ScopeHierarchyTreeBuilder", "src/scope.hpp"), ("LuaTreeMetaMethods", "src/lualib_mewa.cpp")],
  ["mewa.typedb Lua API: *_tree with chld, scope, list, instance"], BFS,
  TN + "Up to 4 definitions exhaustively plus all laminar families of a small universe, trees of up to 110 (400) nodes in 6 shapes and 3 orders. All sequences of up to 2 (thorough 3) definitions also at 8 other places of the range of steps (around 2^8, 2^15, 2^16, 2^24, 2^30, 2^31 and spread over it). Up to 70000 scopes side by side and 70000 types in one scope; the trees of up to 3 definitions are also read between the definitions.")
P("S04", "A type alias stands for the aliased type and nothing else changes",
  "After typedb:def_type_as(context, name, type) the name denotes that type handle in the scope of the definition exactly like a type defined there, and def_type_as returns that handle. If the name is already defined with that context in that very scope it returns -1 and changes nothing, and defining a type with the name of an alias never alters the type the alias stands for.",
  ["histories"], "all sequences of type and alias definitions and lookups", "Tests define two aliases, none of them in conflict with anything.",
  ["src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp"], [("TypeDatabase::defineTypeAs", "src/typedb.cpp"), ("ScopedMap::set", "src/scope.hpp")],
  ["mewa.typedb Lua API: def_type_as, this_type, get_types"], BFS, TN + "Up to 4 definitions over 3 scopes, 2 contexts, 3 names, aliases in up to 70 (200) scopes. All sequences of up to 2 (thorough 3) definitions also at 8 other places of the range of steps (around 2^8, 2^15, 2^16, 2^24, 2^30, 2^31 and spread over it).")
P("S05", "Current scope and step are what was set last; refused calls change nothing",
  "typedb:scope and typedb:step return the current scope and step and set them to the arguments given, with the step defaulting to the last step of a new scope; getters do not change them, and setting the step does not change the scope. No other method changes them, a refused call (invalid arguments) changes nothing, and two typedb objects do not share them.",
  ["histories"], "all sequences of scope, step, other and refused calls on two typedb objects", "Tests only use the pattern of nested save and restore.",
  ["src/lualib_mewa.cpp", "src/lua_parameter.cpp"], [("mewa_typedb_scope, mewa_typedb_step", "src/lualib_mewa.cpp"), ("getArgumentAsScope", "src/lua_parameter.cpp")],
  ["mewa.typedb Lua API: scope, step"], BFS, TN + "Up to 4 (quick) or 5 (thorough) calls.")
P("T01", "Reductions are found exactly by scope, endpoints and tag",
  "typedb:get_reduction(to,from,tagmask) and get_reductions(from,tagmask) return, at every step, exactly the reductions visible there (scope contains the step, tag selected by the mask, all selected if the mask is absent), an inner definition for the same endpoints hiding outer ones, with the constructor, tag and weight they were defined with. A second definition of the same endpoints and tag in the same scope, an invalid tag (not 1..32), a negative weight and a reduction of a type to itself are refused with an error and change nothing.",
  ["histories", "inputs"], "all sequences of reduction definitions, all steps and masks", "Tests define reductions in one order with one or two tags.",
  ["src/scope.hpp", "src/typedb.cpp", "src/lualib_mewa.cpp", "src/lua_parameter.cpp"],
  [("ScopedRelationMap", "src/scope.hpp"), ("TypeDatabase::defineReduction/getReduction/getReductions", "src/typedb.cpp")],
  ["mewa.typedb Lua API: def_reduction, reduction_tagmask, get_reduction, get_reductions"], BFS,
  TN + "Up to 3 (quick) or 4 (thorough) definitions, all 32 tags in pairs, fan-out sweeps. All sequences of up to 2 (thorough 3) definitions also at 8 other places of the range of steps (around 2^8, 2^15, 2^16, 2^24, 2^30, 2^31 and spread over it). Every lookup is also asked before the first and after every one of the definitions of small cases, so that an answer given once cannot stand for later ones.")
P("T02", "Derivation of a type finds the cheapest path or reports ambiguity",
  "typedb:derive_type(to,from,tagmask,countmask,maxcount) returns the reductions of the path from 'from' to 'to' with the smallest weight sum among all loop free paths over visible reductions selected by tagmask, using at most maxcount (default 1, negative for no limit) reductions selected by countmask, and nothing if there is none. If two different paths share the smallest weight sum it reports the ambiguity instead of choosing one.",
  ["inputs", "histories"], "all weighted reduction graphs, all pairs of types, masks and count limits", "Tests cover a few graphs; shortest path search errors show only for particular weight combinations.",
  ["src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp"], [("TypeDatabase::deriveType, ReduQueue", "src/typedb.cpp")],
  ["mewa.typedb Lua API: derive_type"], "explicit-state model checking: every reduction graph up to a size, every query answered by enumerating all paths, compared with the real search",
  TN + "All graphs of 2 to 4 types with small weights, tags, scopes, zero weights and cycles; chains, stars and fans of up to 513 types, counts in chains of up to 300 (1100), every pair of the 32 tags as selection and count mask, graphs with scopes also at 8 other places of the range of steps. Every lookup is also asked before the first and after every one of the definitions of small cases, so that an answer given once cannot stand for later ones.")
P("T03", "Resolving a member finds the cheapest context type or reports ambiguity",
  "typedb:resolve_type(context,name,tagmask) returns the types named 'name' visible at the current step with a context type reachable from the context type (or from one of a list of context types or type-constructor pairs) over visible reductions selected by the tagmask, together with the cheapest path of reductions leading there. If two different solutions share the smallest weight sum the ambiguity is reported, and nothing is returned if there is no solution.",
  ["inputs", "histories"], "all reduction graphs with members, all context arguments", "Tests resolve a handful of members.",
  ["src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp", "src/lua_parameter.cpp"], [("TypeDatabase::resolveType", "src/typedb.cpp")],
  ["mewa.typedb Lua API: resolve_type"], "explicit-state model checking: every reduction graph with members up to a size, every query answered by enumerating all paths, compared with the real search",
  TN + "All graphs of 2 to 4 types with members in up to 3 contexts, two scopes, tags; chains, fans, overloads and context lists of up to 512 elements; every tag against every mask of one bit and of all but one; small graphs with scopes also at 8 other places of the range of steps. Every lookup is also asked before the first and after every one of the definitions of small cases, so that an answer given once cannot stand for later ones.")
P("T04", "Attributes of a type never change by later definitions",
  "type_name, type_string, type_context, type_scope, type_constructor, type_parameters and type_nof_parameters return for every type exactly what it was defined with, at any later time and however many types, reductions and objects have been defined since. An unknown handle is refused or answered with an empty result, never with data of another type.",
  ["histories"], "all sequences of definitions with references to earlier types, and size sweeps over internal growth thresholds", "Tests read attributes once, right after the definition.",
  ["src/typedb.cpp", "src/typedb.hpp", "src/lualib_mewa.cpp", "src/memory_resource.hpp"], [("TypeDatabase::type*", "src/typedb.cpp"), ("TypeRecord tables", "src/typedb.hpp")],
  ["mewa.typedb Lua API: type_*"], BFS, TN + "Up to 4 (quick) or 6 (thorough) definitions and size sweeps up to 20000 types.")
P("T05", "Different names are never confused, equal names always meet",
  "Two names given to the type database (of types or instances) denote the same item if and only if they are equal byte strings, whatever their length, content (including zero bytes and non ASCII bytes) and number, and names come back unchanged.",
  ["inputs"], "all pairs of short names over an alphabet with special bytes, all lengths up to beyond 64K, large numbers of names", "The random test uses short alphanumeric names only.",
  ["src/identmap.hpp", "src/typedb.cpp", "src/memory_resource.hpp"], [("IdentMap, IdentKey", "src/identmap.hpp")],
  ["mewa.typedb Lua API: def_type, get_types, set_instance, get_instance, type_name"], "exhaustive enumeration of name pairs against byte equality",
  TN + "All pairs over 5 bytes up to length 3, length sweep with a difference at every position, 64K boundary.")

ENUM = "explicit-state model checking: the product of all inputs up to a length with a reference model is enumerated completely, every trace replayed on the real code"
P("L01", "The lexer emits the longest match; keywords and first declarations win ties",
  "At every position of the source (after skipping whitespace) the lexer emits the longest match of all token patterns and keywords; a keyword wins a tie, else the pattern declared first; the value is the whole match or the selected subexpression, and the next token starts right after the match. This holds whatever the pattern starts with (optional parts, alternatives, any character, character sets), whatever characters a keyword consists of, and a definition that does not match never produces a token.",
  ["inputs"], "all token definitions built from small regular expressions and keywords, and all sources over their alphabet up to a length",
  "The tests tokenize two programs with one fixed lexer; which first characters a pattern is tried for, ties and partial matches depend on the combination of patterns and input.",
  ["src/lexer.cpp", "src/lexer.hpp"], [("LexemDef::activation, first characters of a pattern", "src/lexer.cpp"), ("Lexer::next", "src/lexer.cpp")],
  ["mewa::Lexer::next over mewa::Scanner (C++ API used by the tests)"], ENUM,
  TN + "Regular expressions of up to 3 elements with groups and alternatives, sources up to 4 (quick) or 5 (thorough) characters. Trusted: std::regex for patterns with repeated groups that can be empty (left out).")
P("L02", "Comments and ignored patterns vanish; bad characters and lines are exact",
  "Comments and matches of ignored patterns produce no token and do not change the tokens around them; a character that starts no token is reported as one error token with that (UTF-8) character as value, and an unclosed block comment as error token. Every token carries the number of the line it starts at, and the end of the source is reported exactly once, after all of it has been consumed.",
  ["inputs"], "all combinations of comment, ignore and token definitions, and all sources over their alphabet up to a length",
  "The tests have no ignored patterns, no errors and do not check line numbers; combinations of comments with tokens sharing their first characters are not covered.",
  ["src/lexer.cpp", "src/lexer.hpp", "src/utf8.hpp"], [("Lexer::next, Scanner::scan/next/match", "src/lexer.cpp")],
  ["mewa::Lexer::next over mewa::Scanner (C++ API used by the tests)"], ENUM,
  TN + "540 lexer definitions, sources up to 5 (quick) or 6 (thorough) pieces, all 255 byte values, up to 70000 lines, comment and token lengths. Comment starts that are prefixes of each other are left out (unspecified), bytes of value 0 too.")
P("L03", "Indentation tokens mirror the indentation of every line",
  "With %INDENTL every line with a visible token starts with one close token per indentation level left, an open token if it is indented deeper than the level then current, and a newline token; at the end of the source one close token is issued for every level still open. Blank lines and lines with nothing but comments produce no token, a tab counts as the configured number of spaces, and open and close tokens are balanced for every source.",
  ["inputs"], "all sequences of lines with all indentations, contents and missing end of line, up to a length",
  "The tests have two programs with regular indentation.", ["src/lexer.cpp", "src/lexer.hpp"],
  [("Scanner::getIndentToken, getEofIndentToken, indentCount", "src/lexer.cpp"), ("Lexer::next", "src/lexer.cpp")],
  ["mewa::Lexer::next over mewa::Scanner (C++ API used by the tests)"], ENUM,
  TN + "Up to 3 lines of 40 kinds, 4 lines of 15 kinds, 5 lines of 5 to 7 kinds (quick), one more each in thorough; nesting, width and number of blocks up to 530 (1100). Tokens after a comment at the start of a line are left out (unspecified).")

GEN = "explicit-state model checking: every grammar of bounded families and every input up to a length, the real generator and parser compared with an independent LALR(1) construction and reference derivations"
GF = ["src/automaton.cpp", "src/automaton_parser.cpp", "src/automaton_structs.hpp", "src/lua_load_automaton.cpp", "src/lua_run_compiler.cpp"]
P("G01", "The generated parser accepts exactly the language of its grammar",
  "For every grammar free of conflicts, the generated parser (mewa.compiler with the generated table) accepts an input if and only if it is a sentence of the grammar, and the functions called get the AST of its derivation: one node per production with a function, in the order of the source, with the non-keyword lexemes and nodes below as arguments, nodes of productions without function replaced by their content. An input that is no sentence is refused with a syntax error at the first token that cannot continue any sentence, and no function is called.",
  ["inputs"], "all conflict free grammars of bounded size and shape, all inputs up to a length", "The tests run a few fixed grammars on a few programs; errors in closures, lookaheads, state merging or goto tables show only for particular grammars and inputs.",
  GF, [("Automaton::build", "src/automaton.cpp"), ("feedLexem, luaRunCompiler", "src/lua_run_compiler.cpp"), ("luaLoadAutomaton", "src/lua_load_automaton.cpp")],
  ["mewa::Automaton::build/tostring, mewa.compiler, compiler:run, functions called"], GEN,
  TN + "Up to 5 nonterminals and right sides up to 4 symbols in 6 families (about 9000 conflict free grammars), inputs up to 4..8 tokens. Grammars with nonterminals that derive no sentence are left out.")
P("G02", "Grammar conflicts are reported exactly",
  "Building the automaton reports a conflict if and only if the LALR(1) automaton of the grammar has one: a state with a shift and a reduction, or with two reductions, on the same lookahead that is not settled by the priorities of the productions involved. Every grammar that is LALR(1), with productions that can be empty, recursion and nonterminals used in different contexts, is accepted without a report.",
  ["inputs"], "all grammars of bounded size and shape", "The tests build a handful of grammars; missing or spurious lookaheads show only for particular grammars.",
  ["src/automaton.cpp", "src/automaton_structs.hpp"], [("FIRST/FOLLOW sets, LR(1) closure, LALR merge, insertAction", "src/automaton.cpp")],
  ["mewa::Automaton::build: warnings"], GEN,
  TN + "About 62000 (thorough 372000) grammars in 6 families. Two defects are on record as known findings (a test pins the tables they produce): each has a reference model of its own, a deviation counts as known only if that model predicts it.")
P("G03", "Priorities settle conflicts by precedence and associativity",
  "A conflict between shift and reduction is settled by the priorities of the productions: the higher number wins, with equal numbers L prefers the reduction and R the shift, and everything else (priority missing, different associativity with the same number, inconsistent priorities of the shifts of a token) is reported as conflict; conflicts between reductions are always reported. The parser generated builds for every expression the tree precedence and associativity demand.",
  ["inputs"], "all assignments of priorities to the productions of a set of operator grammars, all inputs up to a length", "The tests use the priorities of one grammar.",
  ["src/automaton.cpp", "src/automaton_parser.cpp", "src/automaton_structs.hpp"], [("insertAction, getShiftNodes, getReductionDef", "src/automaton.cpp"), ("priority parsing", "src/automaton_parser.cpp")],
  ["mewa::Automaton::build: warnings; compiler:run, functions called"], GEN,
  TN + "27 operator grammars (binary, prefix, postfix, ternary, brackets, juxtaposition, dangling else, lists), 4 to 11 priorities per production, inputs up to 5..9 tokens; for binary operators the reference tables are themselves compared with precedence climbing.")
P("G04", "AST nodes carry call, arguments, lines, scope and step as specified",
  "Each function node has the call (name, function, argument object), the list of its sub nodes in source order, a line between its last token and the next, and either a scope (from the scope-step before its first token to the scope-step after the node) if marked {} or the scope-step, which is incremented by one by every production marked >> or {}. Functions of the root nodes are called in order with node, argument object if there is one and options if given; this holds for every nesting depth the Lua stack can hold, beyond it an error is reported.",
  ["inputs"], "all assignments of scope markers and call kinds to the productions of a set of grammars, all inputs up to a length, depth sweeps", "The tests show a few ASTs; lists of empty productions, marker combinations and deep nesting are not covered.",
  ["src/lua_run_compiler.cpp", "src/automaton_parser.cpp", "src/lua_load_automaton.cpp"], [("luaReduceStruct, feedLexem, luaCallNodeFunction", "src/lua_run_compiler.cpp")],
  ["compiler:run, functions called with their nodes"], GEN,
  TN + "8 grammars x all markers per production, 450 combinations of call kinds and options, right sides of 1 to 15 symbols, depth up to 1.2 million; inputs of up to 70000 (140000) tokens and lines and nesting up to 2100 compared completely. One defect on record (tests pin the scope numbers).")
P("G05", "Syntax errors name token, line and the tokens expected",
  "For an input that is no sentence of the grammar compiler:run raises a syntax error naming the offending token with its value, its line and the tokens expected. The list of expected tokens contains every token that can continue a sentence in the state where the error is detected and no token the parser would refuse there.",
  ["inputs"], "all conflict free grammars of bounded size, all inputs up to a length that are no sentences", "The tests contain no syntax error.",
  ["src/lua_run_compiler.cpp", "src/automaton.cpp", "src/error.cpp"], [("expectedTerminalList, tokenString", "src/lua_run_compiler.cpp")],
  ["compiler:run: error message"], GEN,
  TN + "The grammars and inputs of G01, errors after up to 70000 tokens and in lists of up to 36 tokens. One deviation on record (consequence of the findings of G02), counted as known only where the model of those defects predicts the list exactly.")
P("G06", "The generated Lua table means what the grammar says, whatever its literals",
  "The table mewa prints for a grammar is a Lua chunk that loads, and the parser made of it has exactly the tokens, keywords, comments, bad lexems, ignored patterns, indentation rules, functions and arguments declared in the grammar. This holds for every order of the statements of the grammar and for every content of its strings and patterns (quotes, backslashes, line breaks, UTF-8, brackets).",
  ["inputs"], "all orders of the statements of grammars with every kind of lexer statement, all short strings over the special characters at every place a string can occur",
  "The tests use grammars in the usual order with harmless literals; token numbers, priorities among patterns and quoting go wrong only for particular orders and contents.",
  ["src/automaton_tostring.cpp", "src/automaton_parser.cpp", "src/lua_load_automaton.cpp", "src/lexer.cpp", "src/mewa.cpp", "src/strings.cpp"],
  [("printLuaTable of the lexer and of the calls", "src/automaton_tostring.cpp"), ("luaLoadAutomaton", "src/lua_load_automaton.cpp"), ("printString", "src/strings.cpp")],
  ["mewa::Automaton::tostring, mewa.compiler, compiler:run, functions called"], GEN,
  TN + "5049 (thorough about 90000) grammars; strings up to 2 (3) characters of 14. Whether indentation tokens occur as leafs of the AST is not asserted.")
P("G07", "The grammar language: correct grammars accepted, the rest refused at the line",
  "A text is accepted as grammar if and only if it follows the syntax of the grammar definition language and has a meaning: every symbol defined, used and reachable, one start production, no duplicate production, no token defined as nonterminal. A refused one is reported with an error naming the line of the token in question, and what is accepted gives a table that can be loaded and run.",
  ["inputs"], "all short sequences of tokens of the grammar language in all its contexts, all single (thorough: double) edits of correct grammars", "The tests contain no incorrect grammar at all.",
  ["src/automaton_parser.cpp", "src/automaton.cpp", "src/error.cpp"], [("parseLanguageDef", "src/automaton_parser.cpp")],
  ["mewa::Automaton::build/tostring, mewa.compiler"], GEN,
  TN + "80000 (thorough 900000) texts against an independent recursive descent parser. Cases the documentation does not settle (strings equal to the name of a token, unproductive nonterminals) only have to behave orderly.")
P("G08", "Grammars at the limits work or are refused, tables never wrap around",
  "A grammar with sizes within the limits of the tables (255 nonterminals, 1023 terminals, 511 productions, 15 symbols per production, 4095 states, priorities up to 31) is accepted and its parser works for every production. One beyond a limit is refused with the error for that limit; no number ever wraps around to another symbol, state or priority.",
  ["inputs"], "all sizes around every limit in every dimension, all priority values and notations around powers of two", "The tests have no grammar near a limit.",
  ["src/automaton.cpp", "src/automaton.hpp", "src/automaton_parser.cpp", "src/automaton_structs.hpp", "src/lua_load_automaton.cpp"], [("complexity checks", "src/automaton.cpp"), ("convertStringToPriority", "src/automaton_parser.cpp"), ("packed keys and actions", "src/automaton.hpp")],
  ["mewa::Automaton::build/tostring, mewa.compiler, compiler:run"], "exhaustive enumeration of the sizes around every limit, every production of every table exercised by sentences of its own",
  TN + "14 families of grammars growing in one dimension, every size within 2 (thorough 6) of every limit.")
P("B02", "Every call of the Lua API is carried out or refused, never misread",
  "Every function of the Lua API accepts exactly the arguments its documentation allows (count, types, ranges) and refuses all others with an error message, never with a crash and never by truncating or reinterpreting a value. A call that is refused and a call that only reads leave the content of every typedb object as it was.",
  ["inputs", "configurations"], "all functions x all single, pairwise (thorough: all pairs, triples) substitutions of 80 kinds of values at every argument position and every number of arguments",
  "The tests call the API with correct arguments only.",
  ["src/lualib_mewa.cpp", "src/lua_parameter.cpp", "src/lua_parameter.hpp"], [("getArgumentAs*", "src/lua_parameter.cpp"), ("API functions, lippincottFunction", "src/lualib_mewa.cpp")],
  ["mewa Lua API: return or error, complete content of the typedb object through the API"], "exhaustive enumeration of argument vectors over a pool of values on the real library from a fixed state, verdict per call against a table of accepted arguments; second part with address and undefined behaviour sanitizers",
  TN + "47 functions, 84 kinds of values. Where the documentation leaves acceptance open (type handles not existing, numeric strings) either is accepted as long as refusal changes nothing.")
P("B03", "The output file is the template with the printed sections, byte for byte",
  "compiler:run writes the target template with every {section} replaced by what print and print_section put into it (nothing if that section was never printed, Source and Triple set from the file names), all other text of the template verbatim and substituted text not expanded again. Output and debug output go completely to the files or streams requested, and to nothing else.",
  ["inputs", "histories"], "all short sequences of print, print_section and debug calls x all templates x all kinds of output, all short templates over the special characters and names", "The tests print code for four programs with one template each.",
  ["src/lualib_mewa.cpp", "src/strings.cpp", "src/strings.hpp", "src/fileio.cpp"], [("mewa_compiler_run, print functions", "src/lualib_mewa.cpp"), ("template_format, mapTemplateKey", "src/strings.hpp")],
  ["compiler:run: output file, stdout, stderr, debug file"], "exhaustive enumeration of print histories and templates on the real library against a reference implementation of the substitution",
  TN + "56000 (thorough 776000) cases: histories of up to 3 (4) print calls, templates of up to 4 (5) pieces of 14, values, sections and templates of all sizes around powers of two up to 70000.")
P("B06", "A failed run leaves no trace: the next run and the globals are unaffected",
  "Whenever compiler:run fails (syntax error, error raised by a callback, missing or unwritable file) it raises an error with the original message, writes no output file, closes its debug file and restores the global print functions. The result of every later run, on the same or another compiler object and also for runs called by callbacks of other runs, is the one of a first run.",
  ["histories", "faults"], "all histories of up to 3 runs on 2 compilers with every kind of failure at every place, including runs nested in runs", "The tests run a compiler once, and never with an error.",
  ["src/lualib_mewa.cpp", "src/lua_run_compiler.cpp", "src/lua_userdata.hpp"], [("mewa_compiler_run, CompilerRunOutput, restorePrintFunctions", "src/lualib_mewa.cpp"), ("luaRunCompiler", "src/lua_run_compiler.cpp")],
  ["compiler:run: results, messages, globals, files"], "explicit enumeration of all histories of runs and failures up to length 3 on the real library, every step compared with the reference result of a first run",
  TN + "18000 (thorough 81000) histories.")
P("B04", "mewa.tostring gives a Lua expression that evaluates to the same value",
  "For every value made of strings, numbers, booleans and tables without cycles, with strings and finite numbers as keys, the string returned by mewa.tostring evaluates in Lua to an equal value. It depends only on the content, not on how the table came about or on meta tables; indentation adds white space outside of strings only; tables at the level given as maximum depth are replaced by '...' and everything above stays as it is. No nesting and no circular reference crashes it.",
  ["inputs", "histories"], "all short strings, numbers over all exponents, sets of keys in all orders of insertion and removal, trees of tables, all depths",
  "The tests use it for printing a few small tables with identifiers as keys.",
  ["src/lua_serialize.cpp", "src/lua_serialize.hpp", "src/lualib_mewa.cpp"], [("serializeLuaTable, serializeNumber, encodeCString", "src/lua_serialize.cpp"), ("mewa_tostring", "src/lualib_mewa.cpp")],
  ["mewa.tostring, read back with load"], "exhaustive enumeration of values and histories of insertion on the real library, Lua itself as inverse function",
  TN + "All strings up to 2 bytes (3 bytes over the special ones), numbers with 8 mantissas over all binary exponents and all around the integers, sets of up to 3 (4) of 22 keys in all orders, insertion histories of length 5 (6); lists, maps (up to 4098 elements, thorough 70000), strings and keys (up to 70000 bytes) of all sizes around powers of two.")
P("B05", "Numbers for LLVM IR denote exactly the float or double meant",
  "mewa.llvm_double_tohex returns the hexadecimal IEEE 754 representation of the number; mewa.llvm_float_tohex returns the representation, as double, of the nearest 32 bit float (ties to even, overflow to infinity). NaN stays NaN in a form a float can hold.",
  ["inputs"], "all 2^32 floats (thorough), the doubles between neighbouring floats, boundary patterns of doubles with every upper half", "The tests use a few constants.",
  ["src/lualib_mewa.cpp"], [("mewa_llvm_float_tohex, mewa_llvm_double_tohex", "src/lualib_mewa.cpp")], ["mewa.llvm_float_tohex, mewa.llvm_double_tohex"],
  "exhaustive enumeration of all 32 bit floats (quick: all upper halves with a stride) on the real function against rounding by integer arithmetic",
  "All floats in the thorough tier, 17 million in the quick tier; of the doubles only those around the middle between two floats and boundary patterns. Trusted: the Lua 5.2 runtime, the compiler.")
P("G09", "The language description lists the whole grammar once, annotated",
  "mewa -l prints a Lua expression that loads and lists every declaration of the grammar exactly once with all its parts: tokens with pattern, keywords, comments, ignored patterns, indentation rules, and the productions in the order of the grammar with scope marker, priority and the name of the function with its arguments. Attributes given in a comment belong to exactly the declaration following it, with their values unchanged; the reserved names and names that are no Lua names are refused or written so that the table still loads.",
  ["inputs"], "all sequences of declarations, comments with attributes and layout up to a length, all short attribute names and values over the special characters", "The tests print the description of three grammars whose attributes are all regular.",
  ["src/languagedef_tostring.cpp", "src/automaton_structs.cpp", "src/automaton_parser.cpp", "src/mewa.cpp"],
  [("printLanguageDefToLua", "src/languagedef_tostring.cpp"), ("LanguageDecorator parser and map", "src/automaton_structs.cpp"), ("parseLanguageDef", "src/automaton_parser.cpp")],
  ["mewa::Automaton::tostring of the language definition, read back by Lua"], GEN,
  TN + "Quick about 60000, thorough 800000 grammars. One finding on record: an attribute is also attached to the other declarations on the same line.")
P("G10", "A compiler accepts the tables mewa prints and does exactly what its table says",
  "mewa.compiler accepts every table printed by mewa -g, whatever the order its members were inserted in and from every version with the same major number, and refuses with an error text, leaving nothing behind, whatever is none: a missing, malformed or higher version (named in the text), members and entries of the wrong type, lists with holes, incomplete token and call definitions, keys and values of the action and goto tables that are no packed entries. A compiler made from a table makes exactly the moves written in the table: it shifts, reduces, calls the functions and accepts as the entries say, with or without debug output, and entries leading nowhere or referring to nothing end in an error, never in a crash, an endless loop or another parse.",
  ["inputs"], "every member and entry of the tables of four grammars removed, renamed or replaced by every value of a pool, every field of every packed entry with every value in and around its range, pairs of these, all insertion orders reversed, all run on a set of inputs of every grammar", "The tests load only the tables mewa just printed.",
  ["src/lua_load_automaton.cpp", "src/lua_run_compiler.cpp", "src/automaton.hpp", "src/lualib_mewa.cpp"],
  [("luaLoadAutomaton", "src/lua_load_automaton.cpp"), ("luaRunCompiler, feedLexem", "src/lua_run_compiler.cpp"), ("Action::unpack, ActionKey::unpack", "src/automaton.hpp"), ("mewa_new_compiler", "src/lualib_mewa.cpp")],
  ["mewa.compiler, tostring(compiler), compiler:run with and without debug output, trace of the functions called with the tree passed"],
  "exhaustive enumeration of tables at a distance of up to two changes from printed ones, each loaded by the real module (built with address and undefined behaviour sanitizer), the runs compared with an interpreter of the packed tables written for the check",
  "Quick about 43000 tables, thorough about 250000. Runs the interpreter predicts to be endless (a damaged table can say so) are not executed. Tables with numbers in the place of strings and unknown members may be accepted or refused. Trusted: mewa::Lexer (properties L01 to L03), the Lua 5.2 runtime, the sanitizers.")
P("C01", "Success is reported only when everything was read and written",
  "Program and library report success (exit status 0, compiler:run returning) only if every input was read completely and every output, also the debug output and standard output, is completely on its file. Whenever a file cannot be opened, read or written, at whatever byte the error occurs, the exit status is not 0 or an error is raised, with a message naming the file and the reason.",
  ["faults", "inputs"], "every byte at which writing can fail (file size limit, full device) for every command and every sink, every kind of unreadable file, all sizes around the multiples of the buffer size", "The tests never let a file operation fail.",
  ["src/fileio.cpp", "src/mewa.cpp", "src/lualib_mewa.cpp"], [("writeFile, readFile", "src/fileio.cpp"), ("main", "src/mewa.cpp"), ("mewa_compiler_run", "src/lualib_mewa.cpp")],
  ["exit status, standard error, content of files of the mewa program and of Lua programs using the module"],
  "fault injection enumerated exhaustively: every limit on the file size from 0 to the size of the output, every kind of failing path, on the real program and library in processes of their own",
  TN + "Faults are the ones the kernel gives by RLIMIT_FSIZE, /dev/full, directories and missing files. A failing close alone and crashes of the machine (no fsync is promised) are outside.")
P("C02", "Every command line is carried out as documented or refused untouched",
  "Every combination of options, option spellings and arguments of the mewa program is carried out as its usage text says or refused with a message, an exit status not 0 and no file created or changed. A template given is printed with every occurrence of its keys replaced by the table and everything else verbatim, generated scripts work as compilers, and stubs generated load and define exactly the functions the grammar calls.",
  ["inputs", "configurations"], "all command lines up to a number of arguments over all options in all spellings, all templates of a number of pieces, all sets of function names up to a size",
  "The tests call the program with a handful of fixed command lines.",
  ["src/mewa.cpp", "src/automaton_parser.cpp", "src/strings.cpp"], [("parsing of options, mapTemplate", "src/mewa.cpp"), ("printing of stubs", "src/mewa.cpp")],
  ["exit status, output and files of the mewa program"], "exhaustive enumeration of command lines on the real program against a reference interpretation of the usage text",
  TN + "Quick 24000, thorough 445000 command lines and templates, templates with every piece repeated up to 100000 times and stubs with up to 500 functions.")
P("C03", "A call that runs out of memory fails as a whole and leaves nothing behind",
  "Whenever an allocation of memory fails during a call of the library, at whatever allocation and whether or not the following ones fail too, the call either succeeds with its full result or fails with an error reporting the lack of memory. After a failed call every object is as before the call, the repeated call gives the result of a first one, no memory is lost, no output file remains, and the program is never aborted.",
  ["faults", "histories"], "every allocation of every call after all short histories of definitions, a single failing allocation and failing of all allocations from there on, tables filled to their capacity",
  "The tests never run out of memory.",
  ["src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp", "src/lua_userdata.hpp", "src/identmap.hpp", "src/memory_resource.hpp", "src/automaton.cpp", "src/lua_serialize.cpp"],
  [("define functions of TypeDatabase", "src/typedb.cpp"), ("ScopedMap, ScopedRelationMap, ScopedInstance", "src/scope.hpp"), ("lippincottFunction", "src/lualib_mewa.cpp")],
  ["Lua API of typedb, compiler, module functions; mewa::TypeDatabase; mewa::Automaton::build"], "fault injection enumerated exhaustively: every allocation of every call of a bounded space of histories made to fail on the real code, the state compared with the one before the call and with the one of a run without failure",
  TN + "Single calls after histories of up to 1 (thorough 2) mutating calls through Lua and 2 (3) on mewa::TypeDatabase. Failures inside the allocator of Lua itself are injected too, but there only result and state are compared, not the balance of memory. Automata of 6 grammars. Quick about 240000 failures.")
P("E01", "Error messages keep code, location and argument on all their ways",
  "Every error is a text with its code, message, location and argument (#code \"message\" at line N in file \"F\": argument), and copying, throwing, relocating and parsing it yields the same parts again. An error raised in a callback arrives at the caller of compiler:run through any number of nested runs: a message of Mewa with its code, location and argument unchanged, any other text complete as argument of a Lua runtime error, with the place of the header of the failing function in front if it is an error of the Lua VM in a source not named *.lua.",
  ["inputs", "histories"], "all error codes with all lines, file names and arguments of a pool through all ways of up to 3 steps, all short texts to parse, all messages raised in callbacks through all sequences of up to 4 kinds of nested runs",
  "The tests print ten messages.",
  ["src/error.cpp", "src/error.hpp", "src/lualib_mewa.cpp", "src/lua_run_compiler.cpp"], [("Error, parseError, map2string", "src/error.cpp"), ("lippincottFunction", "src/lualib_mewa.cpp"), ("callLuaNodeFunction", "src/lua_run_compiler.cpp")],
  ["mewa::Error, errors raised by the functions of the Lua module"], GEN,
  TN + "Arguments up to 511 characters (a longer string_view is cut), file names without quotes up to 79 characters, messages without NUL.")
P("B01", "Values given to a typedb come back identical and stay alive with it",
  "Every Lua value except nil given to a typedb as instance, constructor of a type, of a type parameter or of a reduction comes back from every function returning it as the very same value, however many definitions and garbage collections come in between. Trees taken from a typedb keep their content when it is changed or collected. Typedb objects share nothing, and closing the Lua state releases all memory of the library without access to freed memory.",
  ["histories"], "all histories up to a length of definitions with all kinds of values, trees taken, reduced to leafs and dropped, typedb objects replaced and garbage collections, on two typedb objects",
  "The tests use one typedb object, few kinds of values and never collect garbage.",
  ["src/lualib_mewa.cpp", "src/lua_userdata.hpp", "src/lua_parameter.cpp", "src/lua_object_reference.hpp", "src/typedb.cpp"], [("mewa_typedb_userdata_t, shared_ptr, tree user data", "src/lua_userdata.hpp"), ("getArgumentAsConstructor, push functions", "src/lua_parameter.cpp"), ("LuaTreeMetaMethods", "src/lualib_mewa.cpp")],
  ["typedb API, collectgarbage, lua_close"], "explicit enumeration of all histories up to a bounded length on the real library, every value compared by identity with what was given after every step; second part with address sanitizer",
  TN + "Quick 25000, thorough 277000 histories; two typedb objects, two scopes. Values are referenced in the Lua registry until the state is closed; that they are never released earlier is not asserted as a defect.")
P("B07", "Objects, Lua threads and Lua states do not influence each other",
  "What a sequence of calls on its own objects (typedb, compiler, module functions) returns, writes and raises does not depend on what happens to other objects in between: not when the calls are made alternately, in coroutines, in other Lua states of the same process, or from inside a callback of the other one's compiler run. No call keeps a result, a buffer, an error or a list in a place shared with another object.",
  ["schedules", "histories"], "all interleavings with a bounded number of switches of all pairs of programs over the operations of the library, on the main Lua thread, in coroutines, in separate Lua states, and nested in a callback", "The tests run one thing after the other on one Lua thread.",
  ["src/lualib_mewa.cpp", "src/lua_userdata.hpp", "src/lua_run_compiler.cpp", "src/lua_parameter.cpp", "src/lua_serialize.cpp"],
  [("functions of the module", "src/lualib_mewa.cpp"), ("luaRunCompiler", "src/lua_run_compiler.cpp"), ("typedb, tree and compiler user data", "src/lua_userdata.hpp")],
  ["results, output files, error texts of all functions of the module"],
  "stateless exploration of all interleavings of two programs on the real library up to a bound of switches, the observations of each compared with those of the program run alone",
  TN + "Switches happen between calls of the library and in its callbacks; native threads are outside, as Lua states are not used from two of them and the library has no locking. Programs of up to 7 operations, quick 3, thorough 4 switches.")
P("B08", "A stack trace lists the active Lua functions with their place and name",
  "mewa.stacktrace returns, from the function calling it outwards and up to the first function not written in Lua, one element for every active function: the path of its source, the line of its header and the name written there. Functions from sources that are not files or not readable any more are listed without a name, main chunks without line and name. Functions with a name containing one of the strings to ignore are left out, and the depth limits the number of elements returned.",
  ["inputs", "histories"], "all chains of calls up to a length over all kinds of functions and sources, with all depths and lists of names to ignore", "The tests never call mewa.stacktrace.",
  ["src/lua_parameter.cpp", "src/lualib_mewa.cpp", "src/fileio.cpp"],
  [("pushStackTrace", "src/lua_parameter.cpp"), ("mewa_stacktrace", "src/lualib_mewa.cpp"), ("readFileLines", "src/fileio.cpp")],
  ["mewa.stacktrace"], "exhaustive enumeration of all chains of calls of a bounded length on the real function, the stack known from the chain",
  TN + "Chains of 3 (4) calls over 27 kinds of functions, longer ones by repetition. One function per line; local and anonymous functions only have to contain their name. Trusted: the Lua 5.2 runtime.")
P("G11", "The dump of the generator describes the automaton it prints",
  "The debug output of the generator (mewa -d, -V) lists the lexems, nonterminals, productions and function calls of the grammar completely and in order, LR(0) and LALR(1) states in which every state is the closure of its core and every transition leads to the state with the item advanced, and an action and goto table that are exactly those of the compiler printed; every entry of them comes from an item of the state listed, and every item has its entry unless a conflict settled or reported took it away. Asking for debug output, or for a part of it, never changes the compiler or the warnings.",
  ["inputs"], "all small grammars with and without conflicts, with priorities, scope markers and calls, each with every part of the output alone and all together, all sets of definitions of the lexer, calls of every length", "The tests compare the dump of two grammars.",
  ["src/automaton.cpp", "src/automaton_structs.cpp"],
  [("printLr0States, printLalr1States, printStateTransitions", "src/automaton.cpp"), ("Automaton::build", "src/automaton.cpp"), ("ProductionDef::prodstring, tostring", "src/automaton_structs.hpp")],
  ["mewa::Automaton::build with debug output, mewa::Automaton"], "explicit check of all states and transitions of every automaton dumped, for all grammars of a bounded size, against the grammar and the real table",
  TN + "Quick about 28000 grammars. Grammars that contain the same production twice are only checked in part; of several reductions in conflict only one has to be shown.")
P("G12", "The automaton depends on what the grammar says and on nothing else",
  "Building the automaton of a grammar gives the same table, warnings, errors and debug output every time, whatever was built before and whatever the memory holds. White space, line breaks and comments between any two tokens, the kind of quotes of a string, = or the arrow, writing or leaving out the epsilon, alternatives or several productions, and the place of the language commands make no difference; other names for nonterminals, tokens and functions only change the names in the result.",
  ["inputs", "histories"], "all small grammars with and without conflicts, with priorities, scope markers and calls, in every one of a set of layouts at every place, notations, renamings and states of the memory", "The tests have each grammar in one form, built once by one process.",
  ["src/automaton_parser.cpp", "src/automaton.cpp", "src/automaton_structs.cpp", "src/automaton_tostring.cpp", "src/lexer.cpp"],
  [("parseLanguageDef", "src/automaton_parser.cpp"), ("Automaton::build", "src/automaton.cpp"), ("Automaton::tostring", "src/automaton_tostring.cpp")],
  ["mewa::Automaton::build, tostring, debug output"], "exhaustive enumeration of grammars and of their rewritings by rules that keep the meaning, the products of the real generator compared byte by byte",
  TN + "Line numbers in messages are left out of the comparison where the layout differs. Rewritings are applied one at a time.")
P("B09", "The debug output of a run lists what the compiler did",
  "With a debug output given, compiler:run writes every move of the compiler in order: tokens shifted with name, value, line, state and next state, reductions with number of elements, nonterminal, lookahead, function called and next state, the token an error was found at, the functions called for the nodes of the tree with their results. Asking for it changes neither the result nor the error of the run.",
  ["inputs"], "all small grammars with scope markers, calls and priorities, every one run on all inputs up to a length, valid or not, with and without debug output", "The tests compare the debug output of a few valid programs with the state numbers removed.",
  ["src/lua_run_compiler.cpp"], [("printDebugAction, printDebug", "src/lua_run_compiler.cpp"), ("luaRunCompiler, luaCallNodeFunction", "src/lua_run_compiler.cpp")],
  ["compiler:run with debug output"], "exhaustive enumeration of grammars and inputs up to a size on the real compiler, the listing compared with that of an interpreter of the table",
  TN + "Inputs of up to 5 tokens. One finding on record: the first move at the end of the input is not listed (pinned by the tests of the repository).")
