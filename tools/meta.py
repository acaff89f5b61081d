#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run after editing; both files are committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/lexy/"
def p(id, title, statement, over, qtext, why, files, mech):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": [f if "/" in f and f.startswith(("include", "src")) else I + f for f in files],
                        "mechanism": [{"name": n, "where": w} for n, w in mech]}}
D = "dsl/"
PROPS = [
p("C01", "Control-flow rules consume, report and produce exactly what they document",
  "Sequences, branches, choices, optionals, loops, repetitions, lists with every kind of separator, productions, captures, positions and early returns consume exactly the input their documented meaning prescribes, take the branch whose condition matches, produce their values in order, and report the documented error at the documented position otherwise. This holds for match, validate, parse, parse_as_tree and trace alike.",
  ["programs", "inputs"], "every grammar built from the control-flow rules, every input", "the tests fix a few inputs per rule and rarely nest rules; the meaning must hold for all compositions and inputs",
  [D+"sequence.hpp", D+"branch.hpp", D+"choice.hpp", D+"option.hpp", D+"if.hpp", D+"loop.hpp", D+"list.hpp", D+"separator.hpp", D+"times.hpp", D+"repeat.hpp", D+"production.hpp", D+"capture.hpp", D+"position.hpp", D+"return.hpp", D+"terminator.hpp", D+"brackets.hpp"],
  [("continuation passing rule parsers", I+D+"base.hpp"), ("branch parsers try_parse/cancel/finish", I+D+"branch.hpp"), ("list and separator state machines", I+D+"list.hpp")]),
p("C02", "All actions agree on whether and how an input parses",
  "For every production and input, match succeeds exactly when validate reports no error, parse and parse_as_tree report the same errors in the same order with the same contexts as validate, and a result has a value (or a non-empty tree) exactly when it is a success or recovered from all its errors. A trace shows the same tokens, productions, errors, backtracking and recovery, at their lines and columns.",
  ["programs", "inputs"], "every production, every input, every action", "each test exercises one action on its inputs; agreement is a relation between runs of different actions over all inputs",
  ["action/base.hpp", "action/match.hpp", "action/validate.hpp", "action/parse.hpp", "action/parse_as_tree.hpp", "action/trace.hpp"],
  [("event handlers", I+"action/base.hpp"), ("handlers of each action", I+"action/")]),
p("C03", "Error recovery resumes at the documented place and never loses or repeats input",
  "try_, find, recover, terminators, brackets and lists with terminators report every failure once, skip exactly up to the documented synchronisation point or limit, resume there, and produce the values of what was parsed; recovery always terminates. A parse that recovered from every error is reported as recovered and has a value, otherwise it is reported as a fatal error.",
  ["programs", "inputs"], "every grammar with recovery rules, every malformed input", "malformed inputs are unbounded and the tests contain a handful per rule",
  [D+"recover.hpp", D+"error.hpp", D+"terminator.hpp", D+"brackets.hpp", D+"list.hpp", "action/base.hpp"],
  [("recovery rules", I+D+"recover.hpp"), ("list with terminator state machine", I+D+"list.hpp")]),
p("C04", "A parse tree is a lossless, well-formed image of the parse",
  "The tree built by parse_as_tree has the root production as root, nests productions as they were parsed, contains every token consumed in input order, and the tokens tile the parsed input without gap or overlap up to the remaining input; empty productions hold a position token, transparent productions are merged into their parent and cancelled branches leave no trace. Size and depth equal the number and the maximal level of its nodes, however large the tree is and however often the tree object is re-used.",
  ["programs", "inputs", "histories"], "every grammar, every input, every tree size, every re-use of a tree object", "block boundaries of the node buffer, deep unwinding and re-use are reached only by particular sizes and histories",
  ["parse_tree.hpp", "action/parse_as_tree.hpp"],
  [("node buffer with blocks and unwinding", I+"parse_tree.hpp"), ("tree builder", I+"parse_tree.hpp"), ("tree handler", I+"action/parse_as_tree.hpp")]),
p("C05", "Automatic whitespace skipping happens exactly where it is documented to happen",
  "Whitespace of the innermost production that defines it is skipped at its start and after every token, token productions and no_whitespace rules suppress it inside and resume it afterwards, also after failures and recovery, and explicit whitespace rules skip as much as they match. Skipped whitespace is a whitespace token of trees and traces and never changes a captured lexeme.",
  ["programs", "inputs"], "every nesting of whitespace, token productions and no_whitespace, every input", "the tests cover single rules; the state of the skipper after failures and nesting is a history property",
  [D+"whitespace.hpp", D+"production.hpp", "action/base.hpp"],
  [("whitespace rule and control block", I+D+"whitespace.hpp"), ("token productions", I+D+"production.hpp")]),
p("C06", "Literals, literal sets, keywords and case folding match exactly their text",
  "A literal matches exactly when its code units come next, a literal set matches the longest of its literals that comes next, a keyword or follow restriction additionally requires that no forbidden character follows, and case folding compares folded code points. On a mismatch nothing is consumed beyond the common prefix, and the error names the expected text and the exact place of the mismatch; this holds in every encoding and for literals of every length.",
  ["programs", "inputs", "configurations"], "every literal, set and keyword, every input, every encoding, folded or not", "matching is vectorised and compiled into tries, so that lengths, common prefixes and code unit sizes matter; tests use a few short ones",
  [D+"literal.hpp", D+"identifier.hpp", D+"follow.hpp", D+"case_folding.hpp", "_detail/swar.hpp"],
  [("SWAR literal matching", I+D+"literal.hpp"), ("literal trie", I+D+"literal.hpp"), ("case folding readers", I+D+"case_folding.hpp")]),
p("C07", "Identifiers, reserved words and symbol tables classify maximal munches",
  "An identifier is the longest run of its leading and trailing character classes and produces exactly that lexeme; it is rejected as a branch, or reported as reserved and still produced, exactly when it is, begins with, ends with or contains a reserved word as declared. A symbol is matched by the longest entry of its table, or by the entire token or identifier it is restricted to, and produces that entry's value.",
  ["programs", "inputs"], "every identifier definition, set of reserved words and symbol table, every input", "interaction of prefixes, reserved words and maximal munch over all inputs",
  [D+"identifier.hpp", D+"symbol.hpp", D+"literal.hpp"],
  [("identifier with predicates", I+D+"identifier.hpp"), ("symbol table trie", I+D+"symbol.hpp")]),
p("C08", "Character classes accept exactly their code points",
  "Every predefined ASCII and Unicode class, literal class, range, set, and every union, complement, difference and intersection of them accepts a code point exactly when its definition contains it, consumes exactly that code point's code units, and otherwise consumes nothing and reports the class's name. Malformed code units are in no Unicode-aware class.",
  ["inputs", "programs"], "every code point and code unit sequence, every class expression, every encoding", "there are 1.1 million code points and unboundedly many class expressions; tests sample a few characters per class",
  [D+"char_class.hpp", D+"ascii.hpp", D+"unicode.hpp", "code_point.hpp", "_detail/unicode_database.hpp"],
  [("ASCII set compilation", I+D+"char_class.hpp"), ("set algebra", I+D+"char_class.hpp")]),
p("C09", "Decoding and encoding of code points follow the Unicode standard",
  "In UTF-8, UTF-16 and UTF-32, a well-formed code unit sequence decodes to its scalar value and is consumed entirely, an ill-formed one is reported as such without ever consuming a code unit of what follows it, and encoding a code point and decoding it again gives the code point back. The code_point rule, its category restrictions, byte-order marks and code_point_id behave accordingly.",
  ["inputs"], "every code unit sequence of every encoding", "exhaustive over sequences of up to four code units is far beyond hand-written tests",
  ["_detail/code_point.hpp", D+"code_point.hpp", "code_point.hpp", D+"bom.hpp"],
  [("encode/parse/recover code point", I+"_detail/code_point.hpp"), ("code point tokens", I+D+"code_point.hpp")]),
p("C10", "Digits and integers convert exactly or report overflow",
  "digits and n_digits match exactly the documented digit sequences in every base, with separators and leading-zero rules, and integer produces the exact value of the digits whenever it is representable and reports an overflow, and recovers, exactly when it is not. Signs and the integer callbacks keep that exactness.",
  ["inputs", "programs"], "every digit string, base, integer type and bound", "boundary values of every type and base, with and without separators",
  [D+"digit.hpp", D+"integer.hpp", D+"sign.hpp", "callback/integer.hpp"],
  [("bounded/unbounded integer parser", I+D+"integer.hpp"), ("digit matchers, SWAR digits", I+D+"digit.hpp")]),
p("C11", "Delimited rules split content and escapes without losing a character",
  "delimited and quoted rules hand every character between the delimiters to the sink exactly once, in order, with escape sequences replaced by their values, stop at the first unescaped closing delimiter and report invalid characters, invalid escapes and a missing delimiter at their exact place. No whitespace is skipped inside, whatever the length of the content.",
  ["programs", "inputs"], "every delimiter, character class, escape definition and content", "content is unbounded and is scanned in vectors; positions of escapes relative to vector boundaries matter",
  [D+"delimited.hpp"], [("delimited loop and SWAR skipping", I+D+"delimited.hpp"), ("escape branches", I+D+"delimited.hpp")]),
p("C12", "Operator expressions associate and nest as declared",
  "For every declaration of operators and operands, an expression parses into the unique grouping given by declared precedence, associativity (left, right, single, list) and kind (prefix, postfix, infix), and values, tree nodes and events reflect that grouping. Unchainable or incompatible operators and excessive nesting are reported where they occur, and never change the grouping of what precedes them.",
  ["programs", "inputs"], "every operator table, every token sequence", "number of operator sequences grows exponentially; the tests have a few per operator kind",
  [D+"expression.hpp", D+"operator.hpp"], [("expression parser", I+D+"expression.hpp"), ("operator tables", I+D+"operator.hpp")]),
p("C13", "Context variables and recursion depth follow scope, whatever fails",
  "A context flag, counter or identifier is visible from its creation to the end of its scope, operations act on the innermost one of that name, and failures, recovery and backtracking leave outer variables as specified. Recursion is limited to the declared depth exactly, and leaving a production, successfully or not, gives its depth back.",
  ["programs", "inputs", "histories"], "every nesting of scopes, operations and failures", "requires interleavings of creation, failure and recovery that tests do not sample",
  [D+"context_flag.hpp", D+"context_counter.hpp", D+"context_identifier.hpp", D+"production.hpp", "action/base.hpp"],
  [("context variable stack", I+"action/base.hpp"), ("depth handling", I+D+"production.hpp")]),
p("C14", "Look-ahead and searching never consume and always decide correctly",
  "peek, peek_not and lookahead decide exactly whether their rule or the first of their tokens comes next and leave the input where it was, until consumes up to and including the first occurrence of its token, any consumes the rest, eof and eol match exactly at the end or at a newline. Failures report the documented range.",
  ["programs", "inputs"], "every condition, every input", "first occurrence and limits over all inputs",
  [D+"peek.hpp", D+"lookahead.hpp", D+"until.hpp", D+"any.hpp", D+"eof.hpp", D+"newline.hpp"],
  [("look-ahead parsers", I+D+"lookahead.hpp"), ("until with SWAR", I+D+"until.hpp")]),
p("C15", "A parse depends on the characters only, not on the input they come from",
  "The same characters give the same result from a string, a range, a buffer, an argv input, a lexeme or a parse tree, whatever the optimisations of that input, and whatever memory follows it. No action reads outside the input.",
  ["inputs", "configurations"], "every grammar, every character sequence, every kind of input", "two inputs have to be compared on all contents, under a memory checker",
  ["input/base.hpp", "input/buffer.hpp", "input/string_input.hpp", "input/range_input.hpp", "input/argv_input.hpp", "input/lexeme_input.hpp", "input/parse_tree_input.hpp", "_detail/swar.hpp"],
  [("range reader and SWAR reader", I+"input/base.hpp"), ("sentinel buffer", I+"input/buffer.hpp")]),
p("C16", "Buffers own exactly the characters they were given, in their encoding",
  "A buffer holds exactly the characters it was built from, through copies, moves, assignments and conversions between byte orders and code unit sizes, followed by the end sentinel; it allocates and releases its memory exactly once. make_buffer_from_raw honours the requested encoding and endianness and removes a byte-order mark only where documented.",
  ["inputs", "histories"], "every content, every sequence of buffer operations", "histories of copies, moves and assignments of buffers of all sizes",
  ["input/buffer.hpp"], [("buffer builder and assignment", I+"input/buffer.hpp"), ("byte order conversion", I+"input/buffer.hpp")]),
p("C17", "Reading a file gives all of its bytes or an error",
  "read_file and read_stdin give a buffer with exactly the bytes available, whatever the size of the file, whether it is regular or a pipe, and however the reads are split; a file that cannot be opened, or an error while reading, is reported as the corresponding error and never as a shorter input.",
  ["inputs", "fault_sequences", "configurations"], "every file size, every kind of file, every sequence of short reads", "short reads and sizes around buffer growth are not in the tests",
  ["input/file.hpp", "src/input/file.cpp"], [("file reader with mmap and stdio fallback", "src/input/file.cpp")]),
p("C18", "Input locations and line annotations are exact",
  "The location of a position is its line (counting newlines before it) and its column in the unit counted, no matter from which earlier anchor it is computed; the location of an iterator is never after it. Line annotations split the line around the reported range without losing or duplicating a character.",
  ["inputs"], "every input, every position, every anchor, every counting unit", "all positions of all inputs, including in the middle of newlines and code points",
  ["input_location.hpp"], [("location computation", I+"input_location.hpp"), ("line annotation", I+"input_location.hpp")]),
p("C19", "Binary formats are read byte- and bit-exactly",
  "bytes, fixed-width little and big endian integers, bit patterns and padding match exactly the bytes they describe, produce exactly the encoded integer and report missing or mismatching bytes at the right place.",
  ["inputs", "programs"], "every byte sequence, every width and byte order, every bit pattern", "all byte values and truncations",
  [D+"byte.hpp", D+"bits.hpp", "callback/bit_cast.hpp"], [("byte rules", I+D+"byte.hpp"), ("bit patterns", I+D+"bits.hpp")]),
p("C20", "Callbacks and sinks deliver the parsed values, each once and in order",
  "Each documented callback and sink (containers, strings, folds, aggregates, construction, forwarding, composition, binding) returns the value its documentation defines for the values produced, without dropping, duplicating or reordering any of them.",
  ["inputs", "programs"], "every sequence of produced values, every callback and composition", "sequences of any length and combination",
  ["callback/container.hpp", "callback/string.hpp", "callback/fold.hpp", "callback/aggregate.hpp", "callback/object.hpp", "callback/bind.hpp", "callback/composition.hpp", "callback/adapter.hpp", "callback/constant.hpp", "callback/forward.hpp", "callback/noop.hpp"],
  [("callbacks", I+"callback/")]),
p("C21", "Visualisation shows every character and nothing else",
  "Visualising code points, lexemes, parse trees and the like renders every character once, escapes exactly the ones that are not printable, abbreviates only as the options say, and never emits an incomplete escape or code unit sequence.",
  ["inputs", "configurations"], "every content, every visualisation option", "all characters, options and truncation lengths",
  ["visualize.hpp"], [("visualize_to overloads", I+"visualize.hpp")]),
p("C22", "Error reports point at the exact source text",
  "A reported error names the file, line, column, the production being parsed and the expectation, quotes the source lines concerned completely and underlines exactly the erroneous range, for every error of every kind anywhere in the input.",
  ["inputs"], "every error kind, position and range, every input", "line ends, multi-line ranges, wide characters and empty ranges in all combinations",
  ["include/lexy_ext/report_error.hpp", "input_location.hpp", "visualize.hpp"], [("error writer", "include/lexy_ext/report_error.hpp")]),
p("C23", "Manual scanning is equivalent to the rules it invokes",
  "A scanner, whether used on its own or in a scan production, consumes, produces and reports for each rule, branch, capture, list or recovery it is asked for exactly what that rule does in a grammar, and is in the failed state exactly from a failure until a recovery completes.",
  ["programs", "histories", "inputs"], "every sequence of scanner operations on every input", "sequences of operations with failures in between",
  [D+"scan.hpp", "action/scan.hpp"], [("scanner", I+D+"scan.hpp"), ("scan action", I+"action/scan.hpp")]),
p("C24", "Parse tree navigation, algorithms and builders agree with the tree",
  "Traversal visits every node exactly once, in order and properly nested; parent, children, siblings, position, covering lexeme and the tree algorithms and inputs agree with that traversal for every node. Trees built by hand, re-used, cleared, moved or swapped contain exactly what was built last.",
  ["inputs", "histories"], "every tree, every node, every sequence of builder calls", "relations between all nodes of all trees",
  ["parse_tree.hpp", "input/parse_tree_input.hpp", D+"parse_tree_node.hpp"], [("node navigation", I+"parse_tree.hpp"), ("algorithms", I+"parse_tree.hpp"), ("builder", I+"parse_tree.hpp")]),
p("C25", "Combinations, flags and members accept each part once, in any order",
  "A combination parses each of its branches exactly once in whatever order they occur, a partial combination at most once, duplicates and missing parts are reported where they occur, flags accumulate exactly the flags given, and member assignments set exactly the member they name.",
  ["programs", "inputs"], "every set of branches, every order, every duplication", "factorially many orders and duplications",
  [D+"combination.hpp", D+"flags.hpp", D+"member.hpp"], [("combination bitset", I+D+"combination.hpp"), ("flags", I+D+"flags.hpp"), ("member sink", I+D+"member.hpp")]),
p("C26", "The interactive shell feeds lines to the parser without loss",
  "A shell input gives the parser exactly the lines read, reading a further line with a continuation prompt only when the grammar needs more input, and reports locations in the text read so far; end of input ends the shell. Messages written through it appear exactly as given.",
  ["inputs", "histories"], "every sequence of lines, every grammar", "reading is driven by the parser's look-ahead; histories of lines",
  ["include/lexy_ext/shell.hpp"], [("shell input and reader", "include/lexy_ext/shell.hpp")]),
]
NA_PENDING = "no check in this version of the framework yet"
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in PROPS: f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in PROPS:
        i = x["id"]
        if i in props.SUITES:
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s thorough" % i,
                           "technique": props.TECH.get(i, props.TECH_DEFAULT), "level": props.LEVEL.get(i, "model_checking"), "level_note": props.NOTE.get(i, props.NOTE_DEFAULT)})
        else: na.append({"property": i, "reason": NA_PENDING})
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
