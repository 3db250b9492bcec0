#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
S = "src/log_surgeon/"
F = S + "finite_automata/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PARSER = [S + "LogParser.cpp", S + "Lexer.tpp", S + "ReaderParser.cpp", S + "BufferParser.cpp"]

prop("P01", "Parsing loses, adds and reorders nothing",
     "For every input, the text of the parsed log events, concatenated in order, is exactly the input, and the text of an event is exactly the concatenation of its tokens. This holds for both the reader-driven and the buffer-driven interface and for every byte value.",
     ["inputs", "configurations"], "every schema, every byte string, both interfaces",
     "The tests parse a few hand-written lines and check token types; no test adds the events of an input up, and the boundaries where text could be dropped (newlines, timestamps, the end of input, delimiters next to each other) combine in ways a handful of inputs does not reach.",
     PARSER + [S + "LogEvent.cpp"],
     [("a match that was given up is cut back to the last accepting position; what precedes it becomes static text", S + "Lexer.tpp scan"),
      ("a newline in front of a token is split off into the previous event", S + "LogParser.cpp parse")],
     observe=["LogEventView::to_string", "LogParserOutputBuffer tokens"])

prop("P02", "The parse of a stream does not depend on its delivery or buffering",
     "For every stream of bytes, the sequence of events and tokens read from it is the same however the reader splits it into reads and however large the internal buffer is in relation to the events. Only the reader returning no data at the end of its input ends the stream.",
     ["inputs", "schedules", "configurations"], "every stream, every division into read sizes, every buffer capacity (wrap, growth, static to dynamic)",
     "The tests deliver each input with one read into a 48 KB buffer: neither short reads, nor wrapping, nor growing happen.",
     [S + "ParserInputBuffer.cpp", S + "ParserInputBuffer.hpp", S + "Lexer.tpp", S + "ReaderParser.cpp", S + "Token.cpp"],
     [("halves of a ring buffer are only overwritten once consumed; otherwise the buffer doubles and its halves are reordered", S + "ParserInputBuffer.cpp"),
      ("the lexer keeps its position in a match across a request for more input", S + "Lexer.tpp scan"),
      ("tokens that wrap are put together when read", S + "Token.cpp")],
     hook="The capacity of the static buffer is selectable at run time with LOG_SURGEON_VERIF (otherwise 48 KB).")

prop("P03", "Log events end exactly where the documentation says",
     "If an event starts with a timestamp it extends to the next newline that a timestamp follows directly, or to the end of the input; otherwise it extends to and includes the next newline, unless the text ends first. Each event reports whether it has a timestamp accordingly, for every input.",
     ["inputs", "configurations"], "every schema (with and without timestamp rules) and every input",
     "The tests parse single events without timestamps; the interaction of timestamps, newlines, variables after newlines and the end of input is never enumerated.",
     [S + "LogParser.cpp", S + "Lexer.tpp", "docs/parsing_constraints.md", S + "BufferParser.hpp"],
     [("the state machine over token types that decides whether a token belongs to the current event", S + "LogParser.cpp parse")],
     observe=["LogEventView::to_string", "LogEventView::get_timestamp"])

prop("P04", "Variables and static text are exactly those the schema defines",
     "For every input, a maximal run of characters between delimiters is a variable exactly if a pattern of the schema matches that whole run, and its types are those of all the patterns matching it, in schema order; timestamps are recognised only at the start of the input or of a line, and may span delimiters. A longer match wins over a shorter one, and everything else is static text.",
     ["inputs", "configurations"], "every schema and every input",
     "Tests check a few expected tokenisations; the claim is about all strings, including those where a match is extended, given up and cut back over delimiters.",
     [S + "Lexer.tpp", S + "LogParser.cpp", F + "RegexDFA.tpp", "docs/schema.md"],
     [("longest match with a delimiter before and after it", S + "Lexer.tpp scan"),
      ("types of an accepting state in rule order", F + "RegexDFA.tpp new_state"),
      ("patterns are prefixed by the delimiters", S + "LogParser.cpp add_rules")],
     observe=["Token::m_type_ids_ptr", "Token::to_string"])

prop("P05", "A pattern matches exactly the strings of its regular expression",
     "For every pattern that can be written in a schema (literals, escapes, classes and negated classes, ranges, digit/whitespace/any character, concatenation, alternation, groups, captures, * + {n} {n,m}), the automaton built for it accepts exactly the strings the regular expression denotes, no more and no fewer.",
     ["programs", "inputs"], "every pattern, every string over all byte values",
     "Tests look at the syntax tree or a serialised automaton of a few patterns; that two automata accept the same infinite set of strings is not observable by running samples.",
     [F + "RegexAST.hpp", F + "RegexNFA.hpp", F + "RegexNFAState.hpp", F + "RegexDFA.tpp", S + "Lexer.tpp", S + "SchemaParser.cpp"],
     [("translation of every kind of node to NFA states", F + "RegexAST.hpp add_to_nfa"),
      ("subset construction", S + "Lexer.tpp nfa_to_dfa"),
      ("complement of merged ranges", F + "RegexAST.hpp RegexASTGroup")],
     observe=["Lexer::get_dfa"])

prop("P06", "A schema is read as the schema language defines it, or rejected",
     "Every text that follows the schema grammar (variables, delimiters, comments, blank lines, either line ending) is accepted and yields exactly the variables, patterns, delimiters and line numbers written in it, in order. Every other text is rejected with an exception.",
     ["inputs", "programs"], "every schema text",
     "Tests parse a dozen schemas; acceptance and meaning of all short texts, including those the parser must reject, is a statement about the grammar and the whole parse table.",
     [S + "SchemaParser.cpp", S + "LALR1Parser.tpp", S + "Lexer.tpp", "docs/schema.md"],
     [("LALR(1) tables generated from the productions", S + "LALR1Parser.tpp generate_lalr1_parsing_table"),
      ("productions and their semantic rules", S + "SchemaParser.cpp add_productions")],
     observe=["SchemaParser::try_schema_string", "SchemaAST"])

prop("P07", "The result of parsing a schema depends on nothing but its text",
     "The same schema text gives the same result (or the same error) whatever was parsed before it in the process, whether earlier parses failed, whether it comes from a string or a file, and whatever its size and the boundaries of the reads that deliver it.",
     ["histories", "inputs", "configurations", "schedules"], "every sequence of schema parses, valid and invalid, every text size",
     "Tests parse each schema once; global parser state that survives between parses, and schemas larger than a buffer or a node pool, are not exercised.",
     [S + "LALR1Parser.hpp", S + "LALR1Parser.tpp", S + "SchemaParser.cpp", S + "ParserInputBuffer.cpp"],
     [("storage for the children of grammar symbols is shared by all parses", S + "LALR1Parser.hpp NonTerminal"),
      ("buffer growth while lexing a schema", S + "LALR1Parser.tpp get_next_symbol")],
     state=[("pool of grammar-symbol children", "process-wide", S + "LALR1Parser.hpp")],
     hook="LOG_SURGEON_VERIF shrinks the input buffer so that reads and growth happen within small schemas.")

prop("P08", "The order of rules decides, and only their order",
     "If several patterns match the same text, the types of the token list them once each in the order of the rules in the schema, and the first is the one reported in the logtype; names, numbering, pattern shape or memory layout have no influence. A variable added to a schema by the programming interface ranks exactly at the position asked for.",
     ["configurations", "programs", "histories"], "every permutation of rules, every set of names (including those of predefined symbols), every sequence of additions with positions",
     "A test with one rule order cannot show that the order is what matters; an order that comes from addresses or ids looks right in any one run.",
     [S + "LogParser.cpp", F + "RegexDFA.tpp", S + "Lexer.tpp", S + "Schema.cpp", S + "SchemaParser.hpp"],
     [("rule position recorded with the accepting state", F + "RegexDFA.tpp new_state"),
      ("insertion at a position", S + "SchemaParser.hpp add_schema_var")],
     observe=["Token::m_type_ids_ptr", "LogEventView::get_logtype"])

prop("P09", "A deep copy of an event equals it and outlives it",
     "A deep copy of a non-empty event answers every query (text, tokens, types, timestamp, logtype, multi-line flag, variables of a type) as the event did when it was copied. It keeps doing so after the parser has moved on, been reset, or its buffers have been overwritten.",
     ["inputs", "histories", "configurations"], "every event of every input, every later use of the parser and of the copy",
     "No existing test copies an event; aliasing into a reused buffer only shows if the buffer is reused in the right way afterwards.",
     [S + "LogEvent.cpp", S + "LogEvent.hpp", S + "Token.cpp", S + "LogParserOutputBuffer.cpp"],
     [("characters and tokens copied into storage owned by the copy", S + "LogEvent.cpp LogEvent::LogEvent")],
     observe=["LogEventView::deep_copy"])

prop("P10", "A reset parser is as good as new",
     "After a reset at any point of any parse (in the middle of an event, at the end, after an error), parsing an input gives exactly the results a newly constructed parser gives. Nothing of the earlier input or of the earlier events shows up later.",
     ["histories", "inputs"], "every prefix of every earlier parse, on both interfaces, then every input",
     "Tests construct a parser and reset it once before use; state left behind depends on where the earlier parse stopped.",
     [S + "LogParser.cpp", S + "BufferParser.cpp", S + "ReaderParser.cpp", S + "ParserInputBuffer.cpp", S + "Lexer.tpp"],
     [("reset of lexer, buffers, pending token, event view", S + "LogParser.cpp reset")],
     state=[("start of the next event", "a token read too far", S + "LogParser.hpp m_start_of_log_message")],
     hook="LOG_SURGEON_VERIF: small buffers make the state left behind include grown and wrapped buffers.")

prop("P11", "Buffer-driven parsing resumes exactly at the reported offset",
     "After each event the reported offset is the position in the buffer where the next event starts; if the end of an event is not in the buffer this is reported and the offset is unchanged. A caller who keeps the bytes from the offset on, refills and calls again gets the same events as from one buffer holding everything, for every way to cut the input into buffers.",
     ["inputs", "schedules", "histories"], "every input, every sequence of buffer contents that a correct caller can provide",
     "The tests never feed an input in several buffers.",
     [S + "BufferParser.cpp", S + "BufferParser.hpp", S + "LogParser.cpp"],
     [("offset computed from the pending first token of the next event", S + "LogParser.hpp get_next_event_pos"),
      ("reset when more input is needed", S + "BufferParser.cpp parse_next_event")],
     observe=["BufferParser::parse_next_event"])

prop("P12", "Errors of a reader are passed on and corrupt nothing",
     "If a read fails, the call that needed it returns that error; every event returned before is an event of the fault-free parse, at the same position, and no event is made up. After a reset with a working reader, everything parses as if nothing had happened.",
     ["fault_sequences", "inputs", "schedules"], "a failure at every read of every delivery of every input",
     "No test has a reader that fails.",
     [S + "ReaderParser.cpp", S + "ParserInputBuffer.cpp"],
     [("errors of reads are returned from the read loop", S + "ReaderParser.cpp parse_next_event")],
     observe=["ReaderParser::parse_next_event"],
     hook="LOG_SURGEON_VERIF: small buffers, so that short inputs take many reads.")

prop("P13", "All the views of an event agree with each other",
     "For every parsed event, the variables listed for a type are exactly the event's tokens whose first type it is, in order; the logtype is the static text with each variable's name in its place and its delimiter kept; the multi-line flag is set exactly if a character follows a newline; the timestamp is reported exactly if the event starts with one. Names and numeric identifiers of symbols translate into each other without loss.",
     ["inputs", "configurations"], "every event of every input, every symbol of every schema",
     "Only token types are compared by the tests; the derived views are never checked against the tokens.",
     [S + "LogEvent.cpp", S + "LogEvent.hpp", S + "LogParser.cpp"],
     [("metadata generated from the tokens after each parse", S + "LogParser.cpp generate_log_event_view_metadata"),
      ("logtype", S + "LogEvent.cpp get_logtype")],
     observe=["LogEventView::get_variables", "get_logtype", "is_multiline", "get_timestamp", "LogParser::get_symbol_id"])

prop("P14", "The types reported for intersecting automata are exactly the right ones",
     "Intersecting the automaton of a schema with that of a query reports a type exactly if there is a string that has this type in the schema and is accepted by the query.",
     ["programs", "inputs"], "every pair of rule sets, all strings (existentially)",
     "The test compares a few pairs; exactness is a statement about all pairs of reachable states.",
     [F + "RegexDFA.hpp", F + "RegexDFA.tpp"],
     [("reachability over pairs of states", F + "RegexDFA.tpp get_intersect")],
     observe=["RegexDFA::get_intersect"])

prop("P15", "A text ending in a wildcard is a variable only if it always stays one",
     "Scanning a text (that some rule's match can start with) followed by a wildcard gives one token with the whole text: with the types of the rules that match the text if the text is a variable and stays one whatever the wildcard stands for (`*`: any characters that are no delimiters; `?`: any one character; the types may change), and otherwise text without a type. It does not depend on the reads, the buffer's size or growth, or on earlier queries and scans before the reset, and it never crashes.",
     ["programs", "inputs"], "every list of rules, every text, every delivery",
     "No test scans with wildcards; whether a text stays a variable is a statement about all continuations, so about loops and dead ends of automata.",
     [S + "Lexer.tpp", S + "Lexer.hpp", S + "ParserInputBuffer.cpp"],
     [("search of the states after the text", S + "Lexer.tpp scan_with_wildcard"), ("positions when the buffer grows", S + "Lexer.tpp increase_buffer_capacity")],
     observe=["Lexer::scan_with_wildcard tokens and codes"])

prop("P16", "Registers keep the histories of positions they were given",
     "For every sequence of operations, a register's history is what the operations made it: adding, setting the latest position, appending a position and copying another register have their documented effect, and operating on one register never changes the history of another, except that setting a position shared after a copy is seen through both. Operations with identifiers that do not exist are rejected and change nothing.",
     ["histories"], "every sequence of operations on a tree and its registers",
     "The tests run one sequence per operation; sharing of tree nodes between registers shows only in combinations.",
     [F + "PrefixTree.hpp", F + "PrefixTree.cpp", F + "RegisterHandler.hpp"],
     [("a path in a prefix tree per register", F + "RegisterHandler.hpp")],
     state=[("tree nodes", "shared by registers that were copied", F + "PrefixTree.hpp")],
     observe=["RegisterHandler::get_reversed_positions", "PrefixTree::get_reversed_positions"])

prop("P17", "Each way through a pattern settles each of its captures",
     "In the automaton of a pattern with captures, every accepting path passes, for each capture group, either its start and end in that order around the text the group matched, or the mark that it did not match; and for every string the possible capture spans are exactly those of the regular expression. A part repeated exactly zero times has no captures. Each tag belongs to the pattern it came from.",
     ["programs", "inputs"], "every pattern with captures, every string, every path",
     "One serialised automaton is compared with its expected text; the claim is about every path of every pattern.",
     [F + "RegexAST.hpp", F + "RegexNFA.hpp", F + "RegexNFAState.hpp", F + "TaggedTransition.hpp", F + "Tag.hpp"],
     [("tagged transitions around a capture; negative tags on alternatives that lack it", F + "RegexAST.hpp add_to_nfa_with_negative_tags")],
     observe=["RegexNFA::serialize"])

prop("P18", "The interval tree behaves as a map from ranges to values",
     "For every sequence of insertions, removals and queries, the tree returns exactly the entries overlapping a queried range, removal takes out, and returns in order, exactly the entries overlapping the removed range, inserting a range again replaces its value, the enumeration lists all entries in order, and rebalancing never loses, duplicates or alters an entry.",
     ["histories"], "every sequence of operations",
     "No test covers it; rotations depend on the order and number of insertions.",
     [F + "UnicodeIntervalTree.hpp", F + "UnicodeIntervalTree.tpp"],
     [("balanced search tree augmented with bounds", F + "UnicodeIntervalTree.tpp")],
     observe=["UnicodeIntervalTree::find", "all", "pop"])

prop("P19", "The file reader delivers files completely, in order, with the right codes",
     "For every sequence of operations, the reader delivers the bytes of the open file once and in order, whatever the sizes asked for and whether they are read by count or up to a delimiter. Each operation returns the documented code (file not open, invalid buffer, not found, end of file only with no data), and opening another file, closing and opening again start afresh. If a read fails, in the middle of a line or anywhere else, the operation says so, and a schema file that cannot be read completely is not accepted.",
     ["histories", "inputs", "fault_sequences"], "every sequence of operations on files of every small content",
     "Used in tests only to load a schema with one read.",
     [S + "FileReader.cpp", S + "FileReader.hpp"],
     [("thin layer over stdio with its own codes", S + "FileReader.cpp")],
     observe=["FileReader::read", "try_read_to_delimiter", "try_open", "close"])

prop("P20", "Parsers do not influence each other",
     "Any number of parsers, over the same or different schemas, can be constructed, used, reset and destroyed in any interleaved order of calls; each gives exactly the results it would give alone.",
     ["schedules", "histories"], "every interleaving of the calls made on several parser objects, including constructions and schema parses",
     "Each test has one parser; process-wide state only shows when calls interleave.",
     [S + "Lexer.hpp", S + "LALR1Parser.hpp", S + "Token.hpp", S + "LogParser.cpp"],
     [("all parsing state is in the objects, or is constant after initialisation", S + "Lexer.hpp, " + S + "LALR1Parser.hpp")],
     state=[("static variables of the schema parser", "shared", S + "LALR1Parser.hpp, " + S + "SchemaParser.hpp")])

prop("P21", "Delimiters never end up inside variables",
     "A pattern that could match a delimiter, other than that of a timestamp, is rejected when the parser is built, naming the pattern's line, its variable and a delimiter it could match, and showing the line and marking the pattern if the path of the schema is known; the any-character class never matches a delimiter. Exactly the characters of the last delimiters line of the schema are delimiters, and a schema without such a line is rejected.",
     ["configurations", "programs"], "every combination of delimiter lines and patterns",
     "Tests look at one negative example at most; which characters a pattern may match is a set computed for every delimiter and every kind of pattern.",
     [S + "LogParser.cpp", F + "RegexAST.hpp", "docs/schema.md"],
     [("possible inputs of a pattern checked against the delimiters", S + "LogParser.cpp add_rules"),
      ("delimiters removed from any-character patterns", F + "RegexAST.hpp remove_delimiters_from_wildcard")],
     observe=["LogParser construction", "Lexer::is_delimiter"])

prop("P22", "A malformed schema is rejected cleanly and located correctly",
     "Every text that is not a schema makes the parse end with an exception, which, if the mistake is one of syntax, names its line and column (counted from 1, the column from the last newline or carriage return) says what was found there and which characters were expected instead, and shows the text between the line breaks around it with a mark below the mistake; it never crashes, hangs, corrupts memory or prevents later schemas from being parsed. The same holds for schemas that are truncated at any point.",
     ["inputs", "fault_sequences"], "every single-edit mutation and truncation of schemas, all short texts",
     "The tests have a few malformed schemas with expected messages.",
     [S + "LALR1Parser.tpp", S + "SchemaParser.cpp", S + "Lexer.tpp"],
     [("error reporting with the rest of the offending line", S + "LALR1Parser.tpp report_error")],
     observe=["SchemaParser::try_schema_string exceptions"])

prop("P23", "The written form of a pattern, and of an automaton, describes exactly it",
     "The text a pattern is serialised to, read back, is the same regular expression, with the same captures and the same marks of captures that do not match on each way through; that of a copy is the same. The text of an automaton lists each state that can be reached from the start exactly once, numbered breadth-first from 0, with its type, if any, and exactly its transitions. A lexer gives, for a type, the pattern that was added for it, and none for other types.",
     ["programs"], "every pattern and every set of patterns",
     "Tests compare a handful of patterns and one automaton with their expected texts; a state or mark that is left out in other shapes goes unnoticed.",
     [F + "RegexAST.hpp", F + "RegexNFA.hpp", F + "RegexNFAState.hpp", F + "TaggedTransition.hpp", S + "Lexer.tpp"],
     [("breadth-first traversal over all kinds of transitions", F + "RegexNFA.hpp get_bfs_traversal_order"), ("one rendering per kind of node", F + "RegexAST.hpp serialize")],
     observe=["RegexAST::serialize", "RegexNFA::serialize", "Lexer::get_rule"])

prop("P24", "Parsing needs memory for the longest event only, and gives all of it back",
     "While a stream or buffer is parsed, the memory in use depends on the longest event and not on how much was parsed before: where each repetition of a text ends an event, any number of repetitions needs the same memory. Resetting a parser gives back what the parse needed. Reading a schema, accepted or rejected, building a parser, parsing, copying events and destroying all of them again loses no memory.",
     ["inputs", "histories"], "streams of any length",
     "A test ends before a buffer that grows a little with every event, or a symbol that is lost with every schema, is noticed; and whether the buffer grows depends on how events lie in relation to its halves.",
     [S + "ParserInputBuffer.cpp", S + "LogParser.cpp", S + "Buffer.hpp", S + "LogParserOutputBuffer.cpp", S + "LALR1Parser.tpp", S + "SchemaParser.cpp"],
     [("position up to which the input is no longer needed", S + "LogParser.cpp set_consumed_pos"), ("buffers that double and are dropped on reset", S + "Buffer.hpp"), ("symbols kept in a static vector between schemas", S + "LALR1Parser.hpp m_all_children")],
     observe=["bytes in use while parsing", "bytes in use after destruction"])

prop("P25", "Running out of memory is reported, and loses and damages nothing",
     "If any one memory allocation fails while a schema is read or added to, a parser is built, or input is parsed, its events viewed or copied, the caller gets std::bad_alloc; nothing that was allocated is lost, a schema to which a variable was to be added is as before, later schemas are read correctly, and a parser reports after a reset the events it would have reported.",
     ["fault_sequences", "inputs"], "every allocation of every operation",
     "No test makes an allocation fail; which one fails is a choice the test cannot make.",
     [S + "SchemaParser.cpp", S + "LALR1Parser.tpp", S + "LogParser.cpp", S + "Buffer.hpp", S + "Schema.cpp", F + "RegexNFA.hpp", S + "LogEvent.cpp"],
     [("ownership of nodes by unique pointers during reduction", S + "SchemaParser.cpp"), ("buffers set up again by reset", S + "LogParser.cpp reset")],
     observe=["std::bad_alloc", "bytes in use", "events after a reset"])

prop("P26", "Every token carries the number of its line",
     "While a stream or a buffer is parsed, each token of an event, the newline or delimiter that starts the event included, carries as its line the number of newlines in the input up to its end - whatever the schema, the sizes of the reads and of the buffers, the interface, and what was parsed before the last reset.",
     ["inputs", "environments"], "every input, every division into reads",
     "The line is counted in the scanner and handed over in several places (matches, skipped text, wrapped events, resumed reads); tests look at it nowhere.",
     [S + "Lexer.tpp", S + "Token.hpp", S + "LogParser.cpp"],
     [("line of the last match and of the text in between", S + "Lexer.tpp scan")],
     observe=["Token::m_line"])

prop("P27", "The parser generated for a grammar accepts exactly its sentences",
     "For any grammar (each of whose nonterminals derives some text) given to the LALR(1) generator by productions: a parser is generated if the grammar is SLR(1); an ambiguous grammar is refused; whenever a parser is generated, it accepts exactly the sentences of the grammar and calls the semantic rules of their derivation, each with the tokens and trees of its production's symbols in order; other texts are rejected by an exception.",
     ["programs", "inputs"], "every grammar, every text",
     "Tests only generate the parser of the schema language: empty productions, nullable symbols in a row, left and right recursion, and conflicts between accepting and reducing arise in other grammars.",
     [S + "LALR1Parser.tpp", S + "LALR1Parser.hpp", S + "Parser.tpp", S + "Lexer.tpp"],
     [("first sets and nullable symbols", S + "LALR1Parser.tpp generate_first_sets"), ("closure and propagation of lookaheads", S + "LALR1Parser.tpp generate_lr1_closure"), ("conflicts are reported", S + "LALR1Parser.tpp generate_lalr1_action"), ("stack and token buffer of the parse", S + "LALR1Parser.tpp parse_advance")],
     observe=["LALR1Parser::generate exceptions", "LALR1Parser::parse", "NonTerminal::get_parser_ast"])

prop("P28", "Parsers keep to the memory and the calls they were given",
     "A stream parser calls its reader only while an event is being parsed, offers it at least one byte of memory each time, does not call it again after it reported its end (until the parser is reset), and lets it use all of the memory it is offered: whatever the reader leaves in the part beyond the bytes it returned has no effect. A buffer parser reads only the bytes of the caller's buffer from the given offset to the given size, so that the bytes before and after have no effect and may be inaccessible, and never writes to the buffer.",
     ["inputs", "environments"], "every input, every reader, every placement in memory",
     "Tests use readers that write only what they return, and buffers that are followed by accessible memory.",
     [S + "BufferParser.cpp", S + "ReaderParser.cpp", S + "ParserInputBuffer.cpp", S + "LogParser.cpp", S + "Buffer.hpp", S + "Token.cpp"],
     [("how much the reader is asked for", S + "ParserInputBuffer.cpp read"), ("end of the input seen", S + "ParserInputBuffer.cpp get_next_character"), ("first character of a token", S + "LogParser.cpp parse")],
     observe=["calls of the reader", "accesses to inaccessible or read-only memory", "events"])

prop("P29", "A lexer of its own splits a text into longest matches with all their types",
     "A lexer without delimiters, made of any rules that match no empty string, cuts a text into consecutive tokens followed by an end token: where a token ends, the next one is the longest match of any rule and has the types of all rules that match it, in the order of the rules; where no rule matches, the characters looked at and all that follow, up to a newline that some rule can start with, are text without a type. This does not depend on the reads, the size of the buffer, the growth of the buffer, on whether tokens are given back as they are used, or on what was scanned before a reset. is_first_char tells which bytes a match can start with, and get_rule gives the first rule of a type.",
     ["programs", "inputs"], "every list of rules, every text, every delivery",
     "Tests of the lexer go through parsers with delimiters; the scanner is also used without them (schemas are scanned this way), by tools that look for the types of tokens, and with rules whose matches have to be given up over several characters.",
     [S + "Lexer.tpp", S + "Lexer.hpp", S + "ParserInputBuffer.cpp", S + "finite_automata/RegexDFA.tpp"],
     [("longest match and going back", S + "Lexer.tpp scan"), ("positions when the buffer grows", S + "Lexer.tpp increase_buffer_capacity"), ("first characters", S + "Lexer.tpp generate"), ("types of a state", S + "finite_automata/RegexDFA.tpp new_state")],
     observe=["Lexer::scan tokens and codes", "Lexer::is_first_char", "Lexer::get_rule"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
