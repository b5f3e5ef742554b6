#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because one-line JSON is hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})
PARSE = "BeancountParser::new(&BeancountSources).parse()"

p("C01", "Parsing and reporting are total: no panic, hang or empty failure on any text",
  "For every UTF-8 text, reading, lexing, parsing, displaying the result and writing every error and warning report terminates without panicking, and yields either a successful result or at least one error. Every error and warning refers to a span that lies within its source on character boundaries and can be resolved and reported.",
  ["inputs"], "all inputs, including ill-formed, truncated and non-ASCII ones",
  "The tests run well-formed samples and a few broken ones; a panic needs a specific conjunction of characters (a non-ASCII digit, a zero divisor, a multibyte character at the end of a span).",
  ["src/lexer.rs", "src/parsers.rs", "src/lib.rs", "src/sources.rs", "src/types.rs", "src/trim.rs"],
  [("error tokens and lexer recovery", "src/lexer.rs RecoveryAttempter"), ("parse errors as values, recovery to the next line", "src/parsers.rs file()"), ("invalid spans collapse to nothing", "src/sources.rs trimmed_span")],
  [PARSE, "BeancountSources::write_errors_or_warnings", "Display of every returned value"])

p("C02", "Lexical faithfulness: no character of the input is silently dropped or misread",
  "Every character of an accepted input is either part of a token whose meaning is the one the Beancount lexical grammar gives to the longest match at that point, or is whitespace, a comment, or a line that the language ignores. Text that is no token makes the input refused; it is never skipped.",
  ["inputs"], "all character sequences at every position of a declaration",
  "Tokenisation errors depend on adjacent characters; the tests lex a few dozen strings out of all combinations.",
  ["src/lexer.rs"],
  [("token regexes, longest match", "src/lexer.rs Token"), ("re-lexing of failed spans", "src/lexer.rs RecoveryToken, RecoveryAttempter"), ("keyword before colon becomes a key", "src/lexer.rs KeywordThenColonToKey"), ("end of line and indent", "src/lexer.rs EolIndentHandler")],
  [PARSE, "lex_with_source"])

p("C03", "Directive fidelity: an accepted directive carries exactly what was written",
  "For every kind of directive and every combination of its optional parts, the returned directive has the written date, kind, flag, accounts, amounts, currencies, cost, price, strings, tags, links and metadata, attached to the directive or to the posting they were written under, in the order written for postings and custom values, and nothing else. Each plugin declaration is returned with its module and its configuration, if one is given, in the order written.",
  ["inputs"], "all directive kinds x combinations of optional parts x metadata placement",
  "The combinations of optional parts multiply; the tests compare a fixed set of samples.",
  ["src/parsers.rs", "src/types.rs"],
  [("one parser per directive kind", "src/parsers.rs directive()"), ("header tags, links and metadata merged", "src/parsers.rs Metadata::merge_tags, merge_links"), ("accessors", "src/types.rs")],
  [PARSE, "accessors of Directive, Transaction, Posting, CostSpec, PriceSpec, Metadata, ..."])

p("C04", "Accept or refuse: a file parses if and only if every declaration is well formed",
  "A text is accepted if and only if it is a sequence of declarations, each of which follows the Beancount grammar supported by this library, with blank lines, comments and ignored lines anywhere between. A refused text yields no directives, and at least one error.",
  ["inputs"], "all token sequences in each grammatical position and all sequences of lines",
  "The tests give about a hundred accepted and refused samples; a loosened or tightened alternative in one production shows only on token sequences that nobody wrote down.",
  ["src/parsers.rs", "src/lexer.rs"],
  [("file, declaration and directive grammar", "src/parsers.rs"), ("indented lines belong to the declaration above", "src/lexer.rs EolIndentHandler")],
  [PARSE])

p("C05", "Arithmetic: every expression gets its mathematical value and the widest scale",
  "Wherever a number may be written, an expression over + - * / unary minus/plus and parentheses has the usual precedence and left associativity, its value is that of decimal arithmetic with 28 significant digits rounded half away from zero to the largest number of decimals among its literals, and the returned expression tree is the one written. An expression that divides by zero or overflows is refused with an error.",
  ["inputs"], "all expressions up to a size, in every position that takes a number",
  "Precedence, associativity and rounding faults show only for particular operator/operand combinations.",
  ["src/parsers.rs", "src/types.rs"],
  [("expression grammar", "src/parsers.rs expr()"), ("evaluation and rescaling", "src/types.rs Expr::evaluate, ExprValue")],
  ["ExprValue::value, ExprValue::expr"])

p("C06", "Order: by date, then open, balance, others; ties stay as written",
  "The directives of a successful parse are ordered by date; on the same date every open precedes every balance, which precedes every other directive; directives that tie in both keep the order in which they occur, counting an included file at its include. No directive is lost or duplicated by the ordering.",
  ["inputs", "histories"], "all sequences of directives over dates and kinds, across includes",
  "Stability and tie-breaking depend on the whole sequence, and the sort's queue reuse on its history; tests order a few short lists.",
  ["src/lib.rs", "src/sort.rs"],
  [("sort by date and class", "src/lib.rs BeancountParser::parse"), ("stable sort adaptor", "src/sort.rs")],
  ["ParseSuccess.directives"])

p("C07", "Pushed tags and metadata apply exactly while pushed",
  "A directive gets every tag pushed and not yet popped where it occurs, and for every metadata key pushed and not yet popped the most recently pushed value, except that its own tags and keys win; postings get nothing from the stack. Popping undoes the latest push of the same tag or key; popping what was not pushed, and leaving something pushed at the end of all files, are errors that point at the tag or key.",
  ["histories", "inputs"], "all sequences of push, pop, directive and include up to a length",
  "It is a property of the history of the two stacks; the tests use a few short sequences.",
  ["src/lib.rs", "src/parsers.rs"],
  [("tag and metadata stacks", "src/lib.rs PragmaProcessor"), ("augmentation", "src/parsers.rs Metadata::augment_tags, augment_key_values")],
  ["Directive::metadata", "ParseError.errors"],
  [("tags", "tag -> pushes beyond the first", "src/lib.rs PragmaProcessor.tags"), ("meta_key_values", "key -> stack of values", "src/lib.rs PragmaProcessor.meta_key_values")])

p("C08", "Includes: each reachable file is processed once, in place, or it is an error",
  "The result is that of replacing each include by the contents of the files it matches, in name order, relative to the including file; a file that is included again under the same pushed tags and metadata is ignored the second time however its path is spelled, and otherwise is an error. An include that matches nothing, cannot be read, is not UTF-8, is a malformed pattern, or leads back to the root file is an error that points at its path (and for a repeated file also at the first include of it); an error in any included file fails the parse.",
  ["configurations", "fault_sequences", "inputs"], "all include graphs over few files and directories, all path spellings, all glob patterns of a set, each file possibly missing, unreadable or not UTF-8",
  "The two traversals of the include graph (reading and processing) must agree for every graph and spelling; the tests have five small graphs.",
  ["src/sources.rs", "src/lib.rs"],
  [("breadth-first reading with duplicate detection", "src/sources.rs read_with_includes"), ("depth-first processing", "src/lib.rs PragmaProcessor"), ("relative paths", "src/sources.rs resolve_included_path")],
  ["BeancountSources::try_from(path)", PARSE])

p("C09", "Determinism: the result depends only on the input",
  "Parsing the same sources gives the same directives, options, plugins, errors and warnings, with the same spans, messages and order, whatever the process's hash seeds, however often the same parser or sources are used before, whatever other threads parse at the same time, and whatever becomes of the files once the sources are read. Sets without an inherent order (tags, links, metadata, currencies) are compared as sets.",
  ["configurations", "histories", "schedules"], "all hash seeds, repetitions and concurrent parses",
  "A test run sees one hash order; an order leak shows with some probability per run and is dismissed as flaky.",
  ["src/lib.rs", "src/sources.rs", "src/parsers.rs"],
  [("sources parsed in order of source id", "src/sources.rs content_iter"), ("errors reported in order of occurrence", "src/lib.rs PragmaProcessor::result")],
  [PARSE, "write_errors_or_warnings"])

p("C10", "Spans: every returned element points at exactly its own text",
  "The span of every element returned (directive, date, flag, account, amount, number, currency, cost, price, tag, link, key, value, string, option value) covers exactly the text it was parsed from in the right source, whatever surrounds it. Resolving a span gives that text without trailing whitespace, the right first and last line numbers, and the file name unless the source is inline; a span that does not fit its source resolves to nothing rather than failing.",
  ["inputs", "configurations"], "all declarations with all kinds of element, in all layouts, with multibyte text before and inside, in included files",
  "Offsets are wrong only for particular neighbours (multibyte text, CRLF, comments, re-lexed text); the tests check a handful of spans.",
  ["src/parsers.rs", "src/lexer.rs", "src/sources.rs", "src/trim.rs", "src/types.rs"],
  [("span of each parsed element", "src/parsers.rs spanned_extra"), ("resolution", "src/sources.rs resolve_span, get_adjusted_source")],
  ["Spanned::span", "BeancountSources::resolve_span"])

p("C11", "Options: each option is validated, takes effect and is returned as given",
  "Every option line either is refused, because the option is unknown, the value is not of its type, it or the same value of a multi-valued one is given twice, or an account type name is already taken by another type, with an error that points at the name or value (and for a duplicate also at the first one), or its value is returned as given; options not given are absent, apart from account type names, which have their defaults. Account type names and the long string limit may be set again, and apply to what follows the option in its file, and the root file's to all included files; a relative documents directory is taken relative to the file that sets it.",
  ["inputs", "histories"], "all options x value classes, all pairs and short sequences of options interleaved with directives",
  "Interactions between options, and between options and what follows, multiply; tests set each option once.",
  ["src/options.rs", "src/parsers.rs", "src/types.rs", "src/lib.rs"],
  [("value parsing", "src/options.rs BeancountOption::parse"), ("assimilation and duplicates", "src/options.rs Options::assimilate, ParserOptions"), ("account type names", "src/types.rs AccountTypeNames")],
  ["ParseSuccess.options", "Account::account_type"])

p("C12", "Reports name the right place, message and related elements",
  "A written report of an error or warning shows its kind, message and reason, the source name, line and column of its first character, each context and related element at its own place, and any annotation, for spans in any real or synthetic source, or the error of the writer is returned. Errors built by the user from elements carry the span, contexts and related elements given, and synthetic fragments resolve to their own text. The plain text form of an error gives its message, reason and contexts, and a message that says which token was found quotes the one at its place.",
  ["inputs", "configurations", "histories"], "all errors over all elements of a set of files, sequences of synthetic fragments with multibyte text",
  "The place depends on byte to character conversion over everything before it; the tests print two reports.",
  ["src/sources.rs", "src/types.rs"],
  [("byte to character conversion", "src/sources.rs byte_to_rune"), ("report", "src/sources.rs write_report"), ("synthetic sources", "src/sources.rs SyntheticSources"), ("builders", "src/types.rs ErrorOrWarning, AnnotatedErrorOrWarning")],
  ["BeancountSources::write_errors_or_warnings", "SyntheticSources", "ErrorOrWarning"])

p("C13", "Display is Beancount: printing a directive and parsing it again gives it back",
  "The text form of every returned directive and plugin is itself valid Beancount which parses to an equal directive: same date, kind, strings, accounts, amounts and expressions, cost, price, tags, links and metadata, on the same owner.",
  ["inputs"], "all directive kinds x combinations of optional parts x values needing quotes or signs",
  "A misplaced space, quote or separator matters only for certain combinations; there is no round trip test.",
  ["src/types.rs", "src/format.rs"],
  [("Display implementations", "src/types.rs"), ("separators and quoting", "src/format.rs")],
  ["Display for Directive, Plugin"])

p("C14", "Layout does not matter: spacing, comments, blank lines and line ends are neutral",
  "Changing the amount of space between tokens, the depth of indentation, trailing space, adding comments at line ends, blank lines, comment lines or ignored lines between lines, using CRLF for LF, or leaving out the last newline, changes neither acceptance nor any returned value.",
  ["inputs"], "all combinations of layout variants at every gap of a set of files, valid and invalid",
  "Metamorphic over all layouts; the tests use one layout per sample.",
  ["src/lexer.rs", "src/parsers.rs"],
  [("whitespace skipping", "src/lexer.rs Token"), ("folding of line ends and indents", "src/lexer.rs EolIndentHandler")],
  [PARSE])

p("C15", "Literals: numbers, dates and strings have exactly their written value",
  "A number has the value and number of decimals written, with or without thousands separators, in up to 28 digits; a date is accepted if and only if it exists in the calendar, and is that date; a string is the text between the quotes with each escape replaced by what it stands for. Literals out of range or with invalid escapes are refused.",
  ["inputs"], "all dates, digit patterns up to a length, strings over an alphabet of special characters",
  "Boundary values (leap years, separators, escapes) are too many to list; tests use typical ones.",
  ["src/lexer.rs"],
  [("parse_number, parse_date, parse_time, unescape_string_literal", "src/lexer.rs")],
  ["values returned by " + PARSE])

p("C16", "Validated names: construction succeeds exactly for valid names and keeps them",
  "Constructing an account, account type name, account name, subaccount, currency, tag, link, key or flag letter from text succeeds if and only if the text follows that type's rules, never panics, and the result gives back exactly that text; what the parser returns as such a type satisfies the same rules.",
  ["inputs"], "all strings up to a length over an alphabet with every relevant character class",
  "Rules are about every position and character class; tests try a few names.",
  ["src/types.rs", "src/lexer.rs"],
  [("TryFrom implementations", "src/types.rs")],
  ["TryFrom<&str> for Currency, Tag, Link, Key, AccountName, AccountTypeName, Subaccount; TryFrom<char> for FlagLetter"])

p("C17", "Long strings: exactly the strings over the limit are warned about",
  "Each string of an accepted input that spans more lines than the limit in force where it occurs (64, or the last value of the option before it) causes exactly one warning, which points at the string, states the number of lines and limit, and names the option's place if there is one; no other string does, and warnings never make a parse fail.",
  ["inputs", "histories"], "all positions a string can take x numbers of lines around the limit x option sequences",
  "It must hold wherever a string may occur and under backtracking of the parser; tests check one place.",
  ["src/parsers.rs", "src/options.rs"],
  [("check in the string parser", "src/parsers.rs string()"), ("limit", "src/options.rs ParserOptions")],
  ["ParseSuccess.warnings"])

p("C18", "Duplicates are always reported",
  "A tag, link or metadata key given twice on the same directive or posting, in the header or its metadata lines, a currency given twice in an open, and a field given twice in a cost specification each make the parse fail with an error that names the duplicate and lies within the declaration (unless it directly follows a malformed declaration, see C19). The same tag, link or key on different owners is no error.",
  ["inputs"], "all placements of two or three equal or different items over header, metadata lines, postings",
  "Depends on placement of pairs; tests have one sample per kind.",
  ["src/parsers.rs", "src/types.rs"],
  [("tags_links, metadata, merge_tags, merge_links, currency_list", "src/parsers.rs"), ("CostSpecBuilder", "src/types.rs")],
  ["ParseError.errors"])

p("C19", "Errors are local: broken declarations get their own error, correct ones none",
  "In files in which some declarations are broken, the parse fails, no error starts within a correct declaration, and every broken declaration gets at least one error that starts within it, whatever precedes it, except that declarations broken in themselves (rather than by what went before, like a pop without a push) that directly follow a malformed one, with no correct one between, may go unreported until that is repaired. Thus a mistake hides none beyond the next correct declaration nor in other files, and correct declarations still take effect for checking what follows.",
  ["inputs"], "all sequences of correct and broken declarations up to a length, over several kinds of breakage and files",
  "Recovery depends on what surrounds the mistake; the tests have one file with errors.",
  ["src/parsers.rs", "src/lib.rs"],
  [("recovery to the next declaration", "src/parsers.rs file()"), ("errors of all sources collected", "src/lib.rs parse_declarations")],
  ["ParseError.errors"])

p("C20", "Values behave as values: equality, hashing, lookup and iteration agree",
  "Two elements are equal if and only if their contents are equal, regardless of where they were read, and equal elements hash alike; looking up a metadata key finds exactly the value iterating finds for it; is-empty, counts and iteration agree; kind names and ordering are consistent with the value.",
  ["inputs"], "all pairs from a set of directives, postings, metadata, amounts, costs, prices and names, read from different places",
  "A relation over pairs; tests compare a few equal values.",
  ["src/types.rs"],
  [("Spanned equality and hash ignore the span", "src/types.rs Spanned"), ("Metadata accessors", "src/types.rs Metadata")],
  ["PartialEq, Hash, accessors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
