#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Per-language line counts are aggregated exactly",
 "Adding counts to a line-count list adds them to exactly the entry of that language (creating it if it is new, at most one entry per language) and leaves every other language's counts and the caller's own records unchanged; adding a whole list does so for each of its languages. A lookup returns the entry of the language asked for or nothing. The list's code, comment, blank, total and file-count figures are always the sum of its entries, and compacting keeps exactly the entries whose total is non-zero, with their counts unchanged.",
 ["inputs", "histories"], "every list of any length, any languages, any counts that do not overflow int, any order of additions",
 "The tests add two or three languages; ordering (new language first/last, non-head repeats), lists of arbitrary length and the untouched rest of the list are never quantified over.",
 ["src/loc.c", "src/loc.h"], [("LocList insertion, lookup, sums, compaction", "src/loc.c ohcount_loc_list_*")], ["C API", "CLI summary"])

prop("C02", "Per-language line deltas are aggregated exactly",
 "Adding a delta to a delta list adds its six added/removed figures to exactly the entry of that language (at most one entry per language) and changes no other entry; adding a whole delta list does so for each of its languages. A lookup returns the entry of the language asked for or nothing; every list figure, including the net ones, is the sum over the entries; compacting keeps exactly the changed entries, unmodified.",
 ["inputs", "histories"], "every delta list of any length, any languages, any figures that do not overflow int, any order of additions",
 "The tests only add one repeated language which is the first one of the list; non-head repeats and long lists are not reached.",
 ["src/loc.c", "src/loc.h"], [("LocDeltaList insertion, lookup, sums, compaction", "src/loc.c ohcount_loc_delta_list_*")], ["C API"])

prop("C03", "A path is split into directory, file name and extension correctly",
 "For every path given to a source file, the file name is exactly the text after the last slash or backslash, the extension is exactly the text after the last dot of the file name (empty when it has none), the recorded directory length is the position of that last separator (0 if none), and the path kept is an unmodified private copy. A new source file has no contents, no language and no cached results. No memory outside the given path and the file's own buffers is touched.",
 ["inputs"], "every NUL-terminated path of any length, with any mix of dots, separators, leading or trailing ones",
 "The tests use ordinary paths; the empty path, names without any dot or separator, leading and trailing dots and backslashes are not enumerated.",
 ["src/sourcefile.c"], [("path scan", "src/sourcefile.c ohcount_sourcefile_new")], ["C API", "Ruby/Python bindings"])

prop("C04", "File contents and disk path are private, complete, NUL-terminated copies",
 "Setting a file's contents or disk path stores a private, NUL-terminated copy of the whole text (and its length as the size), and releases the previous one. Reading contents on demand reads the disk path if one is set and the file path otherwise, yields exactly the bytes of the file and its size, or no contents and size 0 when the file is empty or cannot be opened or read; contents already present are returned as they are.",
 ["inputs", "histories", "fault_sequences"], "every text, every order of set and get calls, every outcome of opening, sizing and reading the file",
 "Tests set contents once and read existing files; replacing contents, read failures and empty files are not covered.",
 ["src/sourcefile.c"], [("copying setters and lazy reader", "src/sourcefile.c ohcount_sourcefile_set_contents/_set_diskpath/_get_contents")], ["C API"])

prop("C05", "Parsed lines are accounted to the right language and kind, without overflow",
 "Each line reported while a file is parsed is accounted once: it increments the code, comment or blank count of exactly the language it was reported for (one entry per language, in order of first appearance) and of no other, and a code or comment line's text without leading spaces and tabs is appended to that language's code or comment text. The texts always stay NUL-terminated and inside their buffers; a line whose text no longer fits is ignored instead of overflowing.",
 ["inputs", "histories"], "every sequence of line reports for every contents buffer, any number of languages, any line lengths",
 "Tests compare a few files; the capacity boundary, many languages and the entries that must not change cannot be sampled.",
 ["src/sourcefile.c", "src/parsed_language.c"], [("line accounting", "src/sourcefile.c parser_callback"), ("bounded append", "src/parsed_language.c ohcount_parsed_language_add_code/_add_comment")], ["C API"])

prop("C06", "File and project line counts equal the parsed counts",
 "A file's line-count list has exactly one entry per parsed language, with that language's parsed code, comment and blank counts and a file count of one. The figures for a file list are, per language, the sums over its files, with the file count being the number of files containing the language; asking a file for its counts or its parsed list again gives the same list and parses nothing again.",
 ["inputs", "histories"], "every parse result with any number of languages, every list of files",
 "Tests check a few fixed files; per-language sums over arbitrary lists of files are not covered.",
 ["src/sourcefile.c"], [("loc list construction", "src/sourcefile.c ohcount_sourcefile_get_loc_list"), ("project aggregation", "src/sourcefile.c ohcount_sourcefile_list_analyze_languages")], ["C API", "CLI summary"])

prop("C07", "A text diff's added and removed line counts are consistent",
 "For any two texts the number of lines reported added minus the number reported removed equals the difference of their numbers of non-empty lines; both numbers are non-negative and at most the number of non-empty lines of the new and of the old text respectively, and identical texts give 0 and 0. No memory outside the diff's own buffers is touched.",
 ["inputs"], "every pair of NUL-terminated texts",
 "Tests diff a handful of short texts; duplicated lines, common prefixes and suffixes and empty texts combine without bound.",
 ["src/diff.c"], [("line diff", "src/diff.c ohcount_calc_diff")], ["C API"])

prop("C08", "A file diff reports every language of either file exactly once",
 "Comparing two files gives a delta list holding exactly the languages parsed in either file, each once; each delta's code and comment figures are those of diffing that language's code and comment texts of the two files (a missing side counting as empty), and its blank figures give the difference in blank counts with at most one of them non-zero.",
 ["inputs"], "every pair of parsed files with any number of languages on either side",
 "Tests compare two single-language files; languages in one side only, in the middle of the list, or several at once are not covered.",
 ["src/sourcefile.c"], [("file diff", "src/sourcefile.c ohcount_sourcefile_diff, ohcount_sourcefile_calc_loc_delta")], ["C API"])

prop("C12", "Every keyword table answers exactly its own keys",
 "Looking up a language, parser, extension, file name, disambiguation id, C/C++ header or command-line flag returns its own entry for every key of the table and nothing for any other text, for texts of any length, reading nothing outside the text and the table.",
 ["inputs"], "every byte string of every length, for each generated lookup table",
 "The tests look up a few keys; non-keys sharing hash, length or first character with a key are unbounded.",
 ["src/hash"], [("gperf lookup functions", "src/hash/*.gperf")], ["C API", "CLI flags"])

prop("C13", "Language registries agree with each other",
 "Every answer of the extension and file-name tables is the name of a registered language, the binary marker, or an internal disambiguation id that the disambiguation table knows; every name the disambiguation routines return is a registered language or the binary marker. Every registered language has a category of the known ones, every language with a parser is registered, and every language some parser reports under is registered and has a non-empty nice name.",
 ["configurations"], "every entry of every table",
 "Tests cover the languages they have samples for.",
 ["src/hash", "src/languages.h", "src/detector.c"], [("keyword tables", "src/hash/*.gperf")], ["C API", "CLI detect"])

prop("C14", "A directory scan adds every regular file exactly once and nothing else",
 "Adding a directory adds each regular file found at any depth below it exactly once, with its path being the directory, a slash and the name; it never follows symbolic links, never enters directories whose name starts with a dot, and adds no other kind of entry. An unreadable directory adds nothing and every opened directory is closed.",
 ["inputs", "fault_sequences"], "every directory tree, entry order, file kind and name",
 "Tests scan one fixture tree.",
 ["src/sourcefile.c"], [("directory recursion", "src/sourcefile.c ohcount_sourcefile_list_add_directory")], ["C API", "CLI"])

prop("C15", "Sorting a report neither loses nor changes any language's figures",
 "Sorting a line-count list for a report is a permutation of its entries with their figures unchanged, in ascending language-name order for per-file reports and in descending order of code lines for the summary.",
 ["inputs"], "every list of any length",
 "Tests of the command line use few languages.",
 ["src/ohcount.c"], [("selection sorts", "src/ohcount.c sort_loc_list_by_language, sort_loc_list_by_code")], ["CLI"])

prop("C16", "Parsers report only valid lines and entities",
 "Whatever the bytes and length of the input, every report a language parser makes names a registered language and, when counting lines, a kind that is code, comment or blank, and a non-empty byte range lying inside the input.",
 ["inputs"], "every byte sequence of every length, for every parser",
 "The tests run one or two sample files per language; malformed, truncated and adversarial inputs are unbounded.",
 ["src/parser_macros.h", "src/parsers/common.rl", "src/parsers"], [("line and entity emission", "src/parser_macros.h"), ("state machines", "src/parsers/*.rl")], ["C API", "CLI annotate"])

prop("C17", "No input line is lost",
 "When counting, no part of the input is lost: every character other than a blank (space, tab, vertical tab, or a carriage return before a newline or at the very end) - line ends included, so blank lines too - lies inside a reported range, or stands before a range reported as blank on the same line. Claimed for every parser except those of Lua, CoffeeScript, Haml, JSP, C# and VB ASPX, PHP and Ruby embedded in HTML, and ClearSilver templates.",
 ["inputs"], "every byte sequence of every length, for every parser claimed",
 "Malformed inputs (unterminated comments and strings, missing last newline) are unbounded.",
 ["src/parser_macros.h", "src/parsers"], [("line emission", "src/parser_macros.h"), ("state machines", "src/parsers/*.rl")], ["C API", "CLI"])

prop("C18", "No input line is reported twice, and reports come in order",
 "When counting, the parsers of Ada, Automake, Awk, batch files, Brainfuck, ClearSilver, classic, structured and Visual Basic, CMake, Crystal, DCL, ebuild, Eiffel, Erlang, exheres, fixed-form Fortran, Grace, IDL, Jam, Limbo, make, Metafont, MetaPost, PostScript, R, Ruby, Scilab, shell, TeX, TeX dtx and VHDL report no line twice: the reported ranges are in input order and disjoint, and each lies in a single line and ends exactly at that line's end (or at the end of the input).",
 ["inputs"], "every byte sequence of every length, for every parser claimed",
 "Malformed inputs are unbounded and the tests never check the byte ranges against each other.",
 ["src/parser_macros.h", "src/parsers"], [("line emission", "src/parser_macros.h"), ("state machines", "src/parsers/*.rl")], ["C API", "CLI"])

prop("C19", "Parsing is independent of what was parsed before",
 "The reports for an input depend only on the language, the counting mode and the input's bytes, not on any file parsed earlier in the same process.",
 ["histories"], "every history of earlier parses with any parser",
 "The tests never compare a fresh process with a used one.",
 ["src/parser_macros.h", "src/parsers"], [("re-initialised scanner state", "src/parsers/*.rl init"), ("restored language names", "src/parsers/*.rl")], ["C API"])

prop("C20", "Language detection only ever answers a known language",
 "Detecting a file's language yields either nothing or the name of a registered language, never an internal disambiguation id, for every file name, contents and directory listing; an unambiguous extension decides before mode lines, file names and content guesses, and the answer is computed once per file.",
 ["inputs"], "every path, contents and set of sibling file names",
 "Tests check one sample per rule.",
 ["src/detector.c"], [("detection order", "src/detector.c ohcount_detect_language")], ["C API", "CLI detect"])

prop("C21", "License detection reports each licence at most once, from the known list",
 "The licences reported for a file are distinct entries of the known licence list, in that list's order, and no reported licence is overridden by another reported one; detection touches no memory outside its buffers for any comment text.",
 ["inputs"], "every comment text of every length in any number of languages",
 "Tests check one licence header per file.",
 ["src/licenses.c"], [("licence matching", "src/licenses.c ohcount_detect_license")], ["C API", "CLI license"])

prop("C22", "Lists and files release everything they own, once, and nothing else",
 "Freeing a list or a file frees every node and record it owns exactly once and touches nothing after it is freed, and leaves records and lists owned by others valid, for empty lists and lists of any length.",
 ["histories"], "every list length and every combination of cached results",
 "The tests free small lists and do not check what stays valid.",
 ["src/loc.c", "src/parsed_language.c", "src/sourcefile.c", "src/licenses.c"], [("free functions", "*_free")], ["C API"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
