NOTES = "See DESIGN.md. All checks rebuild from /repo's working tree into /verif/build (ignored by git)."
CLAIMS = {
    "C01": "every function of the LocList part of loc.c except the free functions; unbounded lists, any counts",
    "C05": "parsed_language.c constructors and appenders and parser_callback in sourcefile.c, any contents, any report range inside them, any list",
    "C02": "every function of the LocDeltaList part of loc.c except the free functions; unbounded lists, any counts",
    "C03": "ohcount_sourcefile_new, any path of int length",
    "C04": "the contents and disk-path functions of sourcefile.c, any text, any file under the stated C-library file model",
    "C12": "the seven gperf lookup functions: soundness for texts of any length and content, completeness key by key; that no function writes a table entry is a scan of the IR for stores through the entry structs",
}
CLAIMS.update({
    "C06": "the per-file functions of sourcefile.c, any parse result; the totals of a file list are a bounded stand-in (random file lists), not proved",
    "C13": "every entry of every table, read from the compiled objects; the names the disambiguation routines return are collected from their IR",
    "C15": "the two sort functions of ohcount.c, lists of any length, any figures and names",
    "C16": "all generated parsers, both modes, any bytes, any length, any starting state of the globals; termination is not proved",
    "C17": "all parsers but nine (Lua, CoffeeScript, Haml and six HTML-embedding ones), for which the invariant search is too slow or too weak",
    "C18": "32 parsers; the others report lines of an unclosed multi-line comment or string again, so the statement does not hold for them",
    "C19": "all generated parsers, both modes; all global state is arbitrary at the start of a call",
    "C22": "all *_free functions, compaction and list appends; unbounded lists, any ownership state the constructors establish",
})
NA = {
    "C07": "needs an inductive argument about the Plan 9 diff (sorting, equivalence classes, candidate chains, unravelling) over int arrays "
           "that the code indexes through file-local pointers; contracts for that argument were not completed, so nothing is claimed",
    "C08": "its text figures rest on C07; the merge of the two parsed lists would need the figures of one file to stay put while the other is "
           "parsed, which the memory model states only per list; contracts were not completed, so nothing is claimed",
    "C14": "the oracle is the directory tree behind opendir/readdir/lstat, which changes under the code and has no contract here; a proof would "
           "be about an assumed model of the file system and not about the listing the code gets",
    "C20": "detection is decided by string routines on fixed-size buffers, PCRE patterns and libmagic; the regular expression engine has no "
           "contract, and the code has memory defects on these paths (DESIGN.md) that would have to be repaired first",
    "C21": "which licences are found is decided by PCRE matches and an in-place rewriting of the text between them; the matcher has no contract, "
           "so the overriding rule cannot be stated over anything the verifier sees",
}
