"""Which functions decide which property."""
import importlib

AREAS = ["loc", "parsed", "sourcefile", "files", "counts", "sorts", "hash", "parsers"]
ALLSRC = ["loc", "parsed_language", "sourcefile", "parser", "detector", "licenses", "diff", "log", "hash/language_hash"]


def all_contracts():
    areas, cs = {}, {}
    for a in AREAS:
        m = importlib.import_module("contracts." + a)
        areas[a] = m
        cs.update(m.CONTRACTS)
    areas["selftest"] = importlib.import_module("contracts.selftest")
    return areas, cs


def area_of(fn):
    for a in AREAS:
        if fn in importlib.import_module("contracts." + a).CONTRACTS:
            return a
    raise KeyError(fn)


def selftest_jobs():
    return [("special", "selftest", "run")]


def _loc(prefix, dl):
    from contracts import loc
    return [f for f in loc.CONTRACTS if f.startswith("ohcount_loc_delta") == dl and not f.endswith("_free")]


def _tables():
    from contracts import hash
    return list(hash.TABLES)


def _parsers(prop, **k):
    runs = [[prop, "SEED", 20000, "SRC", "TRIES", "FAILED"], [prop, "SEED", 100000, "SRC", "TRIES", "CLAIMED"]]
    return dict(ir=["parser", "hash/language_hash"], expand="parsers",
                functions=["is_blank_rest", "is_blank_entry", "enqueue", "free_queue"],
                replay=[dict(harness="parsers", sources=ALLSRC, runs=runs)], grace=400, limit=760, **k)


PROPS = {
    "C16": _parsers("C16"), "C17": _parsers("C17"), "C18": _parsers("C18"), "C19": _parsers("C19"),
    "C01": dict(ir=["loc"], functions=_loc("ohcount_loc", False),
                replay=[dict(harness="locs", sources=["loc"], runs=[["C01", "SEED", 20000]])]),
    "C05": dict(ir=["parsed_language", "sourcefile", "loc"], functions=[
        "ohcount_parsed_language_new", "ohcount_parsed_language_add_code", "ohcount_parsed_language_add_comment",
        "ohcount_parsed_language_list_new", "parser_callback"],
        replay=[dict(harness="parsed_cb", sources=ALLSRC, runs=[["C05", "SEED", 30000]])]),
    "C03": dict(ir=["sourcefile", "loc", "parsed_language"], functions=["ohcount_sourcefile_new"],
                replay=[dict(harness="sfbasic", sources=ALLSRC, runs=[["C03", "SEED", 100000]])]),
    "C04": dict(ir=["sourcefile", "loc", "parsed_language"], functions=[
        "ohcount_sourcefile_set_diskpath", "ohcount_sourcefile_set_contents", "ohcount_sourcefile_get_contents",
        "ohcount_sourcefile_get_contents_size"],
        replay=[dict(harness="sfbasic", sources=ALLSRC, runs=[["C04", "SEED", 20000]])]),
    "C12": dict(ir=["detector", "hash/language_hash", "ohcount", "parser"], functions=_tables(),
                special=[("hash", "complete_" + f) for f in _tables()],
                replay=[dict(harness="tables", sources=ALLSRC, runs=[["C12", "SEED", 20000, "SRC"]]),
                        dict(harness="tables", sources=ALLSRC, extra=["-fno-sanitize=all"], runs=[["C12", "SEED", 4000, "SRC", "use"]])]),
    "C13": dict(ir=["detector", "hash/language_hash", "parser", "sourcefile"], special=[("hash", "agree")],
                replay=[dict(harness="agree", sources=ALLSRC, extra=["-fno-sanitize=all"], runs=[["C13", "SEED", 300, "SRC"]])]),
    "C22": dict(ir=["sourcefile", "parsed_language", "loc", "licenses"], functions=[
        "ohcount_loc_free", "ohcount_loc_list_free", "ohcount_loc_delta_free", "ohcount_loc_delta_list_free",
        "ohcount_parsed_language_free", "ohcount_parsed_language_list_free", "ohcount_license_list_free",
        "ohcount_sourcefile_free", "ohcount_sourcefile_list_free", "ohcount_loc_list_new_compact",
        "ohcount_loc_delta_list_new_compact", "ohcount_loc_list_add_loc_list", "ohcount_sourcefile_list_add_file",
        "ohcount_sourcefile_set_contents", "ohcount_sourcefile_set_diskpath"],
        replay=[dict(harness="frees", sources=ALLSRC, runs=[["C22", "SEED", 20000]])]),
    "C15": dict(ir=["ohcount", "loc"], functions=["sort_loc_list_by_language", "sort_loc_list_by_code"],
                replay=[dict(harness="sorts", sources=ALLSRC, runs=[["C15", "SEED", 20000]])]),
    "C06": dict(ir=["sourcefile", "parsed_language", "loc"], functions=[
        "ohcount_sourcefile_parse", "ohcount_sourcefile_get_parsed_language_list", "ohcount_sourcefile_get_loc_list"],
        bounded="the totals of a file list are the sums over its files (ohcount_sourcefile_list_analyze_languages): 4000 random "
                "file lists of at most six files, at most twelve languages, half of them totalled before the files are counted",
        replay=[dict(harness="counts", sources=ALLSRC, runs=[["C06", "SEED", 4000]])]),
    "C02": dict(ir=["loc"], functions=_loc("ohcount_loc_delta", True),
                replay=[dict(harness="locs", sources=["loc"], runs=[["C02", "SEED", 20000]])]),
}
