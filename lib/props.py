"""What each check runs: binaries, workload sizes, and what must be observed."""
CORE = ["main_core.cpp", "mod_tok.cpp", "mod_search.cpp", "mod_rule.cpp", "mod_load.cpp", "mod_trie.cpp", "mod_hist.cpp", "mod_val.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"]
EXES = {
    "core": dict(harness=CORE),
    "mem": dict(harness=["main_mem.cpp", "mod_mem.cpp", "newdel.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"]),
    "pg": dict(harness=["main_pg.cpp", "mod_pg.cpp", "sqldecl.cpp", "pgshim.c", "newdel.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"], pg=True,
               link=["-Wl,--wrap=" + f for f in ("getLexiconPtr", "getGrammarPtr", "freeLexiconPtr", "freeGrammarPtr")] +
                    ["-rdynamic", "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-in-object-files", "-L/usr/lib/postgresql/16/lib", "-lpgcommon", "-lpgport"]),
    "oom": dict(harness=["main_oom.cpp", "mod_oom.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"],
                link=["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "strdup")]),
    "tools": dict(harness=["main_tools.cpp", "mod_tools.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"]),
    "cli": dict(harness=["main_cli.cpp", "mod_cli.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"], programs=True),
    "thr": dict(harness=["main_thr.cpp", "mod_thr.cpp", "common.cpp", "gen.cpp", "model.cpp", "api.cpp"]),
}

ADDR = ("random addresses (lexicon words and phrases, stems with affixes, numbers, fractions, postal shapes, symbols, "
        "several scripts, hostile spacing) against random lexicons and the repository's sample lexicons")
GRAM = "random grammars (layered and recursive, shared prefixes, equal scores) built around the class choices of the address"

# passes: list of (variant, exe, cases); need: counters that must reach a value, else the run observed nothing
def P(rule, quick, thorough, need, level_note, technique, **kw):
    d = dict(rule=rule, quick=quick, thorough=thorough, need=need, level="exploration", level_note=level_note, technique=technique)
    d.update(kw)
    return d

def sizes(q, t, asan_t=None, v="plain", exe="core"):
    """quick: q cases; thorough: t cases plus asan_t under AddressSanitizer+UBSan"""
    th = [(v, exe, t)]
    if asan_t:
        th.append(("asan", exe, asan_t))
    return dict(quick=[(v, exe, q)], thorough=th)

REF = "Held on the executions generated (seeded, bounded by case count); trusts the reference model in harness/model.cpp, written from the documentation, and ICU."
PG = ("Held on the executions generated. No server is installed here: the backend is a stand-in (harness/pgshim.c) built on the installed headers, "
      "which enforces memory contexts, SPI nesting, the set-returning protocol and error unwinding; the functions under test are the real ones.")
MON = "runtime monitoring: randomized workload on the real library, every result judged by an online reference-model monitor"

PROPS = {
    "C01": P("One evaluation runs one to four C API calls on hostile arguments (random bytes, mutated valid texts, truncated UTF-8, corrupt compiled lexicons, very long words, names and lists) under AddressSanitizer and UndefinedBehaviourSanitizer, repeats them and counts live heap blocks. Non-trivial: at least one argument is hostile.",
             need={"calls_ok": 2000, "calls_rejected": 1000, "leak_rounds": 3000, "words_beyond_20000_characters": 5, "op_string utilities": 200},
             level_note="Held on the executions generated: no address or undefined-behaviour report, crash, hang or growing heap. Sees only what the generated inputs reach.",
             technique="runtime monitoring: AddressSanitizer + UndefinedBehaviourSanitizer + heap-block accounting on generated hostile inputs", **sizes(8000, 200000, v="asan", exe="mem")),
    "C02": P("One evaluation parses one generated address: " + ADDR + ". The monitor recomputes the scan. Non-trivial: at least two scanned words.",
             need={"lexicon_phrases": 20, "tokens": 5000}, level_note=REF, technique=MON, **sizes(10000, 150000, 12000)),
    "C03": P("One evaluation parses one address, or one single word, and recomputes the classes of every token. Inputs: " + ADDR + ". Non-trivial: at least one token.",
             need={"from_lexicon": 500, "multi_class": 300}, level_note=REF, technique=MON, **sizes(14000, 120000, 12000)),
    "C04": P("One evaluation parses one word made of lexicon affixes and stems (or a digit/letter mix) and recomputes its split. Non-trivial: split in two or three pieces, or kept because it is a lexicon word.",
             need={"split_2": 500, "split_3": 50}, level_note=REF, technique=MON, **sizes(16000, 150000, 15000)),
    "C05": P("One evaluation parses one address built from multi-word lexicon phrases and checks the set, order and content of all readings. Non-trivial: more than one reading.",
             need={"readings": 3000}, level_note=REF, technique=MON, **sizes(8000, 80000, 8000)),
    "C06": P("One evaluation parses one address without and with one generated filter list and compares. Non-trivial: the filter removes something.",
             need={"tokens_removed": 3000}, level_note=REF, technique=MON, **sizes(4000, 40000, 4000)),
    "C07": P("One evaluation compares parse/match/standardize of one address with a case or Unicode-composition variant of it, or checks upper-casing, normalization and accent removal of one string. Non-trivial: the variant differs in bytes.",
             need={"match_standardize_compared": 200, "utils_checks": 3000}, level_note=REF, technique=MON, **sizes(4400, 40000, 4000)),
    "C08": P("One evaluation matches one address with one grammar: " + GRAM + "; the monitor enumerates all derivations independently. Non-trivial: at least one derivation.",
             need={"ambiguous_patterns": 1000, "recursive_grammars": 300, "with_alternate_reading": 100}, level_note=REF, technique=MON, **sizes(9000, 150000, 12000)),
    "C09": P("One evaluation standardizes one address with one grammar and compares with the best derivation found by the monitor; " + GRAM + ". Non-trivial: more than one derivation.",
             need={"exact_ties": 500, "worse_parses_present": 1000, "null_results": 30}, level_note=REF, technique=MON, **sizes(9000, 150000, 12000)),
    "C10": P("One evaluation standardizes one address and recomputes all 17 fields from the observed tokens, lexicon and chosen parse. Non-trivial: at least one token.",
             need={"standard_form_differs": 500, "ignored_tokens": 200}, level_note=REF, technique=MON, **sizes(8000, 140000, 12000)),
    "C11": P("One evaluation matches one address and checks order, mean scores and rule numbers of all rows. Non-trivial: more than one row.",
             need={"rows_checked": 20000, "no_match_rows": 20}, level_note=REF, technique=MON, **sizes(8000, 140000, 12000)),
    "C12": P("One evaluation compares parse/match/standardize/digest of one address between a lexicon's source text and its compiled form, or offers one corrupted compiled text. Non-trivial: address not empty.",
             need={"with_derivations": 200, "compiled_twice": 100}, level_note="Held on the executions generated; the oracle is the source-text result itself (differential).",
             technique="runtime monitoring: differential monitor, compiled form against source text, over randomized lexicons and addresses", **sizes(1600, 25000, 2000)),
    "C13": P("One evaluation issues one random sequence of C API calls (texts, compiled texts, loaded objects; valid and invalid) in one process and compares every result with the same call made in a process that has made no other call. Non-trivial: at least two calls.",
             need={"pristine_processes": 3000, "object_calls": 1000, "objects_compared": 1000},
             level_note="Held on the histories generated; the oracle is the same call in a fresh process (differential).",
             technique="runtime monitoring: history-independence monitor, every call of a random history compared with a fresh process", **sizes(1000, 10000)),
    "C14": P("One evaluation is one history of inserts, removes, lookups, dumps and parses on one lexicon, checked step by step against a multimap model, under AddressSanitizer. All are non-trivial.",
             need={"inserts": 1000, "removes": 200}, level_note=REF, technique="runtime monitoring: sequential-model monitor over recorded operation histories, under ASan+UBSan",
             **sizes(900, 20000, v="asan")),
    "C15": P("One evaluation builds one set of words (regex-special characters, shared prefixes, several scripts), then queries members, near-misses, prefixes, enumeration and the produced pattern. Non-trivial: more than one word.",
             need={"pattern_hits": 5000, "pattern_rejects": 5000, "byte_words_tested": 20000}, level_note=REF, technique=MON + ", under ASan+UBSan", **sizes(12000, 100000, v="asan")),
    "C16": P("One evaluation encodes one slice of the code points (every scalar value is covered) or walks one string in forward, backward and mixed steps in an exactly sized heap buffer under AddressSanitizer. Non-trivial: more than one code point.",
             need={"code_points": 1112064, "mixed_steps": 50000}, level_note="Every Unicode scalar value is encoded and decoded; strings are sampled. Oracle: a separate encoder/decoder.", technique=MON + ", under ASan+UBSan", **sizes(8000, 100000, v="asan")),
    "C17": P("One evaluation loads one lexicon text (documented format, variants of line ends, BOM, blank lines, reordering; or with one planted error) and compares acceptance, message and dump with the model. Non-trivial: text not empty.",
             need={"accepted": 1000, "rejected_bad-line": 50, "rejected_bad-class": 50, "rejected_no-header": 20, "rejected_entry-before-header": 100}, level_note=REF, technique=MON, **sizes(8000, 130000, 12000)),
    "C18": P("One evaluation loads one grammar text (valid, variant spelling, or with one planted error) and compares status and meaning with the model, including a dump and reload. Non-trivial: text not empty.",
             need={"accepted": 500, "accepted_with_warning": 50, "dumps": 500}, level_note=REF, technique=MON, **sizes(20000, 120000, 12000)),
    "C19": P("One evaluation converts one class, attachment, language, unknown name or class list both ways. Names and codes are enumerated completely; lists and unknown names are generated.",
             need={"input_classes": 36, "output_classes": 20, "languages": 78, "names": 5000, "sets": 5000}, level_note="Every documented name is enumerated; sets and unknown names are sampled. Oracle: tables written from the documentation and headers.", technique=MON, **sizes(16000, 100000, 20000)),
    "C20": P("One evaluation digests one input whole, or cut in random pieces, or a lexicon/grammar text through the C API, against a separate RFC 1321 implementation; every length 0..300 and one input above 2^32 bits are included. Non-trivial: not empty.",
             need={"partitions": 1000, "inputs_of_512_MB": 1}, level_note=REF, technique=MON, **sizes(4000, 40000, 1500)),
    "C21": P("One evaluation starts a fresh process, runs random C API calls on 2 to 6 threads (shared and private objects, staggered and barrier-released starts) under ThreadSanitizer, and compares every result with the same call made alone. All are non-trivial.",
             need={"parallel_calls": 1500, "fresh_processes": 80},
             level_note="Held on the schedules run. ThreadSanitizer reports data races of the executed accesses whatever the timing; results are compared with serial ones.",
             technique="runtime monitoring: ThreadSanitizer plus a serial-equivalence monitor on concurrent histories", **sizes(360, 4000, v="tsan", exe="thr")),
    "C22": P("One evaluation is one SQL call made in the stand-in backend (one to four call expressions per query, interleaved row by row, packed and detoasted arguments), each row compared with the library's own answer. Non-trivial: at least one row is expected.",
             need={"rows": 5000, "calls_as_standardize": 500, "calls_as_parse": 500, "calls_as_match": 500, "calls_as_compile_lexicon": 300, "rows_all_null": 50},
             level_note=PG, technique="runtime monitoring: the real SQL functions in an instrumented stand-in backend under ASan+UBSan, every row compared with the C API", **sizes(900, 20000, v="asan", exe="pg")),
    "C23": P("One evaluation is one history of 10 to 60 as_standardize calls over up to nine grammar/lexicon pairs, several call expressions and queries; every lexicon and grammar made or freed is recorded. Non-trivial: at least two pairs.",
             need={"calls_with_cached_pair": 2000, "calls_with_new_pair": 2000, "evictions": 1000, "objects_made": 3000}, level_note=PG,
             technique="runtime monitoring: object-lifetime monitor on interposed load/free calls plus result comparison over random call histories, under ASan+UBSan", **sizes(500, 12000, v="asan", exe="pg")),
    "C24": P("One evaluation is one session of two to five queries mixing valid, invalid and abandoned calls; errors are judged against the library's own message, and the session is repeated until the live heap blocks settle. Non-trivial: at least one call must fail.",
             need={"errors_raised": 1000, "abandoned": 200, "calls": 4000, "leak_rounds": 1000}, level_note=PG,
             technique="runtime monitoring: errors, abandonment and heap accounting over random SQL sessions in an instrumented stand-in backend, under ASan+UBSan", **sizes(1500, 25000, v="asan", exe="pg")),
    "C25": P("One evaluation makes one C API call over and over with its n-th allocation (operator new, malloc, calloc, realloc, strdup) failing, once alone and once with all later ones, for every n or an even stride, and always the last 40; then the same call without failure. All are non-trivial.",
             need={"injected_failures": 20000, "failures_reported": 5000, "usual_results": 300, "calls_enumerated_completely": 10}, level="fault_enumeration",
             level_note="Held for the failures injected. Allocations inside ICU are not failed: ICU reports them by status codes that the library does not read.",
             technique="runtime monitoring: allocation-failure injection under ASan+UBSan with result and heap accounting", **sizes(132, 2500, v="asan", exe="oom")),
    "C26": P("One evaluation reads one rule line, concatenates, matches or enumerates class choices, against direct definitions. All are non-trivial except single-class phrases.",
             need={"accepted": 5000, "concatenations": 5000, "prefix_matches": 5000, "rejected": 500}, level_note=REF, technique=MON, **sizes(100000, 400000, 20000)),
    "C27": P("One evaluation builds searches from one grammar object, then destroys, moves, reassigns or relocates the grammar and compares results with those before, and copies, assigns and moves grammars of every status, under AddressSanitizer. Non-trivial: the result has a derivation.",
             need={"grammar_destroyed": 100, "copies_compared": 1000, "copies_over_another_status": 300}, level_note="Held on the executions generated; the oracle is the result before the change, and AddressSanitizer.", technique="runtime monitoring: before/after differential monitor under ASan+UBSan",
             **sizes(900, 20000, v="asan")),
    "C28": P("One evaluation runs tools/load-lex-gmr-files on one generated directory of lexicons and grammars (quotes, backslashes, CRLF, nested directories, missing partners), or on the shipped sample data, reads the SQL it writes and compares every row. Non-trivial: at least one set.",
             need={"sets_compared": 500, "shipped_sets_loaded": 20, "tables_created": 100, "sets_without_grammar": 20}, level_note="Held on the executions generated; the SQL is read by a separate reader of standard SQL strings, not by a server.",
             technique="runtime monitoring: the real program on generated directories, its output judged by an independent SQL reader", **sizes(6000, 100000, exe="tools")),
    "C29": P("One evaluation runs tools/compare-lexicon on two generated lexicon files and compares its report with the set difference. Non-trivial: something must be reported.",
             need={"lines_reported": 1000, "lines_common": 1000, "rejected_files": 20}, level_note="Held on the executions generated.",
             technique="runtime monitoring: the real program on generated files, its output judged against the set difference", **sizes(20000, 300000, exe="tools")),
    "C30": P("One evaluation runs tools/convert-pagc-lex-gaz or tools/convert-pagc-rules on generated PAGC files and compares the lexicon or grammar it writes, which the library must load. Non-trivial: at least one entry or rule.",
             need={"entries": 1000, "rules": 2000, "loaded": 100, "loaded_grammars": 100, "classes_merged": 50}, level_note="Held on the executions generated; the PAGC numbering is the documented one.",
             technique="runtime monitoring: the real programs on generated files, their output judged by an independent reader and loaded by the library", **sizes(12000, 200000, exe="tools")),
    "C31": P("One evaluation makes and edits lexicon entries, tokens, meta lines, sections or a tokenizer filter by a random history of operations and compares every accessor with a plain record of what was put in. All are non-trivial.",
             need={"entries": 10000, "entries_equal": 500, "token_steps": 20000, "trims": 1000, "sections": 5000, "filter_steps": 20000, "filtered_out": 5000}, level_note=REF,
             technique="runtime monitoring: sequential-model monitor over random operation histories on the value classes", **sizes(60000, 150000, 20000)),
    "C32": P("One evaluation runs one of the programs of src/tester on generated files and arguments, or on the shipped data, and compares what it prints or writes with what the C API answers. Non-trivial: at least one token, a grammar or lexicon that loads, or an expression.",
             need={"t2_source": 500, "t2_compiled": 200, "t2_refused": 30, "t2_no_match": 30, "matches_shown": 3000, "compiled_files_compared": 300, "dumps_compared": 100, "runs_t4": 100, "lexicons_shown": 100, "runs_regex_tester": 100},
             level_note="Held on the executions generated; the oracle is the library's own answer (C API), which the other checks judge.",
             technique="runtime monitoring: the real programs on generated files, their output compared with the C API's answers", quick=[("plain", "cli", 8000), ("asan", "cli", 500)], thorough=[("plain", "cli", 100000), ("asan", "cli", 8000)]),
}
NOT_APPLICABLE = {}
