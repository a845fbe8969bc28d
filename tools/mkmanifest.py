#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
COMMON = " Assumes libgpkg's SQL functions as provided by native/gpkg_shim.cpp, SQLite 3.45.1 and the generators' bounds; says nothing about inputs the run did not produce."
T = {
 "C01": ("reference comparison of random database pairs under ASan+UBSan", "exploration", "create+apply on thousands of random schema/row/edit triples; the patched rows are read back by an independent SQLite connection and compared by exact type and value."),
 "C02": ("online oracle: independent row diff compared with the decoded changeset", "exploration", "The decoded entries are compared as a multiset with an independently computed diff; created twice for byte equality."),
 "C03": ("round-trip oracle (apply, invert, apply; invert twice) with sanitizers", "exploration", "Restored rows are compared exactly, inverted entries are compared with the expected reverse entries."),
 "C04": ("executable merge model compared with rebase results", "exploration", "A sequential merge model predicts the rows after rebase; renumbered inserts are matched as multisets."),
 "C05": ("differential check of createRebasedChangeset+apply against in-place rebase", "exploration", "Both routes run on each triple and have to give the same rows; inputs are hashed before and after."),
 "C06": ("oracle over the conflict file: independent list of contradicting columns", "exploration", "The conflict file is parsed and compared record by record with an independent computation, with stale files in place."),
 "C07": ("trace oracle: expected outcome of each entry computed by a model, database compared after failure", "exploration", "Mutated changesets and databases; a model decides which entries can take effect; a failure must leave content and schema unchanged."),
 "C08": ("fault injection below SQLite (VFS shim), process kill and power-loss replay with recovery oracle", "fault_enumeration", "Every write, sync, truncate, delete, lock and read operation of the apply is failed or killed in turn; after recovery the content is base or modified."),
 "C09": ("format decoder as monitor, and differential runs against SQLite's session extension", "exploration", "Every file written is decoded by an independent codec and checked; sqlite3changeset_apply and sqlite3session recordings are compared."),
 "C10": ("mutation and structure-aware fuzzing of changeset files under ASan+UBSan", "exploration", "Hostile files against every consumer; memory errors, undefined behaviour and aborts are caught by sanitizers, acceptance is compared with an independent decoder."),
 "C11": ("JSON listing parsed and compared entry by entry", "exploration", "Random well-formed changesets; each value is recovered from JSON and compared."),
 "C12": ("counting oracle over decoded entries", "exploration", "Summary, count and hasChanges compared with the independently decoded entries, for created and crafted changesets."),
 "C13": ("fault injection: file size limit at every byte, full device, missing paths and directories", "fault_enumeration", "Success is accepted only when the output equals the output without the fault."),
 "C14": ("fault injection on read operations below SQLite, corrupt pages, locks", "fault_enumeration", "Success is accepted only when the output equals the output without the fault."),
 "C15": ("resource monitors: file hashes, directory listings, descriptors, live allocations and locks", "exploration", "Observed before and after every kind of call, successful or failing."),
 "C16": ("oracle over schema mutations", "exploration", "Every pair of schemas is compared by an independent reading of the documented rules."),
 "C17": ("state comparison of triggers, schema, rtree and feature counts after apply", "exploration", "Triggers with recording side effects show whether any ran; geometry index content is recomputed independently."),
 "C18": ("dump and copy compared with an independent reading of the database", "exploration", "Dump entries are compared with all rows, copies with schema attributes and rows."),
 "C19": ("oracle over foreign keys and triggers in random schemas", "exploration", "Refusal is compared with an independent reading of the schema, files are hashed."),
 "C20": ("log event monitor over all calls", "exploration", "Log events recorded by the callback are checked against the returned status and the configured level; console output is captured."),
 "C21": ("ThreadSanitizer and concurrent processes with result comparison", "exploration", "Concurrent calls are compared with the results each call gives alone."),
 "C22": ("exhaustive null/empty/missing argument combinations under ASan+UBSan", "exploration", "Each argument position takes each bad value, in all combinations of up to two."),
 "C23": ("differential run of the Python module against the library", "exploration", "Each function of the module is run and compared with the C calls' results."),
 "C24": ("differential run of the command line tool against the library", "exploration", "Every command with right and wrong arguments; exit status and files compared."),
 "C25": ("PostgreSQL driver run against an emulated server (libpq stand-in)", "exploration", "A stand-in libpq answers from SQLite; statements and results are recorded."),
 "C26": ("PostgreSQL driver run against an emulated server with injected errors", "exploration", "Each statement is failed in turn; transaction events and released results are monitored."),
 "C27": ("fault injection: every operator new failed in turn, under ASan+UBSan, with result comparison", "fault_enumeration", "Each allocation of a call (sampled above a limit) fails once or permanently; crash, leaving exception, double free or a success with different outputs is a violation."),
 "C28": ("multi-client sync histories checked for convergence and lost edits", "exploration", "Histories of several clients with unique values; every edit is tracked to the final state."),
 "C29": ("scaled workloads with time and result monitors", "exploration", "Large rows, columns, tables and values, compared exactly, with elapsed time compared between sizes."),
 "C30": ("differential runs of the same calls in two environments", "exploration", "Codes, messages at error level, files and rows of two runs are compared."),
 "C31": ("schedule control: another connection commits at chosen statements, rows and file operations; serial-order oracle", "exploration", "The result is compared with those of the same operation before and after the other transaction; the evidence counts where the other connection got its turn and which state was seen. PostgreSQL's isolation levels are emulated."),
 "C32": ("differential runs of the same calls in a fresh and in a used process", "exploration", "Codes, files and rows of the calls are compared with those of a process that made no calls before; evidence counts the kinds of earlier calls and failures."),
}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(f"{V}/checks/{i.lower()}.py"):
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": note + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "hooks": {"guard": "GEODIFF_VERIF", "enable": "lib/build.py compiles /repo's sources with -DGEODIFF_VERIF (no hooks have been needed in the sources so far)", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "run.py <id> runs one check; VERIF_SEED chooses the cases; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
