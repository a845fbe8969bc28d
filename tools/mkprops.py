#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property) from the table below."""
import json, os
S = "geodiff/src/"
P = []
def p(i, title, st, over, q, why, files, mech, obs=None):
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": [S + f if not f.startswith(("py", "docs", "/")) else f.lstrip("/") for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs or ["GEODIFF_* C API return codes and files"], "hook_needed": None}})

p("C01", "Applying a created changeset to its base yields the modified database",
  "For any two SQLite or GeoPackage databases with the same schema, creating a changeset from base to modified succeeds, and applying it to a copy of base succeeds and leaves exactly the rows of modified in every table with a primary key. Every value keeps its exact type and content, whatever the table and column names, key shapes, SQL types, text (any Unicode, quotes, control characters, NUL) and blobs.",
  ["inputs"], "all pairs of databases with equal schemas, all values and names; rows with a NULL in their key are outside the comparison, as in SQLite's session extension",
  "The existing tests apply a handful of fixed fixture pairs; the guarantee is over all schemas, names, keys and values.",
  ["drivers/sqlitedriver.cpp", "changesetwriter.cpp", "changesetreader.cpp"],
  [("SqliteDriver::createChangeset / applyChangeset", "drivers/sqlitedriver.cpp"), ("reader and writer", "changesetreader.cpp, changesetwriter.cpp")])
p("C02", "A changeset is exactly the difference, deterministic and minimal",
  "The changeset created from base to modified contains one entry for each row that differs and no other: an insert or delete with the complete row, or an update with the key, and the old and new value of exactly the columns that differ. Identical databases give an empty changeset for which hasChanges is 0, and creating the changeset again gives the same bytes.",
  ["inputs"], "all pairs of databases with equal schemas",
  "Tests compare a few entry counts on fixtures; exactness must hold for every pair, type and value.",
  ["drivers/sqlitedriver.cpp", "changesetutils.cpp", "geodiff.cpp"],
  [("sqlFindInserted / sqlFindModified / valuesEqual", "drivers/sqlitedriver.cpp")])
p("C03", "Inverting a changeset undoes it, and inverting twice is the identity",
  "For any well-formed changeset with stable keys, applying its inversion to the modified database restores the base database exactly. The inversion describes exactly the reverse change of each row, equals the changeset created from modified to base as a set of entries, and inverting twice gives an equivalent changeset.",
  ["inputs"], "all changesets geodiff can create, and all well-formed ones",
  "Tests invert five fixture changesets.",
  ["changesetutils.cpp", "geodiff.cpp"], [("invertChangeset", "changesetutils.cpp")])
p("C04", "Rebase merges both sides' edits without losing any",
  "After rebasing my modified database onto theirs, the database is base with their changes plus mine: every edit of either side that does not contradict the other is present; a row deleted by one side is deleted; where both changed the same column of a row my value wins; a row I inserted under a key they also inserted is kept under a fresh key.",
  ["inputs", "histories"], "all triples base, theirs, mine with one-column keys of integers or texts, all interleavings of inserts, updates and deletes on the same keys (composite and other keys: an error or a correct merge)",
  "Tests rebase a dozen fixtures; the merge must be right for each combination of edits on every row and key.",
  ["geodiffrebase.cpp", "geodiff.cpp"], [("rebase, mapping of keys, concat", "geodiffrebase.cpp"), ("GEODIFF_rebase(Ex)", "geodiff.cpp")])
p("C05", "A rebased changeset applies on top of theirs and gives the rebased database",
  "For every triple, the rebased changeset applies to their modified database without conflict and gives the same database that rebasing mine in place gives. It is equivalent to my own changes when they have none and empty when I have none, and none of the input files are altered.",
  ["inputs", "histories"], "all triples including the boundary cases where a side has no changes",
  "Tests check counts of rebased changesets in a few fixtures and miss the boundary cases.",
  ["geodiffrebase.cpp", "geodiff.cpp"], [("rebase", "geodiffrebase.cpp"), ("GEODIFF_createRebasedChangeset(Ex)", "geodiff.cpp")])
p("C06", "The conflict file lists exactly the columns both sides changed differently",
  "After a rebase the conflict file contains one record per row and column that both sides updated to different values, with the table, key, column index, and the base, their and my value; nothing else is listed, apart from the modification date of gpkg_contents which is never listed. When there are no such columns no conflict file is left at the path, even if an older one was there.",
  ["inputs"], "all pairs of concurrent edits", "Tests check that a conflict file exists in a few cases, not its content over all edits.",
  ["geodiffrebase.cpp", "changesetutils.cpp"], [("_handle_update", "geodiffrebase.cpp"), ("conflictsToJSON", "changesetutils.cpp")])
p("C07", "Apply succeeds only if every change applied exactly, otherwise changes nothing",
  "Applying a changeset to any database either returns success with every entry having taken effect exactly once on a row matching its recorded old values, or returns an error and leaves the database content, triggers and schema exactly as they were. Missing rows, differing old values, existing keys, violated constraints, unknown tables and differing columns are each reported as an error.",
  ["inputs"], "all pairs of a changeset and a database it was not made for, conflict at any position",
  "Tests apply a few conflicting changesets; a partial application at any position and by any constraint kind must roll back.",
  ["drivers/sqlitedriver.cpp"], [("SqliteDriver::applyChangeset savepoint and conflict count", "drivers/sqlitedriver.cpp")])
p("C08", "Apply is atomic under crashes, I/O errors, full disks and locks",
  "If applying a changeset is interrupted at any point by process death, power loss, an I/O or disk-full error or a lock held by another connection, then after recovery the database holds either all of the changeset or none of it, with its triggers and integrity intact. The call reports success exactly when all of it is durable.",
  ["crash_points", "fault_sequences"], "every file-system operation made during apply, as crash point or fault, incl. partial persistence of unsynced writes",
  "No existing test injects a crash or fault.",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp"], [("savepoint transaction", "drivers/sqlitedriver.cpp")], ["VFS operations of SQLite, database after reopening"])
p("C09", "Changeset files follow the documented format and interoperate with SQLite",
  "Every changeset written by create, invert, dump and rebase is a valid file of the documented format: decodable, one table header before its entries, no header without entries, valid key flags and value encodings. SQLite's session extension accepts it with the same effect, and changesets recorded by SQLite's session extension are read and applied by geodiff with the same effect.",
  ["inputs"], "all changesets written or read, including multi-byte lengths and wide tables",
  "Tests read back one hand-made changeset.",
  ["changesetwriter.cpp", "changesetreader.cpp", "changesetvarint.h", "docs/changeset-format.md"], [("ChangesetWriter", "changesetwriter.cpp"), ("ChangesetReader", "changesetreader.cpp")])
p("C10", "Malformed changesets are rejected safely by every consumer",
  "For any file content given as a changeset, every operation that reads it finishes without memory errors, undefined behaviour, aborts or unbounded memory use, and reports an error unless the file is well formed. A database is not modified by a changeset that is not well formed.",
  ["inputs"], "all byte strings: truncations, bit flips, forged lengths, types, headers, and random files",
  "Tests feed no damaged file.",
  ["changesetreader.cpp", "changesetvarint.h", "geodiff.cpp", "geodiffrebase.cpp", "changesetutils.cpp", "drivers/sqlitedriver.cpp"], [("bounds checks in ChangesetReader", "changesetreader.cpp")])
p("C11", "listChanges gives valid JSON with exactly the entries of the changeset",
  "For any well-formed changeset, listing its changes writes a valid JSON document with one object per entry in order, with the table, operation, and for each recorded column its index and old and new value. Values can be recovered from it: text with any characters (valid UTF-8) exactly, blobs by base64, integers exactly, floating point numbers as documented decimal text.",
  ["inputs"], "all well-formed changesets", "Tests compare one or two documents with plain ASCII values.",
  ["changesetutils.cpp", "/geodiff/src/3rdparty/base64utils.cpp"], [("changesetToJSON", "changesetutils.cpp")])
p("C12", "Summary, changes count and hasChanges agree with the entries",
  "For any well-formed changeset the summary lists each table that has entries once with its exact number of inserts, updates and deletes, the changes count is the number of entries, and hasChanges is 1 exactly if there are entries. The order or grouping of entries in the file does not matter.",
  ["inputs"], "all well-formed changesets", "Tests check a few counts.",
  ["changesetutils.cpp", "geodiff.cpp"], [("changesetToJSONSummary", "changesetutils.cpp"), ("GEODIFF_changesCount / hasChanges", "geodiff.cpp")])
p("C13", "Output that cannot be written is reported as an error",
  "Whenever an output file (changeset, inverted or rebased changeset, conflict file, JSON listing, dump, copy) cannot be completely written, because the disk fills up at any byte, the path is missing, a directory or not writable, the operation returns an error and logs it. Success is returned only when the output file is complete.",
  ["fault_sequences", "inputs"], "every operation that writes a file, failure at every byte offset",
  "No existing test makes a write fail.",
  ["changesetwriter.cpp", "geodiffutils.cpp", "geodiff.cpp", "geodiffrebase.cpp"], [("stream and stdio error checks", "changesetwriter.cpp, geodiffutils.cpp")])
p("C14", "Reads that fail never lead to success with incomplete results",
  "If reading a database or changeset fails at any point, because of an I/O error, a corrupt page, a lock or memory exhaustion in SQLite, the operation returns an error; it never returns success with a changeset, dump, copy or rebase result that is not the complete and correct one.",
  ["fault_sequences"], "every read made by every operation, as a transient or permanent failure",
  "No existing test makes a read fail.",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp", "geodiffutils.cpp"], [("sqlite3_step result checks", "drivers/sqlitedriver.cpp")])
p("C15", "Operations leave inputs, temporary files and process resources as they were",
  "Every operation, successful or not, leaves its input databases and changesets byte for byte unchanged (the target of apply and rebase excepted, whose journal mode stays), removes every temporary file it made, and releases all memory, file descriptors and database locks it took.",
  ["inputs", "fault_sequences"], "all operations with valid, failing and faulted inputs, repeated calls",
  "Tests do not look at inputs, temp files or resources after calls.",
  ["geodiff.cpp", "geodiffutils.cpp", "drivers/sqliteutils.cpp"], [("TmpFile, Sqlite3Db/Sqlite3Stmt destructors", "geodiffutils.cpp, drivers/sqliteutils.cpp")])
p("C16", "Databases with different schemas are refused, equal ones accepted",
  "Creating a changeset succeeds if and only if both databases have the same set of compared tables with the same columns (name, order, type, key, not-null, geometry and CRS attributes); any difference gives an error. The rows of tables without a primary key, and virtual, rtree and feature-count tables as a whole, are ignored, and applying a changeset to a table with other columns or keys is refused.",
  ["inputs"], "all single differences between two schemas", "Tests try two schema differences.",
  ["drivers/sqlitedriver.cpp", "tableschema.h", "tableschema.cpp"], [("TableSchema comparison", "tableschema.h")])
p("C17", "Triggers and GeoPackage indexes survive and stay consistent through apply",
  "Applying a changeset or rebasing does not run the database's own triggers (those whose names do not start like the standard GeoPackage ones: gpkg_, rtree_, trigger_insert_feature_count_, trigger_delete_feature_count_) and leaves every trigger and the schema as they were, whatever the trigger names and bodies. After the change, GeoPackage rtree indexes and feature counts maintained by standard triggers agree with the table content.",
  ["inputs"], "all trigger names and bodies, all geometry edits", "Tests use two fixtures with simple trigger names.",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp"], [("drop and recreate of triggers", "drivers/sqlitedriver.cpp"), ("sqliteTriggers", "drivers/sqliteutils.cpp")])
p("C18", "Dump and copy carry the complete content of a database",
  "A data dump is a changeset of inserts with exactly every row of every table with a primary key, and applying it to an empty database of the same schema reproduces the rows. Copying a GeoPackage gives a new file with the same tables, columns, keys, CRS and rows, replacing any previous file, or an error.",
  ["inputs"], "all databases", "Tests dump one fixture and never copy SQLite to SQLite.",
  ["geodiff.cpp", "drivers/sqlitedriver.cpp"], [("GEODIFF_dumpData / GEODIFF_makeCopy", "geodiff.cpp")])
p("C19", "Rebase is refused for databases with foreign keys or foreign triggers",
  "Creating a rebased changeset returns an error when a user table of the modified database has a foreign key or the database has a trigger that is not a GeoPackage-maintained one, whatever their names, and does not refuse other databases. A refusal leaves all databases unchanged and no rebased changeset or conflict file.",
  ["inputs"], "all schemas with and without foreign keys and triggers", "Tests use two fixtures.",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp", "geodiff.cpp"], [("checkCompatibleForRebase", "drivers/sqlitedriver.cpp"), ("sqliteForeignKeys", "drivers/sqliteutils.cpp")])
p("C20", "Every failure is logged, and the logger honours callback and level",
  "Every operation that returns an error logs at least one error-level message, and successful ones log none. The registered callback receives exactly the messages whose severity is within the configured maximum level, no message reaches the console when a callback is set, and without configuration the level is errors only as documented.",
  ["configurations", "inputs"], "all operations and failures, all levels, callback set, unset and replaced",
  "Tests set the level once.",
  ["geodifflogger.cpp", "geodifflogger.hpp", "geodiff.cpp"], [("Logger::log", "geodifflogger.cpp")])
p("C21", "Concurrent calls on different databases do not disturb each other",
  "Calls made from several threads or processes at the same time on different databases, sharing the temporary directory, give each the result they give alone, with no data race, crash or lost output.",
  ["schedules"], "all interleavings of operations in threads and processes",
  "Tests are single threaded.",
  ["geodiff.cpp", "geodiffutils.cpp", "geodifflogger.cpp"], [("temporary file names", "geodiff.cpp, geodiffutils.cpp"), ("Logger singleton", "geodifflogger.cpp")])
p("C22", "Missing or null arguments give an error, never a crash",
  "Every public function called with any combination of null pointers, empty strings, missing files, directories or unknown driver names returns an error value and logs it, without crashing and without altering files; optional arguments may be null.",
  ["inputs"], "all argument combinations of all public functions", "Tests try a few null arguments.",
  ["geodiff.cpp"], [("argument checks", "geodiff.cpp")])
p("C23", "The Python module mirrors the library",
  "Each function of the Python module calls the matching library operation with the arguments in the right order and encoding and gives the same results and files; every library error becomes the documented exception, and callbacks and log levels are passed through.",
  ["inputs"], "all functions, all argument combinations incl. non-ASCII and special paths, success and failure",
  "Python tests need a built library and sample a few calls.",
  ["/pygeodiff/geodifflib.py", "/pygeodiff/main.py"], [("ctypes bindings", "pygeodiff/geodifflib.py")])
p("C24", "The command line tool does what the library does and exits non-zero on error",
  "Every command of the command line tool performs the matching library operation on the given arguments in the documented order, its exit status is zero exactly when the operation succeeded, and unknown commands or missing arguments exit non-zero and alter nothing.",
  ["inputs"], "all commands and argument lists", "The tool has no tests.",
  ["geodiffinfo.cpp"], [("command handlers", "geodiffinfo.cpp")])
p("C25", "PostgreSQL driver: created changesets equal the difference of two schemas",
  "For any two PostgreSQL schemas with the same tables, the changeset created is exactly their row difference with values converted to the SQLite representation, and applying it to the base schema issues statements that turn base into modified; all names and values are quoted correctly.",
  ["inputs"], "all tables of the supported column types (integers, floating point numbers, texts, booleans, timestamps in whole seconds, geometries), all names and values, NaN excepted", "PostgreSQL tests need a server and are not part of the suite here.",
  ["drivers/postgresdriver.cpp", "drivers/postgresutils.cpp"], [("PostgresDriver", "drivers/postgresdriver.cpp")], ["SQL sent through libpq"])
p("C26", "PostgreSQL driver: apply reports every mismatch and rolls back",
  "Applying a changeset through the PostgreSQL driver returns success only if every statement affected exactly its row, and otherwise rolls the transaction back and returns an error; every connection and result is released.",
  ["inputs", "fault_sequences"], "all conflicts and server errors at any statement", "PostgreSQL tests need a server.",
  ["drivers/postgresdriver.cpp", "drivers/postgresutils.cpp"], [("PostgresDriver::applyChangeset, PostgresTransaction", "drivers/postgresdriver.cpp")], ["SQL sent through libpq"])
p("C27", "Running out of memory gives an error, never a crash or a wrong result",
  "When an allocation of the library fails at any point of any operation, once or from then on, the call returns an error code: no exception leaves the C interface, nothing is freed twice or read after it was freed, and a database that was to be changed is either as before or changed completely. If the call reports success all the same, its outputs equal those of an undisturbed run.",
  ["inputs", "fault_sequences"], "all operations, every allocation (operator new) as the failing one, once or permanently",
  "Tests never run out of memory.",
  ["geodiff.cpp", "changeset.h", "changesetreader.cpp", "changesetwriter.cpp", "geodiffutils.cpp", "drivers/sqlitedriver.cpp"],
  [("exception handlers of the C interface", "geodiff.cpp"), ("Value, Buffer, Sqlite3Stmt, TmpFile ownership", "changeset.h, geodiffutils.cpp, drivers/sqliteutils.cpp")])
p("C28", "Clients syncing through rebased changesets converge without losing edits",
  "When several clients repeatedly edit their copies, rebase onto the server's changes and push, each client's database after a sync equals the server's, all clients converge when edits stop, and every non-conflicting edit survives in the final state.",
  ["histories"], "all histories of edits and syncs by any number of clients",
  "Tests run one rebase at a time.",
  ["geodiff.cpp", "geodiffrebase.cpp", "drivers/sqlitedriver.cpp"], [("createChangeset, rebase, applyChangeset together", "geodiff.cpp")])
p("C29", "Long values and large databases are handled like small ones",
  "All guarantees of create, apply, invert, list and rebase hold for databases with many rows, tables and columns and for very long texts and blobs, and the time taken grows no worse than the data (no hang).",
  ["inputs"], "sizes up to tens of thousands of rows, thousands of tables, 900 columns, names of twenty thousand bytes, values of several megabytes",
  "Fixtures have a few rows.",
  ["drivers/sqlitedriver.cpp", "changesetreader.cpp", "changesetwriter.cpp", "geodiffrebase.cpp"], [("all", "geodiff.cpp")])
p("C30", "Results depend on the inputs only, not on the environment",
  "The same calls on the same inputs give the same return codes and the same outputs (changesets, JSON, conflict files, dumps, databases) whatever the locale of the process (C and C++), time zone, umask, environment variables, working directory, absolute or relative form of the paths, names of files and directories, and - for PostgreSQL - the settings of the role such as client_encoding, bytea_output, extra_float_digits and standard_conforming_strings.",
  ["inputs", "configurations"], "all calls, all inputs, all locales and settings",
  "Tests run in one environment.",
  ["geodiffutils.cpp", "changesetutils.cpp", "tableschema.cpp", "drivers/postgresdriver.cpp", "drivers/sqliteutils.cpp"],
  [("number and text conversion", "geodiffutils.cpp, drivers/postgresdriver.cpp"), ("type names", "tableschema.cpp")])
p("C31", "Transactions of others are seen completely or not at all and never lost",
  "While other connections commit transactions to the databases involved, a changeset, dump or copy describes one committed state of each database, never a mixture of states, or the call reports an error; applyChangeset and rebase behave as if run entirely before or after each of the other transactions: what the other transaction wrote is not lost, and when they fail the database holds exactly what the other transaction left.",
  ["schedules", "inputs"], "all moments at which another connection commits, rollback-journal and WAL databases, PostgreSQL",
  "Tests run a single connection.",
  ["drivers/sqlitedriver.cpp", "drivers/postgresdriver.cpp"],
  [("SqliteDriver::createChangeset, dumpData, applyChangeset, Sqlite3SavepointTransaction", "drivers/sqlitedriver.cpp"), ("PostgresTransaction", "drivers/postgresdriver.cpp")])
p("C32", "Earlier calls in the same process do not influence later ones",
  "A call gives the same return code, outputs and databases whether it is the first one of a process or follows other calls of the same process: calls on other databases under the same paths or with the same table names and other columns or rows, calls that failed (wrong arguments, broken files, out of memory, lost connection), and calls made with other logger settings.",
  ["histories", "inputs"], "all sequences of calls in one process",
  "Each test makes its calls on files of its own and expects them to succeed.",
  ["drivers/sqlitedriver.cpp", "drivers/postgresdriver.cpp", "geodiffrebase.cpp", "changesetreader.cpp", "changesetwriter.cpp", "geodifflogger.cpp"],
  [("process-wide and thread-local state, handles left after errors", "geodiff.cpp, geodifflogger.cpp, drivers/")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
