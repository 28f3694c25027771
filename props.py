"""What run.py needs to know about each property's monitor."""
EXP, FLT = "exploration", "fault_enumeration"
PROPS = {
    "C01": dict(harness="c01.cpp", configs=["san", "rel"], level=EXP,
                rule="all 8 systems and all 256 character values (each after every system), the advertised letters, and random call histories; a case is non-trivial when a conversion was answered or refused and compared",
                need_events=["rejections", "acceptances", "identifiers_compared"],
                exhaustive="8 systems x 256 character values"),
    "C02": dict(harness="c02.cpp", configs=["san", "rel"], level=EXP,
                rule="every system with every band in -2000..2000 and extreme values, attribute tables, constants, random lookup histories; non-trivial: an answer was compared with a published value",
                need_events=["frequencies_compared", "bands_rejected", "attribute_lists_compared", "constants_compared"],
                exhaustive="7 systems x bands -2000..2000, all tables and constants"),
    "C03": dict(harness="c03.cpp", configs=["san", "rel"], level=EXP,
                rule="6 types x 10 bands x 255 attribute bytes alone and with trailing text, 256 leading bytes, all pairs of 1260 codes for equality, random texts of length 0-40 and random edits of the parts; distinct by resulting code",
                need_events=["codes_parsed", "texts_rejected", "pairs_compared", "edits"],
                exhaustive="type x band x attribute, leading bytes, pairs of 1260 codes"),
    "C04": dict(harness="c04.cpp", configs=["san", "rel"], level=EXP,
                rule="all pairs of the 120 observables of up to 4 parts over 3 parts, random observables of 1-6 parts with repeats, permutations and single changes; distinct by text form",
                need_events=["equal_pairs", "unequal_pairs", "frequencies_summed", "frequencies_refused"]),
    "C05": dict(harness="c05.cpp", configs=["san", "rel"], level=EXP,
                rule="texts of every length 0-80 x serials of every length 0-60 in three prior memory contents; random histories of construct/copy/assign/set-serial with all pairs compared; distinct by antenna text",
                need_events=["states_compared", "same_pairs", "same_model_pairs", "different_pairs", "serials_matched", "serials_refused"]),
    "C06": dict(harness="c06.cpp", configs=["san", "rel"], level=EXP,
                rule="8 systems x numbers 0-999, all pairs of antenna text lengths 0-60 with single differences, random histories of set/copy/assign with every object re-read after every change; distinct by long text form",
                need_events=["long_forms", "short_forms", "antenna_comparisons"]),
    "C07": dict(harness="c07.cpp", configs=["san", "rel"], level=EXP,
                rule="all texts of length 0-8 over blank/letter with every limit, random texts of 0-120 characters, column sets (full-width, blank, truncated, D/E notation) of 8 shapes through both readers; distinct by text",
                need_events=["trims", "column_sets_read", "column_sets_refused", "years", "exponent_rewrites"]),
    "C08": dict(harness="c08.cpp", configs=["san", "rel"], level=EXP, cpu=60,
                rule="random filter histories of 1-20 updates with 4-14 satellites (plus unused ones), permuted twin filter, long-double reference; distinct by history step and resulting state",
                need_events=["states_compared", "states_of_combinations", "residuals_compared", "unweighted_updates"]),
    "C09": dict(harness="c09.cpp", configs=["sandbg", "reldbg"], level=EXP,
                rule="generated calibration files of 1-40 receiver and satellite antennas with confusable models, radomes and serials, 4-14 queries each on one reader; damaged headers; distinct by query and matched entry",
                need_events=["exact_matches", "mean_matches", "not_found", "serial_mismatch", "files_refused"]),
    "C10": dict(harness="c10.cpp", configs=["sandbg", "reldbg"], level=EXP,
                rule="generated antennas with 1-12 frequency sections, grids of 1-75 rows and 1-181 columns, RMS sections, comments; 14 ways of malforming one antenna of the file; distinct by offset list",
                need_events=["lists_compared", "malformed_reported", "built_by_hand"]),
    "C11": dict(harness="c11.cpp", configs=["sandbg", "reldbg"], level=EXP,
                rule="generated files of 1-40 antennas with re-used satellite numbers, adjoining and overlapping intervals, missing optional fields; queries at, one second around, and between the interval ends; distinct by query and answer",
                need_events=["satellites_compared", "offset_lists_compared", "not_found"]),
    "C12": dict(harness="c12.cpp", configs=["san", "rel"], level=EXP,
                rule="generated satellite-information files of 1-1400 records with re-used vehicles, adjoining intervals, other sensors and trailing parts, 5-20 queries at and around the interval ends; single-character damage of title and headings; distinct by query and answer",
                need_events=["channels_compared", "not_found", "files_refused"]),
    "C13": dict(harness="c13.cpp", configs=["sandbg", "reldbg"], level=EXP,
                rule="generated SP3-c/d headers (any start epoch to the microsecond, 1-999 satellites, 1-60 id and accuracy lines, 0-1300 comments) and 25 ways of making them disagree or malformed; distinct by first two lines",
                need_events=["headers_accepted", "headers_refused", "fields_compared"]),
    "C14": dict(harness="c14.cpp", configs=["san", "rel"], level=EXP,
                rule="generated orbit files of 1-20 epochs with reordered and missing satellites, velocity and correlation lines, all flag combinations, short lines, several passes; all 64x6x4 flag operations; distinct by epoch",
                need_events=["records_compared", "flagged_records", "epochs_compared", "flag_states", "ends_reported"],
                exhaustive="64 flag states x 6 flags x 4 operations"),
    "C15": dict(harness="c15.cpp", configs=["san", "rel"], level=EXP,
                rule="generated navigation files of 1-14 records of all 7 systems, every field over the whole D19.12 range, dates 1980-2079 with half of them at week boundaries, four exponent letters, blank or trimmed spare fields; every second file ends in a record with one unreadable mandatory field; distinct by system and field texts",
                need_events=["records_decoded", "fields_compared", "ephemeris_epochs_compared", "unreadable_refused"]),
    "C16": dict(harness="c16.cpp", configs=["san", "sandbg", "rel"], level=EXP,
                rule="generated files of 0-60 records of all 7 systems (with and without final newline, long headers) under random histories of 5-120 reads, skips, peeks, searches, rewinds, position changes and moves against a list model; distinct by operation, position and next record",
                need_events=["records_read", "records_skipped", "peeks", "searches_found", "searches_not_found", "rewinds", "gotos", "ends_reported", "moves"]),
    "C17": dict(harness="c17.cpp", configs=["san", "rel"], level=EXP,
                rule="generated chronological files of 1-50 records with healthy and ill messages and varying fit intervals; 5-40 searches at, one unit around and between all boundaries in three units, from varying positions, against a list model; distinct by search and answer",
                need_events=["found", "not_found", "unknown_validity"]),
    "C18": dict(harness="c18.cpp", configs=["san", "rel"], level=EXP,
                rule="decoded GPS, Galileo and BeiDou messages with random elements (eccentricity 0-0.1, all anomalies and planes), 2-6 epochs each within +-2 h, up to half a week, at day and week starts, in three units, against an extended-precision algorithm; distinct by message and epoch",
                need_events=["positions_compared", "on_another_day", "repetitions_compared"]),
    "C19": dict(harness="c19.cpp", configs=["san", "rel"], level=EXP,
                rule="decoded messages of the four systems with random clock and orbit elements and clock epochs that differ from ephemeris epochs, 2-6 epochs each within +-2 h and beyond, day and week starts, three units, against an extended-precision polynomial and relativistic term; distinct by message and epoch",
                need_events=["clocks_compared", "glonass_clocks_compared", "on_another_day", "epochs_differ"]),
    "C20": dict(harness="c20.cpp", configs=["san", "rel"], level=EXP,
                rule="decoded GLONASS messages with random medium orbits and accelerations, epochs from -900 s to 900 s in three units including both ends, whole minutes and fractions, and farther ones that must be flagged, against an extended-precision integration; distinct by message and epoch",
                need_events=["states_compared", "far_epochs_flagged", "broadcast_states_compared", "not_whole_minutes"]),
    "C21": dict(harness="c21.cpp", configs=["san", "rel"], level=EXP,
                rule="all accuracy indices x health values, frames of all 8 systems built by hand with distinct fields and retargeted, decoded messages of 7 systems; distinct by system and fields",
                need_events=["refusals", "health_and_fit_compared", "galileo_compared", "accuracy_compared"],
                exhaustive="16 accuracy indices x 64 health values"),
    "C22": dict(harness="c22.cpp", configs=["sandbg", "reldbg"], level=EXP,
                rule="generated headers with 1-7 systems of 1-60 observation types, shuffled record order, 0-1300 extra lines, overlong and empty lines; every second one spoilt in one of 20 ways; distinct by system, count and marker",
                need_events=["headers_accepted", "headers_refused", "fields_compared"]),
    "C23": dict(harness="c23.cpp", configs=["san", "rel"], level=EXP,
                rule="generated files of 0-30 epochs with 0-70 satellites and 1-40 types per system, clock offsets, trimmed and padded lines, event records, cycle-slip records and several events in a row, random system subsets, rewinds at arbitrary points, reads past the end; distinct by epoch and subset",
                need_events=["epochs_compared", "satellites_compared", "satellites_skipped", "ends_reported", "rewinds"]),
    "C24": dict(harness="c24.cpp", configs=["san", "rel"], level=EXP,
                rule="random requests of 1-8 observables of 1-4 parts per system, present, absent, mixed and misfiled, in both modes, over generated files with random blanks, trimmed lines, loss-of-lock and strength digits and full-width values; distinct by satellite and request",
                need_events=["values_compared", "combinations_compared", "missing_compared", "requests_refused", "alien_requests_refused", "requests_granted", "observables_removed"]),
    "C27": dict(harness="c27.cpp", fuzz=["nav"], configs=["san"], level=FLT, cpu=15,
                rule="generated navigation files; every fourth case: every truncation of a file of 1-4 records; else 40 files with 1-5 random line, byte, column or number changes each; reading through errors, searching, skipping, using the records; distinct by damage",
                need_events=["truncations", "alterations", "headers_accepted", "headers_refused", "errors_reported", "ends_reported", "records_before_damage", "searches", "records_used"]),
    "C25": dict(harness="c25.cpp", fuzz=["antex", "satellit"], configs=["sandbg"], level=FLT, cpu=15,
                rule="generated antenna-calibration and satellite-information files; every fourth case: every truncation of a small file; else 20 files with 1-5 random line, byte, column or number changes each; all entries and absent ones queried on one reader; distinct by damage",
                need_events=["truncations", "alterations", "headers_accepted", "headers_refused", "queries_answered", "queries_without_answer", "entries_before_damage"]),
    "C26": dict(harness="c26.cpp", fuzz=["sp3"], configs=["san"], level=FLT, cpu=15,
                rule="generated orbit files; every fourth case: every truncation of a file of 1-2 epochs; else 40 files with 1-5 random line, byte, column or number changes each; reading through errors to the end twice; distinct by damage",
                need_events=["truncations", "alterations", "headers_accepted", "headers_refused", "errors_reported", "ends_reported", "epochs_before_damage"]),
    "C28": dict(harness="c28.cpp", fuzz=["obs"], configs=["san"], level=FLT, cpu=15,
                rule="generated observation files; every fourth case: every truncation of a file of 1-4 epochs; else 40 files with 1-5 random line, byte, column or number changes each; requesting and reading through errors to the end twice; distinct by damage",
                need_events=["truncations", "alterations", "headers_accepted", "headers_refused", "errors_reported", "ends_reported", "epochs_before_damage"]),
    "C29": dict(harness="c29.cpp", configs=["san", "sandbg", "raw", "rawdbg"], level=EXP, leaks=True,
                rule="histories of 5-40 queries, reads, searches, rewinds, moves (construction, assignment over open readers and back, exchange, vector growth), re-targeting and failed openings on two readers of each of the five kinds, over undamaged and damaged files, with every error-indicator value and stack and heap pattern in between, against a fresh reader that saw only the operations since the last start over; distinct by operation and answer",
                need_events=["queries_compared", "reads_compared", "rewinds", "answers_without_result", "moves", "moves_over_another", "exchanges", "files_replaced", "headers_refused", "answers_of_another_process"]),
    "C30": dict(harness="c30.cpp", configs=["san", "rel"], level=EXP, cpu=20,
                rule="generated orbit files of 1-40 epochs, undamaged and with 1-4 random changes, intervals around the six interpolator widths, zero and tiny ones, unannounced satellites; one to two set-ups of two copies each, against a second reader; distinct by width, interval, epochs and what is read next",
                need_events=["initialized", "too_few_epochs", "refused", "damaged_files"]),
    "C31": dict(harness="c31.cpp", configs=["tsan", "rel"], level=EXP, cpu=120,
                rule="2-6 threads, each with a reader of one of the five kinds, messages, tables and text helpers, or a filter of its own (messages and values also read from shared constant objects), started together and yielding at random, against the same work done alone; distinct by kinds and order of the steps of all threads",
                technique="runtime monitoring: real threads under ThreadSanitizer and in a release build, answers compared with those of the same work done alone",
                need_events=["answers_compared", "thread_switches", "threads_run", "files_shared"]),
    "C32": dict(harness="c32.cpp", configs=["san", "rel"], level=EXP, cpu=60,
                rule="simulated sessions of 5-20 epochs with 3-28 satellites of one to four systems, changing, missing and unhealthy messages, single and ionosphere-free ranges, blanks and event records; observation, navigation and precise-orbit files read and processed to a position; distinct by final state",
                need_events=["positions_compared", "ranges_used", "messages_found", "precise_states_compared"]),
    "C33": dict(harness="c33.py", configs=["py"], level=EXP,
                technique="runtime monitoring: the real script run on generated and damaged files, its exit status and every line it prints judged by a reference list",
                note="Held on the executions generated in the run, nothing beyond them. Trusts the list kept by the generator in /verif/harness/c33.py and the Python interpreter.",
                rule="generated SP3-c and SP3-d files of 1-12 epochs, 1-999 satellites, velocity and correlation records, 4-400 comments; listed through the program and the module; bad requests and damaged files; distinct by listing",
                need_events=["listings_compared", "records_compared", "satellites_absent", "modules_compared", "requests_refused", "damage_reported"]),
    "C34": dict(harness="c34.py", configs=["py"], level=EXP,
                technique="runtime monitoring: the real script run on generated files, its exit status and every line it prints judged by a reference join",
                note="Held on the executions generated in the run, nothing beyond them. Trusts the join in /verif/harness/c34.py and the Python interpreter.",
                rule="pairs of files of 0-60 lines with plain, quoted and date-and-time keys, comments, empty and blank lines, varied separators, either one the longer; absent files; distinct by result",
                need_events=["files_joined", "lines_joined", "lines_without_match", "absent_files_refused"]),
    "C35": dict(harness="c35.cpp", configs=["rel", "san"], level=EXP, leaks=True, cpu=60,
                technique="runtime monitoring: every allocation and open file of the process, and the bytes it has read, counted around real readers; leak detection",
                rule="a generated file of each of the five kinds and the same with its records repeated to 0.6-2 MB, read to the end or searched 14 times, moved, exchanged, re-targeted, with openings that fail; interpolators set up 40 times, filters updated 300 times; distinct by file sizes, operations and answers",
                need_events=["readers_followed", "operations_followed", "answers", "failed_openings", "moves", "memory_balances", "megabytes_read", "set_ups", "updates"]),
    "C36": dict(harness="c36.cpp", configs=["san", "rel"], level=EXP,
                rule="generated files of the five kinds with one field of one record or header made unreadable (overflow stars, letters, signs, blanks where they mean nothing), 10 to 20 fields per kind; distinct by field, damage and line",
                need_events=["reports_of_records", "reports_of_headers", "reports_of_vehicles", "reports_of_antennas", "records_cut_short"]),
    "C37": dict(harness="c37.cpp", configs=["san", "rel"], level=EXP,
                rule="generated files of the five kinds read through a file system that returns any number of bytes, is interrupted, fails once or for good at any call, in step with a reader of the same file without faults; distinct by faults and answer",
                need_events=["answers_equal", "failures_reported", "openings_failed", "recoveries", "short_reads", "interrupted_reads", "failing_reads"]),
    "C38": dict(harness="c38.cpp", configs=["san", "rel"], level=EXP,
                rule="histories of 4-40 copies, assignments (to oneself too), moves, exchanges, rotations, storing in containers, passing by value and changes by public means of 2-9 values of each of nine types, against values made afresh by the same steps; distinct by operation and value",
                need_events=["values_looked_at", "operations", "changes", "assignments"]),
}
