#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 bin/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CHECKS = {}     # id -> (technique, level, level_note)
NA = {}         # id -> reason

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T = "src/common/src/"
NOTEST = "No test in the repository touches it (the three stable tests deserialise three literals); the quantifier ranges over "

# ------------------------------------------------------------------ common
p("C01", "Property types map consistently to query and storage column types",
  "Every scalar property type maps to exactly one query-engine column type and one storage column type that denote the same kind of value (decimals with 28 digits of precision and 16 of scale, timestamps in milliseconds without a zone), and mapping either of them back yields the same property type. List types map to the type of their element in both engines and are recognised back from list columns of either engine. Different types always have different short tags, so column names built from them never collide, and an unsupported column type is refused rather than mapped to another type.",
  ["inputs"], "all property types, scalar and list, and all column types of both engines",
  NOTEST + "all types and both directions of two mappings.",
  [T+"types.rs", T+"arrow.rs"], [("From/TryFrom between property type and both column type systems", T+"types.rs"), ("short_name", T+"types.rs"), ("DecimalBuilder", T+"arrow.rs")])
p("C02", "A stored scalar value is read back exactly as it was written",
  "Any scalar value of a representable kind (null, booleans, all integer and float widths, decimals with their precision and scale, strings, binaries, dates, times, timestamps with their zone, year-month intervals), present or null, that is stored inside a saved query or custom event is read back with the same kind, the same nullness and the same content. This holds for both the text and the binary form.",
  ["inputs"], "all scalar kinds, null and non-null, boundary values, both serialised forms",
  NOTEST + "all value kinds and contents.",
  [T+"scalar.rs", T+"query.rs"], [("SerializeAs/DeserializeAs for scalar values", T+"scalar.rs")])
p("C03", "A saved analytics request is restored unchanged",
  "Any event-segmentation or funnel request, with whatever events, filters, breakdowns, queries, segments, time ranges, windows, exclusions and chart options, equals itself after being written to and read back from storage, in text and in binary form. Two different requests never have the same stored form.",
  ["inputs"], "all request trees",
  NOTEST + "the whole request grammar.",
  [T+"query.rs", T+"event_segmentation.rs", T+"funnel.rs"], [("serde derives on request types", T+"query.rs"), ("bookmark/report storage", "src/metadata/src/bookmarks.rs")])
p("C04", "Partial updates distinguish absent, null and present fields",
  "In an update request, a field that is absent leaves the stored value alone, a field that is null clears it and a field with a value sets exactly that value; these three cases are never confused for any field type. Converting, mapping or fallibly converting an optional field keeps which case it is, applies the conversion exactly once to a present value, and reports a conversion failure only for a present value.",
  ["inputs", "histories"], "all field types, all three cases, all sequences of set/convert operations",
  "The three unit tests deserialise three literals; conversions, sequences of updates and other field types are not touched.",
  [T+"types.rs"], [("OptionalProperty", T+"types.rs")])
p("C05", "Role permissions are monotone and deny by default",
  "A global administrator may do everything; an organisation owner may do everything in an organisation, an organisation admin may manage projects and nothing else, an organisation member has no organisation permission. Project roles are strictly ordered owner, admin, member, reader: each is allowed everything the next one is, only an owner may delete a project or schema, only owner and admin may invite or manage members, a reader can neither manage reports nor the schema. A role absent from the tables, or a permission not granted by them, is denied.",
  ["inputs", "configurations"], "every role and every permission of the three tables",
  "No test reads the permission tables.",
  [T+"rbac.rs", "src/platform/src/context.rs"], [("PERMISSIONS / ORGANIZATION_PERMISSIONS / PROJECT_PERMISSIONS", T+"rbac.rs"), ("Context::check_*", "src/platform/src/context.rs")])
p("C06", "Relative and absolute query time ranges resolve to the same interval always",
  "A range given by two instants resolves to those instants, a range given by a start resolves to start up to now, and a range given as the last n units ends now and starts exactly n calendar units earlier (hours, days and weeks by elapsed time, months and years by the calendar with the day clamped to the month's end). For n >= 0 the start is never after the end, larger n never gives a later start, and the range of a request and the time columns computed from it agree.",
  ["inputs"], "all instants (leap years, month ends, pre-1970), all n and units",
  NOTEST + "instants and units; calendar corner cases are what breaks.",
  [T+"query.rs", T+"event_segmentation.rs"], [("QueryTime::range", T+"query.rs"), ("relative_duration", T+"query.rs")])
p("C07", "Truncating an instant to hour, day, week, month or year is exact",
  "Truncating an instant to a unit yields the start of the calendar hour, day, Monday-based week, month or year that contains it: the result is never after the instant, is less than one unit before it, is its own truncation and is at a unit boundary. Truncation is monotone, and two instants truncate to the same value exactly when they lie in the same calendar unit.",
  ["inputs"], "all instants with sub-second parts, all units",
  NOTEST + "instants; month ends, leap days, week/year crossings and pre-1970 instants are the corner cases.",
  [T+"query.rs"], [("date_trunc", T+"query.rs")])
p("C08", "Time columns of a result tile the requested range without gaps",
  "The time columns of a request are exactly the starts of the calendar units that intersect the range, in ascending order, each once: the first contains the range start, the last contains the range end, and consecutive ones differ by exactly one unit. The column text of an instant is the same as the text of its truncation, so that a truncated event time always finds its column.",
  ["inputs"], "all ranges and granularities",
  NOTEST + "ranges; off-by-one columns at ends, month and DST-free calendar steps.",
  [T+"query.rs"], [("time_columns", T+"query.rs"), ("date_trunc", T+"query.rs")])
p("C09", "Operators and aggregate functions are translated faithfully",
  "Every comparison operator and aggregate function of a request is translated into the engine operator with the same meaning, never another one, directly or through intermediate forms, and translating back gives the original; the operations that take no value are exactly true, false, exists and empty. An operation with no counterpart is refused and never silently replaced.",
  ["inputs"], "all operators, aggregate functions and time units",
  "No test covers the translation tables.",
  [T+"query.rs"], [("From/TryInto between operator types", T+"query.rs")])
p("C10", "Time-unit durations are linear, positive and ordered",
  "The length of n units is n times the length of one unit, one hour < one day < one week < one month < one year, a month is counted as 31 days and a year as twelve such months, and general and funnel time units agree on every unit's length, calendar step and name. Each unit has a distinct name usable as an engine truncation unit.",
  ["inputs"], "all units and n",
  NOTEST + "units and counts; the two unit types are maintained separately.",
  [T+"query.rs", T+"funnel.rs"], [("TimeIntervalUnit::duration / relative_duration / as_str", T+"query.rs"), ("TimeIntervalUnitSession", T+"funnel.rs")])
p("C11", "API errors and malformed requests produce faithful 4xx answers",
  "An API error always yields a response whose HTTP status equals the status in its JSON body and whose body carries exactly the code, message and fields it was built with. Decoding a JSON request body gives the value for every well-formed body, and for every malformed one (wrong content type, broken syntax, missing, unknown or mistyped field, empty or non-UTF-8 body) a client-error answer, with the offending field named when a field is missing or unknown; it never panics and never yields a 5xx.",
  ["inputs"], "all error contents, all bodies and content types",
  NOTEST + "request bodies; hostile input is not sampled by any test.",
  [T+"http.rs"], [("ApiError", T+"http.rs"), ("Json extractor", T+"http.rs")])
p("C12", "Request logging and metrics never alter a request or response",
  "With request logging and metrics in place a handler receives the same method, path, headers and body bytes, and the client the same status, headers and body, as without them, for every body including binary and empty ones. Every request other than an OPTIONS one is counted exactly once, under its own path and the status it was answered with.",
  ["inputs", "histories"], "all requests and sequences of requests",
  "No test runs the middleware.",
  [T+"http.rs"], [("print_request_response / measure_request_response", T+"http.rs")])
p("C13", "Result series are labelled by the query that produced them",
  "The label of a query shows its aggregate functions and its property, labels of queries with different functions or properties differ, and the name under which a query's raw result is looked up is the one reserved for that kind of result. Each event and property reference is shown under its own name or id.",
  ["inputs"], "all query kinds, functions and property names",
  "No test covers labels.",
  [T+"event_segmentation.rs", T+"query.rs"], [("Query::name / initial_name", T+"event_segmentation.rs"), ("EventRef::name, PropertyRef::name", T+"query.rs")])

# ------------------------------------------------------------------ storage
S = "src/storage/src/"
p("S01", "Every acknowledged row is scanned exactly once, whatever has been flushed",
  "A scan of a table returns exactly the rows inserted and acknowledged before it, each once and with the values given, for the requested columns, in the order of the table's key columns (columns are requested together with the key columns). This holds whether the rows are still in memory, in one or in many files, and in whatever order inserts, flushes and scans are interleaved.",
  ["histories", "inputs", "configurations"], "all sequences of insert, flush, scan; all value types; all table options",
  "The storage tests cannot even be built here and sample a few fixed histories.",
  [S+"db.rs", S+"table.rs", S+"memtable.rs", S+"parquet/arrow_merger.rs"], [("OptiDBImpl::insert / scan / flush", S+"db.rs"), ("memtable", S+"memtable.rs"), ("merging reader", S+"parquet/arrow_merger.rs")])
p("S02", "Acknowledged rows survive restart and crash",
  "After a clean restart, or when the process dies at any moment (between or inside its file operations), reopening the database succeeds and a scan returns every row that was acknowledged before the crash and no row that was never inserted; a row being written at the moment of the crash may be present or absent but never damaged. Tables and columns that were acknowledged are still there.",
  ["crash_points", "histories"], "all crash points between and inside file writes; all histories",
  "No test crashes the store or truncates its files.",
  [S+"db.rs"], [("write-ahead log and recovery", S+"db.rs"), ("metadata file", S+"db.rs")])
p("S03", "In a replacing table the latest version of a key wins",
  "In a table that replaces rows by key, the last key column is the version of the row that the other key columns identify. A scan returns the highest version of every key exactly once, with the column values of that one version; older versions may still appear before it until they are merged, but no key is lost and no row mixes columns of two versions. A lookup by full key returns that row. This holds whether versions of a key are in memory, in the same file or in different files, before and after flushes, compactions and restarts.",
  ["histories", "inputs"], "all sequences of inserts and overwrites of the same keys, flushes, compactions",
  "Tests sample a few fixed files.",
  [S+"db.rs", S+"parquet/parquet_merger.rs", S+"parquet/arrow_merger.rs"], [("is_replacing merge", S+"parquet/parquet_merger.rs"), ("get", S+"db.rs")])
p("S04", "Compaction and merging never change what the table contains",
  "Running compaction at any moment, any number of times, changes no scan result: no row is lost, duplicated, changed or attributed to another key, and files that were merged away are removed only when nobody reads them and nothing else is removed: after collection the files on disk are exactly the live ones. Inside each level above the first, the keys of different files do not overlap (they may share a boundary key), rows in a file are sorted by key, and the recorded key range of a file covers its keys. A scan that was started before a compaction returns the same rows as if it had finished before it.",
  ["histories", "schedules", "configurations"], "all histories, level counts, size limits and file layouts",
  "The compaction thread is disabled under test; only fixed layouts are merged.",
  [S+"compaction.rs", S+"parquet/parquet_merger.rs"], [("determine_compaction / compact", S+"compaction.rs"), ("merge", S+"parquet/parquet_merger.rs")])
p("S05", "Adding a column never disturbs existing rows",
  "Columns can be added at any time; rows written earlier read as null in a new column and keep every old value in its old column, in memory, on disk, after restart and after compaction, and in scans that request any subset of columns in any order. Adding a column that exists is refused and changes nothing.",
  ["histories", "inputs"], "all interleavings of add-column, insert, flush, compaction, restart; all projections",
  "Tests add columns in one fixed order.",
  [S+"db.rs", S+"table.rs", S+"memtable.rs"], [("add_field", S+"db.rs"), ("projection", S+"db.rs")])
p("S06", "A restored backup equals the database at the time of the backup",
  "A database restored from a backup contains exactly the tables, columns and rows the original had when the backup was taken, and keeps accepting inserts that survive restarts; taking a backup does not change the original.",
  ["histories"], "all histories before the backup",
  "No test takes or restores a backup of a store with data in memory and in several files.",
  [S+"db.rs"], [("full_backup_local / full_restore_local", S+"db.rs")])
p("S07", "Merging sorted files keeps order, rows and every value",
  "Merging any number of key-sorted files of any schemas into new files yields exactly the union of their rows ordered by the key, with each row's values, nulls and lists intact and columns absent in a file read as null, for every column type, page size and row-group size. The key range recorded for every produced file covers the keys it holds and is exact in the leading key column, its recorded row count and size are those of the file, and outputs follow each other in key order. In a replacing merge the newest version of every key comes out exactly once and whole. A scan that merges files with rows in memory obeys the same rules.",
  ["inputs", "configurations"], "all key types and column types, layouts, page sizes",
  "Tests merge generated files of a few shapes and compare samples.",
  [S+"parquet/parquet_merger.rs", S+"parquet/arrow_merger.rs", S+"parquet/parquet.rs"], [("parquet merger", S+"parquet/parquet_merger.rs")])
p("S08", "Concurrent scans and writes see each row whole and exactly once",
  "While writers insert and columns are added, and the store flushes, compacts, collects garbage and takes backups, every scan returns whole rows, each acknowledged-before-start row exactly once and no row twice; a lookup finds an acknowledged row; a backup restores to a state of one moment; no operation panics or deadlocks.",
  ["schedules", "histories"], "all interleavings of inserts, scans, flushes and compaction",
  "No test is concurrent.",
  [S+"db.rs", S+"compaction.rs"], [("table locks", S+"db.rs"), ("compactor thread", S+"compaction.rs")])

# ------------------------------------------------------------------ metadata
M = "src/metadata/src/"
p("M01", "Metadata entities read back as written",
  "Every entity (account, organisation, project, team, event, property, custom event, dictionary entry, dashboard, report, bookmark, group, session, backup, settings) that was created or updated is read back by id, by name or key and in lists with exactly the fields given, until it is updated or deleted; a partial update changes only the given fields. Lists contain exactly the live entities of their scope. Times are kept to the second, and an empty list may read back as none. Concurrent partial updates of one entity are not lost.",
  ["histories", "inputs"], "all sequences of create, get, list, update, delete on every kind of entity",
  "The metadata tests cannot be built here and check a few fixed sequences.",
  [M], [("store modules", M), ("index helpers", M+"index.rs")])
p("M02", "Unique names, keys and tokens stay unique and findable",
  "No two live entities of a scope ever share a unique name, e-mail, display name or token: a create or update that would do so is refused with an already-exists error and changes nothing. Looking up by such a key always finds the entity that currently has it, and never one that had it before or has it as a different kind of key.",
  ["histories", "schedules"], "all histories including renames, swaps and reuse after delete, and concurrent creates",
  "Fixed sequences only; concurrency untested.",
  [M+"index.rs", M+"projects.rs", M+"accounts.rs"], [("check_insert_constraints / check_update_constraints", M+"index.rs")])
p("M03", "Ids are never reused or handed out twice",
  "Every created entity of a scope gets an id no other entity of that scope ever had, also when creations run concurrently, after deletions and after failures; sequence numbers grow and counters count every increment.",
  ["schedules", "histories"], "all interleavings of concurrent creations",
  "No test creates concurrently.",
  [M+"index.rs"], [("next_seq / next_zero_seq", M+"index.rs")])
p("M04", "A failed or repeated metadata operation leaves no trace",
  "An operation that reports an error (missing entity, duplicate key, constraint violation, storage failure) leaves every lookup and every list exactly as before, and deleting an entity removes it from every lookup so that its names can be used again.",
  ["histories", "fault_sequences"], "all failing operations in all states",
  "Tests check the error, not the state after it.",
  [M+"index.rs", M], [("transactions", M)])
p("M05", "Projects never see each other's metadata",
  "Nothing done inside one project (create, update, delete of events, properties, custom events, dictionaries, dashboards, reports, groups, sessions) changes or appears in any lookup or list of another project or another group, whatever ids and names are used, including ids that are prefixes of each other.",
  ["histories", "inputs"], "all histories over several projects with overlapping names and prefix ids (1, 10, 100)",
  "Tests use a single project.",
  [M+"lib.rs", M], [("key construction", M+"lib.rs")])
p("M06", "Custom events never form cycles and never nest too deep",
  "No sequence of creating and updating custom events ever stores a custom event that directly or indirectly contains itself, or one nested deeper than the limit; not even when changes run concurrently; such a change is refused and changes nothing, and every custom event whose parts exist and form a tree within the limit is accepted.",
  ["histories", "inputs"], "all graphs of references between custom events and all update orders",
  "Tests try one cycle and one depth.",
  [M+"custom_events.rs"], [("validate_events", M+"custom_events.rs")])
p("M07", "Dictionary encoding of strings is a stable bijection",
  "Within a project, table and column each string has exactly one key, given at first use and never changed, two strings never share a key, and both directions of lookup agree; the empty, very long and any Unicode string included.",
  ["histories", "schedules"], "all sequences of strings, several dictionaries, concurrent first uses",
  "Tests try two strings.",
  [M+"dictionaries.rs"], [("get_key_or_create", M+"dictionaries.rs")])
p("M08", "Property columns are unique and present in storage",
  "Every property of a project's events and groups has, in every table it belongs to, a storage column of the matching physical type (the key type for dictionary properties), which exists as soon as the property is returned. Properties of different types never share a column, in one project or across projects; within a project a non-system property shares its column with no other property and is never given a column that a deleted one had.",
  ["histories", "inputs"], "all sequences of property creations across projects and types",
  "Fixed sequences only.",
  [M+"properties.rs"], [("create / get_or_create", M+"properties.rs"), ("add_field", S+"db.rs")])

# ------------------------------------------------------------------ query
Q = "src/query/src/"
p("Q01", "Property filters select exactly the rows that satisfy them",
  "A filter on a property keeps a row exactly when the row's value satisfies the operation with one of the given values (with none of them for negative operations): equality, order, pattern, emptiness and boolean tests behave as for the plain value, a missing value satisfies only the emptiness test, and several filters must all hold. The result does not depend on whether the property is dictionary-encoded, nor on its numeric width.",
  ["inputs"], "all operations, property types, values, nulls and row contents",
  "The query tests cannot be built here and sample a few rows.",
  [Q+"expr.rs"], [("named_property_expression", Q+"expr.rs")])
p("Q02", "Event segmentation equals a recount of the raw events",
  "For every request made of counts, unique and daily active groups, counts per group and property aggregates (of any regular or custom events, filters, breakdowns, group, range and unit; without segments and formulas), each number reported for an event, query, breakdown value and time column equals what is obtained by counting or aggregating, one by one, the project's raw events in that calendar unit of the requested range that match the event, its filters and the breakdown value; there is a row for every breakdown value with data (at most 50 per value), nothing else is reported and units without data are empty.",
  ["inputs", "configurations"], "all event sets, requests, partitionings",
  "Golden-table tests with one small data set.",
  [Q+"event_segmentation.rs", Q+"physical_plan"], [("logical plan", Q+"event_segmentation.rs"), ("planner", Q+"physical_plan/planner")])
p("Q03", "Aggregates equal the mathematical aggregate of the selected values",
  "Count, sum, minimum, maximum and average over rows, overall and per group, equal the exact aggregate of the non-filtered rows' values, for every numeric type, negative numbers, single rows and any grouping.",
  ["inputs"], "all columns, types, groupings, predicates and batch splits",
  "A few golden tables.",
  [Q+"physical_plan/expressions/aggregate"], [("Aggregate / Count", Q+"physical_plan/expressions/aggregate")])
p("Q04", "Per-user aggregates aggregate each user once",
  "An aggregate of a per-user aggregate first aggregates the matching rows of each user and then aggregates those per-user results, each user counted exactly once whatever his id, in the groups his rows belong to; unique counts count each user once.",
  ["inputs"], "all users, values, functions, groupings and batch splits",
  "A few golden tables.",
  [Q+"physical_plan/expressions/aggregate/partitioned"], [("PartitionedAggregate / PartitionedCount", Q+"physical_plan/expressions/aggregate/partitioned")])
p("Q05", "Results do not depend on how rows are split into batches",
  "Every segmentation, funnel, event search and group search request gives the same rows (in whatever order; averages up to rounding) whether the stored rows reach the operators of its plan in one batch or in any sequence of batches, including empty ones, and for every number of partitions and every batch size of the engine, as long as the answer stays below the limits of 50 rows per breakdown value and 100 searched records.",
  ["schedules", "inputs"], "all ways to cut the input into batches",
  "Tests feed one fixed split.",
  [Q+"physical_plan"], [("stream implementations", Q+"physical_plan")])
p("Q06", "Pivot and unpivot are faithful reshapings",
  "Unpivoting turns each row into one row per named column, with that column's name and value and the other columns repeated, and pivoting gathers them back: each value ends in the row of its group and the column of its name, values of absent combinations are null, no value is lost, duplicated or moved, and pivoting what was unpivoted restores the table.",
  ["inputs"], "all tables, group keys and column sets",
  "Two golden tables.",
  [Q+"physical_plan/pivot.rs", Q+"physical_plan/unpivot.rs"], [("PivotExec", Q+"physical_plan/pivot.rs"), ("UnpivotExec", Q+"physical_plan/unpivot.rs")])
p("Q07", "Combining series keeps all their rows apart",
  "Merging the results of several series yields all rows of each, in order, labelled with the series they came from, with null in columns a series lacks; column renaming, reordering and added constant columns change nothing else.",
  ["inputs"], "all numbers of series, schemas and batches",
  "One golden table.",
  [Q+"physical_plan/merge.rs"], [("MergeExec", Q+"physical_plan/merge.rs"), ("AddStringColumnExec / ReorderColumnsExec / RenameColumn*", Q+"physical_plan")])
p("Q08", "Funnels count each user's conversions exactly",
  "A funnel follows the events of each user (of the chosen group; events without one are left out) within the request's time and filters, in order of time and separately per breakdown value. An attempt starts at an event matching the first step, advances one step with each later event matching the next (for a step of any order, an event matching any step of its range), and ends when all steps are matched, at an event later than the conversion window after the attempt's start, at the user's last event, or - then without being counted - at an event matching an exclusion that applies to the awaited step, or one whose held constants differ from those of the attempt's first event; an event that ended an attempt other than by completing it may start the next. With unique counting a user's events after his first completed attempt are ignored. Every counted attempt adds one to the total of each step it reached, in the interval of its first event and under its breakdown value; dropped-off is the decrease from the previous step; conversion ratio is total/first total*100 and drop-off ratio 100 minus it; times and averages are those of the counted attempts. It does not depend on batches and partitions.",
  ["inputs", "configurations"], "all event sequences, steps, orders, windows, constants, exclusions, groupings",
  "A few golden sequences.",
  [Q+"physical_plan/expressions/partitioned/funnel"], [("funnel evaluation", Q+"physical_plan/expressions")])
p("Q09", "User segments contain exactly the users that satisfy the condition",
  "A user belongs to a segment exactly when the count or aggregate of his matching events in the condition's time range satisfies the comparison, alternatives are united and conjunctions intersected user by user, and each user is evaluated only on his own events.",
  ["inputs"], "all users, events, conditions, time ranges, and/or combinations",
  "A few golden tables.",
  [Q+"physical_plan/expressions/segmentation"], [("segment expressions", Q+"physical_plan/expressions/segmentation")])
p("Q10", "No query ever returns another project's data",
  "Whatever is requested (segmentation, funnel, event or group search, property values), every row and number in the answer derives only from events and group records of the requesting project.",
  ["inputs", "histories"], "all requests over stores that hold several projects with the same names and users",
  "Tests hold a single project.",
  [Q+"event_segmentation.rs", Q+"funnel.rs", Q+"event_records.rs", Q+"group_records.rs", Q+"properties.rs"], [("project filter in every plan", Q)])
p("Q11", "Searches return exactly the matching records",
  "An event search returns the records of the time range that match one of the requested events (all, where none is requested) with its filters and all common filters, newest first, at most 100; a group search returns the matching records of the group, latest version each, in the requested order, at most 100; each with exactly the requested properties (or all) holding their own decoded values, missing ones missing. A record asked for by its id comes with all its own values, and an unknown id is refused. A listing of property values returns each distinct matching value once.",
  ["inputs"], "all data sets, filters, time ranges",
  "Not tested.",
  [Q+"event_records.rs", Q+"group_records.rs", Q+"properties.rs"], [("build_search_plan", Q+"event_records.rs")])
p("Q12", "Rows of one user always land in one partition, unchanged",
  "Partitioning keeps every row unchanged and in order, and tags it so that rows with equal partition keys get equal tags and rows with different single-column keys get different ones; which tag a key gets does not depend on the other rows or on batch boundaries.",
  ["inputs", "schedules"], "all keys and batches",
  "One golden table.",
  [Q+"physical_plan/partition.rs"], [("PartitionExec", Q+"physical_plan/partition.rs")])
p("Q13", "Limiting and ordering of groups keeps whole rows",
  "Limiting the number of groups keeps only whole original rows, in order; no value of a limited column is kept in more rows than the limit, a row is dropped only if one of its values occurs more often than the limit, and with no limited column nothing changes. Ordering by average sorts rows by the mean of their value columns (a missing value counts as 0), highest first, and loses or changes none.",
  ["inputs"], "all tables, limits and groupings",
  "One golden table.",
  [Q+"physical_plan/limit_groups.rs", Q+"physical_plan/aggregate_and_sort_columns.rs"], [("LimitGroupsExec", Q+"physical_plan/limit_groups.rs"), ("AggregateAndSortColumnsExec", Q+"physical_plan/aggregate_and_sort_columns.rs")])
p("Q14", "Dictionary-coded columns are decoded to the original strings",
  "Decoding replaces each code by the string it was created for in the same project, table and column, keeps nulls null, row order and all other columns unchanged, for every integer width of the code.",
  ["inputs"], "all columns, code widths, nulls and batches",
  "One golden table.",
  [Q+"physical_plan/dictionary_decode.rs"], [("DictionaryDecodeExec", Q+"physical_plan/dictionary_decode.rs")])

# ------------------------------------------------------------------ ingester
I = "src/ingester/src/"
p("I01", "A tracked event is stored exactly once, with the values sent",
  "Each accepted track request stores exactly one event with that name (plus at most one session-begin event), in the project of its token, with every property value sent, in a column of that property's type, the timestamp sent, and the user it names; properties not sent are null, and events of other requests are unchanged. A session-begin event says what its event says, and where the visit came from; the event's definition names every property it was sent with.",
  ["histories", "inputs"], "all sequences of track requests over projects, users, property types",
  "No ingester test can be built here; none covers sequences.",
  [I+"executor.rs", I+"destinations/local/track.rs"], [("Executor", I+"executor.rs"), ("local destination", I+"destinations/local/track.rs")])
p("I02", "Identifying a group updates that group record only",
  "After identify requests, each group has one current record holding for each property the last value sent for it, and the same group name always refers to the same record; other groups, other group types and other projects are unchanged.",
  ["histories", "inputs"], "all sequences of identify requests",
  "Not tested.",
  [I+"destinations/local/identify.rs", M+"groups.rs"], [("identify destination", I+"destinations/local/identify.rs")])
p("I03", "Bad ingestion requests are refused without effect",
  "A request with an unknown token, a malformed body, nobody it is about or a property that only the system sets is refused with a client error and stores nothing: no event, property, dictionary entry, group or session. A value that does not fit its property's type or range, and a group type more than there may be, are refused with a client error and leave no event, group record or session; no other request fails because of the content of its values.",
  ["inputs", "histories"], "all tokens and bodies",
  "Not tested.",
  [I+"sources/http", I+"executor.rs"], [("HTTP source", I+"sources/http"), ("error mapping", I+"error.rs")])
p("I04", "A session begins once per user and session window",
  "For each user, a session-begin event is stored exactly for those tracked events that find no open session, just before that event and at its time; other events extend the open session. A session is ended, with one session-end event, only after it has been idle for at least the project's session duration, and then by the next run of the cleaner.",
  ["histories"], "all event time sequences of several users and projects",
  "Not tested.",
  [I+"destinations/local/track.rs", M+"sessions.rs"], [("session handling", I+"destinations/local/track.rs")])

# ------------------------------------------------------------------ platform
L = "src/platform/src/"
p("P01", "Only genuine, unexpired tokens of the right kind authenticate",
  "A request is authenticated as an account only with an access token signed with the access key for that account and not expired; a tampered, expired, refresh or foreign-key token is refused, and refresh tokens are accepted only for refreshing. Logging in succeeds exactly with the account's current password.",
  ["inputs", "histories"], "all token mutations, claims, expiry times, passwords",
  "Not tested beyond one round trip.",
  [L+"auth/token.rs", L+"auth/password.rs", L+"auth/provider.rs", L+"context.rs"], [("make/parse tokens", L+"auth/token.rs"), ("password hashing", L+"auth/password.rs")])
p("P02", "An operation without permission is refused and has no effect",
  "Every operation of the platform on projects, accounts, organisations and their content is refused as forbidden to an actor whose roles do not grant its permission, and then changes nothing; an actor whose roles grant it is never refused for lack of permission.",
  ["inputs", "histories"], "all operations, all roles of the actor",
  "Tests run as an all-powerful actor.",
  [L+"context.rs", L], [("Context::check_*", L+"context.rs")])
p("P03", "Members of one organisation cannot reach another's projects",
  "An account acts only within organisations it belongs to: no operation reads or changes a project, or its content, of an organisation in which the account has no role, whatever ids it supplies.",
  ["inputs", "histories"], "all accounts, organisations and projects",
  "Tests have one organisation.",
  [L+"context.rs", L+"projects.rs"], [("check_project_permission", L+"context.rs")])
p("P04", "Values keep their meaning between JSON and the engine",
  "A JSON value in a request becomes the engine value it denotes and comes back as the same JSON value; result columns of every type are rendered as JSON values equal to their contents (numbers rounded to the documented digits), in order and in number; an unsupported JSON value is refused as a bad request and never crashes the server.",
  ["inputs"], "all JSON values, all column types, nulls",
  "Not tested.",
  [L+"lib.rs"], [("json_value_to_scalar / scalar_to_json_value / array_ref_to_json_values", L+"lib.rs")])
p("P05", "API requests mean the same inside the engine",
  "Each request accepted by the HTTP API is translated into the internal request with the same events, filters, operators, times, units, segments, aggregates and breakdowns, in the same order, and translating a stored request back gives what was submitted.",
  ["inputs"], "all API requests",
  "Not tested.",
  [L+"lib.rs", L+"event_segmentation.rs", L+"funnel.rs"], [("Into mappings", L+"lib.rs")])
p("P06", "Errors reach the client under the right HTTP status",
  "Every failure is answered with the status of its kind: missing things 404, conflicts 409, bad input 400 with the offending fields, missing or wrong credentials 401, lack of permission 403, and only internal faults 500; the kind survives any number of wrappings.",
  ["inputs"], "all error kinds and nestings",
  "Not tested.",
  [L+"error.rs"], [("PlatformError::into_api_error", L+"error.rs")])
p("P07", "Filters in requests are validated against the property's type",
  "A filter is accepted exactly when its property exists and its operation and values fit the property's type and nullability; otherwise the request is refused as a bad request, never executed and never crashes.",
  ["inputs"], "all property types, operations and values",
  "Not tested.",
  [L+"lib.rs"], [("validate_event_property / validate_event_filter", L+"lib.rs")])

p("P08", "What is written through the API is what is read back",
  "For every kind of entity the API manages (events, custom events, event and group properties, groups, dashboards, reports, bookmarks, projects, organizations, accounts, the server's settings), each creation, update and deletion that is accepted is exactly what later reads and listings show, whole or partial, by id or by name, and nothing else changes; a refused one changes nothing.",
  ["histories"], "all sequences of accepted and refused requests on any entities",
  "Tests cover the metadata stores of single entities, not the API nor the conversions between the two.",
  [L+"lib.rs"], [("the providers of each kind", "src/platform/src"), ("the stores of each kind", "src/metadata/src")])

exec(open(os.path.join(ROOT, "bin", "claims.py")).read())

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
       "checks": [], "not_applicable": []}
if HOOKS: man["hooks"] = HOOKS
for i in ids:
    if i in CHECKS:
        t, l, n = CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "Not claimed yet: its monitor is still being built.")})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(man["checks"]), "claimed")
