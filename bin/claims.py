HOOKS = {"guard": "cfg optiprism_verif", "enable": "mirror/storage/build.rs and mirror/query/build.rs emit cargo:rustc-cfg=optiprism_verif", "source_commits": ["c2bd12e8f2e1786a43e7f67ba48718e827acb052", "c5915aea956a9bae4f877717b51c6ba313f0ab52"]}
def claim(ids, technique, note, level="exploration"):
    for i in ids.split():
        CHECKS[i] = (technique, level, note)

claim("C01 C05 C09", "online oracle over exhaustive executions of the real mapping tables",
      "Every entry of the finite tables is executed on the real code and judged; exhaustive for the enumerations, sampled for decimal contents. Trusts the arrow2 type stand-in (same names as the fork).")
claim("C02 C03", "round-trip monitor (record, read back, compare) on seeded random values",
      "The real serialisers run on random and boundary values of every kind; a sample, not a proof.")
claim("C04", "three-case reference model monitor on random update documents and operation sequences",
      "Every decode path and conversion is executed against a model of absent/null/value.")
claim("C06 C07 C08 C10", "calendar oracle (independent integer calendar) over boundary-biased instants",
      "The oracle shares no code with chrono; instants are biased to unit boundaries, month ends and leap days.")
claim("C11", "differential monitor of request decoding and error answers under mutated bodies",
      "Oracle is the JSON library on the same bytes; trailing bytes after a complete value are not judged (framework behaviour).")
claim("C12", "event-log monitor around the real middleware (handler-side and client-side logs, recorded metrics)",
      "Compares the request seen by the handler and the answer seen by the client with what was sent, and the recorded metrics with the history.")
claim("C13", "label oracle over all query kinds and random names", "All query kinds and functions, random property names.")

claim("S01 S03 S04 S05 S06", "history monitor: random operation histories on the real store, every answer judged against a list-of-rows model",
      "The real store runs with its background threads paced by a hook; every scan, lookup, level layout and restored copy is compared with the model. A sample of histories; arrow2/parquet2 are stand-ins (files are not bit-compatible with the real ones).")
claim("S02", "crash-point injection: a child process dies before, inside and after every file system call, the parent reopens and judges",
      "Every crash point of every generated history is tried (process death; loss of unsynced pages on power failure is not modelled).")
claim("S07", "differential monitor of the two merges on generated files against a sorted multiset",
      "Random file layouts, schemas, key widths and limits; stand-in parquet encoding.")
claim("S08", "stress with injected system-call delays and an offline checker over the recorded histories of scans, lookups and backups",
      "Free-running threads with random delays; observes the interleavings that occur, no enumeration.")

claim("M01 M02 M03 M04 M05", "history monitor: random operations on the real metadata stores judged against a model, with injected storage failures, reopening, and concurrent rounds with injected delays",
      "The real stores run on a key-value stand-in with pessimistic locks like RocksDB's TransactionDB; every lookup and list is compared with the model after each step. A sample of histories and interleavings.")
claim("M06", "graph oracle over histories of creations, updates and deletions, and over the end states of concurrent ones",
      "After every step the stored graph is read back and judged for cycles, depth and equality with the accepted one.")
claim("M07", "model monitor of dictionary histories (map per project, table, column) and of concurrent first uses", "Random strings including empty, long and non-ASCII ones; reopening in between.")
claim("M08", "monitor comparing every live property with the schemas of the real event store after every creation, also concurrent ones", "Real storage underneath; random types, groups, projects and system flags.")

claim("Q01", "row-by-row oracle of random filters over whole installations queried through the providers",
      "Random metadata and rows of two projects (every type and dictionary width, nulls, custom events) are inserted, partly flushed and searched; the harness evaluates each filter on each plain value.")
claim("Q02", "recount oracle over random event segmentation requests on whole installations",
      "Every cell of the answer is recomputed from the raw rows (exact rational arithmetic, calendar computed by the harness); random events, filters, breakdowns, queries, groups, units and ranges.")
claim("Q03 Q04", "recount oracle over real physical plans (planned, repartitioned and executed by the query engine) on random tables",
      "Every number of every group is recomputed exactly (rational arithmetic) from the rows; random types, groupings, filters, partition counts and batch cuts.")
claim("Q05", "metamorphic monitor: real request plans re-run under other batch cuts, partition counts and batch sizes",
      "The rows scanned from a random store are handed to the planned request whole, row by row and in random cuts with empty batches; every answer is compared with the first.")
claim("Q08", "user-by-user recount oracle of random funnels, as operators over random batches and as requests on whole installations",
      "The harness follows every user's events through the steps in a few lines of plain code; random steps, orders, windows, counts, exclusions, constants, breakdowns, intervals, partitions and batch cuts.")
claim("Q10", "differential monitor: the answers of one project before and after writes to others with the same names and users",
      "Every kind of request is answered before and after random writes (events, records, properties, dictionaries) to a second project; the text of both answers is compared.")
claim("Q11", "record-by-record oracle of random searches, single records and value listings on whole installations",
      "The harness selects, sorts and shows the records it wrote itself and compares columns, values and order.")
claim("Q06 Q07 Q12 Q13 Q14", "reference-operator monitor on random tables fed whole, row by row and in random cuts",
      "Each operator is planned and executed by the real engine; the reference is a few lines over lists of rows. Random types, nulls, empty batches.")
claim("Q09", "user-by-user oracle of random condition trees over random histories of events, alone and inside aggregates",
      "The harness recomputes membership from each user's own rows; random counts, aggregates, ranges, and/or trees, batch cuts and partition counts.")

claim("I01 I02 I03", "history monitor: random request sequences sent through the real HTTP router of the ingester, every stored row and record judged against a model",
      "The router, executor, destinations, metadata and storage are the real ones (key-value store, web framework parts and geo/UA databases are stand-ins); restarts and concurrent requests in between. A sample of histories.")
claim("I04", "history monitor of session begins and ends with the real cleaner running, sequences and concurrent requests",
      "Wall-clock sessions of one to three seconds; begins, extensions and ends are judged by the times at which the harness saw them.")

claim("P01", "request monitor: genuine, expired, forged and mutated credentials sent through the real router, every answer judged against what was issued",
      "The real router, authentication and metadata; password hashing is a stand-in, tokens are real JWTs. Random mutations of tokens, keys, algorithms and claims; log-in histories of random accounts.")
claim("P02 P03", "authorisation oracle over every route and random worlds of organizations, members, roles and projects",
      "Every route is called by every kind of account; refusals are judged against a written permission table, and the key-value store is dumped before and after to see that a refusal had no effect.")
claim("P05", "round-trip monitor: random requests stored through the API and read back, and the request found inside compared with the one sent",
      "Reports and bookmarks carry random segmentation and funnel requests through both conversions; every part is compared with the one sent. Two known findings (or-groups of filters).")
claim("P04", "value-by-value oracle: random result columns through the renderer, random values through requests, custom events and back",
      "Columns of every type, length and nullness and values of every JSON form are judged against an exact conversion written in the harness.")
claim("P06", "fault-provoking monitor: every kind of failure and random requests sent through the real router, each answer judged by a table of kinds",
      "Errors of every kind are also wrapped any number of times and converted; random requests must never be answered as internal failures.")
claim("P07", "acceptance oracle: random filters in every kind of request, each answer judged by a table of types, operations and values",
      "Every kind of request that carries filters, properties of every type, encoding and nullability, right and wrong values.")
claim("P08", "history monitor: random creations, updates, deletions and readings through the real router against a model of what was written",
      "All kinds of entities in several projects and organizations; each answer, single reading and listing is compared with the model.")
