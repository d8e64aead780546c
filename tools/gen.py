#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json. CLAIMED lists the properties whose check exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/core/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, state=state or [], observe=observe or []))

HISTNOTE = ("Every history of writer operations over a small alphabet up to a stated depth is generated by a reference "
            "writer/model, and in every state the real reader is queried and compared. Trusts the harness's writer of the table "
            "format and the small alphabet (1 to 3 partitions, a few keys); says nothing about deeper histories.")

prop("C01", "A snapshot read returns exactly the latest committed rows",
  "For every table history of inserts, updates, deletes, partition overwrites and deletions, clustering, compaction, cleaning and archival, a snapshot read returns exactly the rows that are live after the latest completed commit: each row once, in its latest version, with the right meta fields. Reading the listed file slices one by one gives the same rows, and asking again on the same handle gives the same answer.",
  ["histories", "configurations"],
  "all sequences of writer operations up to the depth, copy-on-write and merge-on-read tables, partitioned, nested or not, hive style or not, both timestamp widths, Avro and Parquet log blocks",
  "The tests read a handful of prepared tables, each one fixed history; the number of combinations of replaced, compacted, clustered, cleaned and archived file groups is unbounded.",
  [C+"table/mod.rs", C+"table/fs_view.rs", C+"table/listing.rs", C+"file_group/mod.rs", C+"file_group/reader.rs", C+"timeline/mod.rs"],
  [("latest slice of every file group not replaced, read and merged with its log files", C+"table/mod.rs"), ("slices of a file group ordered by commit time", C+"file_group/mod.rs")],
  "explicit-state model checking of bounded writer histories, every state replayed on the real reader", "model_checking", HISTNOTE,
  observe=["Table::read_snapshot", "Table::get_file_slices", "FileGroupReader::read_file_slice"])

prop("C02", "Time travel returns exactly the rows live at that instant",
  "For every table history and every instant that cleaning has not put out of reach, reading as of that instant returns exactly the rows that were live after the last commit at or before it, and nothing that was committed later. The answer does not depend on what was asked on the handle before.",
  ["histories", "inputs"],
  "all sequences of writer operations up to the depth, times every instant: each commit, the moments just before and after it, before all and after all, asked in both orders on one handle",
  "The tests ask at a few instants of fixed tables; boundaries (just before, at, just after a commit) times the kind of commit at the boundary times the state of the cache are not covered.",
  [C+"table/mod.rs", C+"table/fs_view.rs", C+"file_group/mod.rs", C+"timeline/selector.rs", C+"file_group/log_file/scanner.rs"],
  [("file slices chosen by commit time, replaced groups as of the instant", C+"table/mod.rs"), ("log blocks filtered by instant", C+"file_group/log_file/scanner.rs")],
  "explicit-state model checking of bounded writer histories, every state queried at every instant", "model_checking", HISTNOTE,
  observe=["Table::read_snapshot_as_of", "Table::get_file_slices_as_of"])

prop("C03", "An incremental read returns exactly the changes of its interval",
  "For every table history and every pair of instants s and e, an incremental read over (s, e] returns exactly the rows inserted or updated by commits after s and up to e that are still live as of e, each once, in the state they had as of e; without e it reads up to the latest commit. An empty or reversed interval returns nothing.",
  ["histories", "inputs"],
  "all sequences of writer operations up to the depth, times all pairs of instants (each commit, just before and after it, outside)",
  "The tests cover a few ranges on a few tables; intervals that start or end between the parts of a chain of updates, compactions, clusterings and replacements are not covered.",
  [C+"table/mod.rs", C+"timeline/mod.rs", C+"timeline/selector.rs", C+"file_group/builder.rs", C+"file_group/reader.rs"],
  [("changed file groups collected from commit metadata", C+"timeline/mod.rs"), ("rows filtered by commit time", C+"file_group/reader.rs")],
  "explicit-state model checking of bounded writer histories, every state queried over every interval", "model_checking",
  HISTNOTE + " One listed finding: intervals covering a delta commit whose log files run ahead of a pending compaction.",
  observe=["Table::read_incremental_records"])

prop("C04", "Unfinished and failed writes are never visible",
  "At whatever point a write, compaction, clustering, cleaning, archival or rollback stops, readers go on seeing exactly the committed rows: none of its files, log blocks or instants changes what any snapshot, time travel or incremental read returns, and none makes a read fail. This stays true after later commits, after the rollback, and until a slow write completes, from when on its rows are visible.",
  ["crash_points", "histories"],
  "every prefix of the storage mutations of every kind of operation, at every position of every history up to the depth, including interrupted rollbacks, cleanings and archivals and writes that complete late",
  "No test interrupts a write; the fixtures contain hardly any pending instants or leftover files.",
  [C+"timeline/mod.rs", C+"timeline/selector.rs", C+"table/fs_view.rs", C+"table/listing.rs", C+"file_group/log_file/scanner.rs"],
  [("only completed instants are loaded", C+"timeline/selector.rs"), ("base files and log blocks of instants that did not complete are ignored", C+"table/listing.rs"), ("rollback blocks", C+"file_group/log_file/scanner.rs")],
  "exhaustive crash-point enumeration within bounded writer histories, every state replayed on the real reader", "fault_enumeration", HISTNOTE,
  observe=["Table::read_snapshot", "Table::read_snapshot_as_of", "Table::read_incremental_records"])

prop("C05", "Readers are isolated from concurrent writers",
  "While a writer commits, compacts, clusters, rolls back, cleans or archives, a reader that opens the table and reads at any interleaving with the writer's storage mutations gets the complete rows of one committed state: the one before or the one after the concurrent operation, never a mixture. A handle keeps answering with the state it was opened on, however many commits follow, as long as the cleaner has not removed files of that state.",
  ["schedules", "histories"],
  "all interleavings, up to the bound on deviations, of the reader's storage requests with the mutations of one or two writer operations, for every kind of operation",
  "No test runs a writer beside a reader; which listing, metadata and data requests fall before and after each mutation is a schedule.",
  [C+"table/mod.rs", C+"table/fs_view.rs", C+"timeline/mod.rs", C+"table/listing.rs"],
  [("the timeline is loaded once, when the handle is opened", C+"timeline/mod.rs"), ("file slices are chosen as of the handle's latest commit", C+"table/mod.rs")],
  "stateless model checking of the real reader against writer mutations, deviation-bounded", "model_checking",
  "All schedules with at most the stated number of deviations from program order, of an in-memory object store with atomic operations; rename-free commit protocol. A read may fail, but not be wrong, while the archiver deletes the instants it is about to load.",
  observe=["Table::new", "Table::read_snapshot"])

prop("C06", "Answers do not depend on the order in which storage requests complete",
  "The result of a query does not depend on the order in which its concurrent storage requests complete, on the order in which listings are returned, on the configured parallelism, or on which other queries run on the same handle at the same time. Every such execution terminates with the same rows.",
  ["schedules", "configurations"],
  "all completion orders up to the bound on deviations, for single queries and for pairs of concurrent queries on one handle, over listing parallelisms and both listing orders",
  "The tests run on local files where requests complete more or less in order; the shared cache of file groups is filled by whichever query comes first.",
  [C+"table/fs_view.rs", C+"table/listing.rs", C+"storage/mod.rs", C+"table/mod.rs", C+"file_group/reader.rs"],
  [("concurrent listing with bounded parallelism", C+"table/fs_view.rs"), ("shared map of partitions to file groups", C+"table/fs_view.rs")],
  "stateless model checking of the real code under a controlled I/O scheduler, deviation-bounded", "model_checking",
  "All schedules with at most the stated number of deviations on small tables (up to 3 partitions), one thread; data races within the concurrent map itself are out of scope.",
  observe=["Table::read_snapshot", "Table::get_file_slices", "Table::read_snapshot_as_of"])

prop("C07", "A storage fault yields an error or the exact answer, never a wrong one",
  "Whichever storage request of a query fails, or breaks off in the middle of its body, the query either reports an error or returns exactly the right answer: it never silently drops rows, panics or hangs. The same holds when a commit's metadata is cut short or malformed, or a base file lacks its end. Once storage works again, the same handle answers exactly right.",
  ["fault_sequences"],
  "every single fault (request error, broken body), and in the thorough tier every pair, at every storage request of opening, snapshot, time travel, incremental, schema and listing queries, each followed by a retry on the same handle; every commit's metadata cut at every bracket (thorough: byte) or with any one value of another type, every base file cut short",
  "The tests inject no faults; an error that is swallowed in one listing or cached half-way shows only when exactly that request fails.",
  [C+"storage/mod.rs", C+"storage/reader.rs", C+"table/fs_view.rs", C+"table/listing.rs", C+"table/builder.rs", C+"timeline/mod.rs", C+"file_group/reader.rs"],
  [("errors of storage requests are passed on", C+"storage/mod.rs"), ("the cache is filled only with complete file groups", C+"table/fs_view.rs")],
  "exhaustive injection of faults at every storage request of the real code, and of damage into every commit's metadata and base file", "fault_enumeration",
  "Faults are request errors and bodies that break off with an error; silently corrupted bodies are not modelled here except metadata and base files that are visibly incomplete or malformed; damage that makes another valid file is not detectable. A missing hoodie.properties or not-found answer that storage gives truthfully is not a fault.",
  observe=["all public queries of Table"])

prop("C08", "Partition filters keep exactly the partitions that can match",
  "A query with partition filters returns exactly the rows of the partitions whose values satisfy all the filters under the column's type and the operator (=, !=, <, <=, >, >=), whatever the partition columns, their number, order, types, style of path and encoding; without filters nothing is pruned. Filters on unknown columns or with values that are not of the column's type are rejected with an error, not ignored.",
  ["inputs", "configurations"],
  "all filters over the operators and boundary values, alone and in pairs, for one and two partition columns of each type, hive style or not, URL encoded or not, over every partition of a small domain; pruner, file listing and rows read",
  "The tests have some ten filters on two tables; operator, type, boundary, style and column position combine.",
  [C+"table/partition.rs", C+"expr/filter.rs", C+"expr/mod.rs", C+"table/mod.rs", C+"table/fs_view.rs"],
  [("parsing of partition paths into values", C+"table/partition.rs"), ("comparison kernels", C+"expr/filter.rs")],
  "exhaustive bounded enumeration of filters, partitions and configurations on the real code against a reference evaluator", "exploration",
  "Complete within the value domains stated in the evidence; timestamp-based key generators are out of scope.",
  observe=["Table::read_snapshot", "Table::get_file_slices", "PartitionPruner"])

prop("C09", "Merging keeps the right version of every record",
  "When the batches of a file slice are merged under overwrite-with-latest, the result has each record key exactly once, with the version that has the highest ordering value and, among equal ordering values, the latest commit (a null ordering value ranks lowest); under append-only every row is kept. The result does not depend on how rows are divided into batches or ordered within them, on the position of columns, or on the type of the ordering column.",
  ["inputs", "configurations"],
  "all assignments of a few versions (key, ordering value, commit) to batches and positions within the bound, over ordering column types, column orders and merge strategies",
  "The tests have a few hand-made batches; ties, late arrivals, nulls and the division into batches combine.",
  [C+"merge/record_merger.rs", C+"merge/mod.rs", C+"util/arrow.rs"],
  [("sort by ordering value and commit sequence, keep the first of every key", C+"merge/record_merger.rs")],
  "exhaustive bounded enumeration of record versions and their arrangement on the real merger against a reference merge", "exploration",
  "Complete within the bounds (up to 5 versions of up to 3 keys); rows equal in key, ordering value and sequence number are interchangeable.",
  observe=["RecordMerger::merge_record_batches", "Table::read_snapshot"])

prop("C10", "Log files yield exactly the committed blocks of the read window",
  "For any sequence of data and rollback blocks, divided among log files and write attempts in any way, reading a file slice yields the base rows merged with exactly those data blocks whose instant lies in the requested window, was not rolled back by a later block, and is committed. The order of log files is that of their version numbers, however many digits these have.",
  ["histories", "inputs"],
  "all sequences of blocks up to the bound over a few instants, all divisions into files, all windows, Avro and Parquet blocks",
  "The tests read a few prepared log files, one or two blocks each.",
  [C+"file_group/log_file/scanner.rs", C+"file_group/log_file/reader.rs", C+"file_group/log_file/mod.rs", C+"file_group/reader.rs"],
  [("scan of log files in version order with rollback targets removed", C+"file_group/log_file/scanner.rs"), ("instant range", C+"file_group/reader.rs")],
  "exhaustive enumeration of bounded block sequences, replayed on the real scanner against a reference model", "model_checking",
  "Complete up to the stated number of blocks; delete blocks and corrupt blocks are not supported by the code and out of scope here.",
  observe=["FileGroupReader::read_file_slice"])

prop("C11", "A damaged log file gives an error or the right rows, never garbage",
  "Reading a log file that was cut off at any byte, or in which any byte of the framing was changed, ends promptly with an error or with the rows of whole, undamaged blocks (each damaged block counts wholly or not at all): it does not panic, hang, exhaust memory, or return rows that no block contains.",
  ["inputs", "crash_points"],
  "every truncation point, and every single-byte change of the framing with a set of values, of log files with Avro, Parquet and rollback blocks",
  "The tests read intact files only.",
  [C+"file_group/log_file/reader.rs", C+"file_group/log_file/log_block.rs", C+"file_group/log_file/log_format.rs", C+"file_group/log_file/avro.rs"],
  [("magic, version, lengths and total size checked while reading", C+"file_group/log_file/reader.rs")],
  "exhaustive enumeration of truncation points and single-byte corruptions on the real reader", "fault_enumeration",
  "Payloads and header texts carry no checksum, so damage inside them is judged only for panics, hangs and memory, and not at all in Parquet payloads, whose decoder is a dependency.",
  observe=["FileGroupReader::read_file_slice"])

prop("C12", "Avro log records decode to exactly the values written",
  "Every value of every supported Avro type written to a log block, at any nesting of records, arrays and nullable unions, comes back as the same value of the corresponding column type, nulls as nulls, in the same row. Unsupported schemas (such as maps, decimals, general unions and references to named types) are rejected with an error or read right, never with a panic or wrong values.",
  ["inputs"],
  "all schemas of the type grammar up to the nesting bound, with all combinations of the boundary values of each type including null and empty",
  "The tests decode a few flat records.",
  [C+"avro_to_arrow/arrow_array_reader.rs", C+"avro_to_arrow/schema.rs", C+"avro_to_arrow/mod.rs", C+"file_group/log_file/avro.rs", C+"file_group/log_file/content.rs"],
  [("conversion of Avro values to columns", C+"avro_to_arrow/arrow_array_reader.rs")],
  "exhaustive bounded enumeration of schemas and values, decoded by the real code and compared with the values written", "exploration",
  "Complete within the grammar and value sets in the evidence; the encoder is the check's own.",
  observe=["FileGroupReader::read_file_slice"])

prop("C13", "Configuration is resolved by precedence and parsed or rejected",
  "For every option, the effective value is the one from the highest-ranking source that sets it: the table's own properties, then options given for the table, then options given generally, then environment and global defaults file, then the built-in default. When a table is opened, every value set is parsed to its type or the open is refused; it is never silently replaced by the default. Storage options and table options are never mixed up, and options given for a single reader take precedence over the table's.",
  ["configurations", "inputs"],
  "every subset of sources setting an option, for every option and kind of value, on an object store and on local files, and every line shape of properties files",
  "The tests check a few pairs of sources for a few options.",
  [C+"table/builder.rs", C+"config/mod.rs", C+"config/table.rs", C+"config/read.rs", C+"config/internal.rs", C+"config/util.rs"],
  [("layered resolution of options", C+"table/builder.rs"), ("parsers per option", C+"config/table.rs")],
  "exhaustive enumeration of source subsets, options and value shapes on the real builder and parsers", "exploration",
  "Complete within the value shapes listed in the evidence.",
  observe=["TableBuilder::build", "Table::hudi_options", "HudiConfigs"])

prop("C14", "File names and instants parse totally and round-trip",
  "Every well-formed base file, log file and instant file name is parsed into its parts, and printing the parts gives the name back; every other name is rejected with an error or skipped, without a panic. Log files and slices sort in the order in which they were written.",
  ["inputs"],
  "all names made of the grammar's pieces and of mutated pieces up to the bound (missing, doubled, empty, non-ASCII parts, digit counts)",
  "The tests parse some twenty names.",
  [C+"file_group/base_file.rs", C+"file_group/log_file/mod.rs", C+"timeline/instant.rs", C+"file_group/mod.rs", C+"file_group/file_slice.rs"],
  [("name parsers", C+"file_group/base_file.rs"), ("order of log files", C+"file_group/log_file/mod.rs")],
  "exhaustive bounded enumeration of names from a mutation grammar, on the real parsers", "exploration",
  "Complete within the grammar in the evidence.",
  observe=["BaseFile", "LogFile", "Instant"])

prop("C15", "Instants denote the right time in every time zone",
  "An instant's timestamp is interpreted in the table's configured timeline time zone, UTC or local, and never fails for a time that exists in that zone, including the hour that daylight saving repeats; instants of the same zone keep the order of their timestamps. Malformed timestamps and unknown time zone settings are rejected with an error.",
  ["inputs", "configurations"],
  "every half hour around both transitions of time zones with different rules, both digit widths, both settings, and every malformed shape",
  "The tests run in one time zone and far from transitions.",
  [C+"timeline/instant.rs", C+"timeline/selector.rs", C+"config/table.rs"],
  [("parsing of timestamps in the configured zone", C+"timeline/instant.rs")],
  "exhaustive bounded enumeration of timestamps, zones and settings, one process per zone, against a reference offset table", "exploration",
  "Complete for the listed zones and dates; offsets come from the C library's zone data.",
  observe=["Instant::parse_datetime", "Table::read_snapshot_as_of"])

prop("C16", "The timeline is exactly the completed instants, in order",
  "Whatever files the timeline folder contains, opening a table loads exactly the completed commits, delta commits and replace commits, each once, in ascending order of time, and ignores pending instants, other actions and unrelated files. Listings of commits by kind, ascending or descending, latest-commit and metadata queries agree with it.",
  ["inputs", "histories"],
  "all subsets of a set of timeline files (each action in each state at a few instants, and noise), in both listing orders",
  "The tests load a few fixed timelines.",
  [C+"timeline/mod.rs", C+"timeline/selector.rs", C+"timeline/instant.rs", C+"storage/mod.rs"],
  [("selection of completed instants by file name", C+"timeline/selector.rs")],
  "exhaustive enumeration of the contents of the timeline folder on the real code", "model_checking",
  "Complete for subsets of the listed files; archived timelines and version-8 layouts are not read by this code.",
  observe=["Timeline getters", "Table::get_timeline"])

prop("C17", "Replaced file groups disappear at their replacement, and only they",
  "From a replace commit on (overwrite, partition deletion, clustering), the file groups it replaced are absent from every listing and read, before it they are present, and no other file group is affected: not one of the same id in another partition, not one added later. This holds for listings by instant, by interval and for reads.",
  ["histories"],
  "all histories with every kind of replacement up to the depth, with file ids shared between partitions, nested partitions and unfinished replacements",
  "The tests have one table per kind of replacement.",
  [C+"timeline/mod.rs", C+"file_group/builder.rs", C+"file_group/mod.rs", C+"table/fs_view.rs"],
  [("replaced file groups collected from replace commits", C+"file_group/builder.rs"), ("identity of a file group: partition and id", C+"file_group/mod.rs")],
  "explicit-state model checking of bounded replacement histories, every state replayed on the real reader", "model_checking", HISTNOTE,
  observe=["Table::get_file_slices", "Table::get_file_slices_as_of", "Table::get_file_slices_between"])

prop("C18", "Splits divide the file slices completely and without overlap",
  "For every number of splits asked for, dividing a listing into splits returns every file slice of the listing in exactly one split, no empty split, at most the number asked for, and no split larger than an even share rounded up; zero is treated as one.",
  ["inputs", "histories"],
  "all tables up to the bound on file slices, all split counts from zero to beyond the number of slices and the largest integer, with and without filters and instants",
  "The tests ask for three split counts on small tables.",
  [C+"table/mod.rs"],
  [("chunking of the listed slices", C+"table/mod.rs")],
  "explicit-state model checking of bounded histories, every state split in every way", "model_checking", HISTNOTE,
  observe=["Table::get_file_slices_splits", "Table::get_file_slices_splits_as_of"])

prop("C19", "The schema reported is that of the latest completed commit",
  "After every history, the table schema, Avro schema and partition schema are those with which the latest completed commit wrote, whatever kind of commit it was: one that wrote no files, only log files, or was preceded or followed by unfinished writes. The partition schema lists the configured partition columns in their configured order.",
  ["histories", "configurations"],
  "all histories up to the depth in which every commit writes with a schema of its own, and all ordered choices of partition columns",
  "The tests read the schema of tables whose latest commit wrote base files.",
  [C+"timeline/mod.rs", C+"table/mod.rs", C+"storage/mod.rs"],
  [("schema taken from the latest commit's metadata or files", C+"timeline/mod.rs")],
  "explicit-state model checking of bounded histories with evolving schemas, every state replayed on the real code", "model_checking", HISTNOTE,
  observe=["Table::get_schema", "Table::get_avro_schema", "Table::get_partition_schema"])

prop("C20", "Read-optimized mode reads exactly the base files",
  "In read-optimized mode every read, latest, as of an instant or over an interval, returns exactly the rows of the base files of the slices concerned and ignores log files; on copy-on-write tables it makes no difference. The mode is a choice of the reader and does not affect other readers.",
  ["histories", "configurations"],
  "all merge-on-read histories up to the depth, including pending and failed compactions, times mode on and off, for snapshot, time travel and incremental reads",
  "The tests read one table in this mode.",
  [C+"file_group/reader.rs", C+"config/read.rs", C+"table/mod.rs"],
  [("log files skipped by the reader", C+"file_group/reader.rs")],
  "explicit-state model checking of bounded histories, every state read in both modes", "model_checking", HISTNOTE,
  observe=["Table::read_snapshot", "FileGroupReader::read_file_slice"])

prop("C24", "Listed file slices describe their files as they are",
  "Every file slice in a listing, of the latest state, as of an instant, over an interval or in splits, is that of a file group live there and names its partition, file group, creation instant, base file and log files as they are on storage: all log files written up to then, in the order in which they were written, and none of another slice. The sizes and the number of records it tells, and what storage tells of a file's metadata, schema and contents, are those of the base file as it is, however its rows are divided into row groups.",
  ["histories", "inputs"],
  "all histories up to the depth with files of one and several row groups, with and without rows, x every listing (latest, as of every commit, between all pairs of commits, splits), each slice compared with the files on storage; every base file's metadata, schema and contents",
  "The tests look at slices of a few tables whose files have one row group each.",
  [C+"file_group/file_slice.rs", C+"file_group/builder.rs", C+"table/fs_view.rs", C+"table/mod.rs", C+"storage/mod.rs", "python/src/internal.rs"],
  [("metadata loaded for the listed slices", C+"file_group/file_slice.rs"), ("metadata of a file", C+"storage/mod.rs")],
  "explicit-state model checking of bounded histories, every listing compared with the files on storage", "model_checking", HISTNOTE,
  observe=["Table::get_file_slices", "Table::get_file_slices_as_of", "Table::get_file_slices_between", "Table::get_file_slices_splits", "Storage::get_file_metadata"])

prop("C21", "Every path on storage is listed and read as it is named",
  "Files and folders are listed and read under exactly the names they have on storage, whatever characters the names contain and however deep they lie; listings are complete and contain nothing else, and hidden folders are left out only where documented. The same table gives the same rows wherever it lies and however its location is written.",
  ["inputs", "configurations"],
  "all folder and file names over an alphabet of special characters up to the bound, at each level, on local files and an object store; all ways to write the base location",
  "The tests use plain names.",
  [C+"storage/mod.rs", C+"storage/util.rs", C+"storage/file_metadata.rs", C+"table/listing.rs"],
  [("joining of url segments and object paths", C+"storage/util.rs")],
  "exhaustive bounded enumeration of names on the real storage layer", "exploration",
  "Complete within the alphabet and depth in the evidence.",
  observe=["Storage", "Table::read_snapshot"])

prop("C22", "A SQL query over a table gives the rows that plain filtering gives",
  "For every query with a projection, a filter and a limit through the SQL engine integration, the rows returned are those obtained by applying the query to the full snapshot, with any number of input partitions: pruning by partition or pushing a filter down never loses or adds a row, and no valid query fails because of it. When a storage request fails, the query fails or its answer is right.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all bounded histories of a small space with a few queries; on fixed tables of every partition type all filter expressions of a small grammar over partition and data columns (comparison with the literal on either side, IN, BETWEEN, AND, OR, NOT, IS NULL), all projections, limits, partition counts, engine settings; one fault at every storage request",
  "The tests run a few queries on a few tables.",
  ["crates/datafusion/src/lib.rs", "crates/datafusion/src/util/expr.rs"],
  [("translation of filters for pruning", "crates/datafusion/src/util/expr.rs"), ("scan over file slices", "crates/datafusion/src/lib.rs")],
  "exhaustive bounded enumeration of table histories, queries, engine settings and storage faults on the real integration, against the same query over rows in memory", "exploration",
  "On slices with log files the integration reads base files only: a listed known finding. Complete within the grammar in the evidence.",
  observe=["HudiDataSource"])

prop("C23", "The Python binding answers exactly as the Rust library does",
  "Every query of the Python binding, with any combination of its arguments, returns the same rows, slices and schema as the same query of the Rust library, and every failure of the library becomes a Python exception of the documented kind. Calls from several threads on one table object answer as single calls do.",
  ["inputs", "histories"],
  "all bounded histories of a small space written to local files, times all queries and argument combinations of the binding",
  "The Python tests run a few queries on two tables.",
  ["python/src/internal.rs", "python/hudi/__init__.py", "python/src/lib.rs"],
  [("conversion of arguments, results and errors", "python/src/internal.rs")],
  "exhaustive bounded enumeration of tables and calls, run through the binding and compared with the reference model", "exploration",
  "Complete for the listed tables and calls.",
  observe=["hudi.HudiTable", "hudi.HudiFileGroupReader"])

CLAIMED = open(os.path.join(HERE, "tools", "claimed.txt")).read().split()
NA = {"default": "The check for this property is being built."}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            anchors["state"] = p["state"]
        anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness drives the public API over an object store, a scheduler and a fault injector of its own. DESIGN.md describes each check."}
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                            "thorough_cmd": f"bash check.sh {p['id']} thorough",
                            "evidence_file": f"evidence/{p['id']}.json",
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], NA["default"])})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
