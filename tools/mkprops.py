#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

DB, CH = "src/db.rs", "src/chunk/chunk.rs"
SI, TI = "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"
SS, TS, SC = "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/storage/common.rs"

p("C01", "Acknowledged samples stay queryable",
  "A sample whose write was acknowledged, and whose timestamp lies inside the time range of the chunk that was open when it was written, is returned by every later query whose matchers its label set satisfies and whose time window contains it, with its exact timestamp and bit-exact value (the latest acknowledged one, if that timestamp was written more than once). This does not depend on what else was written, on the order in which timestamps arrive, on how many chunk rotations happened in between, or on whether other matching series have data in the window.",
  ["histories", "inputs", "configurations"],
  "every sequence of single and batch writes, queries and rotations, over every label set, timestamp, value and each storage/indexer backend pair",
  "The tests write a handful of ordered samples to one chunk and query once; no test goes through the database type at all, rotates a chunk, writes out of order, or queries a window that some matching series does not reach.",
  [DB, CH, SS, TS, SC, SI, TI],
  [("write to the open chunk, then query open chunk and rotated chunks and merge per label set", "src/db.rs MonolithDb::{write_time_points,query,swap}"),
   ("index lookup, id allocation, storage append", "src/chunk/chunk.rs Chunk::{insert,query}"),
   ("per-series value kept in timestamp order and trimmed by binary search", "src/storage/{sled_storage,tikv_storage,common}.rs")],
  [("open chunk", "the only chunk that takes writes", "MonolithDb.current_chuck"),
   ("rotated chunks", "read-only chunks ordered by start time", "MonolithDb.secondary_chunks")],
  ["MonolithDb::write_time_points / write_time_point / query"],
  "virtual clock (cfg monolith_verif) so that rotations happen when the model says so")

p("C02", "Queries return nothing that was not written",
  "Every sample a query returns was submitted earlier for exactly the label set it is returned under, with that timestamp and that bit-exact value, and was in range of the chunk open at that time; it lies inside the query window, and it is returned once. Samples are never moved between series, chunks or timestamps, and a value overwritten by a later acknowledged write of the same timestamp is not returned any more.",
  ["histories", "inputs", "configurations"],
  "every sequence of writes, rotations and queries, over every label set, timestamp, value and backend pair",
  "Existing tests look only for the samples they wrote (and compare values with an equality that accepts almost anything); none checks that a result holds nothing else.",
  [DB, CH, SS, TS, SC, SI, TI],
  [("series ids are unique inside a chunk and select the stored bytes", "src/common/mod.rs IdGenerator; src/chunk/chunk.rs Chunk::insert"),
   ("merge across chunks keyed by label set", "src/db.rs MonolithDb::query; src/common/label.rs Labels eq/hash"),
   ("fixed 16-byte sample encoding", "src/storage/sled_storage.rs KvStorageProcessor")],
  observe=["MonolithDb::query"], hook="virtual clock")

p("C03", "A query returns exactly the series that carry every matcher",
  "A query with one or more equality matchers returns precisely the series that have at least one sample in the window and whose label set contains all of the given name/value pairs; a pair no series carries makes the result empty. This holds for any number of matchers in any order, any number of series, and in every chunk, and intersecting any number of ascending id lists yields exactly the ids common to all of them.",
  ["inputs", "histories", "configurations"],
  "every set of series, every non-empty list of equality matchers (known and unknown, any length and order), both indexers, open and rotated chunks; every list of ascending id lists",
  "Tests query for labels that exist, with at most two matchers and three series; the intersection is tested only on nested prefix lists 1..n.",
  [SI, TI, "src/common/utils.rs", "src/common/mod.rs", CH, DB],
  [("reverse index from one label to the ascending ids", "create_index / get_series_id_contains_labels in both indexers"),
   ("divide-and-conquer intersection with threads", "src/common/utils.rs intersect_time_series_id_vec, src/common/mod.rs order_intersect")],
  observe=["MonolithDb::query", "Indexer::get_series_id_contains_labels", "utils::intersect_time_series_id_vec"])

p("C04", "A series is identified by its label set, and nothing else",
  "Two writes go to the same series if and only if they carry the same set of name/value pairs, whatever order the pairs are listed in; distinct label sets never share an identity, samples or a result row, and a query returns each series with exactly the pairs it was written with. This holds for every valid label name and every UTF-8 label value, including values that contain the characters the index uses internally.",
  ["inputs", "histories", "configurations"],
  "every pair of label sets with Prometheus-valid names and arbitrary non-empty UTF-8 values, in any order, both indexers, in one chunk and across chunks",
  "Tests use alphanumeric values and always list labels in one order; no test has two label sets whose encodings could coincide.",
  [SI, TI, "src/common/label.rs", DB],
  [("sorted textual encoding of the label set is the identity key; the same text is decoded for results", "src/indexer/sled_indexer.rs KvIndexerProcessor::{encode_labels,decode_labels,encode_label}"),
   ("key prefixes keep the three mappings apart", "LABEL_PREFIX, LABEL_REVERSE_PREFIX, ID_PREFIX"),
   ("label set equality and hash used to merge chunks", "src/common/label.rs")],
  observe=["MonolithDb::query", "Indexer::{create_index,get_series_id_by_labels,get_series_metadata_contains_labels}"])

p("C05", "Each series comes back once, in strictly increasing time order",
  "In the result of any query every label set appears at most once, with at least one sample, and its samples are in strictly increasing timestamp order, however many chunks they come from and in whatever order they were written.",
  ["histories", "inputs", "configurations"],
  "every history of in-order, out-of-order and repeated writes, rotations and restarts, every query",
  "No test queries across more than one chunk or writes anything out of order.",
  [DB, CH, SS, TS],
  [("chunks visited newest to oldest, samples merged per label set and put in order", "src/db.rs MonolithDb::query"),
   ("series kept sorted in storage", "write_time_point of both storages"),
   ("rotated chunks kept sorted by start time", "src/db.rs read_existing_chunk, swap; Ord for Chunk")],
  observe=["MonolithDb::query"], hook="virtual clock")

p("C06", "The query window is inclusive, and every window is answered",
  "For every start and end, a query considers exactly the samples with start <= timestamp <= end: samples on either boundary are included, gaps and windows before, between or after the data yield no samples, and a window whose start is after its end is answered with an empty result. No window makes a database query fail or crash; the storage level behaves alike, except that it may answer a window without samples with an out-of-range error instead of an empty series.",
  ["inputs", "histories", "configurations"],
  "every (start, end) pair of 64-bit timestamps against every stored series, both storages, open and rotated chunks",
  "The tests read with one or two windows that start on a sample and cover the series; boundaries between samples, empty and inverted windows are never tried.",
  [SC, SS, TS, CH, DB, "src/common/utils.rs"],
  [("binary search for both ends of the window", "src/storage/common.rs trim_time_series"),
   ("chunk selection by overlap", "src/common/utils.rs is_duration_overlap; Chunk::is_with_range")],
  observe=["MonolithDb::query", "Storage::read_time_series", "Storage::trim_time_series"])

p("C07", "A write stores its in-range samples, and only those, and says so truthfully",
  "A batch write stores every sample whose timestamp is non-zero and inside the open chunk's time range, both ends included, ignores the others without any effect on the rest, and reports success only if everything in range was stored; a single-sample write outside the range is refused with an error. Where a backend accepts only increasing timestamps (TiKV), a sample that is not newer than the series' last one is refused and reported, never silently dropped.",
  ["inputs", "histories", "configurations"],
  "every batch of samples before, on, inside and after the boundaries of the open chunk, in any order, at any point of any history, every backend pair",
  "Tests insert only samples well inside the range of one chunk and ignore most results.",
  [DB, CH, SS, TS],
  [("range filter", "src/db.rs write_time_points; src/chunk/chunk.rs is_in_range"),
   ("errors of the chunk and the storage are passed on", "Chunk::insert")],
  observe=["result of write_time_points / write_time_point, later queries"], hook="virtual clock")

p("C08", "Rotation is invisible to concurrent queries and writes",
  "While a chunk is being rotated, every concurrent query still returns each sample acknowledged before it started exactly once, and every concurrent write that is acknowledged is found exactly once afterwards. No interleaving of rotations, queries and writes loses, duplicates or misorders samples, or blocks forever.",
  ["schedules"],
  "every interleaving of queries, writes and rotations at the granularity of their backend accesses and lock acquisitions",
  "No test rotates a chunk, let alone while something else runs.",
  [DB, CH],
  [("open chunk and rotated list behind read/write locks; rotation moves one chunk between them", "src/db.rs MonolithDb::{swap,query,write_time_points}")],
  [("current_chuck, secondary_chunks", "the two places a chunk can be found", "src/db.rs")],
  ["call and return of query / write_time_points, backend accesses"],
  "virtual clock; scheduling points come from the stand-in TiKV client")

p("C09", "Concurrent writes and reads of the open chunk are linearizable",
  "Any concurrent set of writes and queries on the open chunk gives results that some one-at-a-time order of the individual sample writes and queries, consistent with real time, explains. In particular no acknowledged sample is lost to a concurrent write, concurrent first writes of one label set create one series, different label sets never share an id, and a query overlapping a write still returns everything acknowledged before it started.",
  ["schedules"],
  "every interleaving of 2-4 threads writing and querying the same and different series, at the granularity of backend accesses",
  "The one concurrent test has two threads writing disjoint series with no reader, and runs whatever schedule the machine picks.",
  [CH, DB, "src/common/mod.rs", SI, TI, SS, TS],
  [("per-chunk read/write lock around read-modify-write sequences", "src/chunk/chunk.rs Chunk::{insert,query}"),
   ("atomic id generator", "src/common/mod.rs IdGenerator")],
  observe=["call and return of Chunk/MonolithDb write and query"])

p("C10", "A restart preserves everything",
  "After the database is stopped with its data flushed and opened again on the same directory, any number of times, every query answers as before the stop, including for chunks rotated in any earlier run, for samples dated after the moment of the restart, and for both embedded and shared backends. Writes after a restart go to a new chunk and never alter what was there.",
  ["histories", "configurations", "inputs"],
  "every history with any number of rotations and restarts, every backend pair, with unrelated files and directories in the base directory",
  "No test opens a database twice.",
  [DB, CH, "src/common/utils.rs", SI, SS, TI, TS, "src/backend/tikv.rs"],
  [("chunk range encoded in the directory name", "src/common/utils.rs encode_chunk_dir/decode_chunk_dir"),
   ("scan of the base directory at start-up", "src/db.rs read_existing_chunk"),
   ("builders re-attach storage and indexer to a chunk directory", "Builder::read_from_chunk")],
  observe=["MonolithDb::new on an existing directory, then query"], hook="virtual clock")

p("C11", "A crash loses at most the unflushed tail and never prevents reopening",
  "If the process dies at any point, including in the middle of creating the database or a chunk, the database opens again on the same directory; everything acknowledged before the last flush is still returned, what each chunk still holds of a series is a prefix of what was written to that series in order, and every sample returned was really written. A series that was being created when the crash happened does not hide other series.",
  ["crash_points", "histories"],
  "every kill point in every history of writes and rotations, and every partial on-disk state that creating the database metadata or a chunk can leave",
  "No test kills the database or reopens it.",
  [DB, CH, SI, SS, "src/chunk/chunk.rs"],
  [("index flushed before the first sample of a series is written", "src/indexer/sled_indexer.rs create_index"),
   ("metadata files of database and chunk", "src/db.rs read_or_create_metadata; ChunkOpts::{write_config_to_dir,read_config_from_dir}"),
   ("empty series skipped by queries", "src/chunk/chunk.rs Chunk::query")],
  observe=["MonolithDb::new after SIGKILL, then query"])

p("C12", "A directory is only opened with the backends it was created with",
  "A directory created with one storage kind and one indexer kind can be opened again with that pair and is refused with any other pair, in any order of attempts; a refused attempt changes nothing in the directory.",
  ["histories", "configurations"],
  "every sequence of open attempts over all storage/indexer pairs on one directory",
  "One unit test covers one mismatch where both kinds differ, through a private function.",
  [DB, "src/common/metadata.rs"],
  [("type names recorded in the database metadata file and compared at start-up", "src/db.rs read_or_create_metadata")],
  observe=["MonolithDb::new result, directory listing"])

p("C13", "A backend failure is never reported as success",
  "If any access to the backend fails during a write, the write is reported as failed unless everything it covers is stored and findable; if any access fails during a query, the query reports an error rather than an incomplete result. A failure at any point leaves everything acknowledged earlier intact, and repeating the failed write of a sample once the backend works again makes that sample queryable, unless a newer sample of its series was stored meanwhile and the backend accepts only increasing timestamps.",
  ["fault_sequences", "histories"],
  "every placement of failing get and put operations in every history of writes, queries and retries on the shared backend",
  "The in-memory backend of the tests cannot fail.",
  [TI, TS, CH, DB, "src/server.rs"],
  [("results of backend calls propagated to the caller", "TiKvIndexer, TiKvStorage, Chunk::{insert,query}, MonolithDb::query"),
   ("the label-set mapping is written last, so that a half-made index entry is not taken for a complete one", "TiKvIndexer::create_index")],
  observe=["results of write_time_points and query under injected failures"],
  hook="stand-in TiKV client in the harness")

p("C14", "Components sharing a backend never mix and re-attach to their own data",
  "On one shared key-value backend, the storage and the indexer of every chunk and of every database own disjoint keys: no operation on one is ever visible through another. Re-attaching by chunk identifier after a restart yields exactly the component that was created for that chunk, in whichever order storage and indexer were created.",
  ["histories", "configurations", "inputs"],
  "every sequence of creating, using and re-attaching storages and indexers of several chunks and databases on one backend, in every order",
  "Tests build TiKV components by hand with fixed identifiers; assignment and re-attachment of identifiers is never tested.",
  ["src/backend/tikv.rs", TI, TS],
  [("identifier record per chunk holding indexer and storage identifiers", "src/backend/tikv.rs TiKvRawBackend::init_component"),
   ("identifier prefixed to every key", "TiKvIndexer::add_indexer_id, TiKvStorage"),
   ("re-attachment", "TiKv*Builder::read_from_chunk")],
  observe=["MonolithDb over a shared backend; Builder::{build,read_from_chunk}"],
  hook="stand-in TiKV client in the harness")

p("C15", "The remote-write and remote-read endpoints are faithful",
  "A well-formed remote-write request is answered with success only if every series in it was handled, and remote-read then returns, for each query of a request and in the order of the queries, exactly what the database holds for its matchers and its signed millisecond window, with label pairs, timestamps and values bit-exact. Windows that begin before the epoch are treated as beginning at the epoch, and the HTTP layer adds, drops or reorders nothing for any number of series, samples and queries.",
  ["inputs", "histories"],
  "every sequence of remote-write and remote-read requests with any number of series, samples, queries and matchers over HTTP",
  "The only server test is an ignored stub.",
  ["src/server.rs", "src/common/label.rs", "src/common/time_series.rs", "src/common/time_point.rs", "src/proto/types.rs", "src/proto/remote.rs"],
  [("decode, dispatch, encode", "src/server.rs _process, query, write"),
   ("conversions between wire and internal types", "From impls in src/common/{label,time_series,time_point}.rs")],
  observe=["HTTP responses"])

p("C16", "No request takes the server down",
  "Whatever bytes a client sends as method, path and body, the server answers that request or drops only that connection, stores nothing from a body it could not decode completely, and goes on serving later requests correctly. Non-empty bodies that cannot be decoded are answered with an error status and never with success.",
  ["inputs", "fault_sequences"],
  "every body (empty, not snappy, truncated, corrupt or foreign protobuf), path and method, mixed with valid requests in any order",
  "The only server test is an ignored stub.",
  ["src/server.rs"],
  [("decoding errors answered per request", "src/server.rs _process")],
  observe=["HTTP responses, liveness of the server"])

p("C17", "Compression is lossless",
  "Compressing any series with non-decreasing timestamps and decompressing the bytes yields the same timestamps and bit-exact values, for any length and any jumps between consecutive timestamps and values, with the Gorilla compactor and with no compression at all. The bytes follow the documented Gorilla layout, so that streams written earlier stay readable.",
  ["inputs"],
  "every sequence of (timestamp, value) pairs with non-decreasing 64-bit timestamps, all value bit patterns",
  "Six fixed series of at most five samples, compared up to a tolerance and an absolute value.",
  ["src/compaction/gorilla.rs", "src/compaction/mod.rs"],
  [("delta-of-delta classes and XOR windows", "GorillaCompactor / GorillaDecompactor"),
   ("bit stream append and read", "Bstream, BstreamSeeker")],
  observe=["Compactor::compact / get_bytes_vec, Decompactor::decompact"])

p("C18", "A log segment holds the accepted entries, framed, in order, once",
  "At every moment the bytes a write-ahead-log segment has handed to its file are the header followed by frames of a prefix of the accepted entries, in order and each once, and complete frames whenever a call has succeeded; immediate segments hold all of them, count- and size-based ones all up to the last time their limit was reached. This holds for entries of up to 65535 bytes and for files that take only part of a buffer at a time. A call whose bytes the file refuses (a full disk) is an error, and what was accepted up to and with that call is written, each byte once, by the next flush that succeeds. After flush or close nothing accepted is missing, and close appends a checksum of exactly the bytes between header and checksum.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of entries of any size, flushes and close under immediate, count-based and size-based policies with any limit, over a writer that may accept only part of a buffer, or refuse it for a while",
  "One test writes a single entry under the immediate policy.",
  ["src/wal/segment.rs", "src/wal/mod.rs"],
  [("flush policies and cache", "src/wal/segment.rs Segment::{write_entry,flush,close}"),
   ("framing", "src/wal/mod.rs Entry::get_bytes")],
  observe=["bytes received by the writer"],
  hook="the module is private; cfg monolith_verif re-exports it")

p("C19", "Rotation advances: chunks follow each other in time and closed chunks are frozen",
  "When the configured chunk duration has passed, a new chunk is opened whose range starts right after the moment of rotation and lasts exactly the configured duration, its directory name decodes to that range, and from then on writes go only to it. Chunk start times strictly increase along a run, and a chunk that was closed accepts no write and answers queries the same way ever after.",
  ["histories", "configurations", "schedules"],
  "every chunk duration and every sequence of rotations, writes and queries; every 64-bit start/end pair for the directory name",
  "Rotation is never triggered by a test; the directory name is tested for one pair.",
  [DB, CH, "src/common/utils.rs"],
  [("timer thread and swap thread", "src/db.rs MonolithDb::{new,swap}"),
   ("directory name codec", "src/common/utils.rs encode_chunk_dir/decode_chunk_dir"),
   ("closed flag", "src/chunk/chunk.rs Chunk::{close,insert}")],
  observe=["chunk directories, builder calls, query and write results"], hook="virtual clock")

p("C20", "The server that runs is the one the command line asked for",
  "Started with valid options, in any order and spelling the option parser allows, the server listens on the given port, answers remote reads and writes at the given paths and nowhere else, keeps its data under the given directory with the given kind of storage and of indexer (in the TiKV cluster only if a configuration file names one and does not ask for a dry run), rotates after the given number of seconds, and serves as many requests at a time as it was given workers. With options that mean nothing (an unknown backend, a port outside 1024..65535, a number that is not one, a TiKV configuration that is missing or cannot be read although a backend needs it) it ends with an error and leaves the directory as it was.",
  ["configurations", "inputs", "histories"],
  "every combination of values of the nine options, valid or not, and every sequence of starts, stops and requests with them",
  "The tests start the binary four times with default-like options and look at the metadata file; none sends it a request, uses another path, port or chunk size, reaches a TiKV cluster, or checks that wrong options are refused.",
  ["src/bin/monolith-server.rs", "src/common/option.rs", "src/backend/tikv.rs", "src/server.rs"],
  [("options to configuration", "src/common/option.rs DbOpts::get_config, ServerOpts::get_config"),
   ("choice of builders and backend", "src/bin/monolith-server.rs main"),
   ("configuration file of the cluster", "src/backend/tikv.rs TiKvRawBackendSingleton::from_config_file")],
  observe=["exit status", "HTTP responses", "chunk directories", "content of the cluster"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
