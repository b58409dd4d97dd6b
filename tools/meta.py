#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

# checks that exist; the rest of the table goes under not_applicable
CLAIMED = "D01 D02 D03 D04 D05 D06 D07 D08 S01 S02 S03 I01 I02 I03 I04 W01 N01 V01 C01 C02 O01 H01 H02 H03".split()

SCHED = "stateless model checking of the real code: bounded-preemption enumeration of all schedules under a controlled scheduler"
HIST = "stateless model checking of the real code: exhaustive enumeration of operation histories against a reference model"
CRASH = "stateless model checking of the real code: exhaustive enumeration of crash points and surviving write prefixes over operation histories"
FAULT = "stateless model checking of the real code: exhaustive enumeration of fault placements over operation histories"
INPUT = "explicit-state enumeration: every input of a bounded structured space run through the real code against a reference model"

REAL = "The decision is made on the real code: src/ is compiled unchanged against a std look-alike, and run once per choice sequence."
SLED = "sled is replaced by a model (atomic map, prefix durability, fallible calls) inside executions; S01 and I01 replay histories on the real sled as well."
TIKV = "The TiKV client is replaced by a model (one linearizable map per cluster, fallible calls)."
BOUND = "Exhaustive within the bounds the evidence file lists, nothing beyond them."

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, hook=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state or [], hook=hook, observe=observe or []))


DB = ["src/db.rs", "src/chunk/chunk.rs"]

prop("D01", "Queries return exactly what was acknowledged",
     "After any sequence of single writes, batch writes, chunk roll-overs and restarts, a query returns, for each series whose labels include all of the selector's, each acknowledged sample in the inclusive time range exactly once, bit for bit, in time order, with the series' own labels, and nothing else. A single write outside the open window is refused without effect; a batch leaves out what is outside it; a repeated timestamp keeps the last acknowledged value.",
     ["histories", "inputs", "configurations"],
     "All operation sequences up to a depth, on each of the four pairs of backends; after each, all selectors over all ranges between, at and around stored timestamps.",
     "The db tests write a handful of points to one chunk and read them back once; none crosses a roll-over, a restart and a range boundary together, and none compares with a model.",
     DB + ["src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/common/utils.rs", "src/common/time_series.rs"],
     [("MonolithDb query/write", "src/db.rs"), ("Chunk insert/query", "src/chunk/chunk.rs"), ("range trimming", "src/storage")],
     HIST, REAL + " " + SLED + " " + TIKV + " " + BOUND,
     state=[("open chunk", "takes writes within its window", "src/db.rs"), ("closed chunks", "answer queries about their windows", "src/db.rs")],
     observe=["MonolithDb::write_time_point", "MonolithDb::write_time_points", "MonolithDb::query"])

prop("D02", "Roll-over loses, repeats and hides nothing under any schedule",
     "While the open chunk is closed and replaced, concurrent writes and queries behave as if the roll-over happened at one instant: a query sees every sample acknowledged before it started, never a sample twice or out of order, never loses one that an earlier query saw, and two queries never contradict each other about the order of writes. No thread blocks for ever or panics, each roll-over makes one new chunk, and writes go on afterwards. A call or timer that comes late delays a roll-over, but once it is over the open window contains the clock again.",
     ["schedules"],
     "Every schedule of the roll-over thread, its timer and two or three client threads within a preemption bound, started at the instant the roll-over is due, for windows' shared and own instants; and every placement of a late call or timer.",
     "No test runs a client concurrently with the roll-over; a test samples one schedule, and the windows of the race are a few instructions wide.",
     DB, [("swap of current and secondary chunks", "src/db.rs"), ("ticker and swap worker threads", "src/db.rs"), ("chunk RwLock", "src/chunk/chunk.rs")],
     SCHED, REAL + " Sequentially consistent memory is assumed. " + SLED + " " + BOUND,
     state=[("current_chunk", "the chunk that takes writes", "src/db.rs"), ("secondary_chunks", "closed chunks", "src/db.rs")],
     observe=["MonolithDb::query", "MonolithDb::write_time_point"])

prop("D03", "Writes and queries of one chunk are linearizable",
     "Under every schedule of concurrent writers, readers and the closing of a chunk, each operation takes effect at one instant between its call and its return: a query sees all samples acknowledged before it began, later queries see no less than earlier ones, and concurrent answers are ordered by inclusion. Each label set becomes one series, however many writers create it at once, and no operation deadlocks.",
     ["schedules"],
     "Every schedule of two or three threads with one to three operations each, within a preemption bound.",
     "The chunk tests are single-threaded.",
     ["src/chunk/chunk.rs", "src/common/utils.rs"], [("chunk lock", "src/chunk/chunk.rs"), ("series id allocation", "src/common/utils.rs")],
     SCHED, REAL + " Sequentially consistent memory is assumed. " + SLED + " " + TIKV + " " + BOUND,
     observe=["Chunk::insert", "Chunk::query"])

prop("D04", "A clean stop and start changes nothing",
     "When the process ends after the storage has had a second to flush, a database opened again on the same directory, also with another chunk size, answers every query as before, keeps its chunks and their windows, goes on rolling over, and takes writes within the open window. This holds for any number of restarts, at any time relative to roll-overs, also when the clock moved past several windows in between or was set back, and for acknowledged samples ahead of the clock.",
     ["histories", "configurations"],
     "All sequences of writes, waits (around the window's edges) and restarts up to a depth, on each pair of backends.",
     "One test opens an existing database once; none restarts around a roll-over, or more than once.",
     DB + ["src/common/metadata.rs", "src/common/utils.rs", "src/storage", "src/indexer"], [("open of existing chunks", "src/db.rs"), ("chunk metadata and directory names", "src/common/utils.rs"), ("read_from_chunk of the builders", "src/storage, src/indexer")],
     HIST, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["MonolithDb::new", "MonolithDb::query"])

prop("D05", "A crash at any point leaves a database that opens and is honest",
     "If the process dies at any point of any history, the database opens again, answers with samples that were acknowledged or being written, intact, each once, in order and under the right labels, has lost nothing acknowledged more than a second before the crash (backends flush twice a second), and takes writes as before.",
     ["crash_points", "histories"],
     "A crash before and between all file-system and backend operations of the histories, with every prefix of unflushed sled changes surviving and every subset of unsynced file-system changes the ordering model allows; also a second crash during the recovery.",
     "No test crashes anything; a crash point inside the creation of a chunk cannot be hit by a unit test.",
     DB + ["src/common/utils.rs", "src/storage", "src/indexer"], [("atomic metadata writes", "src/common/utils.rs, src/storage, src/indexer, src/chunk"), ("unfinished chunks skipped at start", "src/db.rs"), ("index flush before acknowledgement", "src/indexer")],
     CRASH, REAL + " A crash kills all threads of the process between two operations and then cuts unflushed changes. " + SLED + " " + BOUND, observe=["MonolithDb::new", "MonolithDb::query"])

prop("D06", "A database opens only with the backends it was made with",
     "Opening a directory with a storage or indexer other than the one its data was written with fails, without panicking and without changing anything on disk, and opening it with the right ones afterwards finds everything.",
     ["configurations", "histories"],
     "All 16 pairs of (made with, opened with), with and without data, before and after roll-overs, a crash before every change of the first life, and every placement of failing calls in any of the starts.",
     "No test opens a directory with other backends.",
     ["src/db.rs", "src/common/metadata.rs", "src/storage", "src/indexer"], [("metadata comparison at open", "src/db.rs"), ("type tags of storage and indexer metadata", "src/storage, src/indexer")],
     HIST, REAL + " " + BOUND, observe=["MonolithDb::new"])

prop("D07", "Failures of the backend are reported, not papered over",
     "When a call to the storage engine, the TiKV cluster or the file system fails, the write, query or start that needed it fails with an error, or has its full effect: no acknowledged sample is missing later, no query answers with less than what was acknowledged, a failed write is visible fully or not at all per sample, and the database keeps working, without panic or deadlock, once calls succeed again.",
     ["fault_sequences", "histories"],
     "Every placement of up to k failing calls over histories that register series, write, query, roll over and restart, on each pair of backends.",
     "Unit tests never see a failing backend.",
     DB + ["src/storage", "src/indexer", "src/backend/tikv.rs"], [("error propagation", "src/storage, src/indexer, src/chunk, src/db.rs")],
     FAULT, REAL + " A TiKV put may fail before or after taking effect. " + SLED + " " + TIKV + " " + BOUND, observe=["MonolithDb::query", "MonolithDb::write_time_point", "MonolithDb::write_time_points", "MonolithDb::new"])

prop("D08", "A closed chunk never changes",
     "Once a chunk is closed every write to it is refused and leaves no trace, and its answers are the same for ever; a write that races with the closing is either acknowledged and visible to all later queries, or refused and never visible. After the closing has returned nothing in its storage or index changes.",
     ["schedules", "histories"],
     "All schedules of the closing with two writers and a reader within a preemption bound, and all sequences of writes and closing.",
     "No test writes to a closed chunk.",
     ["src/chunk/chunk.rs"], [("closed flag checked under the chunk lock", "src/chunk/chunk.rs")],
     SCHED, REAL + " " + BOUND, observe=["Chunk::insert", "Chunk::close", "Chunk::query"])

prop("S01", "A storage returns exactly the samples of a series in the range asked for",
     "For any sequence of writes to a storage, reading a series in a closed time range returns exactly the samples written to that series in it, bit for bit and in time order, for every pair of boundaries, including none, reversed, equal, and extreme ones, also after the storage is opened again. Where a storage does not take samples out of order it refuses them with an error and without effect.",
     ["histories", "inputs"],
     "All sequences of writes over series x boundary timestamps up to a depth, all boundary pairs, all insertion orders of a set of timestamps.",
     "Tests write ascending points with small timestamps and read a few ranges.",
     ["src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/common/utils.rs"], [("encoding and trimming of series", "src/common/utils.rs"), ("ordered insertion", "src/storage/sled_storage.rs")],
     HIST, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["Storage::write_time_point", "Storage::read_time_series"])

prop("S02", "Backends are interchangeable",
     "Fed the same operations in the same order, with samples of each series in time order, databases on all four pairs of backends accept and refuse the same writes and give the same answers.",
     ["histories", "configurations"],
     "All histories of single and batch writes, roll-overs and restarts up to a depth, in step on all four pairs.",
     "Tests look at each backend alone, with their own inputs.",
     ["src/storage", "src/indexer", "src/chunk/chunk.rs", "src/db.rs"], [("the Storage and Indexer traits", "src/storage/common.rs, src/indexer/common.rs")],
     HIST, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["MonolithDb"])

prop("S03", "Chunks and databases that share a TiKV cluster do not mix",
     "Whatever chunks and databases use one TiKV cluster, also when they are created at the same time or opened again, each returns exactly its own series and samples.",
     ["histories", "schedules", "configurations"],
     "All histories of two databases on one cluster up to a depth, for all combinations that use TiKV twice; with one cluster and with one for each; all schedules of two chunks being created at once.",
     "Tests use one component on one dry-run cluster.",
     ["src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs", "src/backend/tikv.rs"], [("key prefixes with a unique component id", "src/storage/tikv_storage.rs, src/indexer/tikv_indexer.rs")],
     HIST + "; all schedules of concurrent creation", REAL + " " + TIKV + " " + BOUND, observe=["MonolithDb", "TiKvStorage", "TiKvIndexer"])

prop("I01", "Label selection is exact",
     "For any registered series and any selector, the index returns exactly the series whose labels include all of the selector's, once each, with their labels, and an exact match returns precisely the series with that label set; the order of labels does not matter, and unknown labels match nothing.",
     ["histories", "inputs"],
     "All sequences of distinct label sets over two and three names, ids across decimal and byte boundaries, every selector of the universe and beyond it.",
     "Tests register three or four series and ask two selectors.",
     ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/indexer/common.rs", "src/common/utils.rs"], [("inverted index and its intersection", "src/indexer, src/common/utils.rs")],
     HIST, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["Indexer::get_series_with_label_matching", "Indexer::get_series_id_by_labels", "Indexer::get_series_to_query"])

prop("I02", "Intersecting id lists gives exactly the common ids",
     "For any number of sorted id lists, in any order and of any lengths, the intersection returns exactly the ids present in all of them, sorted and without repeats, under every schedule of its worker threads, and always ends.",
     ["inputs", "schedules"],
     "All families of up to four subsets of a small universe, list lengths across batch boundaries, and all schedules of the workers within a preemption bound.",
     "Tests intersect four fixed lists under one schedule.",
     ["src/common/utils.rs", "src/common/mod.rs"], [("pairwise parallel intersection", "src/common/utils.rs")],
     INPUT + "; all schedules of its threads", REAL + " " + BOUND, observe=["intersect_time_series_id_vec"])

prop("I03", "Any label set is its own series",
     "Two label sets are the same series exactly if they hold the same name/value pairs, whatever characters names and values contain: separators, escapes, quotes, control and non-ASCII characters, or nothing at all. A series keeps its labels, unchanged, through the index.",
     ["inputs"],
     "Families of label sets whose names and values are all words over special characters up to a length, all registered in one index in two orders.",
     "Tests use letters and digits only.",
     ["src/common/label.rs", "src/common/utils.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], [("escaping of encoded labels", "src/common/utils.rs, src/common/label.rs")],
     INPUT, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["Indexer::create_index", "Indexer::get_series_id_by_labels"])

prop("I04", "A series is indexed completely before it is acknowledged",
     "When indexing a series is acknowledged, it is found by its whole label set and by each of its labels, then and after a crash. A crash or failure in the middle leaves it either found in all those ways, or taken not to be indexed, in which case indexing it again succeeds.",
     ["crash_points", "fault_sequences"],
     "A crash before every change with every surviving prefix, and every placement of up to k failing calls, while three series that share labels are indexed.",
     "No test crashes or fails a write of the index.",
     ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], [("the forward entry is written last; flush before return", "src/indexer")],
     CRASH + "; " + FAULT, REAL + " " + SLED + " " + TIKV + " " + BOUND, observe=["Indexer::create_index"])

prop("C01", "Compaction is lossless",
     "Any series of samples in time order, with any float values, comes back from compaction and decompaction bit for bit, whether compacted at once or sample by sample, including empty and one-sample series.",
     ["inputs"],
     "All sequences up to a depth over a lattice of timestamp steps at every width boundary of the encoding, crossed with values whose differences take every (leading, trailing) zero count; sequences of differences.",
     "Tests round-trip two hand-written series; the encoding's case splits meet at widths that none of them reaches.",
     ["src/compaction/gorilla.rs", "src/compaction/mod.rs"], [("delta-of-delta and xor encoding", "src/compaction/gorilla.rs"), ("bit stream", "src/compaction/mod.rs")],
     INPUT, REAL + " " + BOUND, observe=["Compactor", "Decompactor"])

prop("C02", "Uncompacted blocks round-trip, and blocks are never taken for another kind",
     "Samples stored without compaction come back bit for bit, and a block of one kind handed to the decompactor of another, or an empty one, is refused with an error instead of being misread.",
     ["inputs"],
     "All sequences up to a depth over boundary timestamps and values, both ways of writing, every type tag.",
     "No test uses the uncompacted form.",
     ["src/compaction/mod.rs"], [("type tag", "src/compaction/mod.rs")],
     INPUT, REAL + " " + BOUND, observe=["Compactor", "Decompactor"])

prop("W01", "The log holds every acknowledged entry, framed and in order",
     "Whatever the flush policy, whatever the underlying writer does (short writes, interruptions, errors), after a successful flush, which happens no later than the policy says, the log consists of its magic number and exactly the entries acknowledged so far, in order, each complete with id, type, length, content and checksum; closing adds the checksum of all of it. A failure of the writer is reported, and an entry that does not fit the format is refused.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of entries, flushes and closing up to a depth under every policy with limits around the sequence length, and every pattern of short, interrupted and failing writes within a bound.",
     "The one test writes one entry with one policy to a file.",
     ["src/wal/mod.rs", "src/wal/segment.rs"], [("Segment::write_entry/flush/close", "src/wal/segment.rs"), ("Entry::get_bytes", "src/wal/mod.rs")],
     HIST + ", with all fault placements", REAL + " " + BOUND, hook="the wal module is private: re-exported under cfg(monolith_verif)", observe=["the bytes handed to the underlying writer"])

prop("H01", "What is remote-written can be remote-read, exactly",
     "Samples within the open window that are sent with Prometheus remote write and answered with success are returned by remote read with matching equality matchers and range, bit for bit, in order, under their labels, once; each query of a read request is answered in its place; a write that the backends could not store is answered with an error. This holds however the request is framed, and whatever fields it has that the server does not know.",
     ["inputs", "histories"],
     "All sequences of requests up to a depth over a lattice of series, timestamps, values and ranges, on a real server over HTTP.",
     "The only server test is unimplemented and ignored.",
     ["src/server.rs", "src/common/label.rs", "src/common/time_series.rs", "src/proto"], [("request handling", "src/server.rs"), ("conversion between protobuf and internal types", "src/common")],
     INPUT, "The real server runs on real threads, the loopback network and the real sled; requests are built and answers are parsed by an encoder of the check's own. " + BOUND, observe=["HTTP"])

prop("H02", "No request can take the server down or be half understood",
     "Any request body, however malformed, truncated or corrupted, and any path and method, gets an HTTP answer; one that is not a well-formed request is answered with an error and has no effect, and the server goes on serving.",
     ["inputs", "fault_sequences"],
     "All truncations of and all single-byte changes to well-formed bodies, in and out of compression, bodies shorter than announced, other encodings, paths and methods.",
     "No test sends a request.",
     ["src/server.rs"], [("decoding of request bodies", "src/server.rs")],
     INPUT, "As for H01. " + BOUND, observe=["HTTP"])

prop("H03", "A read never returns a series that its matchers exclude",
     "Every series in the answer to a remote read satisfies all of the query's matchers, of whatever type; a query that cannot be answered so, or whose data cannot be read, is answered with an error, not with other or fewer series.",
     ["inputs"],
     "All combinations of up to two matchers over the four types, names and values including absent and empty ones; failing reads.",
     "No test sends matchers.",
     ["src/server.rs", "src/common/label.rs"], [("conversion of matchers", "src/common/label.rs, src/server.rs")],
     INPUT, "As for H01. " + BOUND, observe=["HTTP"])

prop("N01", "Chunk directories are named reversibly and foreign files are left alone",
     "The directory name of every chunk yields its window exactly, distinct windows give distinct names, and a name that is not a chunk's is never taken for one. Whatever else lies in the data directory is neither opened nor changed nor able to prevent a start.",
     ["inputs", "configurations"],
     "All windows over a lattice of boundary timestamps, all short names over a hostile alphabet, and all combinations of foreign entries in a data directory.",
     "One test converts one name.",
     ["src/common/utils.rs", "src/db.rs"], [("directory name encoding", "src/common/utils.rs"), ("scan of the data directory", "src/db.rs")],
     INPUT, REAL + " " + BOUND, observe=["get_chunk_dir_name", "decode_chunk_dir", "MonolithDb::new"])

prop("V01", "Equality, order and hash of labels and samples are lawful",
     "Equality of labels, label sets and samples is reflexive, symmetric and, for labels and label sets, transitive and consistent with hashing; label sets with different labels are never equal, comparing never panics, samples that are equal have the same timestamp and, up to rounding, value, and they are ordered by time.",
     ["inputs"],
     "All pairs and triples over label sets up to a size, and over samples with boundary timestamps and values.",
     "Tests compare two fixed values.",
     ["src/common/label.rs", "src/common/time_point.rs", "src/common/time_series.rs"], [("PartialEq, Ord and Hash implementations", "src/common")],
     INPUT, REAL + " " + BOUND, observe=["==", "cmp", "hash"])

prop("O01", "Options and configuration files do what they say, or are refused",
     "Every combination of command-line options yields exactly the options given, with defaults for the rest, or an error: ports outside 1024..65535 and numbers that are not numbers are refused, and nothing panics. The server program started with accepted options serves on that port, under those two paths and no others, with chunks of that length, and keeps storage and index each in the backend named; it serves what it kept when started again, and refuses a directory made with other backends; refused options end it with a failure and leave no files. A TiKV configuration file, under the documented key or the one in the code, leads to the cluster of the endpoints it names, all of them in order, or with `dry_run: true` to memory alone; a malformed or missing file is an error.",
     ["inputs", "configurations"],
     "All combinations of boundary values for every option; the server program with an orthogonal array of options (quick) or all combinations (thorough); a lattice of configuration files.",
     "No test parses options, starts the program, or gives it a TiKV configuration.",
     ["src/common/option.rs", "src/bin/monolith-server.rs", "src/backend/tikv.rs"], [("DbOpts and ServerOpts", "src/common/option.rs"), ("main", "src/bin/monolith-server.rs"), ("TiKvRawBackendSingleton::from_config_file", "src/backend/tikv.rs")],
     INPUT, REAL + " The program is the real one, built against the same stand-ins and started as a process of its own. " + TIKV + " " + BOUND, observe=["DbOpts::get_config", "ServerOpts::get_config", "monolith-server", "TiKvRawBackendSingleton"])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": p["hook"],
                },
            }, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
    m = {
        "version": 1,
        "setup_cmd": "./check.sh --build",
        "hooks": {
            "guard": "cfg(monolith_verif)",
            "enable": "RUSTFLAGS='--cfg monolith_verif' (set by check.sh)",
            "source_commits": hooks,
        },
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["tech"],
            "level": "model_checking",
            "level_note": p["note"],
        } for p in P if p["id"] in CLAIMED],
        "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in P if p["id"] not in CLAIMED],
        "notes": "See DESIGN.md. Known findings and repaired defects: known-findings.txt.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
