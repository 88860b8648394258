#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a):
    return subprocess.run(a, stdout=subprocess.PIPE, check=True).stdout.decode()
hooks = [l.split()[0] for l in sh("git", "-C", "/repo", "log", "--format=%H %s").splitlines() if l.split(" ", 1)[1].startswith("verif:")]
SEQ = "TLA+ model checked with TLC; recordings of the real database (TLC-generated and random call sequences) validated against the specification with TLC"
NOTE = {
 "seq": ("model_checking", SEQ,
   "The design (spec/MonolithImpl.tla) is checked exhaustively within small constants to refine the user's view (spec/Monolith.tla); the code is bound to that view by validating recordings of the real MonolithDb over all four backend pairs. Trusts TLC, the virtual clock hook and the stand-in TiKV client; says nothing about call sequences that were not generated."),
 "conc": ("model_checking", "TLA+ model checked with TLC; histories of the real database under schedules generated by TLC and at random, checked for linearizability against the specification with TLC",
   "The locking protocol (spec/ConcImpl.tla) is checked exhaustively for small programs (linearizable, nothing lost, no deadlock, termination); the real database is stepped from scheduling point to scheduling point along schedules of that model and random ones, and every history is checked against spec/TraceConc.tla. Trusts TLC, the scheduling hooks and sequential consistency between scheduling points; other schedules are not covered."),
 "crash": ("fault_enumeration", "TLA+ model checked with TLC; recordings of the real database under injected crashes and backend failures validated against the specification with TLC",
   "Recordings of the real database, killed at chosen changes to files or to the backend, made to fail at chosen backend accesses, restarted, or opened with other backends, are validated with TLC against spec/TraceMonolith.tla, which keeps every state the user may be in (a write in doubt is stored or not). Trusts TLC, the interposed libc calls, the hook in the sled wrapper and the stand-in TiKV client. A crash is the death of the process, not of the machine: the page cache survives."),
 "http": ("model_checking", "TLA+ model checked with TLC; recordings of the real HTTP server validated against the specification with TLC",
   "Requests built by an independent client (HTTP, protobuf, snappy) are sent to the real MonolithServer over loopback connections; every status and every decoded answer is validated with TLC against spec/TraceServer.tla, which extends the specification of the database by requests. Trusts TLC, the client and the stand-in TiKV client; says nothing about requests that were not generated or about more stalled clients than workers."),
 "pack": ("model_checking", "TLA+ model checked with TLC; compressed series of the real code validated against the specification with TLC, and series compressed by the specification read by the real code",
   "The layout of a compressed series (spec/Gorilla.tla) is shown to be lossless and to reject cut-off streams for all series over small words; the real compactor's bytes are read by that specification with 64-bit words, and the real decompactor reads bytes the specification wrote, with any of the codes it allows. Trusts TLC; says nothing about series that were not generated."),
 "wal": ("model_checking", "TLA+ model checked with TLC; byte streams of the real log segments validated against the specification with TLC",
   "How a segment keeps and writes frames (spec/WalModel.tla) is checked exhaustively, over all ways a writer may take a buffer in parts, against the layout of the file (spec/Wal.tla, with both checksums defined there); the bytes real segments give to their writers, call by call, are validated against that layout for histories generated by TLC and at random. Trusts TLC; says nothing about histories that were not generated; time-based flushing does not exist in the code, and writers that fail are not covered."),
 "server": ("model_checking", "TLA+; recordings of the real server process, started with generated command lines, validated against the specification with TLC",
   "The program itself (src/bin/monolith-server.rs, linked with the stand-in TiKV client) is started with valid and invalid options, restarted, rotated by the real clock and sent requests; starts, exits, responses, chunk directories and the use of the cluster are validated with TLC against spec/CommandLine.tla and spec/TraceServer.tla. Trusts TLC, the client and the stand-in TiKV client; says nothing about options that were not generated."),
}
CHECKS = {}
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19"):
    CHECKS[i] = NOTE["seq"]
for i in ("C08", "C09"):
    CHECKS[i] = NOTE["conc"]
for i in ("C10", "C11", "C12", "C13", "C14"):
    CHECKS[i] = NOTE["crash"]
for i in ("C15", "C16"):
    CHECKS[i] = NOTE["http"]
CHECKS["C17"] = NOTE["pack"]
CHECKS["C18"] = NOTE["wal"]
CHECKS["C20"] = NOTE["server"]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "cfg monolith_verif", "enable": "RUSTFLAGS='--cfg monolith_verif' (tools/lib.py build)", "source_commits": hooks},
     "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % p["id"],
                 "technique": CHECKS[p["id"]][1], "level": CHECKS[p["id"]][0], "level_note": CHECKS[p["id"]][2]}
                for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
