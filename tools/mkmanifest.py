#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over whole runs (simulated writer, storage, kernel, clock; real library) against reference models"
NOTE = {
 "C01": "Seeded search. Every storage state a random history reaches (crashed, pruned, littered with foreign names) is opened under several random listing orders with repeated names; all views must be equal in every public detail. Samples orders and histories, does not enumerate them.",
 "C02": "Seeded search over writer histories (crashes at any storage operation, resume, retry, cleanup, prune); the opened view is compared with an independent model of the chain rules (sim/src/model.rs), which is trusted. Names the model calls hazy (not writable by duplicity) are only checked for stability.",
 "C03": "Seeded search; every intact snapshot's entries are compared with the simulated source tree at the time of the run, under fragmented reads. Trusts the independent signature writers in sim/src/enc.rs. One known finding (PAX record with line feed) is excluded from generation and checked separately.",
 "C04": "Seeded search over which signature files survive (crash, retry, prune, loss, encryption); any returned listing must be the snapshot's own.",
 "C05": "Seeded search; manifests written by an independent encoder with arbitrary volume boundaries and path bytes, read under fragmentation and EINTR and with CR LF line ends, compared field by field; every path of the run is looked up.",
 "C06": "Seeded search over fault kind, place and file while signatures are opened and read; result must be an error or exactly right. Alterations of uncompressed files that leave a well-formed archive cannot be noticed and are excluded by the oracle.",
 "C07": "Seeded search over open/read faults and cut positions of manifests; result must be an error, exactly right, or (cut file) an exact leading part; manifests with whole lines lost, repeated or misplaced must give an error.",
 "C08": "Seeded search; after failed attempts the faults stop and the very next attempt must succeed with the right result, nothing else disturbed.",
 "C09": "Seeded search over corrupted bytes and hostile names, with faults; panics, aborts, processor-time and memory budgets and reads without progress are all detected (worker processes, counting allocator).",
 "C10": "Seeded schedules of many held results and half-advanced iterations over several open backups; every call must work and every held result stay the same.",
 "C11": "Seeded search; every open of a stored file is recorded by the simulated storage and compared with the files the call may open; storage changes between calls must not be visible.",
 "C12": "Seeded search over the real LocalBackend above interposed libc calls: directory order, errors in opendir/readdir/open/read, short reads, EINTR; writes are detected at the call. Trusts that std reaches the file system only through the interposed calls (a run in which it does not is detected as a missing open).",
 "C13": "Seeded search over clock jumps and zone changes between creating and printing times and listings; compared with an independent calendar (sim/src/model.rs). Zones are fixed rules given to the C library by TZ.",
 "C14": "Seeded search; snapshots seen at any time are remembered and compared with what later openings of the grown, crashed or pruned storage show.",
 "C15": "Seeded search over the writer's instants (leap days, year ends, changes of summer time), the reader's clock and zone changing between openings, and near-miss timestamps left by other programs; each text is parsed, and put into names that are opened, and every time reported after any history must stand in a name. Dates of the right form that do not exist (30 February) are not judged.",
 "C16": "Seeded search; signature chains of every stored history are loaded (also under faults) and several iterators over one chain are advanced in seeded interleavings of next, nth, len and standard adaptors, against a position counter; the same for the other public iterators (backup snapshots, chains, increments, entries and their clones, backend names) against what plain stepping yields (whose rightness C02 and C03 decide).",
 "C17": "Seeded search over real threads of which the simulator lets one run at a time: several backups of one or two storages are used in up to three threads, handed over between calls, and a call stops at a chosen read while calls of other threads (and steps of the writer) are made. A failure counts only if the same plan, with the failing backup alone in one thread and a fresh process, passes. Interleavings are at the storage's operations; instructions in between are not interleaved, and a call that waits for another one lets that one run on (then the order is the kernel's). One Backup cannot be used by two threads at once: the compiler rejects that.",
 "C18": "Seeded search over storage histories, clock and zone; every printed status is compared line by line (numbers, kinds, times, order; not the wording) with the model's chains and sets.",
 "C19": "Seeded search over fault kinds (11 OS error codes), places and storage states; judged only where exactly one cause exists: one file failed, and it is otherwise intact or its open was refused; or a needed file is missing and nothing failed. Error messages are not judged.",
 "C20": "Seeded search; every stream and directory opened by a call (simulated backend and interposed C library) must be closed when it returns, with at most eight open at once; calls are repeated under the same faults and the counting allocator's balance must not grow in every repetition.",
 "C21": "Seeded search over what is printed, the byte at which the output fails and whether it works again afterwards; the text that got out is compared with the text a working output gets.",
}
NA = [
]
m = {"version": 1, "setup_cmd": "./check.sh", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA],
     "notes": "No hooks in /repo: the seams are the Backend trait and the C library calls, which the simulator's binary defines itself. Every check rebuilds the simulator with the library from /repo's working tree. './check.sh ID' runs one check; 'sim/target/release/rsim replay FILE' replays a counterexample. Recorded defects: KNOWN_FINDINGS.txt."}
for p in NOTE:
    m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                        "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "exploration", "level_note": NOTE[p]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
