#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

COLL="src/collections/mod.rs"; FN="src/collections/file_naming.rs"; LIB="src/lib.rs"
SIG="src/signatures.rs"; MAN="src/manifest.rs"; LOC="src/backend/local.rs"; TF="src/timefmt.rs"; RP="src/rawpath.rs"

p("C01","Listing order never changes what a backup looks like",
  "For any fixed set of stored file names, opening the backup gives the same chains, snapshots, times, status flags, volume and manifest names and signature files, whatever order the storage lists the names in and whether or not a name is listed more than once. "
  "Directory order, paging and repeated entries are never visible to the user.",
  ["schedules","inputs"],"every ordering and every repetition of the names of every storage state reachable by backup, crash, retry, cleanup and prune histories",
  "The tests list three fixed directories, in the one order the file system happens to give; orders that put a manifest, a signature or a retried increment first are never seen.",
  [COLL,FN,LIB],[("grouping of file names into sets and chains",COLL),("file name classification",FN)],
  ["Backup::snapshots","Snapshots::as_collections","Collections::from_filenames"])
p("C02","Snapshots mirror the backup files present after any history",
  "After any history of finished, interrupted, resumed, retried, cleaned-up and pruned backup runs, opening the storage reports exactly the chains its file names imply: each full set starts a chain; increments follow it, linked by equal end and start times, a later retry of an increment taking the place of the earlier attempt; chains come in order of end time. The signature chains follow the same rules, oldest full signature first. "
  "Each snapshot has its own time and kind, as many volumes as distinct volume numbers stored, their file names by volume number and its manifest's name. It is complete exactly if it has a manifest, and compressed, encrypted or partial exactly if one of its files is so named; unrelated file names change nothing.",
  ["histories","crash_points","inputs"],"every sequence of backup runs with a crash after any storage operation, any set of files lost afterwards, and any unrelated names beside them",
  "Tests cover three intact directories with one volume per set; they never see interrupted runs, gaps, retried increments, several volumes or leftovers, and compare the library with itself.",
  [COLL,FN,LIB],[("set and chain construction",COLL),("snapshot iteration over chains",LIB)],
  ["Backup::snapshots","BackupSet accessors","BackupChain accessors"],
  [("volumes of a set","file name by volume number",COLL)])
p("C03","A snapshot lists exactly the files that were backed up",
  "For every snapshot whose signature files are all intact, the entries returned are exactly the files, directories, links and other nodes present in the source when that snapshot was taken, each path once and in path order (component by component). "
  "Path bytes, type, modification time, mode, owner and group ids (each with a name the chain records for it), link target and a size range that contains the true size within one signature block all agree with what was recorded, however long the chain is and however the bytes arrive.",
  ["histories","inputs","schedules"],"every history of source changes (create, modify, delete, replace a file by a directory and back) over chains of any length, with any fragmentation of the reads",
  "Tests check three small recorded chains of at most three snapshots; sibling names that sort differently as bytes and as paths, chains of hundreds of increments and fragmented streams are never exercised.",
  [SIG,RP,LIB],[("merge of each signature file into the per-path history",SIG),("selection of the newest version not after the snapshot",SIG)],
  ["Snapshot::entries","signatures::Chain::from_sigchain","signatures::Entry accessors"],
  [("per-path versions","path history indexed by snapshot number",SIG)])
p("C04","A snapshot never shows another snapshot's files",
  "Whatever subset of the stored signature files survives crashes, retries, pruning or loss, asking a snapshot for its entries gives the listing of that very snapshot or an error. "
  "If its own signature, or one it builds on, is missing or encrypted, the answer is an error: never the listing of a different snapshot, never an empty or partial listing, and never a panic.",
  ["crash_points","histories","fault_sequences"],"every storage state left by crashes during upload, retry or prune and by the loss of any signature files",
  "Every directory used by the tests has exactly one intact signature file per snapshot, so pairing by position is always right there.",
  [LIB,COLL,SIG],[("association of snapshots with signature files",LIB),("signature chain construction",COLL)],
  ["Snapshot::entries"])
p("C05","A manifest reads back exactly as the backup run wrote it",
  "For every finished backup run, the manifest of its snapshot gives the host name, source directory and, for each volume, the first and last path with block numbers, hash type and hash bytes that the run recorded, whatever bytes the paths contain and however the stream is fragmented or interrupted by EINTR, also if its line ends became CR LF in storage. "
  "For every path stored by the run, the first and last volume reported for it are the first and last volume that hold part of it, wherever the volume boundaries fell; a path outside every volume's range is reported in none.",
  ["histories","inputs","schedules"],"every source tree and every placement of volume boundaries among and inside the files of a run; every fragmentation of the manifest stream",
  "Two fixed manifests are parsed from local files and a handful of paths looked up; names ordering differently as bytes and as paths, names before '.', files spanning several volumes and quoted bytes are hardly touched.",
  [MAN,LIB,RP],[("manifest parser",MAN),("volume lookup",MAN)],
  ["Snapshot::manifest","Manifest accessors","Manifest::first_volume_of_path","Manifest::last_volume_of_path"])
p("C06","Faults while reading signatures give an error, never a wrong listing",
  "If opening or reading a signature file fails, is interrupted, ends early or delivers damaged compressed data at any point, asking for the entries either returns an error or returns exactly the entries that a fault-free read would give. "
  "The only exception is a stored uncompressed signature cut short, where what is returned is a correct leading part of the listing.",
  ["fault_sequences","crash_points","inputs"],"every placement of I/O errors, interruptions, stalls, short reads, early ends and flipped bits over every stored signature file",
  "No test injects an I/O error, truncation or corruption of any kind.",
  [SIG,LIB],[("reading of signature archives",SIG),("error propagation to entries()",LIB)],
  ["Snapshot::entries","signatures::Chain::from_sigchain"])
p("C07","Faults while reading a manifest give an error, never a wrong manifest",
  "If opening or reading a manifest fails at any point, asking for it returns an error or exactly the manifest that was written; EINTR is not noticed at all. "
  "If the stored manifest was cut short at any byte, the result is an error or a manifest whose host, directory and volumes are an exact leading part of what was written: no cut-off value is ever reported as a value. "
  "If whole lines were lost, repeated or misplaced, so that the volumes are no longer complete and numbered in sequence, the result is an error.",
  ["fault_sequences","crash_points"],"every placement of I/O errors and every cut point over every stored manifest",
  "No test injects an I/O error or reads a truncated manifest.",
  [MAN,LIB],[("line reader and keyword checks of the parser",MAN)],
  ["Snapshot::manifest","Manifest::parse"])
p("C08","A failed read leaves nothing behind and succeeds once faults stop",
  "After any number of failed attempts, the first fault-free attempt to get a snapshot's entries or manifest on the same open backup succeeds with exactly the right result, if the stored files are intact. "
  "A failed attempt is never remembered as a result, and never disturbs any other snapshot, result or later call.",
  ["fault_sequences","schedules","histories"],"every interleaving of failing and succeeding calls on one open backup",
  "Tests never make a call fail, so nothing after a failure is ever observed.",
  [LIB,SIG],[("caches filled only after a complete read",LIB)],
  ["Snapshot::entries","Snapshot::manifest"],[("per-chain and per-snapshot caches","loaded signatures and manifests",LIB)])
p("C09","No stored bytes or names can crash or hang the reader",
  "Whatever names the storage lists and whatever bytes its files hold, opening the backup, printing it, and reading and printing any snapshot's entries or manifest end with a result or an error. "
  "They never panic, abort, overflow, read a finite file for ever or use memory out of proportion to the data read.",
  ["inputs","fault_sequences"],"arbitrary damage by crashed writers, bit rot, truncation, splicing and foreign files to names and contents, on top of valid storage states",
  "Tests only read valid files produced by duplicity.",
  [COLL,FN,MAN,SIG,TF,LIB],[("checked parsing of names, manifests and signature headers",MAN)],
  ["Backup::new","Snapshot::entries","Snapshot::manifest","Display implementations"])
p("C10","Results may be held and calls interleaved freely on one backup",
  "Any number of entries, manifests, snapshot iterators and iterations over them may be alive at once, obtained in any order from one open backup, including several of the same snapshot or chain. "
  "No call fails, panics or blocks because another result is still held, and every held result keeps giving the same answer until it is dropped.",
  ["schedules","histories"],"every interleaving of calls, holds and drops by several cooperating users of one open backup",
  "Tests obtain one result at a time, or one per distinct snapshot.",
  [LIB],[("interior caches handing out shared references",LIB)],
  ["Snapshot::entries","Snapshot::manifest","SnapshotsIter"],[("interior caches","shared borrow state",LIB)])
p("C11","Files are read on demand, once, and the view stays fixed after opening",
  "Opening a backup and walking its snapshots opens no stored file. Entries open only the signature files of that snapshot's own chain, a manifest only its own file, each at most once over the life of the backup after a success; repeated calls open nothing. "
  "What later happens to the storage (new runs, deletion, damage) never changes the snapshots of an already open backup nor anything it has already read.",
  ["histories","schedules"],"every interleaving of storage changes by a concurrent backup, cleanup or prune with the calls of an open reader",
  "Tests read static directories and never count or observe file accesses.",
  [LIB,SIG],[("lazy per-chain and per-manifest caches",LIB)],
  ["Backend::open_file calls","Snapshot::entries","Snapshot::manifest"])
p("C12","The local directory backend is faithful and never writes",
  "For every directory, the local backend lists every entry's name exactly once in an opened listing or reports an error: if the operating system fails at any point of the listing, opening the backup fails rather than showing a backup with files missing. "
  "Opening a listed name streams exactly that file's bytes or reports the operating system's error; the directory is never written, created or removed from.",
  ["fault_sequences","schedules","inputs"],"every directory content, entry order and placement of failing, interrupted or short system calls",
  "Tests list one static directory with a healthy kernel.",
  [LOC,LIB],[("directory iteration and file opening",LOC)],
  ["LocalBackend::file_names","LocalBackend::open_file","Backup::new over LocalBackend"])
p("C13","Times print correctly whatever the clock and time zone do",
  "At any moment of any clock history (jumps in either direction, year ends) and in any time zone, a printed time shows month, day and time of day in the requested zone exactly when its year is the current one, and month, day and year otherwise; printing never alters the stored time. "
  "A printed listing has one row per entry with its type, permissions, owner, group, upper size, modification time in local zone and path (`.` for the root, `?` when not UTF-8).",
  ["schedules","histories","inputs"],"every clock value and zone at the moment of conversion and of printing, over every listing",
  "Tests use the machine's clock with two zones and one date; year boundaries and clock jumps are never reached, and listing output is only printed.",
  [TF,SIG,COLL],[("choice of format at print time",TF),("row rendering",SIG)],
  ["TimeDisplay","Display of SnapshotEntries"])
p("C14","Later storage activity never rewrites an earlier snapshot",
  "Reopening the backup after further full or incremental runs, interrupted runs, retries, or the removal of other chains gives for every snapshot still present with its signature files intact the same time, kind, manifest and entries as before. "
  "Which owner or group name goes with an id is the only thing a later run of the same chain may change.",
  ["histories","crash_points"],"every pair of moments in every history of the storage",
  "Tests only look at each directory at one moment.",
  [COLL,SIG,LIB],[("per-snapshot version selection",SIG),("chain construction",COLL)],
  ["Backup::snapshots","Snapshot::entries","Snapshot::manifest"])
p("C15","Times in file names denote one second, whatever the clock and zone",
  "Whenever a backup run began, and whatever the reader's clock and time zone are at the moment of opening, the timestamps in its file names (YYYYMMDDThhmmssZ, letters in either case) are read as exactly the UTC second they denote, so every time reported is one that stands in a name. "
  "Text of any other form in their place (other widths, separators, time zones, anything before or after) is no timestamp: parsing it gives none, and such a name is not taken for a backup file.",
  ["histories","inputs","schedules"],"every instant of the writer, every clock and zone of the reader at the moment of reading, and every text in the place of a timestamp",
  "Two strings are parsed by the tests, under one clock and zone.",
  [TF,FN],[("timestamp parser",TF),("timestamps of file names",FN)],["timefmt::parse_time_str","Collections::from_filenames","Snapshot::time"])
p("C16","Every iterator keeps the iterator contract",
  "The iterators over a backup's snapshots, its backup chains and signature chains, a chain's increments and signature files, the snapshots of a loaded signature chain, the entries of a snapshot and the names a backend lists yield each item once, in the order in which plain stepping yields it (a signature chain's snapshots: oldest first), and then stay at their end. "
  "The size hint, and for a signature chain the exact remaining length, never contradicts what is still to come; skipping, stepping over, counting, taking the last item or going on with a copy gives what stepping gives, also past the end; and several iterators over one thing, advanced in any interleaving, do not affect one another.",
  ["inputs","schedules","histories"],"every length of every collection reachable by any history, and every interleaving of next, nth, len, clone and adaptor calls over any number of iterators",
  "The tests step through three short backups and count; nothing skips, asks for a size hint or runs two iterators at once.",
  [SIG,LIB,COLL,LOC],[("Iterator and ExactSizeIterator implementations of signature chains and entries",SIG),("iteration over snapshots of all chains",LIB),("chain iterators",COLL),("directory names",LOC)],["signatures::Snapshots","signatures::SnapshotEntries","SnapshotsIter","collections::Collections","LocalBackend::file_names"])
p("C17","Backups are independent of one another and of the threads that use them",
  "A program may have any number of backups open, of the same or of different storages, use each of them in a thread of its own and hand one from thread to thread between calls. Whatever the other backups and threads do, before a call or in the middle of it, the call gives the result it gives in a program that uses only this backup: the same snapshots, entries, manifests and errors, with the same files of its own storage opened and no others; and nothing that was obtained from a backup changes through the use of another one.",
  ["schedules","histories"],"every number of backups and storages, every assignment of backups to threads and every interleaving of their calls at the storage's operations",
  "The tests open one backup at a time, in one thread.",
  [LIB,SIG,MAN,LOC],[("Backup and its caches",LIB),("signature chains",SIG),("manifest parser",MAN),("local backend",LOC)],["Backup","signatures::Chain","Manifest::parse","LocalBackend"])
p("C18","The printed status of a backup says what the storage holds",
  "After any storage history, and at any clock and in any time zone, printing an open backup's collections prints its chains in order, each with its start and end time, its number of sets, the total number of volumes stored, and then one row per set, oldest first, with the set's kind, time and number of volumes, as the set alone is printed. Printing a signature chain gives its times and the names of its files in order. Printing opens no file and changes nothing.",
  ["histories","inputs"],"every history of runs, crashes, retries, cleanups and prunes, with every clock and zone at the time of printing",
  "The only test of the printed status prints it without looking at the text.",
  [COLL],[("Display of Collections, BackupChain, BackupSet and SignatureChain",COLL)],["collections::Collections"])
p("C19","Errors say what the storage said",
  "When opening a backup or reading entries or a manifest fails because the storage refused something (a listing, an open or a read), the error handed to the user has the kind of the storage's own error, for a manifest as its I/O error. "
  "It is 'not found' when, and only when, something that is needed does not exist (a stored file, or the signature or manifest of that snapshot): damaged contents, forbidden files, or a failing storage are never reported as missing, and a missing file never as something else.",
  ["fault_sequences","histories"],"every kind of storage error at every operation of every call, in every storage state",
  "No test makes the storage fail, so no kind of error is ever looked at.",
  [LIB,SIG,MAN,LOC],[("propagation of errors from storage to entries() and manifest()",LIB),("errors while reading signature archives",SIG),("ParseError::Io",MAN)],["Backup::new","Snapshot::entries","Snapshot::manifest"])
p("C20","Nothing is left open and memory does not pile up",
  "Whether it succeeds or fails at any point, a call has closed every file and directory it opened when it returns, and however long a chain is, it has no more than a few open at any time. "
  "Opening, reading and dropping a backup again and again, or reading again and again from one that stays open, does not use more and more memory, also when each attempt fails.",
  ["fault_sequences","histories","schedules"],"every history of calls, with a failure at any operation of any of them, repeated any number of times",
  "Tests make a few successful calls and end; leaks and open files are never looked at.",
  [LIB,SIG,MAN,LOC],[("streams owned by the call that reads them",SIG),("caches",LIB),("clean-up after a failed load",SIG)],["Backend::open_file streams","allocator","open descriptors"])
p("C21","Printing reports an output that fails",
  "Whatever is printed (the collections, a chain, a set, a signature chain, a listing of entries, one entry, a time) into an output that fails or is full at any point, printing ends with an error, never with success and never with a panic. "
  "The output then holds exactly a leading part of the text that a working output gets, nothing is written after the failure, no file is opened, and printing again gives the whole text.",
  ["fault_sequences","inputs"],"every point at which the output of every printed text can fail",
  "Tests print into strings, which never fail.",
  [SIG,COLL,TF],[("Display of listings and entries",SIG),("Display of collections, chains and sets",COLL),("Display of times",TF)],["Display implementations","SnapshotEntries::into_display"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
